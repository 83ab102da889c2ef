package mc

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/shim/vrt"
)

type knownEntry struct {
	prop string
	re   *regexp.Regexp
	what string
}

// loadKnown reads the committed list of known findings:
//
//	known: property=<id> match=<regexp on scenario:key> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Lines starting with fixed: suppress nothing.
func loadKnown(path, prop string) ([]knownEntry, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownEntry
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(p) != 3 || !strings.HasPrefix(p[0], "property=") || !strings.HasPrefix(p[1], "match=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		if strings.TrimPrefix(p[0], "property=") != prop {
			continue
		}
		re, err := regexp.Compile("^(?:" + strings.TrimPrefix(p[1], "match=") + ")$")
		if err != nil {
			return nil, err
		}
		out = append(out, knownEntry{prop, re, p[2]})
	}
	return out, sc.Err()
}

func knownFunc(list []knownEntry) func(string) bool {
	return func(sig string) bool {
		for _, e := range list {
			if e.re.MatchString(sig) {
				return true
			}
		}
		return false
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"check error:"}, a...)...)
	os.Exit(2)
}

// Main is the entry point of a check binary.
func Main(checks []Check) {
	if len(os.Args) < 3 {
		fatal("usage: check|worker|replay ...")
	}
	// results must not depend on the zone of the machine, so it is not UTC
	time.Local = time.FixedZone("local", -(4*60+30)*60)
	find := func(id string) *Check {
		for i := range checks {
			if checks[i].ID == id {
				return &checks[i]
			}
		}
		fatal("unknown property", id)
		return nil
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	kf := filepath.Join(root, "known-findings.txt")
	if f := os.Getenv("VERIF_SURVEY"); f != "" {
		kf = f // development only: list every violation instead of stopping
	}
	switch os.Args[1] {
	case "worker": // worker ID tier markfile
		c := find(os.Args[2])
		k, err := loadKnown(kf, c.ID)
		if err != nil {
			fatal(err)
		}
		runWorker(c, os.Args[3], knownFunc(k), os.Args[4])
	case "check":
		c := find(os.Args[2])
		k, err := loadKnown(kf, c.ID)
		if err != nil {
			fatal(err)
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		co := &coord{check: c, tier: tier, root: root, known: k}
		os.Exit(co.run())
	case "replay":
		replay(find, root, os.Args[2])
	case "list":
		for _, c := range checks {
			for _, s := range c.Scenarios(os.Args[2]) {
				fmt.Println(c.ID, s.Name, "bound", s.Bound)
			}
		}
	default:
		fatal("unknown command", os.Args[1])
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *gob.Encoder
	dec    *gob.Decoder
	stderr *tail
	mark   string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type scen struct {
	Name      string  `json:"name"`
	Bound     int     `json:"bound"`
	Completed int     `json:"bound_completed"`
	Runs      int64   `json:"executions"`
	Complete  bool    `json:"complete"`
	MaxChoice int     `json:"longest_choice_sequence"`
	Secs      float64 `json:"secs"`
	parents   []parent
	next      []parent
	nextBytes int
}

type coord struct {
	check    *Check
	tier     string
	root     string
	known    []knownEntry
	dir      string
	mu       sync.Mutex
	states   map[uint64]struct{}
	stateCap bool
	outcomes map[string]struct{}
	samples  []string
	total    result
	scens    []*scen
	viols    []violation
	knownHit map[string]violation
	diverged []string
	nondet   []string
	seq      int
}

func (co *coord) spawn() (*proc, error) {
	co.mu.Lock()
	co.seq++
	mark := filepath.Join(co.dir, fmt.Sprintf("mark%d", co.seq))
	co.mu.Unlock()
	p := &proc{mark: mark, stderr: &tail{}}
	p.cmd = exec.Command(os.Args[0], "worker", co.check.ID, co.tier, mark)
	p.cmd.Env = append(os.Environ(), "GODEBUG=", "GOTRACEBACK=all")
	p.cmd.Stderr = p.stderr
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	p.enc, p.dec = gob.NewEncoder(p.in), gob.NewDecoder(bufio.NewReader(out))
	return p, nil
}

func (p *proc) do(t *task) (*result, error) {
	if err := p.enc.Encode(t); err != nil {
		return nil, err
	}
	var r result
	if err := p.dec.Decode(&r); err != nil {
		return nil, err
	}
	return &r, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func workers() int {
	if n, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS")); n > 0 {
		return n
	}
	return 8
}

func (co *coord) run() int {
	start := time.Now()
	budget := 160 * time.Second
	if co.tier == "thorough" {
		budget = 600 * time.Second
	}
	if n, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET_S"), 64); n > 0 {
		budget = time.Duration(n * float64(time.Second))
	}
	deadline := start.Add(budget)
	co.states, co.outcomes, co.knownHit = map[uint64]struct{}{}, map[string]struct{}{}, map[string]violation{}
	var err error
	os.MkdirAll(filepath.Join(co.root, ".build"), 0755)
	co.dir, err = os.MkdirTemp(filepath.Join(co.root, ".build"), "run-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(co.dir)
	scs := co.check.Scenarios(co.tier)
	only := os.Getenv("VERIF_SCENARIO")
	maxBound := 0
	for _, s := range scs {
		co.scens = append(co.scens, &scen{Name: s.Name, Bound: s.Bound, Completed: -1})
		maxBound = max(maxBound, s.Bound)
	}
	ps := make([]*proc, workers())
	for i := range ps {
		if ps[i], err = co.spawn(); err != nil {
			fatal(err)
		}
	}
	stop := false
	for level := 0; level <= maxBound && !stop; level++ {
		var todo []int
		share := 0.0
		for i, s := range scs {
			if only != "" && !strings.Contains(s.Name, only) {
				continue
			}
			if s.Bound >= level && co.scens[i].Completed == level-1 {
				todo = append(todo, i)
				share += shareOf(&s)
			}
		}
		for _, i := range todo {
			left := time.Until(deadline)
			sh := shareOf(&scs[i])
			limit := time.Now().Add(time.Duration(float64(left) * sh / share))
			share -= sh
			t0 := time.Now()
			ok := co.level(ps, scs, i, level, limit)
			co.scens[i].Secs += time.Since(t0).Seconds()
			if ok {
				co.scens[i].Completed = level
				co.scens[i].Complete = level == scs[i].Bound
			}
			if len(co.viols) > 0 {
				stop = true
				break
			}
		}
	}
	for _, p := range ps {
		if p != nil {
			p.kill()
		}
	}
	return co.report(start)
}

func shareOf(s *Scenario) float64 {
	if s.Share > 0 {
		return s.Share
	}
	return 1
}

// level explores all executions of a scenario with exactly level deviations.
func (co *coord) level(ps []*proc, scs []Scenario, sci, level int, limit time.Time) bool {
	st := co.scens[sci]
	if level > 0 {
		st.parents, st.next, st.nextBytes = st.next, nil, 0
		if st.parents == nil {
			return true
		}
	}
	expand := level < scs[sci].Bound
	// lazy generator of specs
	var pending []spec
	pi, pp, pk := 0, 0, 0
	rootDone := false
	gen := func(n int) []spec {
		var out []spec
		if level == 0 {
			if !rootDone {
				rootDone = true
				return []spec{{}}
			}
			return nil
		}
		for pi < len(st.parents) && len(out) < n {
			par := &st.parents[pi]
			if pp >= len(par.N) {
				pi++
				pp, pk = 0, 0
				continue
			}
			if pk+1 >= int(par.N[pp]) {
				pp++
				pk = 0
				continue
			}
			pk++
			d := append(append(make([]vrt.Dev, 0, len(par.Devs)+1), par.Devs...), vrt.Dev{Pos: par.From + int32(pp), Pick: int32(pk)})
			out = append(out, spec{d})
		}
		return out
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy, done, timeout := 0, false, false
	var wg sync.WaitGroup
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				mu.Lock()
				var batch []spec
				for {
					if done {
						mu.Unlock()
						return
					}
					if time.Now().After(limit) {
						if len(pending) > 0 || busy > 0 || len(gen(1)) > 0 {
							timeout = true
						}
						done = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					if len(pending) > 0 {
						n := max(1, len(pending)/(2*len(ps)))
						n = min(n, 64)
						// share the oldest (largest) subtrees first
						batch = append([]spec(nil), pending[:n]...)
						pending = pending[n:]
						break
					}
					if batch = gen(32); len(batch) > 0 {
						break
					}
					if busy == 0 {
						done = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					cond.Wait()
				}
				busy++
				mu.Unlock()
				slice := 300 * time.Millisecond
				if level == 0 {
					slice = 100 * time.Millisecond
				}
				r, err := ps[i].do(&task{Scenario: sci, Level: level, Specs: batch, Expand: expand, Slice: slice})
				if err != nil {
					v := co.crashed(ps[i], scs)
					np, e2 := co.spawn()
					if e2 != nil {
						fatal(e2)
					}
					ps[i] = np
					sig := v.Scenario + ":" + v.Key
					if knownFunc(co.known)(sig) {
						co.mu.Lock()
						co.knownHit[sig] = v
						co.mu.Unlock()
						timeout = true // the rest of the batch is lost
						r = &result{}
					} else {
						r = &result{Viol: []violation{v}}
					}
				}
				full := co.merge(st, r)
				mu.Lock()
				busy--
				pending = append(pending, r.Left...)
				if len(r.Viol) > 0 {
					done = true
				}
				if full {
					timeout = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	if timeout {
		st.next = nil
	}
	st.parents = nil
	return !timeout && len(co.viols) == 0
}

func (co *coord) merge(st *scen, r *result) (full bool) {
	co.mu.Lock()
	defer co.mu.Unlock()
	st.Runs += r.Runs
	st.MaxChoice = max(st.MaxChoice, r.MaxChoice)
	co.total.Runs += r.Runs
	co.total.Traces += r.Traces
	co.total.Steps += r.Steps
	for _, h := range r.States {
		if len(co.states) >= 8_000_000 {
			co.stateCap = true
			break
		}
		co.states[h] = struct{}{}
	}
	for _, o := range r.Outcomes {
		if len(co.outcomes) < 200000 {
			co.outcomes[o] = struct{}{}
		}
	}
	if len(co.samples) < 6 {
		co.samples = append(co.samples, r.Samples...)
	}
	for _, p := range r.Parents {
		st.nextBytes += len(p.N) + 64
		if st.nextBytes > 1<<30 {
			full = true
			break
		}
		st.next = append(st.next, p)
	}
	co.viols = append(co.viols, r.Viol...)
	for _, k := range r.Known {
		co.knownHit[k.Scenario+":"+k.Key] = k
	}
	co.diverged = append(co.diverged, r.Diverged...)
	co.nondet = append(co.nondet, r.Nondet...)
	return full
}

func (co *coord) crashed(p *proc, scs []Scenario) violation {
	p.in.Close()
	p.cmd.Wait()
	sc, devs, _ := readMark(p.mark)
	msg := p.stderr.String()
	key := "crash"
	if strings.HasPrefix(msg, "HANG") {
		key = "hang"
	}
	if strings.HasPrefix(msg, "MEMORY") || strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory") {
		key = "memory"
	}
	first := msg
	if i := strings.Index(first, "\n\n"); i > 0 {
		first = first[:i]
	}
	if len(first) > 500 {
		first = first[:500]
	}
	return violation{Scenario: scs[sc].Name, Key: key, Msg: "the process died: " + first, Trace: msg, Devs: devs}
}

// Replay is the stored form of a violation.
type Replay struct {
	Property   string
	Tier       string
	Scenario   string
	Key        string
	Message    string
	Deviations []vrt.Dev
	Reproduced string
	Trace      []string
	Log        []string
}

func (co *coord) confirm(v *violation, scs []Scenario) (int, int) {
	idx := -1
	for i := range scs {
		if scs[i].Name == v.Scenario {
			idx = i
		}
	}
	n, hit := 5, 0
	if v.Key == "hang" {
		n = 1
	}
	for i := 0; i < n; i++ {
		p, err := co.spawn()
		if err != nil {
			break
		}
		r, err := p.do(&task{Scenario: idx, Specs: []spec{{v.Devs}}, Single: true, Log: i == 0})
		if err != nil {
			p.in.Close()
			p.cmd.Wait()
			hit++
		} else {
			for _, x := range r.Viol {
				hit++
				if x.Log != nil {
					v.Log = x.Log
				}
				v.Trace = x.Trace
				break
			}
		}
		p.kill()
	}
	return hit, n
}

func (co *coord) report(start time.Time) int {
	scs := co.check.Scenarios(co.tier)
	code := 0
	var files []string
	evd := filepath.Join(co.root, "evidence")
	os.MkdirAll(evd, 0755)
	seen := map[string]bool{}
	real := 0
	for i := range co.viols {
		v := &co.viols[i]
		sig := v.Scenario + ":" + v.Key
		if seen[sig] || len(seen) >= 4 {
			continue
		}
		seen[sig] = true
		hit, n := co.confirm(v, scs)
		rep := Replay{Property: co.check.ID, Tier: co.tier, Scenario: v.Scenario, Key: v.Key, Message: v.Msg, Deviations: v.Devs, Reproduced: fmt.Sprintf("%d of %d", hit, n), Trace: strings.Split(v.Trace, "\n"), Log: v.Log}
		b, _ := json.MarshalIndent(rep, "", " ")
		name := filepath.Join(evd, fmt.Sprintf("%s-replay-%d.json", co.check.ID, len(seen)))
		os.WriteFile(name, b, 0644)
		fmt.Printf("%s scenario %s [%s] reproduced %d/%d: %s\n", co.check.ID, v.Scenario, v.Key, hit, n, v.Msg)
		if hit == 0 {
			fmt.Printf("not reproduced, not reported: %s\n", name)
			co.nondet = append(co.nondet, "unreproduced: "+sig)
			continue
		}
		real++
		files = append(files, name)
		code = 1
	}
	exhaustive := len(co.diverged) == 0 && len(co.nondet) == 0
	for _, s := range co.scens {
		exhaustive = exhaustive && s.Complete
	}
	var kf []string
	for sig, k := range co.knownHit {
		what := k.Msg
		for _, e := range co.known {
			if e.re.MatchString(sig) {
				what = e.what
				break
			}
		}
		if os.Getenv("VERIF_SURVEY") != "" {
			what = sig + " " + k.Msg
		}
		kf = append(kf, what)
	}
	sort.Strings(kf)
	last := ""
	for _, w := range kf {
		if w != last {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", co.check.ID, w)
		}
		last = w
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(co.samples) > 6 {
		co.samples = co.samples[:6]
	}
	if len(co.samples) == 0 {
		for _, s := range co.scens {
			co.samples = append(co.samples, fmt.Sprintf("scenario %s: %d executions, bound %d completed", s.Name, s.Runs, s.Completed))
		}
	}
	cov := map[string]any{
		"states": len(co.states), "transitions": co.total.Steps, "traces_validated_against_impl": co.total.Traces,
		"samples": co.samples, "exhaustive": exhaustive, "rule": co.check.Rule, "scenarios": co.scens,
		"distinct_outcomes": len(co.outcomes),
	}
	if len(co.diverged) > 0 {
		cov["diverged_replays"] = len(co.diverged)
		cov["diverged_sample"] = co.diverged[0]
	}
	if len(co.nondet) > 0 {
		cov["nondeterministic"] = len(co.nondet)
	}
	if co.stateCap {
		cov["state_counter_capped"] = true
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	ev := map[string]any{"property": co.check.ID, "tier": co.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": real}
	if len(co.check.Assumptions) > 0 {
		ev["assumptions"] = co.check.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evd, co.check.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
	for _, s := range co.scens {
		fmt.Printf("%s %-40s bound %d/%d executions %d complete %v %.1fs\n", co.check.ID, s.Name, s.Completed, s.Bound, s.Runs, s.Complete, s.Secs)
	}
	fmt.Printf("%s states %d transitions %d traces %d outcomes %d exhaustive %v nondet %d diverged %d wall %.1fs\n", co.check.ID, len(co.states), co.total.Steps, co.total.Traces, len(co.outcomes), exhaustive, len(co.nondet), len(co.diverged), time.Since(start).Seconds())
	for _, f := range files {
		fmt.Printf("VIOLATION property=%s replay=%s\n", co.check.ID, f)
	}
	return code
}

func replay(find func(string) *Check, root, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal(err)
	}
	c := find(rep.Property)
	w := &worker{check: c, scs: c.Scenarios(rep.Tier), states: map[uint64]struct{}{}, outcomes: map[string]struct{}{}, knownS: map[string]bool{}, mark: make([]byte, 1<<16)}
	for i := range w.scs {
		if w.scs[i].Name == rep.Scenario {
			r := w.exec(i, rep.Deviations, true)
			var out bytes.Buffer
			for _, l := range r.Log {
				fmt.Fprintln(&out, l)
			}
			os.Stdout.Write(out.Bytes())
			if r.Viol != nil {
				fmt.Printf("VIOLATED [%s] %s\n%s\n", r.Viol.Key, r.Viol.Msg, r.Viol.Trace)
				os.Exit(1)
			}
			fmt.Println("held")
			return
		}
	}
	fatal("no scenario", rep.Scenario)
}
