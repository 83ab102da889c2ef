package mc

import (
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/mc/shim/vrt"
)

type spec struct {
	Devs []vrt.Dev
}

// task asks a worker to execute specs and all their free descendants.
type task struct {
	Scenario int
	Level    int
	Specs    []spec
	Expand   bool // return the costly choice points of every execution
	Slice    time.Duration
	Log      bool
	Single   bool // execute only the given specs, no descendants
}

type parent struct {
	Devs []vrt.Dev
	From int32
	N    []uint8 // options of each costly choice position from From on (0: free)
}

type violation struct {
	Scenario string
	Key      string
	Msg      string
	Trace    string
	Devs     []vrt.Dev
	Log      []string
}

type result struct {
	Runs      int64
	Traces    int64
	Steps     int64
	States    []uint64
	Outcomes  []string
	Samples   []string
	Left      []spec
	Parents   []parent
	Viol      []violation
	Known     []violation
	Diverged  []string
	Nondet    []string
	MaxChoice int
}

type worker struct {
	check    *Check
	scs      []Scenario
	res      result
	states   map[uint64]struct{}
	outcomes map[string]struct{}
	knownS   map[string]bool
	known    func(string) bool
	salt     uint64
	mark     []byte
	lastRun  atomic.Int64
	nsample  int
	replays  int
}

const maxStates = 3_000_000

func (w *worker) addState(h uint64) {
	if _, ok := w.states[h]; ok || len(w.states) > maxStates {
		return
	}
	w.states[h] = struct{}{}
	w.res.States = append(w.res.States, h)
}

func (w *worker) addOutcome(s string) {
	if len(s) > 200 {
		s = s[:200]
	}
	if _, ok := w.outcomes[s]; ok || len(w.outcomes) > 20000 {
		return
	}
	w.outcomes[s] = struct{}{}
	w.res.Outcomes = append(w.res.Outcomes, s)
}

func (w *worker) sample(format string, a ...any) {
	if w.nsample < 3 {
		w.nsample++
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400]
		}
		w.res.Samples = append(w.res.Samples, s)
	}
}

func (w *worker) knownHit(sig, msg string) {
	if w.knownS[sig] {
		return
	}
	w.knownS[sig] = true
	i := strings.Index(sig, ":")
	w.res.Known = append(w.res.Known, violation{Scenario: sig[:i], Key: sig[i+1:], Msg: msg})
}

const hangLimit = 100 * time.Second

func (w *worker) watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		if t := w.lastRun.Load(); t != 0 && time.Now().UnixNano()-t > int64(hangLimit) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG: execution did not end within %v of real time\n%s\n", hangLimit, buf)
			os.Exit(3)
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err == nil {
			f := strings.Fields(string(b))
			if n, _ := strconv.Atoi(f[1]); n > (2600<<20)/4096 {
				buf := make([]byte, 1<<15)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "MEMORY: execution uses more than 2.6 GB\n%s\n", buf)
				os.Exit(4)
			}
		}
	}
}

func runWorker(check *Check, tier string, known func(string) bool, markFile string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	w := &worker{check: check, scs: check.Scenarios(tier), states: map[uint64]struct{}{}, outcomes: map[string]struct{}{}, knownS: map[string]bool{}, known: known}
	f, err := os.OpenFile(markFile, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f.Truncate(1 << 16)
	w.mark, err = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go w.watchdog()
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null // the code under test may print
	dec, enc := gob.NewDecoder(os.Stdin), gob.NewEncoder(out)
	for {
		var t task
		if err := dec.Decode(&t); err == io.EOF {
			os.Exit(0)
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(2)
		}
		w.res = result{}
		w.nsample = 0
		w.do(&t)
		if err := enc.Encode(&w.res); err != nil {
			os.Exit(2)
		}
	}
}

func (w *worker) setMark(sc int, devs []vrt.Dev) {
	s := fmt.Sprintf("%d %d", sc, len(devs))
	for _, d := range devs {
		s += fmt.Sprintf(" %d %d", d.Pos, d.Pick)
	}
	s += "\n"
	if len(s) < len(w.mark) {
		copy(w.mark, s)
	}
}

func readMark(file string) (sc int, devs []vrt.Dev, ok bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	i := strings.IndexByte(string(b), '\n')
	if i < 0 {
		return
	}
	f := strings.Fields(string(b[:i]))
	if len(f) < 2 {
		return
	}
	sc, _ = strconv.Atoi(f[0])
	n, _ := strconv.Atoi(f[1])
	if len(f) < 2+2*n {
		return
	}
	for k := 0; k < n; k++ {
		a, _ := strconv.Atoi(f[2+2*k])
		b, _ := strconv.Atoi(f[3+2*k])
		devs = append(devs, vrt.Dev{Pos: int32(a), Pick: int32(b)})
	}
	return sc, devs, true
}

func (w *worker) exec(sci int, devs []vrt.Dev, log bool) vrt.Result {
	sc := &w.scs[sci]
	w.setMark(sci, devs)
	w.lastRun.Store(time.Now().UnixNano())
	c := &C{w: w, sc: sc}
	r := vrt.Execute(vrt.Options{Devs: devs, MaxSteps: sc.MaxSteps, Quantum: sc.Quantum, Stmt: sc.Stmt, EarlyTimers: sc.EarlyTimers, Pure: sc.Pure, Log: log}, func() { sc.Body(c) })
	w.lastRun.Store(0)
	if r.Viol != nil && c.case_ != "" && !strings.HasPrefix(r.Viol.Msg, "case ") {
		r.Viol.Msg = "case " + c.case_ + ": " + r.Viol.Msg
	}
	return r
}

func (w *worker) do(t *task) {
	sc := &w.scs[t.Scenario]
	w.salt = HashStr(sc.Name)
	stack := append([]spec(nil), t.Specs...)
	// execute in the order given
	for i, j := 0, len(stack)-1; i < j; i, j = i+1, j-1 {
		stack[i], stack[j] = stack[j], stack[i]
	}
	start := time.Now()
	for len(stack) > 0 {
		if w.res.Runs > 0 && time.Since(start) > t.Slice && !t.Single {
			w.res.Left = stack
			return
		}
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		r := w.exec(t.Scenario, s.Devs, t.Log)
		w.res.Runs++
		w.res.Traces++
		w.res.Steps += int64(r.Steps)
		for _, h := range r.States {
			w.addState(h ^ w.salt)
		}
		if len(r.Choices) > w.res.MaxChoice {
			w.res.MaxChoice = len(r.Choices)
		}
		if r.Diverged != "" {
			w.res.Diverged = append(w.res.Diverged, r.Diverged)
			continue
		}
		// every so often prove that the execution is determined by its choices
		w.replays++
		if !sc.Pure && (w.replays <= 3 || w.replays%500 == 0) && !t.Single {
			r2 := w.exec(t.Scenario, s.Devs, false)
			if r2.Hash != r.Hash || len(r2.Choices) != len(r.Choices) {
				w.res.Nondet = append(w.res.Nondet, fmt.Sprint(s.Devs))
			}
		}
		if r.Viol != nil {
			sig := sc.Name + ":" + r.Viol.Key
			if w.known != nil && w.known(sig) {
				w.knownHit(sig, r.Viol.Msg)
			} else {
				w.res.Viol = append(w.res.Viol, violation{Scenario: sc.Name, Key: r.Viol.Key, Msg: r.Viol.Msg, Trace: r.Viol.Trace, Devs: s.Devs, Log: r.Log})
				if !t.Single {
					w.res.Left = stack
					return
				}
			}
		}
		if t.Single {
			continue
		}
		last := int32(-1)
		if n := len(s.Devs); n > 0 {
			last = s.Devs[n-1].Pos
		}
		// free descendants
		for p := int32(len(r.Choices)) - 1; p > last; p-- {
			ch := r.Choices[p]
			if ch.Cost {
				continue
			}
			for k := ch.N - 1; k >= 1; k-- {
				d := append(append(make([]vrt.Dev, 0, len(s.Devs)+1), s.Devs...), vrt.Dev{Pos: p, Pick: k})
				stack = append(stack, spec{d})
			}
		}
		if t.Expand {
			par := parent{Devs: s.Devs, From: last + 1}
			for p := last + 1; p < int32(len(r.Choices)); p++ {
				ch := r.Choices[p]
				n := uint8(0)
				if ch.Cost {
					n = uint8(min(int(ch.N), 255))
				}
				par.N = append(par.N, n)
			}
			w.res.Parents = append(w.res.Parents, par)
		}
	}
}
