// Package vrt is a cooperative, fully controlled scheduler with a virtual
// clock. Exactly one virtual thread runs at a time; every visible operation of
// the instrumented code calls into this package, which decides who runs next.
//
// The decision sequence of an execution is described by its deviations from
// the default schedule (run the current thread until it blocks, then the next
// one round robin), so a schedule is a short list of (position, pick) pairs.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Dev is one deviation: at choice number Pos take option Pick (default 0).
type Dev struct {
	Pos  int32
	Pick int32
}

// Choice records one choice point of an execution.
type Choice struct {
	N     int32
	Pick  int32
	Cost  bool // options other than the default cost one deviation
	Hash  uint64
	Quiet bool
}

// Violation describes a failed execution.
type Violation struct {
	Key   string
	Msg   string
	Trace string
}

// Options configures an execution.
type Options struct {
	Devs        []Dev
	MaxSteps    int
	Quantum     int
	Stmt        bool
	EarlyTimers bool
	Pure        bool
	Log         bool
}

// Result summarises an execution.
type Result struct {
	Choices   []Choice
	Steps     int
	Hash      uint64
	States    []uint64
	Viol      *Violation
	Diverged  string
	Log       []string
	TimeTicks int64
}

// Thread is a virtual thread.
type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	exited chan struct{}
	ready  func() bool
	op     string
	obj    int
	idle   bool
	done   bool
	ran    int
}

type timer struct {
	when int64
	seq  int
	fire func()
	dead bool
}

type run struct {
	o        Options
	threads  []*Thread
	cur      *Thread
	now      int64
	timers   []*timer
	tseq     int
	steps    int
	choices  []Choice
	devIdx   int
	abort    bool
	finished chan struct{}
	viol     *Violation
	hash     uint64
	valHash  uint64
	objIDs   map[any]int
	objVals  map[int]uint64
	states   map[uint64]struct{}
	diverged string
	chans    map[uintptr]*chanState
	nochoice int
	log      []string
	cleanup  []func()
	threadCh map[string]int
	enbuf    []*Thread
}

var r *run

// Active reports whether a controlled execution is in progress.
func Active() bool { return r != nil && !r.o.Pure }

// StmtEnabled makes Stmt a scheduling point.
var stmtEnabled, dataEnabled bool

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Execute runs body as the driver thread of a new execution.
func Execute(o Options, body func()) (res Result) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	if o.Quantum == 0 {
		o.Quantum = 200
	}
	r = &run{o: o, finished: make(chan struct{}, 1)}
	rr := r
	if o.Pure {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopRun); !ok && rr.viol == nil {
						rr.viol = &Violation{Key: "panic", Msg: fmt.Sprint("panic: ", e), Trace: trimStack(string(debug.Stack()))}
					}
				}
			}()
			body()
		}()
		r = nil
		return Result{Choices: rr.choices, Hash: rr.hash, Viol: rr.viol, Diverged: rr.diverged, Log: rr.log}
	}
	r.objIDs = map[any]int{}
	r.objVals = map[int]uint64{}
	r.states = map[uint64]struct{}{}
	r.chans = map[uintptr]*chanState{}
	stmtEnabled, dataEnabled = o.Stmt, false
	t := newThread("driver", body)
	r.cur = t
	t.wake <- struct{}{}
	<-rr.finished
	// Tear down every remaining thread.
	rr.abort = true
	for i := 0; i < len(rr.threads); i++ {
		th := rr.threads[i]
		if th.done {
			continue
		}
		rr.cur = th
		th.wake <- struct{}{}
		<-th.exited
	}
	stmtEnabled, dataEnabled = false, false
	for _, f := range rr.cleanup {
		f()
	}
	r = nil
	states := make([]uint64, 0, len(rr.states))
	for s := range rr.states {
		states = append(states, s)
	}
	return Result{Choices: rr.choices, Steps: rr.steps, Hash: rr.hash, States: states, Viol: rr.viol, Diverged: rr.diverged, Log: rr.log, TimeTicks: rr.now}
}

type stopRun struct{}

// Fail records a violation and ends the execution.
func Fail(key, format string, a ...any) {
	if r == nil {
		panic(fmt.Sprintf("Fail outside run: "+format, a...))
	}
	if r.viol == nil {
		r.viol = &Violation{Key: key, Msg: fmt.Sprintf(format, a...)}
		if !r.o.Pure {
			r.viol.Trace = dumpThreads()
		}
	}
	if r.o.Pure {
		panic(stopRun{})
	}
	if r.abort {
		runtime.Goexit()
	}
	endRun()
}

// endRun terminates the execution from the current thread.
func endRun() {
	rr := r
	t := rr.cur
	t.op = "ended run"
	rr.finished <- struct{}{}
	<-t.wake
	runtime.Goexit()
}

// Failed reports whether a violation was recorded.
func Failed() bool { return r != nil && r.viol != nil }

// OnCleanup registers a function run after the execution has been torn down.
func OnCleanup(f func()) { r.cleanup = append(r.cleanup, f) }

// Logf adds a line to the execution log (kept only when logging is enabled).
func Logf(format string, a ...any) {
	if r != nil && r.o.Log {
		r.log = append(r.log, fmt.Sprintf("[%d %s] ", r.steps, curName())+fmt.Sprintf(format, a...))
	}
}

func curName() string {
	if r.cur != nil {
		return fmt.Sprintf("T%d %s", r.cur.id, r.cur.name)
	}
	return "-"
}

func newThread(name string, f func()) *Thread {
	t := &Thread{id: len(r.threads), name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1), op: "start"}
	rr := r
	rr.threads = append(rr.threads, t)
	go func() {
		<-t.wake
		defer func() {
			e := recover()
			if rr.abort {
				t.done = true
				t.exited <- struct{}{}
				return
			}
			t.done = true
			if e != nil {
				if rr.viol == nil {
					rr.viol = &Violation{Key: "panic", Msg: fmt.Sprintf("panic in %s: %v", t.name, e), Trace: trimStack(string(debug.Stack()))}
				}
				rr.finished <- struct{}{}
				return
			}
			if t.id == 0 {
				rr.finished <- struct{}{}
				return
			}
			if next := rr.pickNext(t); next != nil {
				rr.cur = next
				next.wake <- struct{}{}
			} else {
				rr.finished <- struct{}{}
			}
		}()
		if rr.abort {
			return
		}
		f()
	}()
	return t
}

// Go starts a virtual thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a virtual thread with a name.
func GoNamed(name string, f func()) {
	if r == nil || r.o.Pure {
		go f()
		return
	}
	checkAbort()
	if name == "" {
		_, file, line, _ := runtime.Caller(2)
		if i := strings.LastIndex(file, "/"); i >= 0 {
			file = file[i+1:]
		}
		name = fmt.Sprintf("go@%s:%d", file, line)
	}
	newThread(name, f)
	Point("go", nil)
}

func checkAbort() {
	if r.abort {
		runtime.Goexit()
	}
}

// ID returns a small deterministic identifier of an object.
func objID(o any) int {
	if o == nil {
		return 0
	}
	if id, ok := r.objIDs[o]; ok {
		return id
	}
	id := len(r.objIDs) + 1
	r.objIDs[o] = id
	return id
}

// SetState records the abstract value of an object for state fingerprints.
func SetState(o any, v uint64) {
	if r == nil || r.o.Pure || r.abort {
		return
	}
	id := objID(o)
	if old, ok := r.objVals[id]; ok {
		r.valHash ^= mix(uint64(id)*0x9e3779b97f4a7c15, old)
	}
	r.objVals[id] = v
	r.valHash ^= mix(uint64(id)*0x9e3779b97f4a7c15, v)
}

// Stmt is called before every statement of the instrumented code.
func Stmt() {
	if stmtEnabled {
		Point("stmt", nil)
	}
}

// Fetched is called between the reading and the writing of an assignment that
// updates a value in place.
func Fetched[T any](v T) T {
	Stmt()
	return v
}

// DataStmt is called before every statement of the data set packages.
func DataStmt() {
	if dataEnabled {
		Point("stmt", nil)
	}
}

// DataFetched is Fetched of the data set packages.
func DataFetched[T any](v T) T {
	DataStmt()
	return v
}

// SetDataStmt switches the points of DataStmt on or off.
func SetDataStmt(on bool) { dataEnabled = on && r != nil && !r.o.Pure }

// SetStmt switches statement level scheduling points on or off.
func SetStmt(on bool) { stmtEnabled = on && r != nil && !r.o.Pure }

// Point is a scheduling point before a visible operation.
func Point(op string, obj any) { BlockUntil(op, obj, nil) }

// BlockUntil is a scheduling point at which the thread is enabled only while
// cond holds; when it returns, cond holds and no other thread has run since.
func BlockUntil(op string, obj any, cond func() bool) {
	if r == nil || r.o.Pure {
		if cond != nil && !cond() {
			panic("vrt: blocking operation outside a controlled execution: " + op)
		}
		return
	}
	checkAbort()
	t := r.cur
	t.op, t.obj, t.ready = op, objID(obj), cond
	r.switchFrom(t)
	t.ready = nil
	t.op = "running"
}

func (rr *run) switchFrom(t *Thread) {
	next := rr.pickNext(t)
	if next == nil {
		rr.finished <- struct{}{}
		<-t.wake
		runtime.Goexit()
	}
	if next != t {
		rr.cur = next
		next.wake <- struct{}{}
		<-t.wake
		if rr.abort {
			runtime.Goexit()
		}
	}
}

// Idle blocks the calling thread until no other thread can run without the
// clock advancing.
func Idle() {
	if r == nil || r.o.Pure {
		return
	}
	checkAbort()
	t := r.cur
	t.op, t.obj, t.idle = "idle", 0, true
	r.switchFrom(t)
	t.idle = false
	t.op = "running"
}

func (rr *run) pickNext(t *Thread) *Thread {
	for {
		if rr.viol != nil {
			return nil
		}
		rr.steps++
		if rr.steps > rr.o.MaxSteps {
			rr.viol = &Violation{Key: "livelock", Msg: fmt.Sprintf("no end after %d steps at virtual time %v ms (livelock)", rr.steps, rr.now/1e6), Trace: dumpThreads()}
			return nil
		}
		en := rr.enbuf[:0]
		n := len(rr.threads)
		start := 0
		if t != nil {
			start = t.id
		}
		for i := 0; i < n; i++ {
			th := rr.threads[(start+i)%n]
			if th.done || th.idle {
				continue
			}
			if th.ready == nil || th.ready() {
				en = append(en, th)
			}
		}
		rr.enbuf = en
		if len(en) == 0 {
			if rr.dueTimer() {
				rr.fireNext()
				continue
			}
			var w *Thread
			for _, th := range rr.threads {
				if !th.done && th.idle {
					w = th
					break
				}
			}
			if w != nil {
				w.ran = 0
				rr.note(w)
				return w
			}
			if rr.fireNext() {
				continue
			}
			rr.viol = &Violation{Key: "deadlock", Msg: "deadlock: no thread can run", Trace: dumpThreads()}
			return nil
		}
		if t != nil && en[0] == t {
			t.ran++
			if t.ran > rr.o.Quantum && len(en) > 1 {
				// fairness: a thread that keeps running is moved to the back
				copy(en, en[1:])
				en[len(en)-1] = t
			}
		}
		opts := len(en)
		early := rr.o.EarlyTimers && rr.hasTimer()
		if early {
			opts++
		}
		pick := 0
		if opts > 1 && rr.nochoice == 0 {
			rr.states[rr.stateHash()] = struct{}{}
			pick = rr.choose(opts, true)
		}
		if pick == len(en) {
			rr.fireNext()
			continue
		}
		next := en[pick]
		if next != t {
			next.ran = 0
		}
		rr.note(next)
		return next
	}
}

func (rr *run) note(t *Thread) {
	rr.hash = mix(rr.hash, uint64(t.id)<<32^hashStr(t.op)^uint64(t.obj)<<40)
	if rr.o.Log && t.op != "stmt" {
		rr.log = append(rr.log, fmt.Sprintf("[%d] -> T%d %s %s #%d", rr.steps, t.id, t.name, t.op, t.obj))
	}
}

func (rr *run) stateHash() uint64 {
	h := mix(rr.valHash, uint64(rr.now))
	for _, t := range rr.threads {
		if t.done {
			continue
		}
		v := uint64(t.id)<<48 ^ hashStr(t.op) ^ uint64(t.obj)<<32
		if t.idle {
			v ^= 1
		}
		h = mix(h, v)
	}
	return h
}

func (rr *run) choose(n int, cost bool) int {
	pos := int32(len(rr.choices))
	pick := int32(0)
	for rr.devIdx < len(rr.o.Devs) && rr.o.Devs[rr.devIdx].Pos == pos {
		pick = rr.o.Devs[rr.devIdx].Pick
		rr.devIdx++
	}
	if int(pick) >= n {
		rr.diverged = fmt.Sprintf("choice %d has only %d options, replay wants option %d", pos, n, pick)
		pick = 0
	}
	rr.choices = append(rr.choices, Choice{N: int32(n), Pick: pick, Cost: cost, Hash: rr.hash})
	rr.hash = mix(rr.hash, uint64(n)<<8^uint64(pick))
	return int(pick)
}

// Choose is a free nondeterministic choice among n options.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r == nil {
		panic("vrt: Choose outside an execution")
	}
	if !r.o.Pure {
		checkAbort()
	}
	return r.choose(n, false)
}

// ChooseCost is a choice whose non-default options each cost one deviation.
func ChooseCost(n int) int {
	if n <= 1 || r == nil || r.nochoice > 0 {
		return 0
	}
	if !r.o.Pure {
		checkAbort()
	}
	return r.choose(n, true)
}

// NoChoice runs f without scheduling choice points (the default schedule is
// followed); used for set-up phases that are not under examination.
func NoChoice(f func()) {
	if r == nil || r.o.Pure {
		f()
		return
	}
	rr := r
	rr.nochoice++
	f()
	rr.nochoice--
}

// PauseChoices and ResumeChoices bracket phases like NoChoice.
func PauseChoices() { r.nochoice++ }

// ResumeChoices ends a phase started by PauseChoices.
func ResumeChoices() { r.nochoice-- }

// ---- time ----

// Epoch is the virtual wall clock at the start of an execution.
const Epoch = int64(1_650_000_000_000_000_000)

// Now returns the virtual time in nanoseconds since the start.
func Now() int64 {
	if r == nil {
		return 0
	}
	return r.now
}

// TimerHandle identifies a virtual timer.
type TimerHandle struct{ t *timer }

// AddTimer arms a timer; fire runs in scheduler context and must not block.
func AddTimer(d int64, fire func()) TimerHandle {
	if r == nil || r.o.Pure {
		return TimerHandle{&timer{dead: true}}
	}
	if d < 0 {
		d = 0
	}
	r.tseq++
	t := &timer{when: r.now + d, seq: r.tseq, fire: fire}
	r.timers = append(r.timers, t)
	return TimerHandle{t}
}

// StopTimer disarms a timer and reports whether it was armed.
func StopTimer(h TimerHandle) bool {
	if h.t == nil || h.t.dead {
		return false
	}
	h.t.dead = true
	return true
}

func (rr *run) hasTimer() bool {
	for _, t := range rr.timers {
		if !t.dead {
			return true
		}
	}
	return false
}

// dueTimer reports whether a timer is due without the clock advancing.
func (rr *run) dueTimer() bool {
	for _, t := range rr.timers {
		if !t.dead && t.when <= rr.now {
			return true
		}
	}
	return false
}

func (rr *run) fireNext() bool {
	live := rr.timers[:0]
	for _, t := range rr.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	rr.timers = live
	if len(live) == 0 {
		return false
	}
	sort.SliceStable(live, func(i, j int) bool {
		if live[i].when != live[j].when {
			return live[i].when < live[j].when
		}
		return live[i].seq < live[j].seq
	})
	t := live[0]
	t.dead = true
	if t.when > rr.now {
		rr.now = t.when
	}
	t.fire()
	return true
}

// Sleep suspends the calling thread for a virtual duration.
func Sleep(d int64) {
	if r == nil || r.o.Pure {
		return
	}
	checkAbort()
	fired := false
	AddTimer(d, func() { fired = true })
	BlockUntil("sleep", nil, func() bool { return fired })
}

// Steps returns the number of scheduling steps so far.
func Steps() int { return r.steps }

// CurrentThread returns an identifier of the running thread.
func CurrentThread() int {
	if r == nil || r.cur == nil {
		return -1
	}
	return r.cur.id
}

// LiveThreads returns the names of unfinished threads other than the caller.
func LiveThreads() []string {
	var s []string
	for _, t := range r.threads {
		if !t.done && t != r.cur {
			s = append(s, t.name+" "+t.op)
		}
	}
	return s
}

func dumpThreads() string {
	var b strings.Builder
	if r == nil {
		return ""
	}
	for _, t := range r.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&b, "T%d %s: %s #%d\n", t.id, t.name, t.op, t.obj)
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	b.WriteString(trimStack(string(buf)))
	return b.String()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if strings.Contains(l, "/shim/vrt/") || strings.Contains(l, "/runtime/") {
				continue
			}
			out = append(out, l)
		} else if strings.HasPrefix(l, "goroutine ") {
			out = append(out, l)
		}
	}
	if len(out) > 200 {
		out = out[:200]
	}
	return strings.Join(out, "\n")
}

// Aborting reports whether the execution is being torn down.
func Aborting() bool { return r == nil || r.abort }

// Yield gives other threads a chance to run before the caller continues.
func Yield() {
	if r == nil || r.o.Pure {
		return
	}
	checkAbort()
	r.cur.ran = r.o.Quantum
	Point("yield", nil)
}

// SpawnNow starts a thread from scheduler context (timer callbacks).
func SpawnNow(name string, f func()) { newThread(name, f) }

// IsStop reports whether a recovered value is the runtime's own unwinding.
func IsStop(e any) bool { _, ok := e.(stopRun); return ok }
