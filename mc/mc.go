// Package mc is the bounded model checker: it enumerates the choice tree of a
// scenario completely up to a deviation bound, in parallel worker processes
// that are isolated from each other, and reports what it covered.
package mc

import (
	"fmt"
	"hash/fnv"

	"verif.local/mc/shim/vrt"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name string
	Body func(c *C)
	// Pure scenarios make only free choices and run no controlled threads.
	Pure bool
	// Bound is the largest number of deviations from the default schedule.
	Bound       int
	MaxSteps    int
	Quantum     int
	Stmt        bool
	EarlyTimers bool
	// Lasso makes histories eventually periodic: of the steps announced with
	// Step the first Lasso are free, the last of them, for every possible
	// number, repeat from then on.
	Lasso int
	// Share is the relative share of the time budget (default 1).
	Share float64
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   func(tier string) []Scenario
}

// C is the context of one execution.
type C struct {
	w     *worker
	sc    *Scenario
	case_ string
	// choices made in the steps of a lasso, the current step and its position
	steps        [][]int
	period, step int
	at           int
}

// Choose makes a free choice among n options.
func (c *C) Choose(n int) int {
	if c.period == 0 {
		return vrt.Choose(n)
	}
	if c.step < c.sc.Lasso {
		v := vrt.Choose(n)
		c.steps[c.step] = append(c.steps[c.step], v)
		return v
	}
	s := c.steps[c.sc.Lasso-c.period+(c.step-c.sc.Lasso)%c.period]
	if c.at >= len(s) {
		return 0
	}
	c.at++
	return s[c.at-1] % n
}

// Step announces step k of a history.
func (c *C) Step(k int) {
	if c.sc.Lasso == 0 {
		return
	}
	if k == 0 {
		c.period = 0
		c.steps = make([][]int, c.sc.Lasso)
		c.period = 1 + vrt.Choose(c.sc.Lasso)
	}
	c.step, c.at = k, 0
}

// Fail records a violation. The key identifies the failing input or history
// independently of the schedule; it is what known findings refer to.
func (c *C) Fail(key, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if c.case_ != "" {
		m = "case " + c.case_ + ": " + m
	}
	if c.w.known != nil && c.w.known(c.sc.Name+":"+key) {
		c.w.knownHit(c.sc.Name+":"+key, m)
		if c.sc.Pure {
			return
		}
	}
	vrt.Fail(key, "%s", m)
}

// Case names the current case for messages and samples.
func (c *C) Case(format string, a ...any) { c.case_ = fmt.Sprintf(format, a...) }

// CaseStr names the current case.
func (c *C) CaseStr(s string) { c.case_ = s }

// State records a distinct abstract state reached by this execution.
func (c *C) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	c.w.addState(h.Sum64() ^ c.w.salt)
}

// StateHash records an already hashed state.
func (c *C) StateHash(h uint64) { c.w.addState(h ^ c.w.salt) }

// HashStr hashes a string.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Steps counts transitions performed by a pure scenario.
func (c *C) Steps(n int) { c.w.res.Steps += int64(n) }

// Traces counts additional complete cases executed inside one execution.
func (c *C) Traces(n int) { c.w.res.Traces += int64(n) }

// Outcome records a distinct observable outcome.
func (c *C) Outcome(s string) { c.w.addOutcome(s) }

// Sample offers a written-out case for the evidence file.
func (c *C) Sample(format string, a ...any) { c.w.sample(format, a...) }

// IsStop reports whether a recovered value is the checker's own unwinding.
func IsStop(e any) bool { return vrt.IsStop(e) }

// Sizes lists every size up to 40 and then the neighbourhoods of the round
// numbers, up to a limit.
func Sizes(limit int) []int {
	var out []int
	for n := 0; n <= 40; n++ {
		out = append(out, n)
	}
	for _, m := range []int{50, 60, 64, 100, 128, 150, 200, 250, 256, 300, 400, 500, 512, 1000, 1024, 1460, 1500, 2000, 2048, 4000, 4096, 5000, 8000, 8192, 10000, 16384, 20000, 32768, 65536, 100000, 131072} {
		for n := m - 1; n <= m+1; n++ {
			if n <= limit {
				out = append(out, n)
			}
		}
	}
	return out
}
