package main

import (
	"fmt"

	"github.com/sttp/goapi/sttp/thread"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// P15: every thread of a scenario performs a freely chosen operation sequence
// on one Thread object; the body of the Thread has interior scheduling points.

func p15Body(threads, ops int) func(c *mc.C) {
	return func(c *mc.C) {
		runs, active, granted := 0, 0, 0
		var th *thread.Thread
		th = thread.NewThread(func() {
			active++
			if active > 1 {
				c.Fail("overlap", "two executions of the thread function at the same time")
			}
			vrt.Point("body", nil)
			if !th.IsRunning() {
				c.Fail("running", "not running while its function executes")
			}
			vrt.Point("body", nil)
			active--
			runs++
		})
		names := []string{"start", "try", "join", "running"}
		var scripts [][]int
		for i := 0; i < threads; i++ {
			var s []int
			for k := 0; k < ops; k++ {
				c.Step(k)
				s = append(s, c.Choose(4))
			}
			scripts = append(scripts, s)
		}
		c.Case("scripts %v of %v", scripts, names)
		var ts []*task
		for i := range scripts {
			s := scripts[i]
			ts = append(ts, spawn(fmt.Sprintf("app%d", i), func() {
				for _, op := range s {
					switch op {
					case 0:
						p := func() (p any) {
							defer func() {
								p = recover()
								if p != nil && mc.IsStop(p) {
									panic(p)
								}
							}()
							th.Start()
							return nil
						}()
						if p == nil {
							granted++
						}
					case 1:
						if th.TryStart() {
							granted++
						}
					case 2:
						g := granted
						th.Join()
						if runs < g {
							c.Fail("join", "join returned although %d of %d earlier started executions have finished", runs, g)
						}
					case 3:
						if !th.IsRunning() && runs < granted {
							// a start that has been granted is pending, active or finished
							c.Fail("running", "not running while %d of %d granted executions are unfinished", granted-runs, granted)
						}
					}
				}
			}))
		}
		for _, t := range ts {
			t.wait()
		}
		vrt.Idle()
		if runs != granted {
			c.Fail("count", "%d executions for %d successful starts", runs, granted)
		}
		if active != 0 || th.IsRunning() {
			c.Fail("finished", "reported running after everything ended")
		}
		if !th.TryStart() {
			c.Fail("restart", "a finished thread could not be started again")
		}
		th.Join()
		if runs != granted+1 {
			c.Fail("restart", "restarted execution has not finished after join")
		}
		vrt.Idle()
		if th.IsRunning() {
			c.Fail("finished", "reported running after everything ended")
		}
		c.Outcome(fmt.Sprint(granted))
	}
}

func init() {
	register(mc.Check{
		ID:          "P15",
		Rule:        "every schedule of the scripted operations up to the deviation bound, every script; all statements of the thread package are scheduling points",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "repeated", Body: p15Body(1, 60), Lasso: 4, Stmt: true},
				{Name: "repeated-two", Body: p15Body(2, 12), Lasso: 2, Bound: 1 + d, Stmt: true},
				{Name: "two-by-one", Body: p15Body(2, 1), Bound: 4 + d, Stmt: true},
				{Name: "two-by-two", Body: p15Body(2, 2), Bound: 2 + d, Stmt: true},
				{Name: "three-by-one", Body: p15Body(3, 1), Bound: 3 + d, Stmt: true},
				{Name: "two-by-three", Body: p15Body(2, 3), Bound: 1 + d, Stmt: true},
				{Name: "three-by-two", Body: p15Body(3, 2), Bound: 1 + d, Stmt: true},
			}
		},
	})
}
