package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// ---- P13 ----

type p13Conf struct {
	retries       int32
	interval, max int32
}

func (w *world) p13Gaps(what string, first, last int, cf p13Conf) {
	ds := w.sim.Dials
	prev := time.Duration(0)
	floor := time.Duration(min(cf.interval, cf.max)) * time.Millisecond
	for i := first + 1; i < last; i++ {
		g := ds[i].At - ds[i-1].At
		if g < floor {
			w.c.Fail("interval", "%s: wait %d is %v, shorter than the configured interval %v", what, i-first, g, floor)
		}
		if g < prev {
			w.c.Fail("backoff", "%s: wait %d is %v, shorter than the one before it, %v", what, i-first, g, prev)
		}
		if m := time.Duration(cf.max) * time.Millisecond; g > m {
			w.c.Fail("maximum", "%s: wait %d is %v, longer than the configured maximum %v", what, i-first, g, m)
		}
		prev = g
	}
}

// p13Sequence: the publisher refuses a number of attempts of the first
// connection, then of every reconnection.
func p13Sequence(c *mc.C) {
	retries := []int32{-1, 0, 1, 2, 3, 5}
	cf := p13Conf{retries: retries[c.Choose(len(retries))]}
	cf.interval = []int32{1, 250, 1000, 7000}[c.Choose(4)]
	cf.max = []int32{500, 1000, 3000, 30000}[c.Choose(4)]
	auto := c.Choose(2) == 1
	refuse := c.Choose(8) // first attempts refused before one is accepted; 7: all
	drops := c.Choose(3)
	refuse2 := c.Choose(8)
	w := newWorld(c)
	w.cfg.MaxRetries, w.cfg.RetryInterval, w.cfg.MaxRetryInterval, w.cfg.AutoReconnect = cf.retries, cf.interval, cf.max, auto
	c.CaseStr(fmt.Sprintf("maximum retries %d interval %d maximum interval %d automatic reconnect %v: %d attempts refused, then %d drops with %d attempts refused each (7 is all)", cf.retries, cf.interval, cf.max, auto, refuse, drops, refuse2))
	left := refuse
	w.accept = func(int) bool {
		if left == 7 {
			return false
		}
		left--
		return left < 0
	}
	unbounded := cf.retries < 0
	var err error
	t := spawn("dialer", func() { err = w.sb.Dial(pubAddr, w.cfg) })
	vrt.PauseChoices()
	horizon := 40 * time.Duration(cf.max) * time.Millisecond
	w.sleep(horizon)
	n := len(w.sim.Dials)
	w.p13Gaps("connecting", 0, n, cf)
	if refuse == 7 && unbounded {
		if t.done {
			c.Fail("gave-up", "gave up after %d attempts without a limit", n)
		}
		if n < 40 {
			c.Fail("gave-up", "%d attempts in %v with waits of at most %d ms", n, horizon, cf.max)
		}
		w.sb.Disconnect()
		w.sleep(time.Millisecond / 2)
		if !t.done || err == nil {
			c.Fail("result", "disconnect did not end the connection attempts with an error: ended %v error %v", t.done, err)
		}
		w.closeAll()
		return
	}
	if !t.done {
		c.Fail("stuck", "dialing did not return after %d attempts", n)
	}
	limit := int(cf.retries) + 1
	if unbounded {
		limit = 1 << 30
	}
	if n > limit {
		c.Fail("limit", "%d attempts with at most %d retries", n, cf.retries)
	}
	connected := refuse != 7 && n == refuse+1
	if !connected {
		if unbounded || n < max(1, int(cf.retries)) {
			c.Fail("gave-up", "gave up after %d attempts with %d retries", n, cf.retries)
		}
		if err == nil {
			c.Fail("result", "dialing reported success, all %d attempts failed", n)
		}
		w.sleep(horizon)
		if len(w.sim.Dials) != n {
			c.Fail("late", "%d attempts after the failure was reported", len(w.sim.Dials)-n)
		}
		if w.sb.IsConnected() {
			c.Fail("state", "connected after failing to connect")
		}
	} else if err != nil || !w.sb.IsConnected() {
		c.Fail("result", "attempt %d was accepted but dialing returned %v, connected %v", n, err, w.sb.IsConnected())
	}
	for d := 0; d < drops && connected; d++ {
		w.sleep(10 * time.Second)
		left = refuse2
		n := len(w.sim.Dials)
		w.ev = nil
		w.last().p.Close()
		vrt.Idle()
		w.sleep(horizon)
		m := len(w.sim.Dials)
		if !auto {
			if m != n || w.sb.IsConnected() {
				c.Fail("reconnected", "%d attempts after a drop without automatic reconnect", m-n)
			}
			break
		}
		w.p13Gaps(fmt.Sprintf("reconnecting after drop %d", d+1), n, m, cf)
		if !unbounded && m-n > int(cf.retries) {
			c.Fail("limit", "%d reconnection attempts with at most %d retries", m-n, cf.retries)
		}
		connected = refuse2 != 7 && m-n == refuse2+1
		if connected != w.sb.IsConnected() {
			c.Fail("state", "reported connected %v after %d attempts, %d refused", w.sb.IsConnected(), m-n, refuse2)
		}
		if connected {
			continue
		}
		if unbounded && (refuse2 != 7 || m-n < 39) || !unbounded && m-n < min(1, int(cf.retries)) {
			c.Fail("gave-up", "gave up after %d attempts with %d retries", m-n, cf.retries)
		}
		if !unbounded {
			if w.n("error") == 0 {
				c.Fail("report", "giving up was not reported")
			}
			w.sleep(horizon)
			if len(w.sim.Dials) != m {
				c.Fail("late", "%d attempts after giving up", len(w.sim.Dials)-m)
			}
		}
	}
	c.State(cf, auto, refuse, drops, refuse2, len(w.sim.Dials))
	c.Outcome(fmt.Sprint(len(w.sim.Dials), w.sb.IsConnected()))
	w.closeAll()
}

// p13Redial: the configuration changes between connections of one subscriber.
func p13Redial(c *mc.C) {
	w := newWorld(c)
	confs := []struct {
		cf   p13Conf
		auto bool
	}{
		{p13Conf{0, 250, 500}, true}, {p13Conf{0, 1000, 30000}, false}, {p13Conf{1, 1000, 500}, true}, {p13Conf{3, 250, 3000}, true},
		{p13Conf{3, 1000, 30000}, false}, {p13Conf{-1, 7000, 30000}, true}, {p13Conf{-1, 250, 500}, false},
	}
	var hist []string
	refuseAll, drops := false, 0
	w.accept = func(int) bool { return !refuseAll }
	vrt.PauseChoices()
	for i := 0; i < 3; i++ {
		k := confs[c.Choose(len(confs))]
		refuseAll = c.Choose(2) == 1
		drop := !refuseAll && c.Choose(2) == 1
		hist = append(hist, fmt.Sprintf("%+v automatic %v refused %v dropped %v", k.cf, k.auto, refuseAll, drop))
		c.CaseStr(strings.Join(hist, "; "))
		cfg := *w.cfg
		w.cfg = &cfg
		cfg.MaxRetries, cfg.RetryInterval, cfg.MaxRetryInterval, cfg.AutoReconnect = k.cf.retries, k.cf.interval, k.cf.max, k.auto
		first := len(w.sim.Dials)
		var err error
		t := spawn("dialer", func() { err = w.sb.Dial(pubAddr, w.cfg) })
		horizon := 10 * time.Duration(k.cf.max) * time.Millisecond
		w.sleep(horizon)
		n := len(w.sim.Dials) - first
		w.p13Gaps("connecting", first, len(w.sim.Dials), k.cf)
		if refuseAll {
			if k.cf.retries < 0 {
				if t.done || n < 10 {
					c.Fail("gave-up", "%d attempts in %v without a limit, ended %v", n, horizon, t.done)
				}
			} else if n > 1+int(k.cf.retries) || n < max(1, int(k.cf.retries)) || !t.done || err == nil {
				c.Fail("limit", "%d attempts with at most %d retries, ended %v error %v", n, k.cf.retries, t.done, err)
			}
		} else if n != 1 || !t.done || err != nil || !w.sb.IsConnected() {
			c.Fail("result", "%d attempts to an accepting publisher, ended %v error %v", n, t.done, err)
		}
		if drop {
			drops++
			refuseAll = true
			first = len(w.sim.Dials)
			w.last().p.Close()
			vrt.Idle()
			w.sleep(horizon)
			n := len(w.sim.Dials) - first
			w.p13Gaps("reconnecting", first, len(w.sim.Dials), k.cf)
			switch {
			case !k.auto:
				if n > 0 {
					c.Fail("reconnected", "%d attempts after a drop without automatic reconnect", n)
				}
			case k.cf.retries < 0:
				if n < 9 {
					c.Fail("gave-up", "%d reconnection attempts in %v without a limit", n, horizon)
				}
			case n > int(k.cf.retries) || n < min(1, int(k.cf.retries)):
				c.Fail("limit", "%d reconnection attempts with at most %d retries", n, k.cf.retries)
			}
		}
		w.sb.Disconnect()
		w.sleep(time.Minute)
		if !t.done {
			c.Fail("stuck", "dialing did not return after disconnecting")
		}
		c.State(hist)
	}
	c.Outcome(fmt.Sprint(drops))
	w.closeAll()
}

// p13Rejected: the publisher accepts connections but refuses the subscriber.
func p13Rejected(c *mc.C) {
	w := newWorld(c)
	retries := []int32{0, 1, 2, 4}[c.Choose(4)]
	w.cfg.MaxRetries, w.cfg.AutoReconnect = retries, true
	good := c.Choose(5) // rejected connections before one is good; 4: all
	c.Case("maximum retries %d, %d connections rejected by the publisher (4 is all)", retries, good)
	n := 0
	w.auto.On = func(p *pub, m cmdMsg) bool {
		if m.Code == cmdModes && (good == 4 || n < good) {
			n++
			p.send(resp(respFailed, cmdModes, []byte("rejected")))
			p.p.Close()
			return true
		}
		return false
	}
	vrt.PauseChoices()
	w.dial()
	w.sleep(3000 * time.Second)
	if len(w.sim.Dials) > 1+int(retries) {
		c.Fail("limit", "%d attempts with at most %d retries, every one rejected", len(w.sim.Dials), retries)
	}
	if good < 4 && good <= int(retries) && (!w.sb.IsConnected() || len(w.sim.Dials) != good+1) {
		c.Fail("gave-up", "gave up after %d rejected attempts with %d retries", len(w.sim.Dials), retries)
	}
	w.p13Gaps("rejected", 0, len(w.sim.Dials), p13Conf{retries, w.cfg.RetryInterval, w.cfg.MaxRetryInterval})
	c.State(retries, good)
	w.closeAll()
}

// p13Race: the drop and the attempts run on all schedules.
func p13Race(c *mc.C) {
	w := newWorld(c)
	w.cfg.AutoReconnect = c.Choose(2) == 1
	w.cfg.MaxRetries = int32(c.Choose(3))
	refuse := c.Choose(3)
	flap := c.Choose(2) == 1
	c.Case("maximum retries %d automatic reconnect %v: %d attempts refused after a drop, dropped again at once %v", w.cfg.MaxRetries, w.cfg.AutoReconnect, refuse, flap)
	w.connectQuiet()
	w.accept = func(n int) bool { return n > refuse }
	if flap {
		w.auto.On = func(p *pub, m cmdMsg) bool {
			if len(w.pubs) == 2 {
				p.p.Close()
				return true
			}
			return false
		}
	}
	w.last().p.Close()
	w.sleep(500 * time.Second)
	n := len(w.sim.Dials) - 1
	limit := int(w.cfg.MaxRetries)
	if flap && refuse < limit {
		limit *= 2
	}
	if !w.cfg.AutoReconnect {
		limit = 0
	}
	if n > limit {
		c.Fail("limit", "%d reconnection attempts with at most %d retries", n, w.cfg.MaxRetries)
	}
	if w.cfg.AutoReconnect && refuse < int(w.cfg.MaxRetries) && !flap && (!w.sb.IsConnected() || n != refuse+1) {
		c.Fail("gave-up", "%d reconnection attempts, %d refused, connected %v", n, refuse, w.sb.IsConnected())
	}
	if w.cfg.AutoReconnect && w.cfg.MaxRetries > 0 && refuse == 0 && flap && !w.sb.IsConnected() {
		c.Fail("gave-up", "not connected again after the connection was dropped twice; %d attempts; live threads %v", n, vrt.LiveThreads())
	}
	w.consistent()
	c.State(w.cfg.AutoReconnect, w.cfg.MaxRetries, refuse, flap, n)
	c.Outcome(fmt.Sprint(n))
	vrt.PauseChoices()
	w.closeAll()
}

// ---- P14 ----

type p14Pub struct {
	w        *world
	answered map[*pub]int // metadata answers sent
	sub      map[*pub]int
}

// p14Config picks the automatic settings and remembers what may follow.
func p14World(c *mc.C) (*world, *p14Pub, string) {
	w := newWorld(c)
	w.cfg.AutoRequestMetadata = c.Choose(2) == 1
	w.cfg.AutoSubscribe = c.Choose(2) == 1
	w.cfg.Version = byte(1 + c.Choose(2))
	st := &p14Pub{w: w, answered: map[*pub]int{}, sub: map[*pub]int{}}
	md := tableXML("T")
	w.auto.On = func(p *pub, m cmdMsg) bool {
		switch m.Code {
		case cmdMetadata:
			if !w.cfg.AutoRequestMetadata {
				c.Fail("unasked", "metadata requested although not configured: %s", p.codes())
			}
			if w.auto.Metadata != nil {
				st.answered[p]++
			}
		case cmdSubscribe:
			st.sub[p]++
			if !w.cfg.AutoSubscribe {
				c.Fail("unasked", "subscribed although not configured: %s", p.codes())
			}
			if w.cfg.AutoRequestMetadata && st.sub[p] > st.answered[p] {
				c.Fail("early", "subscribed %d times with %d metadata answers: %s", st.sub[p], st.answered[p], p.codes())
			}
			if !bytes.Contains(m.Payload, []byte("THE FILTER")) {
				c.Fail("filter", "subscribed without the filter expression")
			}
		}
		return false
	}
	w.auto.Metadata = md
	w.sb.Subscribe("THE FILTER", nil)
	return w, st, fmt.Sprintf("metadata %v subscribe %v version %d", w.cfg.AutoRequestMetadata, w.cfg.AutoSubscribe, w.cfg.Version)
}

// done checks the commands of a connection whose workflow ran to its end.
func (st *p14Pub) done(p *pub, changes int, what string) {
	w := st.w
	wantMeta, wantSub := 0, 0
	if w.cfg.AutoRequestMetadata {
		wantMeta = 1 + changes
	}
	if w.cfg.AutoSubscribe {
		wantSub = 1
		if w.cfg.AutoRequestMetadata {
			wantSub = st.answered[p]
		}
	}
	if len(p.cmds) == 0 || p.cmds[0].Code != cmdModes || p.count(cmdModes) != 1 {
		w.c.Fail("modes", "%s: operational modes are not sent once and first: %s", what, p.codes())
	}
	if p.count(cmdMetadata) != wantMeta || p.count(cmdSubscribe) != wantSub {
		w.c.Fail("workflow", "%s: commands %s, expected %d metadata requests and %d subscribes", what, p.codes(), wantMeta, wantSub)
	}
	for _, m := range p.cmds {
		if m.Code != cmdModes && m.Code != cmdMetadata && m.Code != cmdSubscribe && !(m.Code == cmdUnsubscribe && wantSub > 1) {
			w.c.Fail("extra", "%s: unexpected command %02x: %s", what, m.Code, p.codes())
		}
	}
	if w.sb.IsSubscribed() != (wantSub > 0) {
		w.c.Fail("subscribed", "%s: subscribed %v after %d subscribes", what, w.sb.IsSubscribed(), wantSub)
	}
}

// p14Connections: a sequence of connections of each kind; each is dropped at a
// chosen point of its workflow.
func p14Connections(count int) func(c *mc.C) {
	return func(c *mc.C) {
		w, st, label := p14World(c)
		kind := c.Choose(3) // dialed, reconnected automatically, accepted
		if count > 3 && kind == 1 {
			return
		}
		label += " " + []string{"dialed", "automatic", "accepted"}[kind]
		w.cfg.AutoReconnect = kind == 1
		w.cfg.MaxRetries = -1
		md := w.auto.Metadata
		for k := 0; k < count; k++ {
			c.Step(k)
			drop := 0 // never, at modes, at metadata request, at metadata answer, at subscribe, late
			if k < count-1 {
				drop = 1 + c.Choose(5)
			}
			changes := 0
			if drop == 0 || drop == 5 {
				changes = c.Choose(3)
			}
			slow := c.Choose(2) == 1 // the answer to the modes comes late
			label += fmt.Sprintf(", drop %d changes %d slow %v", drop, changes, slow)
			c.CaseStr(label)
			old := w.auto.On
			var held []cmdMsg
			hold := slow
			w.auto.On = func(p *pub, m cmdMsg) bool {
				if hold && drop != 1 {
					held = append(held, m)
					return true
				}
				if drop == 1 && m.Code == cmdModes || drop == 2 && m.Code == cmdMetadata || drop == 4 && m.Code == cmdSubscribe {
					p.p.Close()
					return true
				}
				if drop == 3 && m.Code == cmdMetadata {
					old(p, m)
					b := md
					if p.modes&0x80000000 != 0 {
						b = zip(b)
					}
					p.send(resp(respSucceeded, cmdMetadata, b))
					p.p.Close()
					return true
				}
				return old(p, m)
			}
			n := len(w.pubs)
			switch {
			case kind == 0, kind == 1 && k == 0:
				if err := w.dial(); err != nil {
					c.Fail("dial", "%v", err)
				}
			case kind == 1:
				w.sleep(400 * time.Second)
			case kind == 2:
				if k == 0 {
					if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
						c.Fail("listen", "%v", err)
					}
					vrt.Idle()
				}
				w.sim.Connect(listenPort)
				vrt.Idle()
			}
			if len(w.pubs) != n+1 && !(kind == 1 && drop > 0) {
				c.Fail("connect", "%d connections opened", len(w.pubs)-n)
			}
			p := w.last()
			if slow && drop != 1 {
				if w.cfg.Version >= 2 && p.count(cmdSubscribe) > 0 {
					c.Fail("early", "subscribed before the connection was validated: %s", p.codes())
				}
				hold = false
				for _, m := range held {
					p.react(m)
				}
				vrt.Idle()
			}
			for i := 0; i < changes; i++ {
				p.send(resp(respConfigChg, 0, nil))
				vrt.Idle()
			}
			if !p.p.Closed() {
				st.done(p, changes, fmt.Sprintf("connection %d", k+1))
				if drop > 0 {
					p.p.Close()
					vrt.Idle()
				}
			}
			w.auto.On = old
		}
		c.State(label)
		c.Outcome(w.last().codes())
		w.closeAll()
	}
}

// p14Answers: the metadata answer is not what it should be, arrives unasked or
// several times, or the application asks for metadata itself.
func p14Answers(c *mc.C) {
	w := newWorld(c)
	w.cfg.AutoRequestMetadata = c.Choose(2) == 1
	w.cfg.AutoSubscribe = c.Choose(2) == 1
	w.cfg.CompressMetadata = c.Choose(2) == 1
	content := c.Choose(4)
	manual := c.Choose(3)
	again := c.Choose(2) == 1
	accepted := c.Choose(2) == 1
	names := []string{"good", "without schema", "not XML", "empty"}
	c.Case("metadata %v subscribe %v compressed %v, answer %s, requested by the application %d times, second connection %v, accepted %v", w.cfg.AutoRequestMetadata, w.cfg.AutoSubscribe, w.cfg.CompressMetadata, names[content], manual, again, accepted)
	w.auto.Metadata = [][]byte{tableXML("T"), []byte("<DataSet><T><A>1</A></T></DataSet>"), []byte("neither metadata nor XML <"), {}}[content]
	w.sb.Subscribe("THE FILTER", nil)
	conns := 1
	if again {
		conns = 2
	}
	for k := 0; k < conns; k++ {
		if accepted {
			if k == 0 {
				if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
					c.Fail("listen", "%v", err)
				}
				vrt.Idle()
			}
			w.sim.Connect(listenPort)
			vrt.Idle()
		} else {
			w.connect()
		}
		p := w.last()
		for i := 0; i < manual; i++ {
			w.sb.RequestMetadata()
			vrt.Idle()
		}
		meta, sub := manual, 0
		if w.cfg.AutoRequestMetadata {
			meta++
		}
		if w.cfg.AutoSubscribe {
			sub = 1
			if w.cfg.AutoRequestMetadata {
				sub = meta
			}
		}
		if p.count(cmdModes) != 1 || p.cmds[0].Code != cmdModes || p.count(cmdMetadata) != meta || p.count(cmdSubscribe) != sub {
			c.Fail("workflow", "connection %d: commands %s, expected %d metadata requests and %d subscribes", k+1, p.codes(), meta, sub)
		}
		if w.sb.IsSubscribed() != (sub > 0) {
			c.Fail("subscribed", "connection %d: subscribed %v after %d subscribes", k+1, w.sb.IsSubscribed(), sub)
		}
		for i, m := range p.cmds {
			if m.Code == cmdSubscribe && !bytes.Contains(m.Payload, []byte("THE FILTER")) {
				c.Fail("filter", "connection %d: subscribe command %d without the filter expression", k+1, i)
			}
		}
		p.p.Close()
		vrt.Idle()
	}
	c.State(w.cfg.AutoRequestMetadata, w.cfg.AutoSubscribe, content, manual, again, accepted)
	c.Outcome(w.last().codes())
	w.closeAll()
}

// p14Race: workflow steps on all schedules.
func p14Race(c *mc.C) {
	w, st, label := p14World(c)
	kind := c.Choose(3)
	changes := c.Choose(2)
	slow := c.Choose(2) == 1
	c.CaseStr(fmt.Sprintf("%s kind %d configuration changes %d slow %v", label, kind, changes, slow))
	w.cfg.AutoReconnect = kind == 1
	w.cfg.MaxRetries = -1
	switch kind {
	case 1:
		w.connectQuiet()
		vrt.NoChoice(vrt.Idle)
	case 2:
		vrt.NoChoice(func() {
			if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
				c.Fail("listen", "%v", err)
			}
			vrt.Idle()
		})
	}
	n := len(w.pubs)
	old := w.auto.On
	var held []cmdMsg
	w.auto.On = func(p *pub, m cmdMsg) bool {
		if slow {
			held = append(held, m)
			return true
		}
		return old(p, m)
	}
	switch kind {
	case 0:
		w.dial()
	case 1:
		w.last().p.Close()
		w.sleep(5 * time.Second)
	case 2:
		w.sim.Connect(listenPort)
		vrt.Idle()
	}
	if len(w.pubs) != n+1 {
		c.Fail("connect", "%d connections opened", len(w.pubs)-n)
	}
	p := w.last()
	slow = false
	for _, m := range held {
		p.react(m)
	}
	for i := 0; i < changes; i++ {
		p.send(resp(respConfigChg, 0, nil))
	}
	vrt.Idle()
	st.done(p, changes, "connection")
	c.State(label, kind, changes, slow)
	c.Outcome(p.codes())
	vrt.PauseChoices()
	w.closeAll()
}

func init() {
	register(mc.Check{
		ID:          "P13",
		Rule:        "every combination of retry limit, interval, maximum interval, automatic reconnect, refused attempts and drops; schedules up to the deviation bound around a drop",
		Assumptions: []string{"virtual time: computation takes no time"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "sequences", Body: p13Sequence, MaxSteps: 5_000_000},
				{Name: "redials", Body: p13Redial, MaxSteps: 5_000_000},
				{Name: "rejected", Body: p13Rejected, MaxSteps: 1_000_000},
				{Name: "races", Body: p13Race, Bound: 2 + d, MaxSteps: 500_000},
				{Name: "races-statements", Body: p13Race, Bound: 2 + d, Stmt: true, MaxSteps: 500_000},
			}
		},
	})
	register(mc.Check{
		ID:          "P14",
		Rule:        "every combination of the automatic settings, protocol version, connection kind, drop point of each connection, late answers and configuration changes; schedules up to the deviation bound for a single connection",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "repeated", Body: p14Connections(20), Lasso: 1 + d, MaxSteps: 5_000_000},
				{Name: "connections", Body: p14Connections(2 + d), MaxSteps: 500_000},
				{Name: "answers", Body: p14Answers},
				{Name: "races", Body: p14Race, Bound: 2 + d},
				{Name: "races-statements", Body: p14Race, Bound: 1 + d, Stmt: true},
			}
		},
	})
}
