package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// P09: application threads and the subscriber's own threads send commands at
// the same time; the publisher must see whole commands only.

const userCmd = 0xD0

type p09Sent struct {
	thread int
	msg    cmdMsg
}

func p09Payload(thread, k, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(17*thread + 5*k + i%251 + 1)
	}
	return b
}

// p09Run connects, lets the senders loose and compares what arrived.
func p09Run(c *mc.C, sizes [][]int, acks int, slow bool, stmt bool) {
	w := newWorld(c)
	ds := transport.NewDataSubscriber()
	con := ds.Connector()
	con.Hostname, con.Port = "publisher", 7165
	vrt.NoChoice(func() {
		if err := ds.Connect("publisher", 7165); err != nil {
			c.Fail("connect", "%v", err)
		}
		vrt.Idle()
	})
	p := w.last()
	base := len(p.cmds)
	open := true
	if slow {
		open = false
		p.p.WriteGate = func() bool { return open }
	}
	var want []p09Sent
	var ts []*task
	if stmt {
		vrt.SetStmt(true)
	}
	for i, ss := range sizes {
		ts = append(ts, spawn(fmt.Sprintf("sender%d", i), func() {
			for k, n := range ss {
				b := p09Payload(i, k, n)
				want = append(want, p09Sent{i, cmdMsg{byte(userCmd + i), append([]byte(nil), b...)}})
				code := transport.ServerCommandEnum(userCmd + i)
				switch {
				case n == 0 && k%2 == 0:
					ds.SendServerCommand(code)
				case k%2 == 1:
					ds.SendServerCommandWithMessage(code, string(b))
				default:
					ds.SendServerCommandWithPayload(code, b)
				}
			}
		}))
	}
	for k := 0; k < acks; k++ {
		h := be32(uint32(0xA0B0C0 + k))
		p.send(resp(respNotify, 0, cat(h, []byte("n"))))
		want = append(want, p09Sent{90, cmdMsg{cmdConfirmNotify, h}})
	}
	if slow {
		vrt.NoChoice(vrt.Idle)
		open = true
		vrt.Point("open", nil)
	}
	for _, t := range ts {
		t.wait()
	}
	vrt.SetStmt(false)
	vrt.Idle()
	p09Compare(c, p, base, want)
	c.State(p.codes())
	c.Outcome(p.codes())
	vrt.PauseChoices()
	ds.Dispose()
}

func p09Compare(c *mc.C, p *pub, base int, want []p09Sent) {
	if p.torn != "" || len(p.p.Bytes()) > 0 {
		c.Fail("torn", "the publisher received something that is no command: %s, %d bytes left over, commands %s", p.torn, len(p.p.Bytes()), p.codes())
	}
	got := append([]cmdMsg(nil), p.cmds[base:]...)
	// per sender order
	pos := map[int]int{}
	for _, g := range got {
		t := 90
		if g.Code >= userCmd {
			t = int(g.Code - userCmd)
		}
		var mine []cmdMsg
		for _, x := range want {
			if x.thread == t {
				mine = append(mine, x.msg)
			}
		}
		k := pos[t]
		pos[t]++
		if k >= len(mine) || mine[k].Code != g.Code || !bytes.Equal(mine[k].Payload, g.Payload) {
			c.Fail("content", "command %d of sender %d arrived as %.60v (%d bytes), sent were %.200v", k, t, g, len(g.Payload), mine)
		}
	}
	if len(got) != len(want) {
		c.Fail("lost", "%d commands arrived, %d were sent: %s", len(got), len(want), p.codes())
	}
}

// p09Small: two or three senders with small payloads, switching at any statement.
func p09Small(senders, per int) func(c *mc.C) {
	return func(c *mc.C) {
		var sizes [][]int
		for i := 0; i < senders; i++ {
			var s []int
			for k := 0; k < per; k++ {
				s = append(s, []int{0, 3, 40}[c.Choose(3)])
			}
			sizes = append(sizes, s)
		}
		acks := c.Choose(2)
		slow := c.Choose(2) == 1
		c.Case("payload sizes per sender %v, %d notifications to confirm, slow publisher %v", sizes, acks, slow)
		p09Run(c, sizes, acks, slow, true)
	}
}

// p09Big: payloads around the internal buffer sizes.
func p09Big(c *mc.C) {
	all := []int{0, 1, 16379, 16384, 32761, 32762, 32763, 32764, 32765, 32767, 32768, 32769, 65531, 65536, 100000, 1 << 20}
	a, b := all[c.Choose(len(all))], all[c.Choose(len(all))]
	both := c.Choose(2) == 1
	c.Case("payload sizes %d and %d, concurrent %v", a, b, both)
	if both {
		p09Run(c, [][]int{{a}, {b}}, 1, true, false)
	} else {
		p09Run(c, [][]int{{a, b, 5}}, 1, false, false)
	}
}

// p09Mixed: the subscriber's own commands race with each other.
func p09Mixed(c *mc.C) {
	w := newWorld(c)
	w.cfg.MetadataFilters = "FILTER ActiveMeasurements WHERE True"
	w.cfg.AutoSubscribe = c.Choose(2) == 1
	p := w.connectQuiet()
	base := len(p.cmds)
	if w.cfg.AutoSubscribe {
		base = 1
	}
	ops := []string{"subscribe", "unsubscribe", "metadata", "none"}
	a, b := c.Choose(4), c.Choose(4)
	blocks, notes := c.Choose(2), c.Choose(2)
	slow := c.Choose(2) == 1
	c.Case("thread 1 %s, thread 2 %s, %d buffer blocks, %d notifications, slow publisher %v, subscribed %v", ops[a], ops[b], blocks, notes, slow, w.cfg.AutoSubscribe)
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.NoChoice(vrt.Idle)
	open := !slow
	p.p.WriteGate = func() bool { return open }
	want := map[byte]int{cmdSubscribe: base - 1}
	run := func(op int) func() {
		return func() {
			switch op {
			case 0:
				w.sb.Subscribe("x", nil)
				want[cmdSubscribe]++
			case 1:
				w.sb.Unsubscribe()
				want[cmdUnsubscribe]++
			case 2:
				w.sb.RequestMetadata()
				want[cmdMetadata]++
			}
		}
	}
	if w.cfg.AutoSubscribe {
		want[cmdSubscribe] = p.count(cmdSubscribe)
	}
	t1, t2 := spawn("app1", run(a)), spawn("app2", run(b))
	for k := 0; k < blocks; k++ {
		p.send(blockResp(2, uint32(k), 0, 1, []byte{1, 2}))
		want[cmdConfirmBlock]++
	}
	for k := 0; k < notes; k++ {
		p.send(resp(respNotify, 0, cat(be32(uint32(k)), []byte("n"))))
		want[cmdConfirmNotify]++
	}
	if slow {
		vrt.NoChoice(vrt.Idle)
		open = true
	}
	t1.wait()
	t2.wait()
	vrt.Idle()
	if p.torn != "" || len(p.p.Bytes()) > 0 {
		c.Fail("torn", "the publisher received something that is no command: %s, %d bytes left over", p.torn, len(p.p.Bytes()))
	}
	var codes []int
	for k := range want {
		codes = append(codes, int(k))
	}
	sort.Ints(codes)
	for _, k := range codes {
		extra := 0
		if k == cmdUnsubscribe {
			// subscribing anew ends the previous subscription first
			extra = want[cmdSubscribe]
		}
		less := 0
		if k == cmdSubscribe && a == 0 && b == 0 {
			// requests made at the same time may be answered by one command
			less = 1
		}
		if n := p.count(byte(k)); n < want[byte(k)]-less || n > want[byte(k)]+extra {
			c.Fail("lost", "command %02x arrived %d times, issued %d times: %s", k, p.count(byte(k)), want[byte(k)], p.codes())
		}
	}
	for _, m := range p.cmds {
		bad := false
		switch m.Code {
		case cmdSubscribe:
			bad = len(m.Payload) < 20 || int(binary.BigEndian.Uint32(m.Payload[1:])) != len(m.Payload)-5
		case cmdConfirmBlock, cmdConfirmNotify, cmdModes:
			bad = len(m.Payload) != 4
		case cmdUnsubscribe:
			bad = len(m.Payload) != 0
		case cmdMetadata:
			bad = len(m.Payload) != 4+len(w.cfg.MetadataFilters) || string(m.Payload[4:]) != w.cfg.MetadataFilters
		case cmdConfirmCache:
		default:
			bad = true
		}
		if bad {
			c.Fail("content", "command %.300v", m)
		}
	}
	c.State(p.codes(), a, b)
	c.Outcome(p.codes())
	vrt.PauseChoices()
	w.closeAll()
}

func init() {
	register(mc.Check{
		ID:          "P09",
		Rule:        "every combination of senders and payload sizes; every schedule up to the deviation bound, switching at any statement for small payloads",
		Assumptions: []string{"a socket write is atomic, as guaranteed by the Go network library", "sequentially consistent memory"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "one-sender", Body: p09Sizes, MaxSteps: 5_000_000},
				{Name: "two-senders", Body: p09Small(2, 1), Bound: 2 + d},
				{Name: "repeated", Body: p09Small(2, 2), Bound: 1 + d},
				{Name: "three-senders", Body: p09Small(3, 1), Bound: 1 + d},
				{Name: "sizes", Body: p09Big, Bound: 1 + d},
				{Name: "own-commands", Body: p09Mixed, Bound: 2 + d},
			}
		},
	})
}
