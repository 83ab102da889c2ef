package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/ref"
	"verif.local/mc/shim/vrt"
)

// ---- P07 ----

type kind struct {
	name string
	body []byte // response body without the frame length
}

const p07Metadata = `<DataSet><MeasurementDetail><SignalID>8e70a8b6-0f7c-4c9a-a4a7-f0b6a4f8b1c1</SignalID></MeasurementDetail></DataSet>`

func p07Kinds(version int, zipped bool) []kind {
	f := func(name string, frame []byte) kind { return kind{name, frame[4:]} }
	e := ref.NewEncoder()
	k := make([]byte, 16)
	md := []byte(p07Metadata)
	if zipped {
		md = zip(md)
	}
	return []kind{
		f("compact", compactResp(0, full(0, 1, baseT), cm{Flags: 0x41, ID: 1, Val: f32(2), Time: be32(77)}, full(2, 3, baseT+2))),
		f("tssc", resp(respData, cmdSubscribe, tsscData(0, 0, 3, tsscEnc(e, ref.Meas{ID: 0, Time: baseT, Value: f32(5)}, ref.Meas{ID: 1, Time: baseT + 1, Flags: 9, Value: f32(6.25)}, ref.Meas{ID: 2, Time: baseT + 1, Value: f32(-6)})))),
		f("cache", cacheResp(version, 0, sig(99), cacheA(0, 1), zipped, false)),
		f("base", baseResp(0, baseT, baseT+600000000)),
		f("keys", keysResp([2][]byte{k, k}, [2][]byte{k, k})),
		f("start", resp(respStartTime, cmdSubscribe, be64(baseT))),
		f("complete", resp(respComplete, cmdSubscribe, []byte("done"))),
		f("block", blockResp(version, 0, 0, 1, []byte{1, 2, 3})),
		f("notify", resp(respNotify, 0, cat(be32(0xABCD), []byte("hi")))),
		f("config", resp(respConfigChg, 0, nil)),
		f("noop", resp(respNoOP, 0, nil)),
		f("succeeded", resp(respSucceeded, cmdSubscribe, []byte("ok"))),
		f("failed", resp(respFailed, cmdModes, []byte("refused"))),
		f("metadata", resp(respSucceeded, cmdMetadata, md)),
	}
}

// refCompact decodes the data of a compact packet the way a publisher means it:
// as many measurements as the count says and the bytes hold.
func refCompact(d []byte, es []entry, base [2]int64) []wantMeas {
	if len(d) < 5 || d[0]&flagCompact == 0 || d[0]&flagCompressed != 0 {
		return nil
	}
	n := binary.BigEndian.Uint32(d[1:])
	d = d[5:]
	var out []wantMeas
	for ; n > 0 && len(d) >= 9; n-- {
		fl := d[0]
		id := int32(binary.BigEndian.Uint32(d[1:]))
		v := math.Float32frombits(binary.BigEndian.Uint32(d[5:]))
		m := wantMeas{loose: true, m: transport.Measurement{Value: float64(v), Flags: fullFlags(fl)}}
		for _, e := range es {
			if e.Idx == id {
				m.m.SignalID, m.loose = e.Sig, false
			}
		}
		d = d[9:]
		if fl&0x40 != 0 {
			if len(d) < 4 {
				break
			}
			if b := base[fl>>7]; b > 0 {
				m.m.Timestamp = ticks.Ticks(b + int64(binary.BigEndian.Uint32(d)))
			}
			d = d[4:]
		} else {
			if len(d) < 8 {
				break
			}
			m.m.Timestamp = ticks.Ticks(binary.BigEndian.Uint64(d))
			d = d[8:]
		}
		out = append(out, m)
	}
	return out
}

type p07Env struct {
	c       *mc.C
	w       *world
	p       *pub
	version int
	udp     bool
}

func p07Start(c *mc.C, version int, zipped, udp bool) *p07Env {
	w := newWorld(c)
	w.cfg.Version = byte(version)
	w.cfg.CompressMetadata = zipped
	w.cfg.CompressSignalIndexCache = zipped
	e := &p07Env{c: c, w: w, version: version, udp: udp}
	e.p = w.connectQuiet()
	s := sttp.NewSettings()
	if udp {
		s.UdpPort = 9600
	}
	w.sb.Subscribe("x", s)
	vrt.Idle()
	e.p.send(cacheResp(version, 0, sig(99), cacheA(0, 0), zipped, false), baseResp(0, baseT, baseT+5))
	vrt.Idle()
	w.ev = nil
	return e
}

// deliver hands a response body to the subscriber.
func (e *p07Env) deliver(b []byte) {
	if e.udp {
		e.w.sim.SendUDP(9600, b)
	} else {
		e.p.send(cat(be32(uint32(len(b))), b))
	}
	vrt.Idle()
}

// finish checks that the subscriber still works or dropped the connection, and
// that it can be shut down.
func (e *p07Env) finish(probe bool) {
	c, w := e.c, e.w
	if probe && w.sb.IsConnected() {
		n := e.p.count(cmdConfirmNotify)
		e.p.send(resp(respNotify, 0, cat(be32(0x5151), []byte("probe"))))
		vrt.Idle()
		if e.p.count(cmdConfirmNotify) != n+1 {
			c.Fail("wedged", "connected but no longer answering; commands %s; live threads %v", e.p.codes(), vrt.LiveThreads())
		}
	} else if !w.sb.IsConnected() {
		if w.n("terminated") != 1 {
			c.Fail("dropped", "the connection was dropped, termination announced %d times", w.n("terminated"))
		}
		if !e.p.p.LibClosed {
			c.Fail("dropped", "not connected, but the socket is still open")
		}
	}
	c.Outcome(fmt.Sprint(w.sb.IsConnected(), len(w.meas), w.n("error")))
	if c.Choose(2) == 1 {
		w.sb.Disconnect()
		w.sleep(1e9)
		if w.sb.IsConnected() {
			c.Fail("disconnect", "still connected after disconnect")
		}
		// and works again
		w.auto = defaultAuto()
		w.connect()
		w.sb.Disconnect()
		vrt.Idle()
	}
	w.closeAll()
}

// onlyPrefix checks that what was delivered is a prefix of a list.
func (e *p07Env) onlyPrefix(want []wantMeas) {
	i := 0
	for _, g := range e.w.meas {
		for i < len(want) && want[i].loose && !sameMeas(want[i].m, g) {
			i++
		}
		if i >= len(want) || !sameMeas(want[i].m, g) {
			var ms []transport.Measurement
			for _, x := range want {
				ms = append(ms, x.m)
			}
			e.c.Fail("invented", "delivered %s, encoded %s", measText(e.w.meas), measText(ms))
		}
		i++
	}
}

func (e *p07Env) oracle(k kind, mutated []byte, truncated bool) {
	switch {
	case k.name == "compact":
		if len(mutated) >= 6 && mutated[0] == respData {
			e.onlyPrefix(refCompact(mutated[6:], cacheA(0, 0), [2]int64{baseT, baseT + 5}))
		}
	case k.name == "tssc" && truncated:
		e.onlyPrefix([]wantMeas{
			{m: transport.Measurement{SignalID: cacheA(0, 0)[0].Sig, Value: 5, Timestamp: baseT}},
			{m: transport.Measurement{SignalID: cacheA(0, 0)[1].Sig, Value: 6.25, Timestamp: baseT + 1, Flags: 9}},
			{m: transport.Measurement{SignalID: cacheA(0, 0)[2].Sig, Value: -6, Timestamp: baseT + 1}},
		})
	case k.name != "tssc" && len(e.w.meas) > 0 && mutated[0] != respData:
		e.c.Fail("invented", "delivered %s from a %s response", measText(e.w.meas), k.name)
	}
}

func p07Config(c *mc.C) (int, bool, bool, string) {
	version := 1 + c.Choose(2)
	zipped := c.Choose(2) == 1
	udp := c.Choose(2) == 1
	return version, zipped, udp, fmt.Sprintf("version %d compressed %v udp %v", version, zipped, udp)
}

func p07Truncate(c *mc.C) {
	version, zipped, udp, label := p07Config(c)
	ks := p07Kinds(version, zipped)
	k := ks[c.Choose(len(ks))]
	n := c.Choose(len(k.body) + 1)
	c.CaseStr(fmt.Sprintf("%s: %s cut to %d of %d bytes", label, k.name, n, len(k.body)))
	e := p07Start(c, version, zipped, udp)
	e.deliver(k.body[:n])
	e.oracle(k, k.body[:n], true)
	c.State(label, k.name, n)
	e.finish(true)
}

var p07Words = []uint32{0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 0x00010000}

func p07Fields(c *mc.C) {
	version, zipped, udp, label := p07Config(c)
	ks := p07Kinds(version, zipped)
	k := ks[c.Choose(len(ks))]
	if len(k.body) < 10 {
		return
	}
	off := c.Choose(len(k.body) - 3)
	v := p07Words[c.Choose(len(p07Words))]
	b := append([]byte(nil), k.body...)
	binary.BigEndian.PutUint32(b[off:], v)
	c.CaseStr(fmt.Sprintf("%s: %s with the four bytes at %d set to %08x", label, k.name, off, v))
	e := p07Start(c, version, zipped, udp)
	e.deliver(b)
	e.oracle(k, b, false)
	if k.name == "keys" && e.w.sb.IsConnected() {
		// data under whatever keys were installed
		e.deliver(cat([]byte{respData, 2, 0, 0, 0, 0, flagCompact}, make([]byte, 32)))
		e.w.meas = nil
	}
	c.State(label, k.name, off, v)
	e.finish(true)
}

func p07Bytes(c *mc.C) {
	version, zipped, udp, label := p07Config(c)
	ks := p07Kinds(version, zipped)
	k := ks[c.Choose(len(ks))]
	off := c.Choose(len(k.body))
	op := c.Choose(4)
	b := append([]byte(nil), k.body...)
	b[off] = []byte{b[off] ^ 0xFF, b[off] ^ 0x80, b[off] + 1, b[off] - 1}[op]
	c.CaseStr(fmt.Sprintf("%s: %s with byte %d changed from %02x to %02x", label, k.name, off, k.body[off], b[off]))
	e := p07Start(c, version, zipped, udp)
	e.deliver(b)
	e.oracle(k, b, false)
	c.State(label, k.name, off, op)
	e.finish(true)
}

// p07Tssc replaces every pair of bytes of a compressed block.
func p07Tssc(c *mc.C) {
	first := c.Choose(256)
	seq := c.Choose(2)
	c.Case("compressed packets starting with byte %02x, sequence %d", first, seq)
	e := p07Start(c, 2, true, false)
	k := p07Kinds(2, true)[1]
	for second := 0; second < 256; second++ {
		c.Case("compressed packet %02x %02x, sequence %d", first, second, seq)
		if seq == 1 {
			e.deliver(k.body)
		}
		e.deliver(body(respData, cmdSubscribe, tsscData(0, uint16(seq), 2, []byte{byte(first), byte(second), 0xFF, 0x01, 0x80, 0x7F, 0, 0xFF, 0xFF, 0xFF})))
		if !e.w.sb.IsConnected() {
			vrt.Idle()
			e.p = e.w.connect()
			e.w.subscribe()
			e.p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
			vrt.Idle()
		}
	}
	e.w.ev = nil
	c.Traces(256)
	c.State(first, seq)
	e.finish(true)
}

// p07Codes sends every response and command code.
func p07Codes(allCmds bool) func(c *mc.C) {
	return func(c *mc.C) {
		version, zipped, udp, label := p07Config(c)
		code := byte(c.Choose(256))
		lens := [][]byte{nil, {1, 2, 3, 4, 5}, make([]byte, 40)}
		pay := lens[c.Choose(3)]
		e := p07Start(c, version, zipped, udp)
		n := 14
		if allCmds {
			n = 256
		}
		for i := 0; i < n; i++ {
			cmd := byte(i)
			if !allCmds && i >= 12 {
				cmd = byte(0xF0 + i)
			}
			c.CaseStr(fmt.Sprintf("%s: response code %02x command code %02x payload %d bytes", label, code, cmd, len(pay)))
			e.deliver(body(code, cmd, pay))
			if code != respData && len(e.w.meas) > 0 {
				c.Fail("invented", "delivered %s", measText(e.w.meas))
			}
			if !e.w.sb.IsConnected() {
				e.w.ev = []event{{Kind: "terminated"}}
				break
			}
		}
		if e.w.sb.IsConnected() {
			e.w.ev = nil
		}
		c.Traces(n)
		c.State(label, code, len(pay))
		e.finish(true)
	}
}

// p07Frame changes the frame length in front of a response.
func p07Frame(c *mc.C) {
	version, zipped, _, label := p07Config(c)
	ks := p07Kinds(version, zipped)
	k := ks[c.Choose(len(ks))]
	n := len(k.body)
	v := []uint32{0, 1, 5, uint32(n - 1), uint32(n + 1), 32768, 32769, 65536, 0x00FFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[c.Choose(12)]
	follow := c.Choose(3)
	c.CaseStr(fmt.Sprintf("%s: %s with frame length %d instead of %d, followed by %d", label, k.name, v, n, follow))
	e := p07Start(c, version, zipped, false)
	e.p.send(cat(be32(v), k.body))
	vrt.Idle()
	switch follow {
	case 1:
		e.p.send(make([]byte, 70000))
		vrt.Idle()
	case 2:
		e.p.p.Close()
		vrt.Idle()
		if e.w.sb.IsConnected() {
			c.Fail("connected", "still connected after the peer closed")
		}
	}
	c.State(label, k.name, v, follow)
	e.finish(false)
}

// p07Pairs sends two cut-short responses in a row, of all kinds.
func p07Pairs(c *mc.C) {
	version := 1 + c.Choose(2)
	ks := p07Kinds(version, true)
	a, b := ks[c.Choose(len(ks))], ks[c.Choose(len(ks))]
	n := c.Choose(min(len(a.body), 30) + 1)
	m := c.Choose(min(len(b.body), 30)+1)/3*3 + 0
	c.CaseStr(fmt.Sprintf("version %d: %s cut to %d, then %s cut to %d", version, a.name, n, b.name, m))
	e := p07Start(c, version, true, false)
	e.deliver(a.body[:n])
	if e.w.sb.IsConnected() {
		e.deliver(b.body[:min(m, len(b.body))])
	}
	c.State(a.name, n, b.name, m)
	e.finish(true)
}

// ---- P17 ----

func p17First(allCmds bool) func(c *mc.C) {
	return func(c *mc.C) {
		conn := c.Choose(4) // first, again, automatic reconnect, accepted
		version := 2 + c.Choose(2)
		code := byte(c.Choose(256))
		nc := 14
		if allCmds {
			nc = 256
		}
		ci := c.Choose(nc)
		cmd := byte(ci)
		if !allCmds && ci >= 12 {
			cmd = byte(0xF0 + ci)
		}
		size := []int{0, 40}[c.Choose(2)]
		p17Run(c, conn, version, body(code, cmd, make([]byte, size)), -1)
	}
}

func p17Sizes(c *mc.C) {
	conn := c.Choose(4)
	codes := [][2]byte{{respSucceeded, cmdModes}, {respFailed, cmdModes}, {respNoOP, 0}, {respData, 2}}
	k := codes[c.Choose(len(codes))]
	size := []int{0, 1, 8191, 8192, 8193, 32762, 60000}[c.Choose(7)]
	p17Run(c, conn, 2, body(k[0], k[1], make([]byte, size)), -1)
}

func p17Lengths(c *mc.C) {
	conn := c.Choose(4)
	v := []int64{0, 1, 2, 5, 8199, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x47455420, 0x16030102}[c.Choose(11)]
	p17Run(c, conn, 2, make([]byte, 64), v)
}

func p17Run(c *mc.C, conn, version int, first []byte, length int64) {
	w := newWorld(c)
	w.cfg.Version = byte(version)
	label := []string{"first", "second", "automatic", "accepted"}[conn]
	l := length
	if l < 0 {
		l = int64(len(first))
	}
	c.CaseStr(fmt.Sprintf("%s connection, version %d: first response length %d %x", label, version, l, first[:min(8, len(first))]))
	silent := &autoPub{}
	switch conn {
	case 0:
		w.auto = silent
		w.connectQuiet()
	case 1:
		w.connectQuiet()
		w.subscribe()
		w.last().p.Close()
		vrt.Idle()
		w.auto = silent
		w.connect()
	case 2:
		w.cfg.AutoReconnect = true
		w.cfg.MaxRetries = -1
		w.accept = func(n int) bool { return n < 2 }
		w.connectQuiet()
		w.subscribe()
		w.auto = silent
		w.last().p.Close()
		w.sleep(2e9)
	case 3:
		w.auto = silent
		if err := w.sb.Listen(":7165", w.cfg); err != nil {
			c.Fail("listen", "%v", err)
		}
		vrt.Idle()
		w.sim.Connect(7165)
		vrt.Idle()
	}
	p := w.last()
	wantPubs := []int{1, 2, 2, 1}[conn]
	if len(w.pubs) != wantPubs || !w.sb.IsConnected() {
		c.Fail("connect", "%d connections, connected %v", len(w.pubs), w.sb.IsConnected())
	}
	if w.sb.IsValidated() {
		c.Fail("validated", "validated before any response was received")
	}
	if w.sb.IsSubscribed() {
		c.Fail("subscribed", "subscribed before any response was received")
	}
	w.sb.Subscribe("y", nil)
	vrt.Idle()
	if p.count(cmdSubscribe) != 0 {
		c.Fail("subscribe", "subscribe command sent before validation: %s", p.codes())
	}
	w.ev = nil
	p.send(cat(be32(uint32(l)), first))
	vrt.Idle()
	valid := l == int64(len(first)) && l >= 6 && l <= 6+8192 && (first[0] == respNoOP || first[1] == cmdModes && (first[0] == respSucceeded || first[0] == respFailed))
	if length >= 0 && length < 6 || length > 6+8192 {
		valid = false
	}
	if w.n("data")+w.n("blocks")+w.n("start")+w.n("metadata")+w.n("notify")+w.n("updated")+w.n("complete")+w.n("config") > 0 {
		c.Fail("callback", "application was called: %v", w.ev)
	}
	if w.sb.IsSubscribed() {
		c.Fail("subscribed", "subscription state changed")
	}
	if valid {
		if !w.sb.IsConnected() || !w.sb.IsValidated() {
			c.Fail("refused", "valid first response: connected %v validated %v", w.sb.IsConnected(), w.sb.IsValidated())
		}
	} else {
		if w.sb.IsConnected() || w.sb.IsValidated() || !p.p.LibClosed {
			c.Fail("accepted", "invalid first response: connected %v validated %v socket closed %v", w.sb.IsConnected(), w.sb.IsValidated(), p.p.LibClosed)
		}
		if w.n("error") == 0 {
			c.Fail("silent", "no error was reported")
		}
		if p.count(cmdSubscribe) != 0 {
			c.Fail("subscribe", "subscribe command sent to an invalid peer: %s", p.codes())
		}
	}
	c.State(label, version, l, first[0], first[1])
	c.Outcome(fmt.Sprint(valid, label))
	w.closeAll()
}

// p17Direct: the transport layer's own subscribe before and after validation.
func p17Direct(c *mc.C) {
	w := newWorld(c)
	version := 1 + c.Choose(3)
	answer := c.Choose(4) // none, success, failure, no-operation
	c.Case("version %d, first response %d, subscribing through the transport layer", version, answer)
	w.auto = &autoPub{}
	ds := transport.NewDataSubscriber()
	ds.Version = byte(version)
	if err := ds.Connect("publisher", 7165); err != nil {
		c.Fail("connect", "%v", err)
	}
	vrt.Idle()
	p := w.last()
	codes := [][2]byte{{}, {respSucceeded, cmdModes}, {respFailed, cmdModes}, {respNoOP, 0}}
	if answer > 0 {
		p.send(resp(codes[answer][0], codes[answer][1], []byte("x")))
		vrt.Idle()
	}
	valid := version < 2 || answer > 0
	if ds.IsValidated() != (answer > 0) && version >= 2 {
		c.Fail("validated", "validated %v", ds.IsValidated())
	}
	err := ds.Subscribe()
	vrt.Idle()
	n := 0
	if valid {
		n = 1
	}
	if (err == nil) != valid || p.count(cmdSubscribe) != n {
		c.Fail("subscribe", "subscribing returned %v, commands %s", err, p.codes())
	}
	if ds.IsSubscribed() {
		c.Fail("subscribed", "subscribed without an answer")
	}
	c.State(version, answer)
	ds.Disconnect()
	vrt.Idle()
	ds.Dispose()
	vrt.Idle()
	if err := ds.Subscribe(); err == nil || p.count(cmdSubscribe) != n {
		c.Fail("subscribe", "subscribing without a connection returned no error")
	}
	w.closeAll()
}

// ---- P21 ----

// tableXML is a dataset with an empty measurement table and a table of one row.
func tableXML(name string) []byte {
	el := func(name, col string) string {
		return `<xs:element name="` + name + `"><xs:complexType><xs:sequence><xs:element name="` + col + `" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>`
	}
	return []byte(`<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="DataSet"><xs:complexType><xs:choice>` +
		el("MeasurementDetail", "SignalID") + el(name, "A") +
		`</xs:choice></xs:complexType></xs:element></xs:schema><` + name + `><A>1</A></` + name + `></DataSet>`)
}

var p21Names = []string{"succ-sub", "succ-unsub", "succ-modes", "succ-keys", "succ-interval", "fail-sub", "fail-unsub", "fail-interval", "fail-keys", "fail-meta", "notify", "config", "start", "complete", "base", "noop", "metadata", "fail-modes"}

func p21History(depth int, kinds []int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.cfg.CompressMetadata = false
		var metas []string
		p := w.connectQuiet()
		vrt.NoChoice(func() { w.subscribe() })
		w.ev = nil
		subscribed := true
		type want struct{ kind, text string }
		var wants []want
		var hashes []string
		confirmed0 := p.count(cmdConfirmNotify)
		var starts []string
		hist := ""
		n := map[string]int{}
		back := c.Choose(2) == 1
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := kinds[c.Choose(len(kinds))]
			hist += " " + p21Names[a]
			c.CaseStr(fmt.Sprintf("back to back %v history%s", back, hist))
			text := fmt.Sprintf("<text %d of %s%s", k, strings.Repeat("x", 20+5*k), []string{">", "\x00", "é世 ", "\r\n\t"}[(a+k)%4])
			switch a {
			case 0, 1, 2, 3, 4:
				cmd := []byte{cmdSubscribe, cmdUnsubscribe, cmdModes, cmdRotateKeys, cmdInterval}[a]
				p.send(resp(respSucceeded, cmd, []byte(text)))
				wants = append(wants, want{"status", text})
				if a == 0 {
					subscribed = true
				}
				if a == 1 {
					subscribed = false
				}
			case 5, 6, 7, 8, 9, 17:
				cmd := []byte{cmdSubscribe, cmdUnsubscribe, cmdInterval, cmdRotateKeys, cmdMetadata, cmdModes}[min(a-5, 5)]
				p.send(resp(respFailed, cmd, []byte(text)))
				wants = append(wants, want{"error", text})
			case 10:
				h := be32(uint32(0x1000 + k*7919))
				p.send(resp(respNotify, 0, cat(h, []byte(text))))
				wants = append(wants, want{"notify", text})
				hashes = append(hashes, string(h))
			case 11:
				p.send(resp(respConfigChg, 0, nil))
				n["config"]++
			case 12:
				t := int64(baseT) + int64(k)*10_000_000
				p.send(resp(respStartTime, cmdSubscribe, be64(uint64(t))))
				starts = append(starts, fmt.Sprint(ticks.Ticks(t).ToTime().UnixNano()))
			case 13:
				p.send(resp(respComplete, cmdSubscribe, []byte(text)))
				n["complete"]++
				wants = append(wants, want{"status", text})
			case 14:
				p.send(baseResp(uint32(k%2), baseT, baseT+600000000))
				n["base"]++
			case 15:
				p.send(resp(respNoOP, byte(k), []byte(text)))
			case 16:
				name := fmt.Sprintf("T%d%s", k, strings.Repeat("y", 10*k))
				p.send(resp(respSucceeded, cmdMetadata, tableXML(name)))
				metas = append(metas, "MeasurementDetail,"+name)
			}
			if !back {
				vrt.Idle()
			}
		}
		vrt.Idle()
		for _, x := range wants {
			cnt := map[string]int{}
			for _, e := range w.ev {
				if strings.Contains(e.Text, x.text) {
					cnt[e.Kind]++
				}
			}
			if cnt[x.kind] != 1 {
				c.Fail("lost", "%s event %q delivered %d times; events %v", x.kind, x.text, cnt[x.kind], w.ev)
			}
			for k, v := range cnt {
				if k != x.kind && !(k == "status" && x.kind == "notify" && v == 1) {
					c.Fail("wrong", "%s event %q also delivered as %s", x.kind, x.text, k)
				}
			}
			if x.kind == "notify" {
				ok := false
				for _, t := range w.texts("notify") {
					ok = ok || t == x.text
				}
				if !ok {
					c.Fail("content", "notification %q was delivered as %q", x.text, w.texts("notify"))
				}
			}
		}
		expectErr := 0
		for _, x := range wants {
			if x.kind == "error" {
				expectErr++
			}
		}
		if w.n("error") != expectErr {
			c.Fail("wrong", "%d error events for %d failures: %v", w.n("error"), expectErr, w.texts("error"))
		}
		if w.n("notify") != len(hashes) || w.n("config") != n["config"] || w.n("complete") != n["complete"] {
			c.Fail("count", "events %v, sent %d notifications %v", w.ev, len(hashes), n)
		}
		if fmt.Sprint(w.texts("start")) != fmt.Sprint(starts) {
			c.Fail("start", "start times %v, sent %v", w.texts("start"), starts)
		}
		var conf []string
		for _, m := range p.cmds {
			if m.Code == cmdConfirmNotify {
				conf = append(conf, string(m.Payload))
			}
		}
		conf = conf[confirmed0:]
		if fmt.Sprintf("%x", conf) != fmt.Sprintf("%x", hashes) {
			c.Fail("confirm", "confirmed %x, sent %x", conf, hashes)
		}
		got := map[string]int{}
		for _, t := range w.texts("metadata") {
			got[t]++
		}
		for _, m := range metas {
			got[m]--
		}
		for k, v := range got {
			if v != 0 {
				c.Fail("metadata", "metadata %q delivered %d times too often", k, v)
			}
		}
		if w.n("data")+w.n("blocks")+w.n("updated")+w.n("established")+w.n("terminated") > 0 {
			c.Fail("wrong", "unrelated events %v", w.ev)
		}
		if n["base"] > 0 && w.n("status") == 0 {
			c.Fail("lost", "no status event for base times")
		}
		if w.sb.IsSubscribed() != subscribed {
			c.Fail("subscribed", "reported subscribed %v, should be %v", w.sb.IsSubscribed(), subscribed)
		}
		if !w.sb.IsConnected() {
			c.Fail("connection", "the connection was dropped")
		}
		c.State(hist, back)
		c.Outcome(fmt.Sprint(len(w.ev)))
		vrt.PauseChoices()
		w.closeAll()
	}
}

// ---- P22 ----

var p22Names = []string{"datagram0", "datagram1", "keysA", "keysB", "unsubscribe", "subscribe", "notify", "big", "drop+dial", "disconnect+dial", "tcp-data", "to-tcp"}

func p22History(depth int, acts []int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.recycle = c.Choose(2) == 1
		const port = 9600
		s := sttp.NewSettings()
		s.UdpPort = port
		key := func(n, l int) []byte {
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(n + i*7)
			}
			return b
		}
		var keys *[2][2][]byte
		tick := int64(baseT)
		var want []transport.Measurement
		dataBytes, counted := uint64(0), true
		p := w.connectQuiet()
		open := false
		gen := 0
		start := func() {
			w.sb.Subscribe("x", s)
			vrt.Idle()
			open = true
			gen++
			p.send(cacheResp(2, 0, sig(99), cacheA(0, gen), true, false))
			vrt.Idle()
		}
		start()
		send := func(parity, n int) {
			var ms []cm
			for i := 0; i < n; i++ {
				tick++
				ms = append(ms, full(int32(i%3), float32(tick%9999), tick))
			}
			d := compactData(0, ms...)
			if parity == 1 {
				d[0] |= flagCipher
			}
			if keys != nil {
				d = cat(d[:1], encipher(keys[parity][0], keys[parity][1], d[1:]))
			}
			b := body(respData, cmdSubscribe, d)
			if !w.sim.SendUDP(port, b) {
				if open {
					c.Fail("port", "the UDP port is not open while subscribed")
				}
				return
			}
			vrt.Idle()
			if !open {
				return
			}
			dataBytes += uint64(len(b))
			es := cacheA(0, gen)
			for _, m := range ms {
				want = append(want, transport.Measurement{SignalID: es[m.ID].Sig, Value: float64(math.Float32frombits(m.Val)), Timestamp: ticks.Ticks(binary.BigEndian.Uint64(m.Time))})
			}
		}
		hist := ""
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := acts[c.Choose(len(acts))]
			hist += " " + p22Names[a]
			c.CaseStr(fmt.Sprintf("recycle %v history%s", w.recycle, hist))
			switch a {
			case 0, 1:
				send(a, 1+k)
			case 2, 3:
				l := []int{16, 32}[a-2]
				keys = &[2][2][]byte{{key(a*50+k, l), key(a, 16)}, {key(a*50+k+9, l), key(a+100, 16)}}
				p.send(keysResp(keys[0], keys[1]))
			case 4:
				w.sb.Unsubscribe()
				vrt.Idle()
				open = false
				if w.sim.UDPOpen(port) {
					c.Fail("port", "the UDP port is open after unsubscribing")
				}
				if w.sb.IsSubscribed() {
					c.Fail("subscribed", "subscribed after unsubscribing")
				}
			case 5:
				start()
			case 6:
				n := p.count(cmdConfirmNotify)
				p.send(resp(respNotify, 0, cat(be32(7), []byte("n"))))
				vrt.Idle()
				if p.count(cmdConfirmNotify) != n+1 {
					c.Fail("command", "the command channel does not answer; connected %v", w.sb.IsConnected())
				}
			case 7:
				send(k%2, 1500)
			case 8, 9:
				if a == 8 {
					p.p.Close()
				} else {
					w.sb.Disconnect()
				}
				vrt.Idle()
				if w.sim.UDPOpen(port) {
					c.Fail("port", "the UDP port is open after the connection ended")
				}
				p = w.connect()
				keys, dataBytes, counted = nil, 0, true
				open = false
				if c.Choose(2) == 0 {
					start()
				}
			case 11:
				// subscribe again without a UDP channel
				t := *s
				t.UdpPort = 0
				w.sb.Subscribe("x", &t)
				vrt.Idle()
				if w.sim.UDPOpen(port) {
					c.Fail("port", "the UDP port is open after subscribing without it")
				}
				open = false
				counted = false
			}
			vrt.Idle()
			w.expectMeas("measurements", want)
			if !w.sb.IsConnected() {
				c.Fail("connection", "the connection was dropped; errors %v", w.texts("error"))
			}
			if open && counted && w.sb.TotalDataChannelBytesReceived() != dataBytes {
				c.Fail("bytes", "data channel bytes %d, sent %d", w.sb.TotalDataChannelBytesReceived(), dataBytes)
			}
		}
		c.State(hist, w.recycle)
		c.Outcome(fmt.Sprint(len(want)))
		w.closeAll()
	}
}

func init() {
	register(mc.Check{
		ID:          "P07",
		Rule:        "every truncation, every byte offset set to each boundary word, every byte changed four ways, every response code, every boundary frame length, on every response kind, version and channel",
		Assumptions: []string{"default thread schedule", "one or two malformed responses per connection"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "truncated", Body: p07Truncate},
				{Name: "frame-length", Body: p07Frame},
				{Name: "bytes", Body: p07Bytes},
				{Name: "fields", Body: p07Fields, Share: 2},
				{Name: "codes", Body: p07Codes(tier == "thorough")},
				{Name: "pairs", Body: p07Pairs, Share: 2},
				{Name: "compressed", Body: p07Tssc, MaxSteps: 2_000_000},
			}
		},
	})
	register(mc.Check{
		ID:          "P17",
		Rule:        "every first response code with every command code, payload size class and boundary frame length on first, repeated, automatic and accepted connections",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "codes", Body: p17First(tier == "thorough")},
				{Name: "sizes", Body: p17Sizes},
				{Name: "lengths", Body: p17Lengths},
				{Name: "transport", Body: p17Direct},
			}
		},
	})
	register(mc.Check{
		ID:          "P21",
		Rule:        "every history of server responses up to the depth bound; every schedule of the asynchronous handlers up to the deviation bound for shorter histories",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "lengths", Body: p21Lengths, MaxSteps: 5_000_000},
				{Name: "repeated", Body: p21History(60, all), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "histories", Body: p21History(4, all)},
				{Name: "delayed", Body: p21History(2, []int{0, 1, 5, 10, 11, 12, 13, 16}), Bound: 2 + d},
				{Name: "overlapping", Body: p21History(3, []int{0, 10, 13, 16}), Bound: 2 + d},
			}
		},
	})
	register(mc.Check{
		ID:          "P22",
		Rule:        "every history of key updates, datagrams, unsubscribe/subscribe cycles and connection changes up to the depth bound; every schedule up to the deviation bound of arrivals on both channels",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "sizes", Body: p22Sizes, MaxSteps: 20_000_000},
				{Name: "repeated", Body: p22History(40, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11}), Lasso: 3 + d, MaxSteps: 20_000_000},
				{Name: "histories", Body: p22History(4+d, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11})},
				{Name: "keys", Body: p22History(5+d, []int{0, 1, 2, 3, 8})},
				{Name: "rotation", Body: p22Rotation, Bound: 2 + d},
				{Name: "beside", Body: sideBySide(true), Bound: 1 + d},
			}
		},
	})
}
