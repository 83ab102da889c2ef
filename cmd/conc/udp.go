package main

import (
	"fmt"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// Datagrams and application threads run beside the command channel, so what
// arrives there must be taken over in one step.

const sidePort = 9600

func sidePacket(slot int, es []entry, tick int64, value float64) ([]byte, []transport.Measurement) {
	var ms []cm
	var want []transport.Measurement
	for _, e := range es {
		ms = append(ms, full(e.Idx, float32(value), tick))
		want = append(want, transport.Measurement{SignalID: e.Sig, Value: value, Timestamp: ticks.Ticks(tick)})
	}
	return compactData(slot, ms...), want
}

// expectPacks compares the delivered sets of measurements without regard to
// their order.
func (w *world) expectPacks(key string, want ...[]transport.Measurement) {
	left := append([][]transport.Measurement(nil), w.packs...)
next:
	for _, ws := range want {
		for i, got := range left {
			if len(got) != len(ws) {
				continue
			}
			same := true
			for k := range got {
				same = same && sameMeas(got[k], ws[k])
			}
			if same {
				left = append(left[:i], left[i+1:]...)
				continue next
			}
		}
		w.c.Fail(key, "the packet %v was not delivered; delivered were %v; errors %q", ws, w.packs, w.texts("error"))
	}
	if len(left) > 0 {
		w.c.Fail(key, "delivered were %v, nobody sent %v", w.packs, left)
	}
}

// p08Beside: an application reads the active cache and datagrams arrive while
// an update is taken over.
func p08Beside(c *mc.C) {
	w := newWorld(c)
	who := c.Choose(3)
	first := c.Choose(2)
	names := []string{"an application thread reads", "a datagram for the other cache arrives", "a datagram follows the confirmation"}
	c.Case("cache in slot %d, update for slot %d while %s", first, 1-first, names[who])
	p := w.connectQuiet()
	s := sttp.NewSettings()
	s.UdpPort = sidePort
	old, now := p08Sets[0], p08Sets[3]
	var ts []*task
	var want [][]transport.Measurement
	var seen []*transport.SignalIndexCache
	datagram := func(slot int, es []entry, tick int64) {
		d, ms := sidePacket(slot, es, tick, 4.5)
		want = append(want, ms)
		if !w.sim.SendUDP(sidePort, body(respData, cmdSubscribe, d)) {
			c.Fail("port", "the UDP port is not open while subscribed")
		}
	}
	vrt.NoChoice(func() {
		w.sb.Subscribe("x", s)
		vrt.Idle()
		p.send(cacheResp(2, first, sig(90), old, true, false))
		vrt.Idle()
	})
	if who == 2 {
		w.auto.On = func(q *pub, m cmdMsg) bool {
			if m.Code == cmdConfirmCache {
				datagram(1-first, now, baseT)
			}
			return false
		}
	}
	vrt.SetStmt(true)
	p.send(cacheResp(2, 1-first, sig(91), now, true, false))
	switch who {
	case 0:
		ts = append(ts, spawn("reader", func() {
			for i := 0; i < 3; i++ {
				seen = append(seen, w.sb.ActiveSignalIndexCache())
			}
		}))
	case 1:
		datagram(first, old, baseT)
		datagram(first, old, baseT+1)
	}
	for _, t := range ts {
		t.wait()
	}
	vrt.Idle()
	vrt.SetStmt(false)
	vrt.PauseChoices()
	seen = append(seen, w.sb.ActiveSignalIndexCache())
	updated := false
	for i, x := range seen {
		if x != nil && int(x.Count()) == len(old) && x.SignalID(0) == old[0].Sig && !updated && i < len(seen)-1 {
			checkCache(c, fmt.Sprintf("active cache at read %d", i), x, old)
			continue
		}
		updated = true
		checkCache(c, fmt.Sprintf("active cache at read %d", i), x, now)
	}
	w.expectPacks("resolve", want...)
	if n := p.count(cmdConfirmCache); n != 2 || w.n("updated") != 2 {
		c.Fail("confirm", "two updates accepted, %d confirmed and %d announced", n, w.n("updated"))
	}
	c.State(who, first)
	c.Outcome(fmt.Sprint(len(seen), updated))
	w.closeAll()
}

// p22Rotation: datagrams of one parity arrive while the keys of the other
// parity are replaced.
func p22Rotation(c *mc.C) {
	w := newWorld(c)
	parity := c.Choose(2)
	sent := 1 + c.Choose(2)
	c.Case("%d datagrams of parity %d while the keys of the other parity are replaced", sent, parity)
	p := w.connectQuiet()
	s := sttp.NewSettings()
	s.UdpPort = sidePort
	key := func(n, l int) []byte {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(n + i*7)
		}
		return b
	}
	keys := [2][2][]byte{{key(1, 32), key(2, 16)}, {key(3, 32), key(4, 16)}}
	es := cacheA(0, 1)
	vrt.NoChoice(func() {
		w.sb.Subscribe("x", s)
		vrt.Idle()
		p.send(cacheResp(2, 0, sig(99), es, true, false))
		p.send(keysResp(keys[0], keys[1]))
		vrt.Idle()
	})
	var want [][]transport.Measurement
	datagram := func(parity int, tick int64) {
		d, ms := sidePacket(0, es, tick, 4.5)
		if parity == 1 {
			d[0] |= flagCipher
		}
		want = append(want, ms)
		if !w.sim.SendUDP(sidePort, body(respData, cmdSubscribe, cat(d[:1], encipher(keys[parity][0], keys[parity][1], d[1:])))) {
			c.Fail("port", "the UDP port is not open while subscribed")
		}
	}
	keys[1-parity] = [2][]byte{key(50, 32), key(60, 16)}
	vrt.SetStmt(true)
	p.send(keysResp(keys[0], keys[1]))
	for i := 0; i < sent; i++ {
		datagram(parity, baseT+int64(i))
	}
	vrt.Idle()
	vrt.SetStmt(false)
	vrt.PauseChoices()
	datagram(1-parity, baseT+10)
	vrt.Idle()
	w.expectPacks("data", want...)
	c.State(parity, sent)
	w.closeAll()
}

// sideBySide: data arrive on both channels at the same time.
func sideBySide(ciphered bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.recycle = c.Choose(2) == 1
		nu, nt := 1+c.Choose(2), 1+c.Choose(2)
		c.Case("ciphered %v recycle %v, %d datagrams and %d packets", ciphered, w.recycle, nu, nt)
		p := w.connectQuiet()
		s := sttp.NewSettings()
		s.UdpPort = sidePort
		key, iv := make([]byte, 32), make([]byte, 16)
		for i := range key {
			key[i], iv[i/2] = byte(5+i*7), byte(9+i)
		}
		sets := [][]entry{cacheA(0, 1), cacheA(1, 1)}
		sets[1] = sets[1][:2]
		base := int64(baseT)
		datagram := func(k int) []transport.Measurement {
			d, ms := sidePacket(0, sets[0], base+int64(k), 4.5)
			if ciphered {
				d = cat(d[:1], encipher(key, iv, d[1:]))
			}
			if !w.sim.SendUDP(sidePort, body(respData, cmdSubscribe, d)) {
				c.Fail("port", "the UDP port is not open while subscribed")
			}
			return ms
		}
		packet := func(k int) []transport.Measurement {
			d, ms := sidePacket(1, sets[1], base+100+int64(k), 6.25)
			if ciphered {
				d = cat(d[:1], encipher(key, iv, d[1:]))
			}
			p.send(resp(respData, cmdSubscribe, d))
			return ms
		}
		var want [][]transport.Measurement
		vrt.NoChoice(func() {
			w.sb.Subscribe("x", s)
			vrt.Idle()
			p.send(cacheResp(2, 0, sig(90), sets[0], true, false), cacheResp(2, 1, sig(91), sets[1], true, false))
			if ciphered {
				p.send(keysResp([2][]byte{key, iv}, [2][]byte{key, iv}))
			}
			vrt.Idle()
			// slices are in circulation
			want = append(want, datagram(50), packet(50))
			vrt.Idle()
		})
		total := w.sb.TotalDataChannelBytesReceived()
		vrt.SetStmt(true)
		for k := 0; k < nu; k++ {
			want = append(want, datagram(k))
		}
		for k := 0; k < nt; k++ {
			want = append(want, packet(k))
		}
		vrt.Idle()
		vrt.SetStmt(false)
		vrt.PauseChoices()
		w.expectPacks("data", want...)
		var du, dt int64
		sum := 0
		for _, m := range w.packs {
			sum += len(m)
			at := int64(m[0].Timestamp) - base
			last := &du
			if at >= 100 {
				last = &dt
			}
			if at%100 != 50 {
				if *last > at {
					c.Fail("order", "packets of one channel were delivered out of order: %v", w.packs)
				}
				*last = at
			}
		}
		if g := w.sb.TotalMeasurementsReceived(); g != uint64(sum) {
			c.Fail("total", "%d measurements delivered, total received %d", sum, g)
		}
		c.State(ciphered, w.recycle, nu, nt)
		c.Outcome(fmt.Sprint(total))
		w.closeAll()
	}
}
