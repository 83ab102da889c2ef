package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/ref"
	"verif.local/mc/shim/vrt"
)

// flagGroups is the documented meaning of the low six compact flag bits.
var flagGroups = [6]uint32{0x000000FC, 0x0000EF03, 0x00BF0000, 0xE0000000, 0x00001000, 0x00400000}

func fullFlags(b byte) transport.StateFlagsEnum {
	var f uint32
	for i, g := range flagGroups {
		if b>>i&1 == 1 {
			f |= g
		}
	}
	return transport.StateFlagsEnum(f)
}

// ---- P02 ----

var p02IDs = []int32{0, 1, 0x102, 0x7FFFFFFF, -1, math.MinInt32}
var p02Vals = []uint32{0, 0x80000000, 1, f32(1.5), f32(-59.98), 0x7F7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00001, 0x7F800001}

const baseT = 637712345678901234

var p02Bases = [][2]int64{{baseT, baseT + 600000000}, {1, math.MaxInt64 / 4}, {0, baseT}, {baseT, 0}}
var p02Full = []uint64{0, baseT, baseT | 1<<63, baseT | 1<<63 | 1<<62, 1<<62 - 1, 0xFFFFFFFFFFFFFFFF}

func p02Decode(c *mc.C) {
	inc, ms := c.Choose(2) == 1, c.Choose(2) == 1
	base := p02Bases[c.Choose(len(p02Bases))]
	active := c.Choose(2)
	hi := c.Choose(16)
	prior := c.Choose(2) == 1
	c.Case("includeTime %v millisecond %v base times %v active %d flags %x_ replacing others %v", inc, ms, base, active, hi, prior)
	w := newWorld(c)
	var want []transport.Measurement
	w.quiet = true
	var last []byte
	w.onMeas = func(m *[]transport.Measurement) {
		for _, g := range *m {
			if len(want) == 0 {
				c.Fail("extra", "delivered %s, nothing left of packet %x", measText([]transport.Measurement{g}), last)
			}
			if !sameMeas(g, want[0]) {
				c.Fail("decode", "delivered %s, publisher encoded %s in packet %x", measText([]transport.Measurement{g}), measText(want[:1]), last)
			}
			want = want[1:]
		}
	}
	p := w.connectQuiet()
	s := sttp.NewSettings()
	s.IncludeTime, s.UseMillisecondResolution = inc, ms
	w.sb.Subscribe("x", s)
	vrt.Idle()
	var es []entry
	for i, id := range p02IDs {
		es = append(es, entry{id, sig(i + 1), "PPA", uint64(i)})
	}
	if prior {
		p.send(baseResp(uint32(1-active), baseT-5, baseT-77))
	}
	p.send(cacheResp(2, 0, sig(99), es, true, false), baseResp(uint32(active), base[0], base[1]))
	vrt.Idle()
	var pend []cm
	per, packs := 1, 0
	flush := func() {
		if len(pend) == 0 {
			return
		}
		last = compactResp(0, pend...)
		p.send(last)
		pend = pend[:0]
		per = per%3 + 1
		packs++
		vrt.Idle()
		if len(want) > 0 {
			c.Fail("lost", "measurements of packet %x were not delivered: %s", last, measText(want))
		}
	}
	n := 0
	for lo := 0; lo < 16; lo++ {
		fl := byte(hi<<4 | lo)
		var times [][]byte
		var wantT []ticks.Ticks
		b := base[fl>>7]
		switch {
		case !inc:
			times, wantT = [][]byte{nil}, []ticks.Ticks{0}
		case fl&0x40 == 0:
			for _, t := range p02Full {
				times = append(times, be64(t))
				wantT = append(wantT, ticks.Ticks(t))
			}
		case b == 0:
			continue // a publisher never uses an offset without a base time
		case ms:
			for _, o := range []uint16{0, 1, 0x102, 0x7FFF, 0x8000, 0xFFFF} {
				times = append(times, binary.BigEndian.AppendUint16(nil, o))
				wantT = append(wantT, ticks.Ticks(b+int64(o)*10000))
			}
		default:
			for _, o := range []uint32{0, 1, 0x10203, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF} {
				times = append(times, be32(o))
				wantT = append(wantT, ticks.Ticks(b+int64(o)))
			}
		}
		for ti := range times {
			for ii, id := range p02IDs {
				for _, v := range p02Vals {
					pend = append(pend, cm{fl, id, v, times[ti]})
					want = append(want, transport.Measurement{SignalID: sig(ii + 1), Value: float64(math.Float32frombits(v)), Timestamp: wantT[ti], Flags: fullFlags(fl)})
					n++
					if len(pend) >= per {
						flush()
					}
				}
			}
		}
	}
	flush()
	c.Traces(n)
	c.State(inc, ms, base, active, hi)
	c.Outcome(fmt.Sprint(inc, ms, hi))
	w.closeAll()
}

// p02Encode serialises with the library's own length, flag, index and offset
// functions and decodes the result again.
func p02Encode(c *mc.C) {
	inc, ms := c.Choose(2) == 1, c.Choose(2) == 1
	base := p02Bases[c.Choose(len(p02Bases))]
	ti := c.Choose(2)
	c.Case("includeTime %v millisecond %v base times %v index %d", inc, ms, base, ti)
	w := newWorld(c)
	w.quiet = true
	p := w.connectQuiet()
	var es []entry
	for i, id := range p02IDs {
		es = append(es, entry{id, sig(i + 1), "PPA", uint64(i)})
	}
	w.subscribe()
	p.send(cacheResp(2, 0, sig(99), es, true, false))
	vrt.Idle()
	sic := w.sb.ActiveSignalIndexCache()
	var times []ticks.Ticks
	for _, d := range []int64{-1, 0, 1, 9999, 10000, 10001, 655349999, 655350000, 655360000, math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1} {
		times = append(times, ticks.Ticks(base[ti]+d))
	}
	for _, t := range p02Full {
		times = append(times, ticks.Ticks(t))
	}
	n := 0
	for bit := -1; bit < 32; bit++ {
		for k, t := range times {
			m := transport.NewCompactMeasurement(sic, inc, ms, &base)
			// the same value may have been decoded before, with or without a base time
			m.SetCompactStateFlags(byte(ti<<7 | (k+bit+1)&1<<6))
			m.SignalID = sig(1 + (k+bit+1)%len(p02IDs))
			m.Value = float64(math.Float32frombits(p02Vals[(k+bit+1)%len(p02Vals)]))
			m.Timestamp = t
			m.Flags = 0
			if bit >= 0 {
				m.Flags = 1 << bit
			}
			l := m.GetBinaryLength()
			buf := cat([]byte{m.GetCompactStateFlags()}, be32(uint32(m.GetRuntimeID())), be32(math.Float32bits(float32(m.Value))))
			wantT := ticks.Ticks(0)
			switch l {
			case 9:
			case 11:
				buf = binary.BigEndian.AppendUint16(buf, m.GetTimestampC2())
				wantT = ticks.Ticks(base[ti] + (m.TimestampValue()-base[ti])/10000*10000)
			case 13:
				buf = cat(buf, be32(m.GetTimestampC4()))
				wantT = ticks.Ticks(m.TimestampValue())
			case 17:
				buf = cat(buf, be64(uint64(m.Timestamp)))
				wantT = t
			default:
				c.Fail("length", "binary length %d", l)
			}
			if inc != (l > 9) || l == 11 && !ms || l == 13 && ms {
				c.Fail("length", "binary length %d for time %d", l, t)
			}
			d := transport.NewCompactMeasurement(sic, inc, ms, &base)
			got, err := d.Decode(append(buf, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA))
			want := transport.Measurement{SignalID: m.SignalID, Value: m.Value, Timestamp: wantT}
			for _, g := range flagGroups {
				if g&uint32(m.Flags) != 0 {
					want.Flags |= transport.StateFlagsEnum(g)
				}
			}
			if err != nil || got != len(buf) || !sameMeas(d.Measurement, want) {
				c.Fail("encode", "time %d flag bit %d: encoded %x, decoded %d bytes %v %s, expected %s", int64(t), bit, buf, got, err, measText([]transport.Measurement{d.Measurement}), measText([]transport.Measurement{want}))
			}
			n++
		}
	}
	c.Traces(n)
	w.closeAll()
}

// ---- histories of data packets (P03, P04, P08) ----

// dataModel is what the publisher knows about one connection.
type dataModel struct {
	w       *world
	p       *pub
	version int
	slots   [2][]entry
	known   [2]bool // a cache has been sent for the slot on this connection
	enc     [2]*ref.Encoder
	pubSeq  [2]uint16 // publisher's next sequence number
	expect  [2]uint16 // subscriber's next expected sequence number
	lost    [2]bool   // encoder and decoder state differ
	want    []wantMeas
	since   int // index into want at the last subscribe
	tick    int64
	alive   bool
	fresh   bool // not the first connection
}

type wantMeas struct {
	m     transport.Measurement
	loose bool // unknown index: may be dropped or carry the empty signal ID
	cut   bool // part of a cut-short packet: may be missing
}

func newDataModel(w *world, p *pub, version int) *dataModel {
	return &dataModel{w: w, p: p, version: version, alive: true, tick: baseT}
}

func cacheA(slot, gen int) []entry {
	var es []entry
	for i := 0; i < 3; i++ {
		es = append(es, entry{int32(i + 7*slot), sig(1 + i + 10*slot + 40*gen), fmt.Sprintf("S%d", gen), uint64(i + 100*gen)})
	}
	return es
}

func (d *dataModel) lookup(slot int, id int32) (guid.Guid, bool) {
	for _, e := range d.slots[slot] {
		if e.Idx == id {
			return e.Sig, true
		}
	}
	return guid.Empty, false
}

func (d *dataModel) sendCache(slot int, es []entry) {
	d.p.send(cacheResp(d.version, slot, sig(99), es, d.w.cfg.CompressSignalIndexCache, !d.w.cfg.RfcGuidEncoding))
	d.slots[slot], d.known[slot] = es, true
	d.enc[slot], d.pubSeq[slot], d.expect[slot], d.lost[slot] = ref.NewEncoder(), 0, 0, false
}

func (d *dataModel) compact(slot int, ids ...int32) []cm {
	var ms []cm
	for _, id := range ids {
		d.tick += 333333
		ms = append(ms, full(id, float32(d.tick%100000), d.tick))
	}
	return ms
}

func (d *dataModel) expectCompact(slot int, ms []cm, cut bool) {
	for _, m := range ms {
		g, ok := d.lookup(slot, m.ID)
		d.want = append(d.want, wantMeas{m: transport.Measurement{SignalID: g, Value: float64(math.Float32frombits(m.Val)), Timestamp: ticks.Ticks(binary.BigEndian.Uint64(m.Time))}, loose: !ok, cut: cut})
	}
}

// sendTSSC sends a compressed packet with an explicit sequence number.
func (d *dataModel) sendTSSC(slot int, seq uint16, reset bool, n int) {
	d.makeTSSC(slot, seq, reset, n)()
}

// junkTSSC sends a compressed packet that does not belong to the stream.
func (d *dataModel) junkTSSC(slot int, seq uint16, n int) {
	e := d.enc[slot]
	d.enc[slot] = ref.NewEncoder()
	d.makeTSSC(slot, seq, false, n)()
	d.enc[slot] = e
}

// makeTSSC encodes a compressed packet now and returns the function sending it.
func (d *dataModel) makeTSSC(slot int, seq uint16, reset bool, n int) func() {
	if reset {
		d.enc[slot] = ref.NewEncoder()
	}
	e := d.enc[slot]
	var ms []ref.Meas
	for i := 0; i < n; i++ {
		d.tick += 333333
		id := int32((int(d.tick)/333333)%3 + 7*slot)
		ms = append(ms, ref.Meas{ID: id, Time: d.tick, Flags: uint32(d.tick>>4) & 3, Value: f32(float32(d.tick % 1000))})
	}
	blk := tsscEnc(e, ms...)
	return func() { d.sendBlock(slot, seq, ms, blk) }
}

func (d *dataModel) sendBlock(slot int, seq uint16, ms []ref.Meas, blk []byte) {
	n := len(ms)
	d.p.send(resp(respData, cmdSubscribe, tsscData(slot, seq, n, blk)))
	if seq == 0 {
		d.expect[slot] = 0
	}
	if seq != d.expect[slot] {
		return
	}
	for _, m := range ms {
		g, _ := d.lookup(slot, m.ID)
		d.want = append(d.want, wantMeas{m: transport.Measurement{SignalID: g, Value: float64(math.Float32frombits(m.Value)), Timestamp: ticks.Ticks(m.Time), Flags: transport.StateFlagsEnum(m.Flags)}})
	}
	d.expect[slot]++
	if d.expect[slot] == 0 {
		d.expect[slot] = 1
	}
}

func (d *dataModel) wantText() string {
	var ms []transport.Measurement
	for _, m := range d.want {
		ms = append(ms, m.m)
	}
	return measText(ms)
}

// check compares everything delivered with the model.
func (d *dataModel) check(key string) {
	i := 0
	for _, x := range d.want {
		if i < len(d.w.meas) {
			g := d.w.meas[i]
			if sameMeas(g, x.m) {
				i++
				continue
			}
		}
		if x.loose || x.cut {
			continue
		}
		d.w.c.Fail(key, "delivered %s, expected %s (difference at %d)", measText(d.w.meas), d.wantText(), i)
	}
	if i != len(d.w.meas) {
		d.w.c.Fail(key, "delivered %s, expected %s (extra from %d)", measText(d.w.meas), d.wantText(), i)
	}
}

var p03Modes = []string{"kept", "returned at once", "returned later"}

var p03Names = []string{"compact0", "compact1", "tssc0", "tssc1", "skip0", "repeat0", "reset0", "cache0", "cache1", "empty", "unknown", "resubscribe", "cut", "badflags", "drop+dial"}

func p03History(depth int, modes, acts []int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		mode := modes[c.Choose(len(modes))]
		w.recycle, w.hold = mode > 0, mode/2
		p := w.connectQuiet()
		d := newDataModel(w, p, 2)
		gen := [2]int{}
		w.subscribe()
		d.sendCache(0, cacheA(0, 0))
		vrt.Idle()
		base := 0
		hist := ""
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := acts[c.Choose(len(acts))]
			hist += " " + p03Names[a]
			c.CaseStr("slices " + p03Modes[mode] + " history" + hist)
			if !d.alive && a != 14 {
				break
			}
			switch a {
			case 0, 1:
				s := a
				if !d.known[s] && d.fresh {
					return // what a previous connection's cache says is not this one's business
				}
				ms := d.compact(s, int32(7*s), int32(1+7*s))
				d.p.send(compactResp(s, ms...))
				if d.known[s] {
					d.expectCompact(s, ms, false)
				}
			case 2, 3:
				s := a - 2
				if !d.known[s] {
					d.enc[s] = ref.NewEncoder()
					c.Outcome("skipped")
					break
				}
				d.sendTSSC(s, d.pubSeq[s], false, 2)
				d.pubSeq[s]++
			case 4:
				d.makeTSSC(0, d.pubSeq[0], false, 2)
				d.sendTSSC(0, d.pubSeq[0]+1, false, 2)
				d.pubSeq[0] += 2
			case 5:
				if d.pubSeq[0] < 2 {
					return
				}
				d.junkTSSC(0, d.pubSeq[0]-1, 1)
			case 6:
				d.sendTSSC(0, 0, true, 2)
				d.pubSeq[0] = 1
			case 7, 8:
				s := a - 7
				gen[s]++
				d.sendCache(s, cacheA(s, gen[s]))
				d.pubSeq[s] = 0
			case 9:
				d.p.send(compactResp(0))
			case 10:
				ms := d.compact(0, 0, 55, 1)
				d.p.send(compactResp(0, ms...))
				d.expectCompact(0, ms, false)
			case 11:
				vrt.Idle()
				d.check("measurements")
				w.subscribe()
				base = len(w.meas)
			case 12:
				ms := d.compact(0, 0, 1, 2)
				b := compactData(0, ms...)
				d.p.send(resp(respData, cmdSubscribe, b[:len(b)-3]))
				if d.known[0] {
					d.expectCompact(0, ms[:2], true)
				}
				vrt.Idle()
				d.alive = w.sb.IsConnected()
			case 13:
				ms := d.compact(0, 0, 1)
				b := compactData(0, ms...)
				b[0] = 0
				d.p.send(resp(respData, cmdSubscribe, b))
				vrt.Idle()
				d.alive = w.sb.IsConnected()
			case 14:
				if d.alive {
					vrt.Idle()
					d.p.p.Close()
				}
				vrt.Idle()
				d.check("measurements")
				d.p = w.connect()
				nd := newDataModel(w, d.p, 2)
				nd.want, nd.tick, nd.fresh = d.want, d.tick, true
				d = nd
				w.subscribe()
				base = len(w.meas)
				gen[0]++
				d.sendCache(0, cacheA(0, gen[0]))
			}
			// packets are processed one by one or back to back
			if a == 0 || a == 2 || a == 7 {
				if c.Choose(2) == 1 {
					continue
				}
			}
			vrt.Idle()
		}
		vrt.Idle()
		d.check("measurements")
		w.checkHeld()
		if got, want := w.sb.TotalMeasurementsReceived(), uint64(len(w.meas)-base); d.alive && got != want {
			c.Fail("total", "total received %d, delivered since the last subscribe %d", got, want)
		}
		c.State(hist, mode)
		c.Outcome(fmt.Sprint(len(w.meas)))
		w.closeAll()
	}
}

// ---- P04 ----

var p04Names = []string{"next0", "next1", "skip0", "skip1", "repeat0", "repeat1", "restart0", "restart1", "far0", "cache0", "cache1", "compact0", "resubscribe", "empty0"}

func p04History(depth int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		p := w.connectQuiet()
		d := newDataModel(w, p, 2)
		w.subscribe()
		d.sendCache(0, cacheA(0, 0))
		d.sendCache(1, cacheA(1, 0))
		vrt.Idle()
		hist := ""
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(len(p04Names))
			hist += " " + p04Names[a]
			c.CaseStr("history" + hist)
			switch a {
			case 0, 1:
				d.sendTSSC(a, d.pubSeq[a], false, 2)
				d.pubSeq[a]++
			case 2, 3:
				s := a - 2
				d.makeTSSC(s, d.pubSeq[s], false, 2)
				d.pubSeq[s]++
				d.sendTSSC(s, d.pubSeq[s], false, 2)
				d.pubSeq[s]++
			case 4, 5:
				s := a - 4
				if d.pubSeq[s] < 2 {
					return
				}
				d.junkTSSC(s, d.pubSeq[s]-1, 1)
			case 6, 7:
				s := a - 6
				d.sendTSSC(s, 0, true, 2)
				d.pubSeq[s] = 1
			case 8:
				// far ahead and far behind
				d.junkTSSC(0, d.expect[0]+0x8000, 1)
			case 9, 10:
				s := a - 9
				d.sendCache(s, cacheA(s, k+1))
				d.pubSeq[s] = 0
			case 11:
				ms := d.compact(0, 0, 1)
				d.p.send(compactResp(0, ms...))
				d.expectCompact(0, ms, false)
			case 12:
				vrt.Idle()
				w.subscribe()
			case 13:
				d.sendTSSC(0, d.pubSeq[0], false, 0)
				d.pubSeq[0]++
			}
			vrt.Idle()
			d.check("sequence")
		}
		c.State(hist)
		c.Outcome(fmt.Sprint(len(w.meas)))
		w.closeAll()
	}
}

// p04Roll walks the sequence number through its whole range.
func p04Roll(c *mc.C) {
	slot := c.Choose(2)
	after := c.Choose(5)
	c.Case("roll-over on cache %d followed by variant %d", slot, after)
	w := newWorld(c)
	w.quiet = true
	p := w.connectQuiet()
	d := newDataModel(w, p, 2)
	w.subscribe()
	d.sendCache(0, cacheA(0, 0))
	d.sendCache(1, cacheA(1, 0))
	vrt.Idle()
	vrt.PauseChoices()
	for i := 0; i < 65535; i++ {
		d.sendTSSC(slot, uint16(i), false, 1)
		if i%64 == 0 {
			vrt.Idle()
			d.check("sequence")
			w.meas, d.want = w.meas[:0], d.want[:0]
		}
	}
	vrt.Idle()
	vrt.ResumeChoices()
	seqs := [][]uint16{{65535, 1, 2}, {65535, 2, 1}, {65535, 65535, 1}, {65535, 0, 1, 2}, {0, 65535, 1}}[after]
	for _, s := range seqs {
		if s == d.expect[slot] || s == 0 {
			d.sendTSSC(slot, s, s == 0, 2)
		} else {
			d.junkTSSC(slot, s, 2)
		}
		vrt.Idle()
		d.check("roll-over")
	}
	c.Traces(65535 + len(seqs))
	c.State(slot, after)
	w.closeAll()
}

// ---- P05 ----

func p05History(n, depth int, reconnect bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		version := 1 + c.Choose(2)
		w.cfg.Version = byte(version)
		slot := 0
		if version > 1 {
			slot = c.Choose(2)
		}
		w.recycle = true
		p := w.connectQuiet()
		w.subscribe()
		var held [][]transport.BufferBlock
		w.onBlocks = func(b []transport.BufferBlock) { held = append(held, b) }
		payload := func(conn, i int) []byte {
			l := []int{3, 0, 200, 17, 1}[i%5]
			b := make([]byte, l)
			for k := range b {
				b[k] = byte(conn*100 + i*7 + k)
			}
			return b
		}
		prep := func(conn int) {
			if version > 1 {
				p.send(cacheResp(version, 1-slot, sig(99), cacheA(1-slot, conn), w.cfg.CompressSignalIndexCache, false))
			}
			p.send(cacheResp(version, slot, sig(99), cacheA(slot, conn), w.cfg.CompressSignalIndexCache, false))
			vrt.Idle()
		}
		// blocks name either cache, whichever is the active one
		named := func(i int) int {
			if version > 1 {
				return (slot + i) % 2
			}
			return 0
		}
		conn := 0
		prep(conn)
		hist := ""
		got := map[int]int{}
		next, delivered := 0, 0
		type exp struct {
			conn, i int
		}
		var want []exp
		check := func() {
			flat := []transport.BufferBlock{}
			for _, h := range held {
				flat = append(flat, h...)
			}
			ok := len(flat) == len(want)
			for i := 0; ok && i < len(want); i++ {
				e := want[i]
				ok = flat[i].SignalID == cacheA(named(e.i), e.conn)[e.i%3].Sig && string(flat[i].Buffer) == string(payload(e.conn, e.i))
			}
			if !ok {
				txt := ""
				for _, b := range flat {
					txt += fmt.Sprintf(" %s/%d bytes %x", b.SignalID.String()[1:5], len(b.Buffer), b.Buffer[:min(4, len(b.Buffer))])
				}
				c.Fail("blocks", "delivered%s; expected blocks %v", txt, want)
			}
			for i, k := range got {
				acks := 0
				for _, m := range p.cmds {
					if m.Code == cmdConfirmBlock && string(m.Payload) == string(be32(uint32(i))) {
						acks++
					}
				}
				if acks < 1 || acks > k {
					c.Fail("ack", "block %d arrived %d times and was acknowledged %d times", i, k, acks)
				}
			}
			for _, m := range p.cmds {
				if m.Code == cmdConfirmBlock {
					if len(m.Payload) != 4 || got[int(binary.BigEndian.Uint32(m.Payload))] == 0 {
						c.Fail("ack", "acknowledgement %x of a block that has not arrived", m.Payload)
					}
				}
			}
		}
		acts := n + 1
		if reconnect {
			acts++
		}
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(acts)
			if a > n {
				hist += " reconnect"
				c.CaseStr(fmt.Sprintf("version %d cache %d history%s", version, slot, hist))
				vrt.Idle()
				check()
				p.p.Close()
				vrt.Idle()
				p = w.connect()
				w.subscribe()
				conn++
				got = map[int]int{}
				next = 0
				prep(conn)
				continue
			}
			i := a
			if a == n {
				i = 1000 // far ahead
			}
			hist += fmt.Sprint(" ", i)
			c.CaseStr(fmt.Sprintf("version %d cache %d history%s", version, slot, hist))
			p.send(blockResp(version, uint32(i), byte(named(i)), cacheA(named(i), conn)[i%3].Idx, payload(conn, i)))
			got[i]++
			for got[next] > 0 {
				want = append(want, exp{conn, next})
				next++
				delivered++
			}
			if c.Choose(2) == 0 {
				vrt.Idle()
				check()
			}
		}
		vrt.Idle()
		check()
		c.State(hist, version, slot)
		c.Outcome(fmt.Sprint(delivered))
		w.closeAll()
	}
}

func init() {
	register(mc.Check{
		ID:          "P02",
		Rule:        "every compact flag byte x every boundary signal index, value and timestamp, for every time setting and base time pair, packed one to three per packet",
		Assumptions: []string{"values, indexes and times come from the listed boundary sets"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "decode", Body: p02Decode, MaxSteps: 20_000_000, Share: 4},
				{Name: "encode", Body: p02Encode, MaxSteps: 20_000_000},
			}
		},
	})
	register(mc.Check{
		ID:          "P03",
		Rule:        "every history of publisher actions up to the depth bound, with kept, returned and later returned slices and back-to-back packets; every schedule up to the deviation bound of arrivals on both channels",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "sizes", Body: p03Sizes, MaxSteps: 20_000_000},
				{Name: "many", Body: p03Many, MaxSteps: 20_000_000},
				{Name: "repeated", Body: p03History(40, []int{0, 1, 2}, all), Lasso: 3 + d, MaxSteps: 20_000_000},
				{Name: "slices", Body: p03History(4+d, []int{0, 1, 2}, []int{0, 2, 4, 7, 9, 10, 12, 14})},
				{Name: "beside", Body: sideBySide(false), Bound: 1 + d},
				{Name: "all-actions", Body: p03History(4+d, []int{0, 1}, all)},
				{Name: "packets", Body: p03History(5+d, []int{1}, []int{0, 2, 4, 6, 7, 10, 12, 14})},
			}
		},
	})
	register(mc.Check{
		ID:          "P04",
		Rule:        "every history of compressed packets on two caches up to the depth bound; the full sequence number range once per variant",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 5
			if tier == "thorough" {
				d = 6
			}
			return []mc.Scenario{
				{Name: "roll-over", Body: p04Roll, MaxSteps: 20_000_000},
				{Name: "repeated", Body: p04History(60), Lasso: d - 2, MaxSteps: 20_000_000},
				{Name: "histories", Body: p04History(d), Share: 3},
			}
		},
	})
	register(mc.Check{
		ID:          "P05",
		Rule:        "every arrival order with duplication up to the depth bound, both header versions, both caches, back-to-back or one at a time, with reconnection",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "sizes", Body: p05Sizes, MaxSteps: 20_000_000},
				{Name: "orders", Body: p05History(4, 5+d, false)},
				{Name: "reconnect", Body: p05History(3, 5+d, true)},
			}
		},
	})
}
