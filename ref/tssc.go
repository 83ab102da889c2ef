// Package ref holds the reference publisher: independent encoders for
// everything a conforming STTP publisher sends.
package ref

import "math"

// Meas is a measurement as the publisher knows it.
type Meas struct {
	ID    int32
	Time  int64
	Flags uint32
	Value uint32 // raw bits
}

type point struct {
	nextID     int32
	flags      [2]uint32
	values     [3]uint32
	stats      [32]int
	sent       int
	phase      int
	mode       int
	m1, m2, m3 int
}

func newPoint(next int32) *point {
	return &point{nextID: next, mode: 4, m1: 20, m2: 21, m3: 22}
}

// Encoder is a TSSC encoder.
type Encoder struct {
	// Wide makes the encoder use the widest applicable XOR codes, which a
	// conforming publisher may do.
	Wide   bool
	buf    []byte
	open   int // index of the byte receiving bits, or -1
	nbits  int
	last   *point
	points map[int32]*point
	t1, t2 int64
	deltas [4]int64
	// Used records the code words used, per mode.
	Used [5][32]bool
}

func NewEncoder() *Encoder {
	e := &Encoder{points: map[int32]*point{}, open: -1}
	for i := range e.deltas {
		e.deltas[i] = math.MaxInt64
	}
	e.last = newPoint(0)
	return e
}

func (e *Encoder) bits(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		if e.nbits == 0 {
			e.open = len(e.buf)
			e.buf = append(e.buf, 0)
			e.nbits = 8
		}
		e.nbits--
		e.buf[e.open] |= byte(v>>uint(i)&1) << uint(e.nbits)
	}
}

func (e *Encoder) code(c int) {
	p := e.last
	e.Used[p.mode][c] = true
	switch {
	case p.mode == 1:
		e.bits(uint32(c), 5)
	case c == p.m1:
		e.bits(1, 1)
	case p.mode >= 3 && c == p.m2:
		e.bits(1, 2)
	case p.mode >= 4 && c == p.m3:
		e.bits(1, 3)
	default:
		e.bits(uint32(c), 5+p.mode-1)
	}
	p.count(c)
}

// count applies the adaptation rule of the format: after 6, then 21, then every
// 101 codes the code table of the point is rebuilt from its code statistics.
func (p *point) count(c int) {
	p.sent++
	p.stats[c]++
	limit := [3]int{5, 20, 100}[p.phase]
	if p.sent <= limit {
		return
	}
	if p.phase < 2 {
		p.phase++
	}
	c1, c2, c3 := 0, 1, 2
	n1, n2, n3, total := 0, 0, 0, 0
	for i, n := range p.stats {
		total += n
		switch {
		case n <= n3:
		case n > n1:
			c3, n3, c2, n2, c1, n1 = c2, n2, c1, n1, i, n
		case n > n2:
			c3, n3, c2, n2 = c2, n2, i, n
		default:
			c3, n3 = i, n
		}
		p.stats[i] = 0
	}
	sizes := [5]int{0, total * 5, n1 + (total-n1)*6, n1 + n2*2 + (total-n1-n2)*7, n1 + n2*2 + n3*3 + (total-n1-n2-n3)*8}
	best := 1
	for m := 2; m <= 4; m++ {
		if sizes[m] < sizes[best] {
			best = m
		}
	}
	p.mode = best
	switch best {
	case 2:
		p.m1 = c1
	case 3:
		p.m1, p.m2 = c1, c2
	case 4:
		p.m1, p.m2, p.m3 = c1, c2, c3
	}
	p.sent = 0
}

func (e *Encoder) byte(b byte) { e.buf = append(e.buf, b) }

func (e *Encoder) sevenBit(v uint64, max int) {
	for i := 1; i < max && v >= 128; i++ {
		e.byte(byte(v) | 0x80)
		v >>= 7
	}
	e.byte(byte(v))
}

// xor writes a changed-bits word of the given width in bits: the low nibble goes
// to the bit stream when the width is an odd number of nibbles.
func (e *Encoder) xor(v uint32, width int) {
	if width%8 == 4 {
		e.bits(v&15, 4)
		v >>= 4
		width -= 4
	}
	for ; width > 0; width -= 8 {
		e.byte(byte(v))
		v >>= 8
	}
}

func width(v uint32, steps []int) int {
	for i, s := range steps {
		if s >= 32 || v < 1<<uint(s) {
			return i
		}
	}
	return len(steps) - 1
}

var idWidths = []int{4, 8, 12, 16, 20, 24, 32}
var valueWidths = []int{4, 8, 12, 16, 20, 24, 28, 32}

// Add encodes one measurement.
func (e *Encoder) Add(m Meas) {
	p := e.points[m.ID]
	if p == nil {
		p = newPoint(m.ID + 1)
		e.points[m.ID] = p
	}
	if e.last.nextID != m.ID {
		x := uint32(m.ID) ^ uint32(e.last.nextID)
		w := width(x, idWidths)
		if e.Wide {
			w = len(idWidths) - 1
		}
		e.code(1 + w)
		e.xor(x, idWidths[w])
		e.last.nextID = m.ID
	}
	if e.t1 != m.Time {
		e.time(m.Time)
	}
	if p.flags[0] != m.Flags {
		if p.flags[1] == m.Flags {
			e.code(18)
		} else {
			e.code(19)
			e.sevenBit(uint64(m.Flags), 5)
		}
		p.flags[1], p.flags[0] = p.flags[0], m.Flags
	}
	v := m.Value
	switch {
	case p.values[0] == v:
		e.code(20)
	case p.values[1] == v:
		e.code(21)
		p.values[0], p.values[1] = v, p.values[0]
	case p.values[2] == v:
		e.code(22)
		p.values[0], p.values[1], p.values[2] = v, p.values[0], p.values[1]
	default:
		if v == 0 {
			e.code(23)
		} else {
			x := v ^ p.values[0]
			w := width(x, valueWidths)
			if e.Wide {
				w = len(valueWidths) - 1
			}
			e.code(24 + w)
			e.xor(x, valueWidths[w])
		}
		p.values[0], p.values[1], p.values[2] = v, p.values[0], p.values[1]
	}
	e.last = p
}

func (e *Encoder) time(t int64) {
	c := 17
	if e.t2 == t {
		c = 16
	} else if t > e.t1 {
		for i := 3; i >= 0; i-- {
			if e.t1+e.deltas[i] == t {
				c = 8 + i
			}
		}
	} else {
		for i := 3; i >= 0; i-- {
			if e.t1-e.deltas[i] == t {
				c = 12 + i
			}
		}
	}
	e.code(c)
	if c == 17 {
		e.sevenBit(uint64(t)^uint64(e.t1), 9)
	}
	d := e.t1 - t
	if d < 0 {
		d = -d
	}
	// the four smallest distinct deltas seen, ascending
	if d < e.deltas[3] && d != e.deltas[0] && d != e.deltas[1] && d != e.deltas[2] {
		i := 3
		for i > 0 && d < e.deltas[i-1] {
			e.deltas[i] = e.deltas[i-1]
			i--
		}
		e.deltas[i] = d
	}
	e.t2, e.t1 = e.t1, t
}

// Finish ends the block and returns its bytes; the encoder continues with the
// next block.
func (e *Encoder) Finish() []byte {
	if e.nbits > 0 {
		e.code(0)
		e.nbits = 0
	}
	b := e.buf
	e.buf = nil
	return b
}

// Mode tells the coding mode of a point, 0 when unknown.
func (e *Encoder) Mode(id int32) int {
	if p := e.points[id]; p != nil {
		return p.mode
	}
	return 0
}

// Hash folds the encoder state.
func (e *Encoder) Hash() uint64 {
	h := uint64(14695981039346656037)
	add := func(v uint64) {
		h = (h ^ v) * 1099511628211
		h ^= h >> 29
	}
	add(uint64(e.t1))
	add(uint64(e.t2))
	for _, d := range e.deltas {
		add(uint64(d))
	}
	var sum uint64
	for id, p := range e.points {
		k := h
		h = 1469598103934665603
		add(uint64(uint32(id)))
		add(uint64(uint32(p.nextID)))
		add(uint64(p.flags[0])<<32 | uint64(p.flags[1]))
		add(uint64(p.values[0])<<32 | uint64(p.values[1]))
		add(uint64(p.values[2])<<32 | uint64(p.sent)<<16 | uint64(p.phase)<<8 | uint64(p.mode))
		add(uint64(p.m1)<<20 | uint64(p.m2)<<10 | uint64(p.m3))
		sum += h
		h = k
	}
	add(sum)
	return h
}
