package main

import (
	"fmt"
	"math"

	"github.com/sttp/goapi/sttp/transport/tssc"
	"verif.local/mc/mc"
	"verif.local/mc/ref"
)

// decode checks that one decoder returns exactly the measurements of the blocks.
func tsscDecode(c *mc.C, blocks [][]byte, ms [][]ref.Meas, label func() string) {
	d := tssc.NewDecoder()
	step := 0
	fail := func(key, f string, a ...any) {
		c.CaseStr(label())
		c.Fail(key, "%s", fmt.Sprintf(f, a...))
	}
	defer func() {
		if r := recover(); r != nil {
			if mc.IsStop(r) {
				panic(r)
			}
			fail("panic", "decoder panicked after %d measurements: %v", step, r)
		}
	}()
	for i, b := range blocks {
		d.SetBuffer(b)
		var id int32
		var ts int64
		var fl uint32
		var v float32
		for k, want := range ms[i] {
			ok, err := d.TryGetMeasurement(&id, &ts, &fl, &v)
			if err != nil || !ok {
				fail("lost", "packet %d measurement %d: got %v, %v", i, k, ok, err)
				return
			}
			if id != want.ID || ts != want.Time || fl != want.Flags || math.Float32bits(v) != want.Value {
				fail("differs", "packet %d measurement %d: id %d time %d flags %x value %08x, sent id %d time %d flags %x value %08x", i, k, id, ts, fl, math.Float32bits(v), want.ID, want.Time, want.Flags, want.Value)
				return
			}
			step++
		}
		for k := 0; k < 2; k++ {
			ok, err := d.TryGetMeasurement(&id, &ts, &fl, &v)
			if err != nil || ok {
				fail("end", "packet %d: no end of data: %v, %v", i, ok, err)
				return
			}
		}
	}
	c.Steps(step)
	c.Traces(1)
}

func tsscCheck(c *mc.C, packets [][]ref.Meas, wide bool) *ref.Encoder {
	e := ref.NewEncoder()
	e.Wide = wide
	blocks := make([][]byte, len(packets))
	for i, p := range packets {
		for _, m := range p {
			e.Add(m)
		}
		blocks[i] = e.Finish()
	}
	c.StateHash(e.Hash())
	tsscDecode(c, blocks, packets, func() string { return fmt.Sprintf("wide %v packets %v", wide, packets) })
	return e
}

var tsscIDs = []int32{0, 1, 2, 9, 0x77, 0x100, 0x1234, 0x54321, 0x654321, 0x76543210, -1, -2}
var tsscTimes = []int64{0, 1, 637712345678901234, 637712345678901234 + 333333, 637712345678901234 + 333334, 637712345678901234 + 666667, 637712345678901234 + 1000000, 637712345678901234 - 1, -1 << 63, math.MaxInt64, -5}
var tsscFlags = []uint32{0, 1, 0x7F, 0x80, 0x3FFF, 0x4000, 0x1FFFFF, 0x200000, 0xFFFFFFF, 0x10000000, 0xFFFFFFFF}
var tsscValues = []uint32{0, 1, 0xF, 0x10, 0x123, 0x1234, 0x54321, 0x654321, 0x7654321, 0x87654321, 0x3F800000, 0x7FC00001, 0x80000000}

func seqs(n, depth int, f func([]int)) {
	s := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if len(s) == depth {
			f(s)
			return
		}
		for i := 0; i < n; i++ {
			s = append(s, i)
			rec()
			s = s[:len(s)-1]
		}
	}
	rec()
}

// histories calls f with every sequence of depth operations out of n; the first
// lead of them are free choices. Above a depth of 20 these are the eventually
// periodic ones with lead+1 free operations.
func histories(c *mc.C, n, depth, lead int, f func([]int)) {
	var first []int
	for len(first) < lead {
		first = append(first, c.Choose(n))
	}
	if depth <= 20 {
		seqs(n, depth-lead, func(p []int) { f(append(first[:lead:lead], p...)) })
		return
	}
	period := 1 + c.Choose(lead+1)
	for i := 0; i < n; i++ {
		ops := append(first[:lead:lead], i)
		for len(ops) < depth {
			ops = append(ops, ops[len(ops)-period])
		}
		f(ops)
	}
}

func init() {
	register(mc.Check{
		ID:   "P01",
		Rule: "measurement sequences over per-field alphabets reaching every code word, all divisions into packets, periodic histories that drive the code tables into every mode followed by every one-measurement deviation at every position; states are distinct encoder states",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			depth := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			t0 := int64(637712345678901234)
			field := func(name string, n, d int, mk func(i, k int) ref.Meas) mc.Scenario {
				return mc.Scenario{Name: name, Pure: true, Body: func(c *mc.C) {
					first := c.Choose(n)
					second := c.Choose(n)
					wide := c.Choose(2) == 1
					seqs(n, d-2, func(s []int) {
						ms := make([]ref.Meas, 0, d)
						ms = append(ms, mk(first, 0), mk(second, 1))
						for i, k := range s {
							ms = append(ms, mk(k, i+2))
						}
						tsscCheck(c, [][]ref.Meas{ms}, wide)
					})
					if first == second {
						c.Sample("%s: %d sequences starting %v", name, int(math.Pow(float64(n), float64(d-2))), mk(first, 0))
					}
				}}
			}
			// symbols of the mixed alphabets
			sym := func(k int, i int) ref.Meas {
				return ref.Meas{ID: 1 + int32(k&1)*2, Time: t0 + int64(i)*333333*int64(k>>1&1), Flags: uint32(k>>2&1) * 0x81, Value: []uint32{0x42280000, 0x42280010, 0}[k>>3]}
			}
			// deviations hitting every code word from any steady state
			deviate := func(k int, m ref.Meas) ref.Meas {
				switch {
				case k < 7:
					m.ID ^= []int32{9, 0x71, 0x510, 0x5100, 0x51000, 0x510000, 0x71000000}[k]
				case k < 12:
					m.Time += []int64{1, -1, 333333, -333333, 1 << 40}[k-7]
				case k < 15:
					m.Flags ^= []uint32{1, 0x4000, 0x80000000}[k-12]
				case k < 23:
					m.Value ^= []uint32{5, 0x50, 0x500, 0x5000, 0x50000, 0x500000, 0x5000000, 0x50000000}[k-15]
				case k == 23:
					m.Value = 0
				case k == 24:
					m = ref.Meas{ID: -77, Time: -3, Flags: 0xFFFFFFFF, Value: 0xFFFFFFFF}
				}
				return m
			}
			return []mc.Scenario{
				field("ids", len(tsscIDs), depth(5, 6), func(k, i int) ref.Meas {
					return ref.Meas{ID: tsscIDs[k], Time: t0, Value: uint32(i)}
				}),
				field("times", len(tsscTimes), depth(6, 7), func(k, i int) ref.Meas {
					return ref.Meas{ID: 7, Time: tsscTimes[k], Value: 5}
				}),
				field("flags", len(tsscFlags), depth(5, 6), func(k, i int) ref.Meas {
					return ref.Meas{ID: int32(i & 1), Time: t0, Flags: tsscFlags[k], Value: 5}
				}),
				field("values", len(tsscValues), depth(5, 6), func(k, i int) ref.Meas {
					return ref.Meas{ID: 3, Time: t0, Value: tsscValues[k]}
				}),
				field("mixed", 24, depth(4, 5), sym),
				{Name: "packets", Pure: true, Body: func(c *mc.C) {
					n := depth(4, 5)
					s := make([]int, n)
					for i := range s {
						if i < 3 {
							s[i] = c.Choose(24)
						}
					}
					cut := c.Choose(1 << (n - 1))
					seqs(24, n-3, func(t []int) {
						copy(s[3:], t)
						packets := [][]ref.Meas{nil}
						for i, k := range s {
							packets[len(packets)-1] = append(packets[len(packets)-1], sym(k, i))
							if i < n-1 && cut>>i&1 == 1 {
								packets = append(packets, nil)
							}
						}
						tsscCheck(c, packets, false)
					})
				}},
				{Name: "adaptive", Pure: true, Body: func(c *mc.C) {
					period := 1 + c.Choose(depth(2, 3))
					pat := make([]int, period)
					for i := range pat {
						pat[i] = c.Choose(24)
					}
					per := []int{1000, 1, 3, 7}[c.Choose(4)]
					var modes [5]bool
					run := func(n, at, dev int) {
						var packets [][]ref.Meas
						var cur []ref.Meas
						for i := 0; i < n; i++ {
							m := sym(pat[i%period], i)
							if i == at {
								m = deviate(dev, m)
							}
							cur = append(cur, m)
							if len(cur) == per {
								packets, cur = append(packets, cur), nil
							}
						}
						if cur != nil {
							packets = append(packets, cur)
						}
						e := tsscCheck(c, packets, false)
						for _, m := range packets[len(packets)-1] {
							modes[e.Mode(m.ID)] = true
						}
					}
					run(300, -1, 0)
					max := depth(100, 140)
					if period == 3 {
						max = 40
					}
					if !th && period == 2 && per != 1000 {
						max = 0
					}
					for at := 0; at < max; at++ {
						for dev := 0; dev < 25; dev++ {
							run(at+6, at, dev)
						}
					}
					if pat[0] == 0 {
						c.Sample("period %v, %d per packet: final coding modes %v", pat, per, modes)
					}
				}},
				{Name: "seven-bit", Pure: true, Body: func(c *mc.C) {
					k := c.Choose(64)
					for j := 0; j <= k; j++ {
						for d := -1; d <= 1; d++ {
							x := int64(1)<<k + int64(1)<<j + int64(d)
							f := uint32(uint64(x) >> 5)
							tsscCheck(c, [][]ref.Meas{{{ID: 1, Time: t0}, {ID: 2, Time: t0 ^ x, Flags: uint32(x), Value: 3}, {ID: 1, Time: x, Flags: f, Value: f}}}, false)
						}
					}
				}},
				{Name: "distributions", Pure: true, Body: func(c *mc.C) {
					// every distribution of 21 codes over up to nine code words
					// decides the next code table of a point
					parts := tsscParts(21, depth(9, 10))
					p := parts[c.Choose(len(parts))]
					order := c.Choose(6)
					tsscDistribution(c, p, order, 1)
					tsscDistribution(c, p, order, 5)
				}},
				{Name: "coverage", Pure: true, Body: func(c *mc.C) {
					// every (mode, code word) pair is exercised by driving one point
					// into each mode and then using each code word
					for mode := 1; mode <= 4; mode++ {
						for code := 1; code < 32; code++ {
							tsscForce(c, mode, code)
						}
					}
				}},
			}
		},
	})
}

// tsscForce drives the encoder into the given mode and then appends every
// deviation, so that every code word is read in every mode.
func tsscForce(c *mc.C, mode, code int) {
	var ms []ref.Meas
	e := ref.NewEncoder()
	t := int64(1000)
	add := func(m ref.Meas) {
		ms = append(ms, m)
		e.Add(m)
	}
	for i := 0; i < 400; i++ {
		m := ref.Meas{ID: 5, Time: t, Value: 7}
		switch mode {
		case 1: // many different codes
			t += int64(1 + i%9*i)
			m.Time, m.Flags, m.Value = t, uint32(i%5), uint32(i*i*7919)
		case 2: // nothing changes
			m.ID = 5 + int32(i)%1
		case 3:
			t += 10
			m.Time = t
			m.ID = 5
		case 4:
			t += 10
			m.Time = t
			m.Value = 7 + uint32(i%2)*3
		}
		add(m)
	}
	for k := 0; k < 12; k++ {
		m := ms[len(ms)-1]
		x := uint32(1)<<(uint(code+k)%32) | 1
		switch k % 4 {
		case 0:
			m.ID ^= int32(x)
		case 1:
			m.Time += int64(x)
		case 2:
			m.Flags ^= x
		case 3:
			m.Value ^= x
		}
		add(m)
	}
	blocks := [][]byte{e.Finish()}
	c.StateHash(e.Hash())
	tsscDecode(c, blocks, [][]ref.Meas{ms}, func() string { return fmt.Sprintf("forced mode %d code %d", mode, code) })
}

// tsscParts lists the partitions of n into at most k parts, largest first.
func tsscParts(n, k int) [][]int {
	var out [][]int
	var rec func(left, max int, p []int)
	rec = func(left, max int, p []int) {
		if left == 0 {
			out = append(out, append([]int(nil), p...))
			return
		}
		if len(p) == k {
			return
		}
		for i := min(left, max); i >= 1; i-- {
			rec(left-i, i, append(p, i))
		}
	}
	rec(n, n, nil)
	return out
}

// tsscDistribution sends one point so that its code statistics are the given
// distribution times scale, then uses every value code.
func tsscDistribution(c *mc.C, parts []int, order, scale int) {
	codes := []int{24, 25, 26, 27, 28, 29, 30, 31, 20, 21}
	switch order % 3 {
	case 1:
		for i, j := 0, 9; i < j; i, j = i+1, j-1 {
			codes[i], codes[j] = codes[j], codes[i]
		}
	case 2:
		codes = []int{20, 31, 24, 28, 21, 30, 25, 29, 26, 27}
	}
	ms := []ref.Meas{{ID: 5, Time: 9, Value: 0x12345678}, {ID: 5, Time: 9, Value: 0x12345678}}
	h := []uint32{0x12345678, 0x12345678, 0, 0}
	send := func(code int) {
		v := h[0]
		switch {
		case code == 21 && h[1] != h[0]:
			v = h[1]
		case code >= 24:
			for k := uint32(1); k < 16; k++ {
				v = h[0] ^ k<<(4*uint(code-24))
				if v != 0 && v != h[1] && v != h[2] {
					break
				}
			}
		}
		if v != h[0] {
			if v == h[1] {
				h[0], h[1] = h[1], h[0]
			} else {
				h[0], h[1], h[2] = v, h[0], h[1]
			}
		}
		ms = append(ms, ref.Meas{ID: 5, Time: 9, Value: v})
	}
	// the second measurement used two codes of the point; six start phase two
	for i := 0; i < 4; i++ {
		send(20)
	}
	if scale > 1 {
		for i := 0; i < 21; i++ {
			send(24 + i%3)
		}
	}
	total := 0
	if order < 3 {
		for i, n := range parts {
			for k := 0; k < n*scale; k++ {
				send(codes[i])
				total++
			}
		}
	} else {
		for k := 0; ; k++ {
			any := false
			for i, n := range parts {
				if k < n*scale {
					send(codes[i])
					total++
					any = true
				}
			}
			if !any {
				break
			}
		}
	}
	for _, k := range codes {
		send(k)
	}
	e := tsscCheck(c, [][]ref.Meas{ms[:len(ms)/2], ms[len(ms)/2:]}, false)
	c.Outcome(fmt.Sprintf("%d codes: mode %d", total, e.Mode(5)))
}
