package main

import (
	"fmt"
	"sort"

	"github.com/sttp/goapi/sttp/hashset"
	"verif.local/mc/mc"
)

// P31: the reference model of a set over a universe of n elements is a bit mask.

type setOp struct {
	name  string
	query bool
	slice func(hs hashset.HashSet[int], o []int) (int, bool)
	set   func(hs, o hashset.HashSet[int]) (int, bool)
	// model: receiver and operand masks -> new receiver, result
	model func(a, b int) (int, int)
}

func bi(b bool) (int, bool) {
	if b {
		return 1, true
	}
	return 0, true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type iset = hashset.HashSet[int]

var setOps = []setOp{
	{"UnionWith", false, func(h iset, o []int) (int, bool) { h.UnionWith(o); return 0, false }, func(h, o iset) (int, bool) { h.UnionWithSet(o); return 0, false }, func(a, b int) (int, int) { return a | b, 0 }},
	{"IntersectWith", false, func(h iset, o []int) (int, bool) { h.IntersectWith(o); return 0, false }, func(h, o iset) (int, bool) { h.IntersectWithSet(o); return 0, false }, func(a, b int) (int, int) { return a & b, 0 }},
	{"ExceptWith", false, func(h iset, o []int) (int, bool) { h.ExceptWith(o); return 0, false }, func(h, o iset) (int, bool) { h.ExceptWithSet(o); return 0, false }, func(a, b int) (int, int) { return a &^ b, 0 }},
	{"SymmetricExceptWith", false, func(h iset, o []int) (int, bool) { h.SymmetricExceptWith(o); return 0, false }, func(h, o iset) (int, bool) { h.SymmetricExceptWithSet(o); return 0, false }, func(a, b int) (int, int) { return a ^ b, 0 }},
	{"SetEquals", true, func(h iset, o []int) (int, bool) { return bi(h.SetEquals(o)) }, func(h, o iset) (int, bool) { return bi(h.SetEqualsSet(o)) }, func(a, b int) (int, int) { return a, b2i(a == b) }},
	{"Overlaps", true, func(h iset, o []int) (int, bool) { return bi(h.Overlaps(o)) }, func(h, o iset) (int, bool) { return bi(h.OverlapsSet(o)) }, func(a, b int) (int, int) { return a, b2i(a&b != 0) }},
	{"IsSubsetOf", true, func(h iset, o []int) (int, bool) { return bi(h.IsSubsetOf(o)) }, func(h, o iset) (int, bool) { return bi(h.IsSubsetOfSet(o)) }, func(a, b int) (int, int) { return a, b2i(a&^b == 0) }},
	{"IsProperSubsetOf", true, func(h iset, o []int) (int, bool) { return bi(h.IsProperSubsetOf(o)) }, func(h, o iset) (int, bool) { return bi(h.IsProperSubsetOfSet(o)) }, func(a, b int) (int, int) { return a, b2i(a&^b == 0 && a != b) }},
	{"IsSupersetOf", true, func(h iset, o []int) (int, bool) { return bi(h.IsSupersetOf(o)) }, func(h, o iset) (int, bool) { return bi(h.IsSupersetOfSet(o)) }, func(a, b int) (int, int) { return a, b2i(b&^a == 0) }},
	{"IsProperSupersetOf", true, func(h iset, o []int) (int, bool) { return bi(h.IsProperSupersetOf(o)) }, func(h, o iset) (int, bool) { return bi(h.IsProperSupersetOfSet(o)) }, func(a, b int) (int, int) { return a, b2i(b&^a == 0 && a != b) }},
}

// single element and whole-set operations, argument in 0..n-1
var elemOps = []struct {
	name  string
	run   func(h iset, x int) int
	model func(a, x int) (int, int)
}{
	{"Add", func(h iset, x int) int { return b2i(h.Add(x)) }, func(a, x int) (int, int) { return a | 1<<x, b2i(a>>x&1 == 0) }},
	{"Remove", func(h iset, x int) int { return b2i(h.Remove(x)) }, func(a, x int) (int, int) { return a &^ (1 << x), a >> x & 1 }},
	{"Contains", func(h iset, x int) int { return b2i(h.Contains(x)) }, func(a, x int) (int, int) { return a, a >> x & 1 }},
	{"RemoveWhere>=", func(h iset, x int) int { return h.RemoveWhere(func(v int) bool { return v >= x }) }, func(a, x int) (int, int) {
		m := a >> x << x
		return a &^ m, popcount(m)
	}},
	{"IsEmpty", func(h iset, x int) int { return b2i(h.IsEmpty()) }, func(a, x int) (int, int) { return a, b2i(a == 0) }},
	{"Clear", func(h iset, x int) int { h.Clear(); return 0 }, func(a, x int) (int, int) { return 0, 0 }},
}

// emptyKey names the receiver in a finding when it is the empty set.
func emptyKey(m int) string {
	if m == 0 {
		return "/empty-receiver"
	}
	return ""
}

func popcount(m int) (n int) {
	for ; m != 0; m &= m - 1 {
		n++
	}
	return
}

func fromMask(m, n int) iset {
	var s []int
	for i := 0; i < n; i++ {
		if m>>i&1 == 1 {
			s = append(s, i)
		}
	}
	return hashset.NewHashSet(s)
}

func toMask(h iset, n int) (int, string) {
	m := 0
	for i := 0; i < n; i++ {
		if h.Contains(i) {
			m |= 1 << i
		}
	}
	keys := h.Keys()
	km := 0
	for _, k := range keys {
		if k < 0 || k >= n || km>>k&1 == 1 {
			return m, fmt.Sprintf("Keys %v has foreign or repeated elements", keys)
		}
		km |= 1 << k
	}
	if km != m || len(keys) != popcount(m) || h.IsEmpty() != (m == 0) || len(h) != popcount(m) {
		return m, fmt.Sprintf("Keys %v disagrees with Contains mask %b", keys, m)
	}
	return m, ""
}

func lists(n, maxLen int) [][]int {
	out := [][]int{nil}
	prev := [][]int{nil}
	for l := 1; l <= maxLen; l++ {
		var cur [][]int
		for _, p := range prev {
			for x := 0; x < n; x++ {
				cur = append(cur, append(append([]int(nil), p...), x))
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out
}

func listMask(l []int) (m int) {
	for _, x := range l {
		m |= 1 << x
	}
	return
}

func init() {
	register(mc.Check{
		ID:   "P31",
		Rule: "every receiver subset x every operation x every operand (list with repetitions, set, the set itself), then every sequence of operations to the depth bound; a case is non-trivial if the operand is non-empty; states are distinct (operation, receiver, operand, result) tuples",
		Scenarios: func(tier string) []mc.Scenario {
			n, maxLen, depth := 4, 4, 3
			if tier == "thorough" {
				n, maxLen, depth = 5, 5, 4
			}
			ls := lists(n, maxLen)
			short := lists(3, 2)
			return []mc.Scenario{
				{Name: "operands", Pure: true, Body: func(c *mc.C) {
					a := c.Choose(1 << n)
					op := setOps[c.Choose(len(setOps))]
					for kind := 0; kind < 3; kind++ {
						limit := len(ls)
						if kind == 1 {
							limit = 1 << n
						} else if kind == 2 {
							limit = 1
						}
						for i := 0; i < limit; i++ {
							h := fromMask(a, n)
							var b, res int
							var hasRes bool
							desc := ""
							after := func() string { return "" }
							switch kind {
							case 0:
								l := append([]int(nil), ls[i]...)
								b = listMask(l)
								desc = fmt.Sprintf("%s(%b, list %v)", op.name, a, l)
								c.CaseStr(desc)
								res, hasRes = op.slice(h, l)
								after = func() string {
									if fmt.Sprint(l) != fmt.Sprint(ls[i]) {
										return "operand list was modified"
									}
									return ""
								}
							case 1:
								o := fromMask(i, n)
								b = i
								desc = fmt.Sprintf("%sSet(%b, %b)", op.name, a, i)
								c.CaseStr(desc)
								res, hasRes = op.set(h, o)
								after = func() string {
									if m, e := toMask(o, n); m != i || e != "" {
										return "operand set was modified: " + e
									}
									// independence of receiver and operand
									h.Add(n)
									if o.Contains(n) {
										return "receiver and operand share storage"
									}
									h.Remove(n)
									return ""
								}
							case 2:
								b = a
								desc = fmt.Sprintf("%sSet(%b, itself)", op.name, a)
								c.CaseStr(desc)
								res, hasRes = op.set(h, h)
							}
							wantA, wantR := op.model(a, b)
							got, e := toMask(h, n)
							if e != "" {
								c.Fail(op.name+"/structure", "%s", e)
							}
							if got != wantA {
								c.Fail(op.name+"/result-set", "receiver becomes %b, set algebra gives %b", got, wantA)
							}
							if hasRes && res != wantR {
								c.Fail(op.name+emptyKey(a)+"/answer", "answers %d, set algebra gives %d", res, wantR)
							}
							if m := after(); m != "" {
								c.Fail(op.name+"/operand", "%s", m)
							}
							c.StateHash(mc.HashStr(desc) ^ uint64(got)<<8 ^ uint64(res))
							c.Steps(1)
							if i%97 == 0 {
								c.Sample("%s -> %b/%d", desc, got, res)
							}
						}
						c.Traces(limit)
					}
				}},
				{Name: "sizes", Pure: true, Body: bigSets},
				{Name: "histories", Pure: true, Body: func(c *mc.C) {
					const un = 3
					h := fromMask(0, un)
					m := 0
					hist := ""
					nOps := len(elemOps) * un
					sets := len(setOps) * len(short)
					for d := 0; d < depth; d++ {
						k := c.Choose(nOps + sets)
						if k < nOps {
							op := elemOps[k/un]
							x := k % un
							hist += fmt.Sprintf("%s(%d) ", op.name, x)
							c.CaseStr(hist)
							wantA, wantR := op.model(m, x)
							if r := op.run(h, x); r != wantR {
								c.Fail(op.name+"/history-answer", "answers %d, want %d on %b", r, wantR, m)
							}
							m = wantA
						} else {
							k -= nOps
							op := setOps[k/len(short)]
							l := short[k%len(short)]
							hist += fmt.Sprintf("%s(%v) ", op.name, l)
							c.CaseStr(hist)
							wantA, wantR := op.model(m, listMask(l))
							if r, has := op.slice(h, append([]int(nil), l...)); has && r != wantR {
								c.Fail(op.name+emptyKey(m)+"/answer", "answers %d, want %d on %b", r, wantR, m)
							}
							m = wantA
						}
						if got, e := toMask(h, un); got != m || e != "" {
							c.Fail("history-set", "set is %b, want %b %s", got, m, e)
						}
						c.Steps(1)
						c.StateHash(uint64(m)<<32 ^ uint64(d))
					}
					c.Sample("%s-> %b", hist, m)
				}},
				{Name: "construction", Pure: true, Body: func(c *mc.C) {
					l := ls[c.Choose(len(ls))]
					in := append([]int(nil), l...)
					c.Case("NewHashSet(%v)", l)
					h := hashset.NewHashSet(in)
					if got, e := toMask(h, n); got != listMask(l) || e != "" {
						c.Fail("new", "set %b, want %b %s", got, listMask(l), e)
					}
					for i := range in {
						in[i] = 99
					}
					k := h.Keys()
					sort.Ints(k)
					for i := range k {
						k[i] = 77
					}
					if got, e := toMask(h, n); got != listMask(l) || e != "" {
						c.Fail("new-alias", "set shares storage with a slice: %b want %b %s", got, listMask(l), e)
					}
					ss := hashset.NewHashSet([]string{"a", "A", "", "a"})
					if len(ss.Keys()) != 3 || !ss.Contains("") || ss.Contains("b") {
						c.Fail("strings", "string set %v", ss.Keys())
					}
					c.State("new", len(l), listMask(l))
					c.Steps(1)
				}},
			}
		},
	})
}
