package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp/format"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
)

// ---------------------------------------------------------------- P32 GUIDs

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func guidText(g [16]byte) string {
	h := hex.EncodeToString(g[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func swapGuid(g [16]byte) [16]byte {
	return [16]byte{g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]}
}

// guidPool holds GUIDs that differ from a base in one or two byte positions.
func guidPool(vals []byte, pairs bool) [][16]byte {
	bases := [][16]byte{{}, {0x10, 0x32, 0x54, 0x76, 0x98, 0xBA, 0xDC, 0xFE, 0x01, 0x23, 0x45, 0x67, 0x89, 0xAB, 0xCD, 0xEF}}
	var ff [16]byte
	for i := range ff {
		ff[i] = 0xFF
	}
	bases = append(bases, ff)
	seen := map[[16]byte]bool{}
	var out [][16]byte
	add := func(g [16]byte) {
		if !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range bases {
		add(b)
		for i := 0; i < 16; i++ {
			for _, v := range vals {
				g := b
				g[i] = v
				add(g)
				if pairs {
					for j := i + 1; j < 16; j++ {
						for _, u := range vals {
							h := g
							h[j] = u
							add(h)
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	register(mc.Check{
		ID:   "P32",
		Rule: "every GUID differing from three bases in up to two byte positions x every text form, case, byte order and truncation; all pairs for the order; states are distinct (GUID, form) cases",
		Scenarios: func(tier string) []mc.Scenario {
			vals := []byte{0x00, 0x01, 0x7F, 0x80, 0xFF}
			pool := guidPool(vals, true)
			small := guidPool(vals, false)
			if tier == "thorough" {
				small = guidPool([]byte{0, 1, 0x0F, 0x10, 0x7F, 0x80, 0xFE, 0xFF}, false)
			}
			return []mc.Scenario{
				{Name: "forms", Pure: true, Body: func(c *mc.C) {
					part := c.Choose(64)
					for i := part; i < len(pool); i += 64 {
						raw := pool[i]
						g := guid.Guid(raw)
						c.CaseStr(guidText(raw))
						text := guidText(raw)
						if s := g.String(); s != "{"+text+"}" {
							c.Fail("string", "text form %q", s)
						}
						forms := []string{text, "{" + text + "}", "urn:uuid:" + text, hex.EncodeToString(raw[:])}
						for _, f := range forms {
							for _, v := range []string{f, strings.ToUpper(f)} {
								if strings.HasPrefix(v, "URN:") {
									v = "urn:uuid:" + v[9:]
								}
								p, err := guid.Parse(v)
								if err != nil || p != g {
									c.Fail("parse", "Parse(%q) = %v, %v", v, p, err)
								}
								c.Steps(1)
							}
						}
						for _, swap := range []bool{false, true} {
							b := g.ToBytes(swap)
							want := raw
							if swap {
								want = swapGuid(raw)
							}
							if !bytes.Equal(b, want[:]) {
								c.Fail("tobytes", "ToBytes(%v) = %x want %x", swap, b, want)
							}
							for k := range b {
								b[k] ^= 0xA5
							}
							if [16]byte(g) != raw {
								c.Fail("alias", "ToBytes(%v) result shares storage with the GUID", swap)
							}
							in := append(append([]byte(nil), want[:]...), 0x55, 0xAA)
							keep := append([]byte(nil), in...)
							r, err := guid.FromBytes(in, swap)
							if err != nil || r != g {
								c.Fail("frombytes", "FromBytes(%x, %v) = %v, %v", in, swap, r, err)
							}
							if !bytes.Equal(in, keep) {
								c.Fail("modifies", "FromBytes(%v) modified its input", swap)
							}
							for k := range in {
								in[k] ^= 0xFF
							}
							if r != g {
								c.Fail("alias", "FromBytes(%v) result shares storage with its input", swap)
							}
							c.Steps(2)
						}
						if g.IsZero() != (raw == [16]byte{}) {
							c.Fail("iszero", "IsZero = %v", g.IsZero())
						}
						a, b, cc, d := g.Components()
						if a != uint32(raw[0])<<24|uint32(raw[1])<<16|uint32(raw[2])<<8|uint32(raw[3]) || b != uint16(raw[4])<<8|uint16(raw[5]) || cc != uint16(raw[6])<<8|uint16(raw[7]) || !bytes.Equal(d[:], raw[8:]) {
							c.Fail("components", "components %x %x %x %x", a, b, cc, d)
						}
						c.StateHash(mc.HashStr(text))
						c.Traces(1)
					}
					c.Sample("forms of %s", guidText(pool[part]))
				}},
				{Name: "order", Pure: true, Body: func(c *mc.C) {
					part := c.Choose(len(small))
					a := guid.Guid(small[part])
					for _, y := range small {
						b := guid.Guid(y)
						c.Case("%v %v", a, b)
						want := sign(bytes.Compare(a[:], b[:]))
						if got := guid.Compare(a, b); got != want {
							c.Fail("compare", "Compare = %d, component order gives %d", got, want)
						}
						if got := a.Compare(b); got != want {
							c.Fail("compare", "method Compare = %d want %d", got, want)
						}
						if guid.Equal(a, b) != (want == 0) || a.Equal(b) != (want == 0) {
							c.Fail("equal", "Equal disagrees with the order")
						}
						c.StateHash(uint64(part)<<20 ^ mc.HashStr(string(b[:])))
					}
					c.Steps(len(small))
					c.Traces(len(small))
				}},
				{Name: "malformed", Pure: true, Body: func(c *mc.C) {
					text := "10325476-98ba-dcfe-0123-456789abcdef"
					form := []string{text, "{" + text + "}", "urn:uuid:" + text, strings.ReplaceAll(text, "-", "")}[c.Choose(4)]
					kind := c.Choose(4)
					pos := c.Choose(len(form) + 1)
					valid := map[int]bool{32: true, 36: true, 38: true, 45: true}
					var s string
					expectErr := true
					switch kind {
					case 0: // truncation
						s = form[:pos]
						expectErr = !valid[len(s)] || pos != len(form)
						if valid[len(s)] && pos != len(form) {
							return // another form's length; decided by the replacement cases
						}
						if pos == len(form) {
							expectErr = false
						}
					case 1: // a digit replaced by a non-digit
						if pos >= len(form) || !strings.ContainsRune("0123456789abcdef", rune(form[pos])) || strings.HasPrefix(form, "urn") && pos < 9 {
							return
						}
						s = form[:pos] + "g" + form[pos+1:]
					case 2: // a dash replaced
						if pos >= len(form) || form[pos] != '-' {
							return
						}
						s = form[:pos] + "0" + form[pos+1:]
					case 3: // one extra character
						s = form[:pos] + "0" + form[pos:]
						if valid[len(s)] {
							return
						}
					}
					c.Case("Parse(%q)", s)
					_, err := guid.Parse(s)
					if (err != nil) != expectErr {
						c.Fail("malformed", "error = %v", err)
					}
					n := pos
					if n > 16 {
						n = 16
					}
					for _, swap := range []bool{false, true} {
						_, err = guid.FromBytes(make([]byte, n), swap)
						if (err != nil) != (n < 16) {
							c.Fail("short", "FromBytes with %d bytes: error = %v", n, err)
						}
					}
					c.State("mal", s)
					c.Steps(3)
				}},
			}
		},
	})
}

// ---------------------------------------------------------------- P33 ticks

func refTicks(t time.Time) uint64 {
	return uint64(t.Unix()+62135596800)*10000000 + uint64(t.Nanosecond()/100)
}

func init() {
	register(mc.Check{
		ID:   "P33",
		Rule: "every year 1..9999 x month x first/last day x boundary times of day and their neighbouring ticks x leap-second bits; states are distinct instants",
		Scenarios: func(tier string) []mc.Scenario {
			daily := true
			return []mc.Scenario{
				{Name: "clock", Pure: true, Body: func(c *mc.C) {
					// the zone of the machine does not matter
					offset := []int{0, 3600, -5 * 3600, 14 * 3600, 5*3600 + 1800, -12 * 3600}[c.Choose(6)]
					defer func(l *time.Location) { time.Local = l }(time.Local)
					time.Local = time.FixedZone("local", offset)
					for i := 0; i < 100; i++ {
						c.Case("zone offset %d", offset)
						a := refTicks(time.Now())
						got := ticks.UtcNow()
						b := refTicks(time.Now())
						if uint64(got) < a && a-uint64(got) > 600e7 || uint64(got) > b && uint64(got)-b > 600e7 {
							c.Fail("clock/utc", "the current time is %d, expected between %d and %d", got, a, b)
						}
						if offset == 0 {
							if l := ticks.Now(); uint64(l) < a && a-uint64(l) > 600e7 || uint64(l) > b && uint64(l)-b > 600e7 {
								c.Fail("clock/local", "the current time is %d, expected between %d and %d", l, a, b)
							}
						}
						t := got.ToTime()
						if t.Location() != time.UTC || ticks.FromTime(t) != got || ticks.FromTime(t.Local()) != got || got.String() != t.Format("2006-01-02 15:04:05.999999999") {
							c.Fail("clock/zone", "%d converts to %v and prints as %s with zone offset %d", got, t, got, offset)
						}
						c.Steps(4)
					}
					c.Traces(1)
					c.State("zone", offset)
				}},
				{Name: "instants", Pure: true, Body: func(c *mc.C) {
					block := c.Choose(100)
					zone := time.FixedZone("z", 5*3600+1800)
					n := 0
					prev := ticks.Ticks(0)
					var prevT time.Time
					for year := block*100 + 1; year <= block*100+100 && year <= 9999; year++ {
						for month := time.January; month <= time.December; month++ {
							last := time.Date(year, month+1, 0, 0, 0, 0, 0, time.UTC).Day()
							for day := 1; day <= last; day++ {
								if !daily && day != 1 && day != last && !(year%100 < 3 && day%7 == 0) {
									continue
								}
								for _, tod := range []struct{ h, m, s, ns int }{{0, 0, 0, 0}, {0, 0, 0, 100}, {12, 34, 56, 789012300}, {23, 59, 59, 999999900}} {
									t := time.Date(year, month, day, tod.h, tod.m, tod.s, tod.ns, time.UTC)
									want := refTicks(t)
									key := "post-1970"
									if year < 1970 {
										key = "pre-1970"
									} else if year > 2261 {
										key = "post-2261"
									}
									got := ticks.FromTime(t)
									if uint64(got) != want {
										c.Fail("fromtime/"+key, "%v: FromTime = %d, want %d", t, got, want)
									}
									if g2 := ticks.FromTime(t.In(zone)); uint64(g2) != want {
										c.Fail("zone/"+key, "%v in another zone: FromTime = %d, want %d", t, g2, want)
									}
									tk := ticks.Ticks(want)
									for _, f := range []ticks.Ticks{0, ticks.LeapSecondFlag, ticks.LeapSecondDirection, ticks.LeapSecondFlag | ticks.LeapSecondDirection} {
										x := tk | f
										if r := x.ToTime(); !r.Equal(t) || r.Location() != time.UTC {
											c.Fail("totime/"+key, "%v with flags %x: ToTime = %v", t, uint64(f), r)
										}
										if r := ticks.ToTime(x); !r.Equal(t) {
											c.Fail("totime/"+key, "%v with flags %x: function ToTime = %v", t, uint64(f), r)
										}
										if x.TimestampValue() != int64(want) {
											c.Fail("value", "TimestampValue = %d want %d", x.TimestampValue(), want)
										}
									}
									if prev != 0 && !(prev < tk && prevT.Before(t)) {
										c.Fail("order", "order of %v and %v", prevT, t)
									}
									prev, prevT = tk, t
									n++
									if key == "post-1970" {
										if u := tk.ToUnixNano(); u != uint64(t.UnixNano()) {
											c.Fail("unixnano", "%v ToUnixNano %d", t, u)
										}
										if u := ticks.FromUnixNano(uint64(t.UnixNano())); uint64(u) != want {
											c.Fail("unixnano", "%v FromUnixNano %d want %d", t, u, want)
										}
									}
									if s := tk.String(); s != t.Format("2006-01-02 15:04:05.999999999") {
										c.Fail("string/"+key, "%v prints as %s", t, s)
									}
									if s := tk.ShortTime(); s != t.Format("15:04:05.999") {
										c.Fail("string/"+key, "%v short time %s", t, s)
									}
									if day == 1 {
										c.StateHash(want)
									}
								}
							}
						}
					}
					c.Steps(n * 12)
					c.Traces(n)
					c.Sample("years %d..%d: %d instants", block*100+1, block*100+100, n)
				}},
				{Name: "leap-bits", Pure: true, Body: func(c *mc.C) {
					vals := []uint64{0, 1, 621355968000000000, 637712345678901234, 3155378975999999999, 1<<62 - 1}
					v := vals[c.Choose(len(vals))]
					f := c.Choose(4)
					op := c.Choose(8)
					x := ticks.Ticks(v)
					if f&1 != 0 {
						x |= 1 << 63
					}
					if f&2 != 0 {
						x |= 1 << 62
					}
					leap, dir := f&1 != 0, f&2 != 0
					c.Case("value %d flags %d op %d", v, f, op)
					switch op {
					case 0:
						x, leap = ticks.SetLeapSecond(x), true
					case 1:
						x.ApplyLeapSecond()
						leap = true
					case 2:
						x, leap, dir = ticks.SetNegativeLeapSecond(x), true, true
					case 3:
						x.ApplyNegativeLeapSecond()
						leap, dir = true, true
					case 4:
						x.SetLeapSecond()
						leap = true
					case 5:
						x.SetLeapSecondDirection(true)
						dir = true
					case 6:
						x.SetLeapSecondDirection(false)
						dir = false
					}
					if uint64(x)&(1<<62-1) != v || x.TimestampValue() != int64(v) {
						c.Fail("leap-instant", "instant changed: %x", uint64(x))
					}
					if uint64(x)>>63 == 1 != leap || uint64(x)>>62&1 == 1 != dir {
						c.Fail("leap-bits", "bits %x want leap %v direction %v", uint64(x), leap, dir)
					}
					if ticks.IsLeapSecond(x) != leap || x.IsLeapSecond() != leap || ticks.IsNegativeLeapSecond(x) != (leap && dir) || x.IsNegativeLeapSecond() != (leap && dir) {
						c.Fail("leap-query", "query results for %x", uint64(x))
					}
					c.State("leap", v, f, op)
					c.Steps(1)
				}},
			}
		},
	})
}

// ---------------------------------------------------------------- P35 formatting

func group(digits string, sym byte) string {
	out := ""
	for len(digits) > 3 {
		out = string([]byte{sym}) + digits[len(digits)-3:] + out
		digits = digits[:len(digits)-3]
	}
	return digits + out
}

func refInt(plain string, sym byte) string {
	if strings.HasPrefix(plain, "-") {
		return "-" + group(plain[1:], sym)
	}
	return group(plain, sym)
}

func refFloat(f float64, prec int, dec, sym byte) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return strconv.FormatFloat(f, 'f', prec, 64)
	}
	s := strconv.FormatFloat(f, 'f', prec, 64)
	frac := ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		frac = string([]byte{dec}) + s[i+1:]
		s = s[:i]
	}
	return refInt(s, sym) + frac
}

func init() {
	register(mc.Check{
		ID:   "P35",
		Rule: "every digit-count boundary (10^k-1, 10^k, 10^k+1, 2^k neighbours) with both signs x precisions x symbols, special floats; states are distinct formatted texts",
		Scenarios: func(tier string) []mc.Scenario {
			var ints []uint64
			p := uint64(1)
			for k := 0; k < 20; k++ {
				ints = append(ints, p-1, p, p+1, p*5)
				p *= 10
			}
			for k := 0; k < 64; k++ {
				ints = append(ints, 1<<k-1, 1<<k)
			}
			ints = append(ints, math.MaxUint64, math.MaxInt64, 1<<63, 1234567890123456789)
			span := 1000000
			if tier == "thorough" {
				span = 20000000
			}
			return []mc.Scenario{
				{Name: "integers", Pure: true, Body: func(c *mc.C) {
					sym := []byte{',', '.', ' ', '_'}[c.Choose(4)]
					block := c.Choose(9)
					check := func(u uint64) {
						i := int64(u)
						plain := strconv.FormatInt(i, 10)
						want := refInt(plain, sym)
						if g := format.Int64With(i, sym); g != want {
							c.Fail("int64", "Int64With(%d) = %q want %q", i, g, want)
						}
						if g := format.IntWith(int(i), sym); g != want {
							c.Fail("int", "IntWith(%d) = %q want %q", i, g, want)
						}
						uw := refInt(strconv.FormatUint(u, 10), sym)
						if g := format.UInt64With(u, sym); g != uw {
							c.Fail("uint64", "UInt64With(%d) = %q want %q", u, g, uw)
						}
						if g := format.UIntWith(uint(u), sym); g != uw {
							c.Fail("uint", "UIntWith(%d) = %q want %q", u, g, uw)
						}
						if sym == ',' && (format.Int64(i) != want || format.Int(int(i)) != want || format.UInt64(u) != uw || format.UInt(uint(u)) != uw) {
							c.Fail("default", "default symbol forms of %d", i)
						}
						c.Steps(4)
						c.Traces(1)
					}
					if block == 8 {
						for _, u := range ints {
							check(u)
							check(-u)
							c.StateHash(u)
						}
						c.Sample("integer boundaries with symbol %q, e.g. %s", sym, format.Int64With(-1234567, sym))
						return
					}
					lo := -span + block*span/4
					for v := lo; v < lo+span/4; v++ {
						check(uint64(int64(v)))
					}
					c.State("block", block, sym)
				}},
				{Name: "floats", Pure: true, Body: func(c *mc.C) {
					prec := c.Choose(9) - 1
					pair := c.Choose(4)
					dec := []byte{'.', ',', '.', '\''}[pair]
					sym := []byte{',', '.', ' ', '.'}[pair]
					var fs []float64
					for _, u := range ints {
						fs = append(fs, float64(u), float64(u)+0.5, float64(u)/1000, float64(u)/7, float64(u)*1e10)
					}
					fs = append(fs, 0, math.Copysign(0, -1), 0.001, 0.0005, 0.9999999, 999.9995, 999999.9999, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN(), 1e300, 123456789.987654321)
					for _, a := range fs {
						for _, f := range []float64{a, -a} {
							c.Case("%v precision %d", f, prec)
							want := refFloat(f, prec, dec, sym)
							key := "finite"
							if math.IsInf(f, 0) || math.IsNaN(f) {
								key = "special"
							}
							got := format.FloatWith(f, prec, dec, sym)
							if got != want {
								c.Fail("float/"+key, "FloatWith = %q want %q", got, want)
							}
							if pair == 0 {
								if g := format.Float(f, prec); g != want {
									c.Fail("float/"+key, "Float = %q want %q", g, want)
								}
							}
							c.StateHash(mc.HashStr(got))
							c.Steps(1)
							c.Traces(1)
						}
					}
					c.Sample("%s", format.FloatWith(-1234567.891, 2, dec, sym))
				}},
			}
		},
	})
}

// ---------------------------------------------------------------- P36 references and names

type kindRow struct {
	kind    transport.SignalKindEnum
	name    string
	acronym string
	typeV   string
	typeI   string
}

var kindRows = []kindRow{
	{0, "Angle", "PA", "VPHA", "IPHA"}, {1, "Magnitude", "PM", "VPHM", "IPHM"}, {2, "Frequency", "FQ", "FREQ", "FREQ"},
	{3, "DfDt", "DF", "DFDT", "DFDT"}, {4, "Status", "SF", "FLAG", "FLAG"}, {5, "Digital", "DV", "DIGI", "DIGI"},
	{6, "Analog", "AV", "ALOG", "ALOG"}, {7, "Calculation", "CV", "CALC", "CALC"}, {8, "Statistic", "ST", "STAT", "STAT"},
	{9, "Alarm", "AL", "ALRM", "ALRM"}, {10, "Quality", "QF", "QUAL", "QUAL"}, {11, "Unknown", "??", "NULL", "NULL"},
}

var stateFlagNames = []string{"BadData", "SuspectData", "OverRangeError", "UnderRangeError", "AlarmHigh", "AlarmLow", "WarningHigh", "WarningLow",
	"FlatlineAlarm", "ComparisonAlarm", "ROCAlarm", "ReceivedAsBad", "CalculatedValue", "CalculationError", "CalculationWarning", "ReservedQualityFlag",
	"BadTime", "SuspectTime", "LateTimeAlarm", "FutureTimeAlarm", "UpSampled", "DownSampled", "DiscardedValue", "ReservedTimeFlag",
	"UserDefinedFlag1", "UserDefinedFlag2", "UserDefinedFlag3", "UserDefinedFlag4", "UserDefinedFlag5", "SystemError", "SystemWarning", "MeasurementError"}

func init() {
	register(mc.Check{
		ID:   "P36",
		Rule: "every string over a reference alphabet up to the length bound plus every well-formed reference over source/kind/position alphabets; every kind; every single, pair and triple of flag bits; every member of the enumerations of codes, types, operators and functions, every number up to the bound that is none, every name of a time interval and every part of one; states are distinct parse results",
		Scenarios: func(tier string) []mc.Scenario {
			maxLen := 6
			if tier == "thorough" {
				maxLen = 8
			}
			alpha := []byte{'-', 'P', 'A', 'm', '1', ' '}
			return []mc.Scenario{
				{Name: "well-formed", Pure: true, Body: func(c *mc.C) {
					srcs := []string{"SHELBY", "A", "GPA!SYS", "A-B", "A-B-C", "-A", "A-", "", "PM1-PM2", "!IS", "a b", "-"}
					src := srcs[c.Choose(len(srcs))]
					k := kindRows[c.Choose(11)]
					lower := c.Choose(2)
					poss := []string{"", "0", "1", "9", "10", "123", "007"}
					ps := poss[c.Choose(len(poss))]
					ac := k.acronym
					if lower == 1 {
						ac = strings.ToLower(ac)
					}
					ref := src + "-" + ac + ps
					want, _ := strconv.Atoi(ps)
					mm := transport.MeasurementMetadata{SignalReference: ref}
					c.Case("reference %q", ref)
					s, kind, pos := mm.ParseSignalReference()
					if s != src || kind != k.kind || pos != want {
						c.Fail("well-formed", "parsed as %q %v %d", s, kind, pos)
					}
					if mm.SignalReference != ref {
						c.Fail("modified", "reference was modified")
					}
					c.State(ref)
					c.Steps(1)
					c.Sample("%q -> %q %v %d", ref, s, kind, pos)
				}},
				{Name: "any-text", Pure: true, Body: func(c *mc.C) {
					head := []byte{}
					for i := 0; i < 2; i++ {
						if k := c.Choose(len(alpha) + 1); k > 0 {
							head = append(head, alpha[k-1])
						} else {
							break
						}
					}
					var rec func(b []byte, left int)
					rec = func(b []byte, left int) {
						ref := string(b)
						c.Case("reference %q", ref)
						var s string
						var kind transport.SignalKindEnum
						var pos int
						ok := false
						key := "no-hyphen"
						i := strings.LastIndexByte(ref, '-')
						tail := ""
						if i >= 0 {
							tail = ref[i+1:]
							key = "hyphen"
							if len(tail) < 2 {
								key = "short-type"
							}
						}
						guard(c, "panic/"+key, func() {
							mm := transport.MeasurementMetadata{SignalReference: ref}
							s, kind, pos = mm.ParseSignalReference()
							ok = true
						})
						if ok {
							wantKind := transport.SignalKindEnum(11)
							wantSrc, wantPos, srcSure := "", 0, false
							if i >= 0 && len(tail) >= 2 {
								for _, r := range kindRows[:11] {
									if strings.EqualFold(r.acronym, tail[:2]) {
										wantKind = r.kind
									}
								}
								wantSrc, srcSure = ref[:i], true
								wantPos, _ = strconv.Atoi(tail[2:])
							}
							if kind != wantKind {
								c.Fail("kind/"+key, "kind %v want %v", kind, wantKind)
							}
							if srcSure && s != wantSrc {
								c.Fail("source/"+key, "source %q want %q", s, wantSrc)
							}
							if srcSure && wantKind != 11 && pos != wantPos {
								c.Fail("position/"+key, "position %d want %d", pos, wantPos)
							}
							c.StateHash(mc.HashStr(s) ^ uint64(kind)<<40 ^ uint64(pos))
						}
						c.Steps(1)
						c.Traces(1)
						if left > 0 {
							for _, ch := range alpha {
								rec(append(b[:len(b):len(b)], ch), left-1)
							}
						}
					}
					if len(head) < 2 {
						rec(head, 0)
					} else {
						rec(head, maxLen-2)
					}
				}},
				{Name: "kinds", Pure: true, Body: func(c *mc.C) {
					r := kindRows[c.Choose(len(kindRows))]
					c.Case("kind %d", r.kind)
					if r.kind.String() != r.name {
						c.Fail("kind-name", "name %q want %q", r.kind.String(), r.name)
					}
					if r.kind.Acronym() != r.acronym {
						c.Fail("kind-acronym", "acronym %q want %q", r.kind.Acronym(), r.acronym)
					}
					for _, form := range []string{r.acronym, strings.ToLower(r.acronym), " " + r.acronym + " "} {
						if g := transport.ParseSignalKindAcronym(form); g != r.kind {
							c.Fail("kind-parse", "ParseSignalKindAcronym(%q) = %v", form, g)
						}
					}
					for _, v := range []rune{'V', 'v'} {
						if g := r.kind.SignalTypeAcronym(v); g != r.typeV {
							c.Fail("signal-type", "SignalTypeAcronym(%c) = %q want %q", v, g, r.typeV)
						}
					}
					for _, v := range []rune{'I', 'i'} {
						if g := r.kind.SignalTypeAcronym(v); g != r.typeI {
							c.Fail("signal-type", "SignalTypeAcronym(%c) = %q want %q", v, g, r.typeI)
						}
					}
					for _, bad := range []string{"", "P", "XX", "PAX", "P A"} {
						if g := transport.ParseSignalKindAcronym(bad); g != 11 {
							c.Fail("kind-parse", "ParseSignalKindAcronym(%q) = %v", bad, g)
						}
					}
					c.State("kind", r.kind)
					c.Steps(12)
				}},
				{Name: "flags", Pure: true, Body: func(c *mc.C) {
					i := c.Choose(32)
					for j := 0; j < 32; j++ {
						for k := 0; k < 32; k++ {
							m := uint32(1)<<i | 1<<j | 1<<k
							var want []string
							for b := 0; b < 32; b++ {
								if m>>b&1 == 1 {
									want = append(want, stateFlagNames[b])
								}
							}
							c.Case("flags %08x", m)
							if g := transport.StateFlagsEnum(m).String(); g != strings.Join(want, ",") {
								c.Fail("flag-names", "prints %q want %q", g, strings.Join(want, ","))
							}
							c.StateHash(uint64(m))
						}
					}
					if g := transport.StateFlagsEnum(0).String(); g != "Normal" {
						c.Fail("flag-names", "no flags prints %q", g)
					}
					c.Steps(1024)
					c.Traces(1024)
				}},
				{Name: "codes", Pure: true, Body: func(c *mc.C) {
					cmds := map[byte]string{0: "Connect", 1: "MetadataRefresh", 2: "Subscribe", 3: "Unsubscribe", 4: "RotateCipherKeys", 5: "UpdateProcessingInterval", 6: "DefineOperationalModes", 7: "ConfirmNotification", 8: "ConfirmBufferBlock", 0x0B: "ConfirmUpdateCipherKeys"}
					resps := map[byte]string{0x80: "Succeeded", 0x81: "Failed", 0x82: "DataPacket", 0x83: "UpdateSignalIndexCache", 0x84: "UpdateBaseTimes", 0x85: "UpdateCipherKeys", 0x86: "DataStartTime", 0x87: "ProcessingComplete", 0x88: "BufferBlock", 0x89: "Notify", 0x8A: "ConfigurationChanged", 0xFF: "NoOP"}
					v := byte(c.Choose(256))
					c.Case("code %02x", v)
					cs, rs := transport.ServerCommandEnum(v).String(), transport.ServerResponseEnum(v).String()
					if w, ok := cmds[v]; ok && cs != w {
						c.Fail("command-name", "command prints %q want %q", cs, w)
					}
					if w, ok := resps[v]; ok && rs != w {
						c.Fail("response-name", "response prints %q want %q", rs, w)
					}
					if cs == "" || rs == "" {
						c.Fail("code-name", "empty name")
					}
					c.State("code", v, cs, rs)
					c.Steps(2)
				}},
				{Name: "names", Pure: true, Body: nameScenario},
				{Name: "measurements", Pure: true, Body: measurementScenario},
			}
		},
	})
	_ = fmt.Sprint
}
