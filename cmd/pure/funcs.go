package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"verif.local/mc/mc"
)

// others is one value of every type outside keep, with the nulls of those
// types: the arguments a function has to refuse or convert.
func others(keep ...int) (out []ev) {
	one := [nTypes]ev{vB(true), vI(1), vL(1), dec("1.5"), vF(1), vS("1"), gd(gA), vT(d1)}
	for t := 0; t < nTypes; t++ {
		skip := false
		for _, k := range keep {
			skip = skip || k == t
		}
		if !skip {
			out = append(out, one[t], null(t))
		}
	}
	return append(out, nullLit)
}

func cat(a ...[]ev) (out []ev) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

func strs(s ...string) (out []ev) {
	for _, x := range s {
		out = append(out, vS(x))
	}
	return append(out, null(tS))
}

func ints(i ...int64) (out []ev) {
	for _, x := range i {
		if int64(int32(x)) == x {
			out = append(out, vI(int32(x)))
		}
		out = append(out, vL(x))
	}
	return append(out, null(tI), null(tL))
}

// fnArgs gives the argument alphabets of every function.
func fnArgs() map[string][][]ev {
	var nums, all []ev
	for t := 0; t < nTypes; t++ {
		all = append(all, allVals(t)...)
		if isNum(t) {
			nums = append(nums, allVals(t)...)
		}
	}
	all = append(all, nullLit)
	nums = cat(nums, []ev{dec("2.5"), dec("-0.5"), dec("-1.5"), dec("0.4999"), vF(2.5), vF(-1.5), vF(0.49999999999999994), vF(1.5), vF(4), vF(-4), vF(1e18 + 0.5)})
	numAll := cat(nums, []ev{nullLit}, others(tB, tI, tL, tD, tF))
	src := cat(strs("", "a", "ab", "aXbxc", "XYXYXX", "aaa", "x,y,,z", ",a", "b,", "é,É", "x$1y"), others(tS))
	test := cat(strs("", "a", "X", "x", "XY", "aa", ",", "é", "zz", "ab", "."), others(tS))
	ic := cat([]ev{vB(true), vB(false), null(tB), vI(0), vI(2), vS("true"), vS("no"), vF(0.5)}, []ev{gd(gA), vT(d1), null(tG), nullLit})
	idx := cat(ints(0, 1, 2, 3, -1, 100, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64), []ev{vB(true), vB(false), null(tB)}, []ev{vF(1), dec("1"), vS("1"), gd(gA), vT(d1), null(tF), null(tS), nullLit})
	iv := []ev{null(tS), vS(""), vS("Years"), vS("d"), vI(1), null(tI), gd(gA), nullLit}
	for _, n := range intervals {
		iv = append(iv, vS(n), vS(strings.ToUpper(n)), vS(strings.ToLower(n)))
	}
	dates := cat([]ev{vT(d1), vT(d2), vT(time.Date(2023, 12, 31, 23, 59, 59, 999e6, time.UTC)), vT(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)), vT(time.Date(2021, 1, 3, 12, 30, 15, 1e6, time.UTC)), vT(time.Date(2020, 12, 31, 0, 0, 0, 0, time.UTC)), vT(time.Date(2024, 1, 31, 6, 0, 0, 0, time.UTC)), null(tT), vS("2024-01-01"), vS("2024-02-29 23:59:58.250"), vS("nonsense"), null(tS)}, others(tT, tS))
	add := cat(ints(0, 1, -1, 12, 13, 25, 60, 1000, -400), []ev{vB(true), vF(1), dec("1"), vS("1"), gd(gA), null(tF), nullLit})
	names := []ev{null(tS), nullLit, vI(1), gd(gA), vS(""), vS("Foo"), vS("Undefined"), vS("Sys.Int32")}
	for t := 0; t < nTypes; t++ {
		n := typeNames[t]
		names = append(names, vS(n), vS(strings.ToLower(n)), vS("System."+n), vS("SYSTEM."+strings.ToUpper(n)))
	}
	for _, n := range []string{"Bool", "Single", "Float", "Float64", "Int", "Int16", "UInt16", "UInt32", "UInt64", "Date", "Time", "Uuid", "System.Single", "uint32"} {
		names = append(names, vS(n))
	}
	text := cat(strs("", "a", "Ab", " a ", "\t\n\v\f\r a b \r\f\v\n\t", " a ", "\u0085 a\u0085", "é", "aé", "日本", "x\xffy"), others(tS))
	probe := cat(all, strs("0", "-7", "+7", "0x10", "1.0", "1e5", "9223372036854775807", "9223372036854775808", "abc", "", " 1", gA, "{"+gA+"}", gA+"0", "2024-01-01", "2024-13-45", "01/02/2024", "12:30", "NaN", "Inf"))
	few := []ev{vB(true), vB(false), vI(0), vI(7), vI(-1), vL(1 << 40), dec("1.5"), vF(2.5), vF(-1), vS("a"), vS("B"), vS("10"), vS("9"), gd(gA), gd(gB), vT(d1), vT(d2), null(tB), null(tI), null(tF), null(tS), null(tG), null(tT), nullLit}
	return map[string][][]ev{
		"Abs": {numAll}, "Ceiling": {numAll}, "Floor": {numAll}, "Round": {numAll}, "Sqrt": {numAll},
		"Power":    {cat([]ev{vB(true), vB(false), vI(0), vI(1), vI(2), vI(-3), vI(10), vL(0), vL(3), vL(-2), dec("0"), dec("1.5"), dec("-2"), dec("4"), dec("0.001"), vF(0), vF(2), vF(-2), vF(0.5), vF(math.Inf(1)), vF(math.NaN())}, []ev{null(tI), null(tD), null(tF)}, others(tB, tI, tL, tD, tF)), cat([]ev{vB(true), vB(false), vI(0), vI(1), vI(2), vI(-1), vI(5), vI(-3), vL(2), vL(7), dec("2"), dec("0.5"), dec("-2"), dec("3"), dec("1.5"), vF(2), vF(0.5), vF(-1), vF(math.Inf(1))}, []ev{null(tI), null(tD), null(tF)}, others(tB, tI, tL, tD, tF))},
		"Coalesce": {few, few, few},
		"Convert":  {cat(all, []ev{dec("2147483648"), dec("-9223372036854775808"), vF(2.99), vF(-2.99), vS("2.99"), vS("-2.99"), vS("TRUE"), vS("t"), vS("F"), vS("0"), vS("x")}), names},
		"Contains": {src, test, ic}, "StartsWith": {src, test, ic}, "EndsWith": {src, test, ic},
		"IndexOf": {src, test, ic}, "LastIndexOf": {src, test, ic},
		"NthIndexOf": {src, test, idx, ic}, "Split": {src, test, idx, ic},
		"Replace":  {src, test, cat(strs("", "$1", "${0}", "yy", "X"), others(tS)), ic},
		"StrCount": {src, test, ic}, "StrCmp": {cat(src, test), cat(src, test), ic},
		"SubStr": {src, idx, cat(idx, ints(4, 5))},
		"Len":    {text}, "Lower": {text}, "Upper": {text}, "Reverse": {text}, "Trim": {text}, "TrimLeft": {text}, "TrimRight": {text},
		"IsDate": {probe}, "IsInteger": {probe}, "IsGuid": {probe}, "IsNumeric": {probe},
		"IsNull": {few, few}, "MaxOf": {few, few, few}, "MinOf": {few, few, few}, "IIf": {few, few, few},
		"DateAdd": {dates, add, iv}, "DateDiff": {dates, dates, iv}, "DatePart": {dates, iv},
		"RegExMatch": {cat(strs("", "a", "^a$", "A", "(", "[a-c]+", "a.c", "\\", "(?i)a"), others(tS)), src},
		"RegExVal":   {cat(strs("", "a", "^a$", "A", "(", "[a-c]+", "a.c", "\\", "(?i)a", "[XY]+"), others(tS)), src},
	}
}

func fnNames() []string {
	var n []string
	for k := range refFuncs {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// swapCase changes the case of every second letter.
func swapCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 0 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func init() {
	register(mc.Check{
		ID:   "P24",
		Rule: "every function of the language applied to every argument tuple of its alphabets (all optional argument forms, wrong types, nulls, boundary values) equals an independent implementation of its documentation or is an error where that excludes the argument; wrong argument counts are errors; names match in any letter case; arguments stay unchanged",
		Assumptions: []string{
			"empty search text in NthIndexOf, Split and Replace is unspecified; results of Split beyond the last part may be empty or null",
			"case-insensitive search is judged on texts whose upper case has the same length",
		},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "long", Pure: true, Body: longTexts},
				{Name: "functions", Pure: true, Share: 12, Body: func(c *mc.C) { functionScenario(c, tier == "thorough") }},
				{Name: "arity", Pure: true, Body: arityScenario},
				{Name: "nested", Pure: true, Body: nestedScenario},
				{Name: "clock", Pure: true, Body: clockScenario},
				{Name: "failing", Pure: true, Body: failingScenario},
			}
		},
	})
}

func functionScenario(c *mc.C, thorough bool) {
	names := fnNames()
	name := names[c.Choose(len(names))]
	spec, alpha := refFuncs[name], fnArgs()[name]
	x := newExprTab(len(alpha))
	// split the first alphabet over executions to spread the work
	first := c.Choose(len(alpha[0]))
	args := make([]ev, len(alpha))
	texts := make([]string, len(alpha))
	idx := make([]int, len(alpha))
	var rec func(i int)
	run := func(n int) {
		want := refRun(func() rout { return spec.f(args[:n]) })
		list := strings.Join(texts[:n], ",")
		for k, fn := range []string{name, swapCase(name)} {
			if k > 0 && n > 2 {
				continue
			}
			text := fn + "(" + list + ")"
			v, err, crash := x.eval(text)
			c.CaseStr(text)
			if !judge(c, name, func() string { return fmt.Sprintf("%s%v", name, args[:n]) }, v, err, crash, want) {
				return
			}
			c.Steps(1)
		}
		c.Traces(1)
		h := mc.HashStr(name)
		for i := range args[:n] {
			h = h*1099511628211 ^ uint64(idx[i]+1)
		}
		c.StateHash(h)
		for i, a := range args[:n] {
			if !a.lit {
				checkKept(c, x, i, a)
			}
		}
	}
	rec = func(i int) {
		if i >= spec.min {
			run(i)
		}
		if i == len(alpha) {
			return
		}
		list := alpha[i]
		if i == 3 && !thorough {
			list = []ev{vB(true), vB(false), null(tB), vI(2), vS("true"), gd(gA), nullLit}
		}
		for k, a := range list {
			if i == 0 && k != first {
				continue
			}
			args[i], texts[i], idx[i] = a, x.operand(i, a), k
			rec(i + 1)
		}
	}
	rec(0)
}

func arityScenario(c *mc.C) {
	names := append(fnNames(), "Now", "UtcNow")
	name := names[c.Choose(len(names))]
	spec := refFuncs[name]
	for n := 0; n <= 6; n++ {
		bad := n < spec.min || spec.max >= 0 && n > spec.max
		for _, arg := range []string{"NULL", "1", "'a'", "True"} {
			text := name + "(" + strings.Join(strings.Split(strings.Repeat(arg+" ", n), " ")[:n], ",") + ")"
			c.CaseStr(text)
			guard(c, "arity/panic", func() {
				_, err := data.EvaluateExpression(text, true)
				if bad && err == nil {
					c.Fail("arity", "%s is accepted", text)
				}
			})
			c.Steps(1)
			c.Traces(1)
			c.StateHash(mc.HashStr(text))
		}
	}
}

// nestedScenario feeds function results into functions.
func nestedScenario(c *mc.C) {
	outer := []string{"Abs", "Len", "Upper", "Reverse", "Trim", "Sqrt", "Floor", "IsNumeric", "IsDate"}
	inner := []string{"Abs", "Len", "Upper", "Lower", "Reverse", "Trim", "Sqrt", "Ceiling", "Round", "IsInteger", "IsGuid"}
	o := outer[c.Choose(len(outer))]
	x := newExprTab(1)
	for _, in := range inner {
		for _, a := range fnArgs()[in][0] {
			want := refRun(func() rout {
				r := refFuncs[in].f([]ev{a})
				if r.free || r.anyNull || r.tol != 0 {
					freeForm()
				}
				return refFuncs[o].f([]ev{r.v})
			})
			text := fmt.Sprintf("%s(%s(%s))", o, in, x.operand(0, a))
			v, err, crash := x.eval(text)
			c.CaseStr(text)
			judge(c, "nested/"+o+"/"+in, func() string { return fmt.Sprintf("%s (%v)", text, a) }, v, err, crash, want)
			c.Steps(1)
			c.Traces(1)
			c.StateHash(mc.HashStr(text + a.String()))
		}
	}
}

// goodArgs are arguments every function accepts.
func goodArgs() map[string][]string {
	return map[string][]string{
		"Abs": {"-1"}, "Ceiling": {"1.5"}, "Floor": {"1.5"}, "Round": {"1.5"}, "Sqrt": {"4.0"}, "Power": {"2", "3"},
		"Coalesce": {"NULL", "NULL", "3"}, "Convert": {"'7'", "'Int32'"}, "Contains": {"'abc'", "'B'", "True"}, "StartsWith": {"'abc'", "'A'", "True"}, "EndsWith": {"'abc'", "'C'", "True"},
		"IndexOf": {"'abc'", "'B'", "True"}, "LastIndexOf": {"'abcb'", "'B'", "True"}, "NthIndexOf": {"'abcb'", "'B'", "1", "True"}, "Split": {"'abc'", "'B'", "1", "True"},
		"Replace": {"'abc'", "'B'", "'x'", "True"}, "StrCount": {"'abcb'", "'B'", "True"}, "StrCmp": {"'a'", "'A'", "True"}, "SubStr": {"'abc'", "1", "1"},
		"Len": {"'abc'"}, "Lower": {"'A'"}, "Upper": {"'a'"}, "Reverse": {"'ab'"}, "Trim": {"' a '"}, "TrimLeft": {"' a '"}, "TrimRight": {"' a '"},
		"IsDate": {"'2024-01-01'"}, "IsInteger": {"'1'"}, "IsGuid": {"'" + gA + "'"}, "IsNumeric": {"'1.5'"}, "IsNull": {"NULL", "1"}, "MaxOf": {"1", "2", "3"}, "MinOf": {"3", "2", "1"},
		"IIf": {"True", "1", "2"}, "DateAdd": {"#2024-01-01#", "1", "'Day'"}, "DateDiff": {"#2024-01-01#", "#2024-01-03#", "'Day'"}, "DatePart": {"#2024-01-01#", "'Year'"},
		"RegExMatch": {"'b'", "'abc'"}, "RegExVal": {"'b'", "'abc'"},
	}
}

// failingScenario puts an argument that cannot be evaluated at every position
// of every function and operator: the whole is an error, except where the
// argument is not needed, then it may also be the result without it.
func failingScenario(c *mc.C) {
	names := fnNames()
	k := c.Choose(len(names) + len(binOps) + 1)
	bad := []string{"(1/0)", "Sqrt('x')", "(1 % 0)", "Len(1/0)", "NOT (1/0)", "-(1/0)", "((1/0) IN (1))", "((1/0) IS NULL)", "Sqrt(#2024-01-01#)"}
	check := func(key, text, plain string, lazy bool) {
		c.CaseStr(text)
		guard(c, "failing/"+key+"/panic", func() {
			v, err := data.EvaluateExpression(text, true)
			c.Steps(1)
			if err != nil {
				return
			}
			if !lazy {
				c.Fail("failing/"+key, "%s gives %s, expected an error", text, show(v))
				return
			}
			w, err := data.EvaluateExpression(plain, true)
			if err != nil || show(v) != show(w) {
				c.Fail("failing/"+key, "%s gives %s, expected an error or %s", text, show(v), show(w))
			}
		})
		c.Traces(1)
		c.StateHash(mc.HashStr(text))
	}
	switch {
	case k < len(names):
		name := names[k]
		good := goodArgs()[name]
		if len(good) == 0 {
			c.Fail("failing/alphabet", "no arguments for %s", name)
			return
		}
		for n := refFuncs[name].min; n <= len(good); n++ {
			plain := name + "(" + strings.Join(good[:n], ",") + ")"
			if v, err := data.EvaluateExpression(plain, true); err != nil || v.IsNull() && name != "Coalesce" {
				c.Fail("failing/"+name, "%s gives %s, %v", plain, show(v), err)
			}
			for i := 0; i < n; i++ {
				for _, b := range bad {
					args := append([]string{}, good[:n]...)
					args[i] = b
					lazy := name == "IIf" && i == 2 || name == "IsNull" && i == 1
					if name == "IsNull" && i == 1 {
						// the first argument is null, so the second is needed
						check(name, name+"("+strings.Join(args, ",")+")", plain, false)
						args[0] = "5"
						check(name, name+"("+strings.Join(args, ",")+")", "5", true)
						continue
					}
					check(name, name+"("+strings.Join(args, ",")+")", plain, lazy)
					if name == "IIf" {
						args[0] = map[bool]string{true: args[0], false: "False"}[i == 0]
						check(name, name+"("+strings.Join(args, ",")+")", "2", i == 1)
					}
					if name == "Coalesce" && i > 0 {
						args[0] = "6"
						check(name, name+"("+strings.Join(args, ",")+")", "6", true)
					}
				}
			}
		}
	case k < len(names)+len(binOps):
		op := binOps[k-len(names)]
		good := "2"
		if strings.Contains(op.names[0], "LIKE") {
			good = "'a'"
		} else if op.names[0] == "AND" || op.names[0] == "OR" {
			good = "True"
		}
		for _, b := range bad {
			check(op.names[0], b+" "+op.names[0]+" "+good, "", false)
			check(op.names[0], "NULL "+op.names[0]+" "+b, "NULL "+op.names[0]+" NULL", true)
			switch op.names[0] {
			case "AND":
				check("AND", "True AND "+b, "", false)
				check("AND", "False AND "+b, "False", true)
			case "OR":
				check("OR", "False OR "+b, "", false)
				check("OR", "True OR "+b, "True", true)
			default:
				check(op.names[0], good+" "+op.names[0]+" "+b, "", false)
			}
		}
	default:
		for _, b := range bad {
			for _, u := range []string{"-", "+", "~", "NOT ", "!"} {
				check("unary", u+b, "", false)
			}
			for _, in := range []string{"IN", "NOT IN", "IN BINARY", "NOT IN ==="} {
				check("in", b+" "+in+" (1, 2)", "", false)
				check("in", "3 "+in+" ("+b+")", "", false)
				check("in", "3 "+in+" (1, "+b+", 2)", "", false)
				check("in", "1 "+in+" (1, "+b+")", "1 "+in+" (1)", true)
			}
			check("isnull", b+" IS NULL", "", false)
			check("isnull", b+" IS NOT NULL", "", false)
		}
	}
}

// clockScenario checks the functions without arguments against the clock.
func clockScenario(c *mc.C) {
	name := []string{"Now", "UtcNow", "NOW", "utcnow"}[c.Choose(4)]
	before := time.Now()
	v, err := data.EvaluateExpression(name+"()", true)
	after := time.Now()
	c.Steps(1)
	c.Traces(1)
	c.StateHash(mc.HashStr(name))
	if err != nil || v.IsNull() || v.ValueType() != data.ExpressionValueType.DateTime {
		c.Fail("clock", "%s() gives %s, %v", name, show(v), err)
		return
	}
	t := v.Value().(time.Time)
	if t.Before(before.Add(-time.Millisecond)) || t.After(after.Add(time.Millisecond)) {
		c.Fail("clock", "%s() gives %v between %v and %v", name, t, before, after)
	}
}
