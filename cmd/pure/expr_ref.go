package main

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/araddon/dateparse"
	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// This file is the reference evaluator of the filter expression language: one
// operator or function applied to values. It follows the documentation of the
// language and knows nothing about how the library implements it.

const (
	tB = iota // Boolean
	tI        // Int32
	tL        // Int64
	tD        // Decimal
	tF        // Double
	tS        // String
	tG        // Guid
	tT        // DateTime
	nTypes
)

var typeNames = [nTypes]string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}

// ev is a value: v is nil for null, lit marks the untyped NULL literal.
type ev struct {
	t   int
	v   any
	lit bool
}

func (e ev) null() bool { return e.v == nil }

var nullLit = ev{t: tB, lit: true}

func null(t int) ev { return ev{t: t} }

// typed gives the NULL literal a type.
func (e ev) typed(t int) ev {
	if e.lit {
		return null(t)
	}
	return e
}

// outcome of a reference evaluation.
type rout struct {
	v       ev
	err     bool    // must be an error
	free    bool    // any outcome but a panic
	anyNull bool    // null of any type
	tol     float64 // relative tolerance for numbers
	alt     []ev    // other accepted values
	altErr  bool    // error accepted as well
}

type refErr struct{}
type refFree struct{}

func fail()     { panic(refErr{}) }
func freeForm() { panic(refFree{}) }

// refRun evaluates f and turns its panics into outcomes.
func refRun(f func() rout) (r rout) {
	defer func() {
		switch e := recover(); e.(type) {
		case nil:
		case refErr:
			r = rout{err: true}
		case refFree:
			r = rout{free: true}
		default:
			panic(e)
		}
	}()
	return f()
}

func is(v ev) rout { return rout{v: v} }

func vB(b bool) ev            { return ev{t: tB, v: b} }
func vI(i int32) ev           { return ev{t: tI, v: i} }
func vL(i int64) ev           { return ev{t: tL, v: i} }
func vD(d decimal.Decimal) ev { return ev{t: tD, v: d} }
func vF(f float64) ev         { return ev{t: tF, v: f} }
func vS(s string) ev          { return ev{t: tS, v: s} }
func vG(g guid.Guid) ev       { return ev{t: tG, v: g} }
func vT(t time.Time) ev       { return ev{t: tT, v: t} }
func dec(s string) ev         { return vD(decimal.RequireFromString(s)) }
func gd(s string) ev          { g, _ := guid.Parse(s); return vG(g) }

// text is the textual form of a value.
func (e ev) text() string {
	switch v := e.v.(type) {
	case bool:
		if v {
			return "true"
		}
		return "false"
	case int32:
		return strconv.Itoa(int(v))
	case int64:
		return strconv.FormatInt(v, 10)
	case decimal.Decimal:
		return v.String()
	case float64:
		return strconv.FormatFloat(v, 'f', 6, 64)
	case string:
		return v
	case guid.Guid:
		return "{" + guidText([16]byte(v)) + "}"
	case time.Time:
		return v.Format("2006-01-02T15:04:05.99-07:00")
	}
	return ""
}

func f2i(f float64, bits int) int64 {
	lim := math.Ldexp(1, bits-1)
	if math.IsNaN(f) || math.Trunc(f) >= lim || math.Trunc(f) < -lim {
		freeForm()
	}
	return int64(f)
}

func d2i(d decimal.Decimal, bits int) int64 {
	t := d.Truncate(0).BigInt()
	lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	if t.Cmp(lim) >= 0 || t.Cmp(new(big.Int).Neg(lim)) < 0 {
		freeForm()
	}
	return t.Int64()
}

// num makes a number of type t out of an exact or floating value.
func numI(t int, i int64) ev {
	switch t {
	case tB:
		return vB(i != 0)
	case tI:
		return vI(int32(i))
	case tL:
		return vL(i)
	case tD:
		return vD(decimal.NewFromInt(i))
	}
	return vF(float64(i))
}

func refConvert(e ev, t int) ev {
	if e.null() {
		return null(t)
	}
	if e.t == t {
		return e
	}
	if t == tS {
		return vS(e.text())
	}
	switch v := e.v.(type) {
	case bool:
		if t <= tF {
			return numI(t, int64(b2i(v)))
		}
	case int32:
		if t <= tF {
			return numI(t, int64(v))
		}
	case int64:
		if t == tI && int64(int32(v)) != v {
			freeForm()
		}
		if t <= tF {
			return numI(t, v)
		}
	case decimal.Decimal:
		switch t {
		case tB:
			return vB(!v.IsZero())
		case tI:
			return vI(int32(d2i(v, 32)))
		case tL:
			return vL(d2i(v, 64))
		case tF:
			f, _ := v.Float64()
			return vF(f)
		}
	case float64:
		switch t {
		case tB:
			return vB(v != 0)
		case tI:
			return vI(int32(f2i(v, 32)))
		case tL:
			return vL(f2i(v, 64))
		case tD:
			if math.IsNaN(v) || math.IsInf(v, 0) {
				freeForm()
			}
			return vD(decimal.NewFromFloat(v))
		}
	case string:
		switch t {
		case tB:
			b, _ := strconv.ParseBool(v)
			return vB(b)
		case tI, tL, tD:
			d, err := decimal.NewFromString(v)
			if err != nil {
				d = decimal.Decimal{}
			}
			return refConvert(vD(d), t)
		case tF:
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				f = 0
			}
			return vF(f)
		case tG:
			g, err := guid.Parse(v)
			if err != nil {
				g = guid.Guid{}
			}
			return vG(g)
		case tT:
			d, err := dateparse.ParseIn(v, time.UTC)
			if err != nil {
				d = time.Time{}
			}
			return vT(d.UTC())
		}
	case time.Time:
		if t == tB {
			return vB(v.Unix() != 0)
		}
		if t == tI {
			if u := v.Unix(); int64(int32(u)) != u {
				freeForm()
			}
		}
		if t <= tF {
			return numI(t, v.Unix())
		}
	}
	fail()
	return ev{}
}

func maxT(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func isNum(t int) bool { return t <= tF }
func isInt(t int) bool { return t <= tL }

// both gives NULL literals the type of the other operand.
func both(l, r ev) (ev, ev) {
	if l.lit && !r.lit {
		l = null(r.t)
	}
	if r.lit {
		r = null(l.t)
	}
	l.lit = false
	return l, r
}

func refArith(op string, l, r ev) rout {
	l, r = both(l, r)
	var t int
	switch {
	case op == "+" && (l.t == tS || r.t == tS && isNum(l.t)):
		t = tS
	case isNum(l.t) && isNum(r.t):
		t = maxT(l.t, r.t)
	default:
		fail()
	}
	if (op == "%" || op == "&" || op == "|" || op == "^") && !isInt(t) {
		fail()
	}
	if l.null() || r.null() {
		if l.v == nil && r.v == nil && (l.t == tB && r.t == tB) {
			return rout{v: null(t), anyNull: true, altErr: true}
		}
		return rout{v: null(t), altErr: t == tB && (op == "*" || op == "/" || op == "%")}
	}
	a, b := refConvert(l, t), refConvert(r, t)
	switch t {
	case tB:
		x, y := int64(b2i(a.v.(bool))), int64(b2i(b.v.(bool)))
		switch op {
		case "+":
			return is(vB(x+y != 0))
		case "-":
			return is(vB(x-y != 0))
		case "&":
			return is(vB(x&y != 0))
		case "|":
			return is(vB(x|y != 0))
		case "^":
			return is(vB(x^y != 0))
		}
		fail()
	case tI, tL:
		var x, y int64
		if t == tI {
			x, y = int64(a.v.(int32)), int64(b.v.(int32))
		} else {
			x, y = a.v.(int64), b.v.(int64)
		}
		var z int64
		switch op {
		case "+":
			z = x + y
		case "-":
			z = x - y
		case "*":
			z = x * y
		case "&":
			z = x & y
		case "|":
			z = x | y
		case "^":
			z = x ^ y
		case "/", "%":
			if y == 0 {
				fail()
			}
			if op == "/" {
				z = x / y
			} else {
				z = x % y
			}
		}
		return is(numI(t, z))
	case tD:
		x, y := a.v.(decimal.Decimal), b.v.(decimal.Decimal)
		switch op {
		case "+":
			return is(vD(x.Add(y)))
		case "-":
			return is(vD(x.Sub(y)))
		case "*":
			return is(vD(x.Mul(y)))
		}
		if y.IsZero() {
			fail()
		}
		q := new(big.Rat).Quo(x.Rat(), y.Rat())
		d, _ := decimal.NewFromString(q.FloatString(16))
		return rout{v: vD(d), tol: 1e-15}
	case tF:
		x, y := a.v.(float64), b.v.(float64)
		switch op {
		case "+":
			return is(vF(x + y))
		case "-":
			return is(vF(x - y))
		case "*":
			return is(vF(x * y))
		}
		return is(vF(x / y))
	case tS:
		return is(vS(a.v.(string) + b.v.(string)))
	}
	panic("unreachable")
}

func refShift(op string, l, r ev) rout {
	if l.null() {
		return rout{v: l, anyNull: true}
	}
	r = r.typed(tI)
	if !isInt(r.t) || r.null() {
		fail()
	}
	n := refConvert(r, tL).v.(int64)
	size := int64(64)
	if l.t == tI {
		size = 32
	}
	if n == math.MinInt64 {
		freeForm()
	}
	if n < 0 {
		n = size - (-n)%size
	}
	if op == ">>" && n > 1<<40 {
		n = 1 << 40
	}
	sh := func(x int64) int64 {
		if op == "<<" {
			return int64(uint64(x) << uint64(n))
		}
		return x >> uint64(n)
	}
	switch v := l.v.(type) {
	case bool:
		return is(vB(sh(int64(b2i(v))) != 0))
	case int32:
		return is(vI(int32(sh(int64(v)))))
	case int64:
		return is(vL(sh(v)))
	}
	fail()
	return rout{}
}

// cmpType is the type two values are compared in.
func cmpType(l, r int) int {
	switch {
	case l == tS:
		return tS
	case l == tB && (r == tB || r == tS):
		return tB
	case isNum(l) && isNum(r):
		return maxT(l, r)
	case l == tF && r == tS:
		return tF
	case isNum(l) && r == tS:
		return tD
	case (l == tG || l == tT) && (r == l || r == tS):
		return l
	}
	fail()
	return 0
}

// refCmp3 orders two non-null values of the same type; ok is false when they
// are unordered.
func refCmp3(a, b ev, exact bool) (c int, ok bool) {
	switch x := a.v.(type) {
	case bool:
		return b2i(x) - b2i(b.v.(bool)), true
	case int32:
		y := b.v.(int32)
		return b2i(x > y) - b2i(x < y), true
	case int64:
		y := b.v.(int64)
		return b2i(x > y) - b2i(x < y), true
	case decimal.Decimal:
		return x.Rat().Cmp(b.v.(decimal.Decimal).Rat()), true
	case float64:
		y := b.v.(float64)
		return b2i(x > y) - b2i(x < y), x == x && y == y
	case string:
		y := b.v.(string)
		if !exact {
			x, y = strings.ToUpper(x), strings.ToUpper(y)
		}
		return strings.Compare(x, y), true
	case guid.Guid:
		return refGuidCmp([16]byte(x), [16]byte(b.v.(guid.Guid))), true
	case time.Time:
		return x.Compare(b.v.(time.Time)), true
	}
	panic("unreachable")
}

// refGuidCmp orders GUIDs by their textual form.
func refGuidCmp(a, b [16]byte) int {
	for i := range a {
		if a[i] != b[i] {
			return b2i(a[i] > b[i]) - b2i(a[i] < b[i])
		}
	}
	return 0
}

func refCompare(op string, l, r ev) rout {
	l, r = both(l, r)
	t := cmpType(l.t, r.t)
	if l.null() || r.null() {
		return is(null(tB))
	}
	exact := op == "===" || op == "!=="
	a, b := refConvert(l, t), refConvert(r, t)
	c, ok := refCmp3(a, b, exact)
	var z bool
	switch op {
	case "<":
		z = ok && c < 0
	case "<=":
		z = ok && c <= 0
	case ">":
		z = ok && c > 0
	case ">=":
		z = ok && c >= 0
	case "=", "==", "===":
		z = ok && c == 0
	default:
		z = !ok || c != 0
	}
	return is(vB(z))
}

func refLogic(op string, l, r ev) rout {
	l, r = both(l, r)
	if l.t != tB || r.t != tB {
		fail()
	}
	if l.null() || r.null() {
		return is(null(tB))
	}
	if op == "AND" {
		return is(vB(l.v.(bool) && r.v.(bool)))
	}
	return is(vB(l.v.(bool) || r.v.(bool)))
}

func refLike(l, r ev, exact, not bool) rout {
	if l.null() {
		return rout{v: null(tB), altErr: l.t != tS && !l.lit || r.t != tS || r.null()}
	}
	r = r.typed(tS)
	if l.t != tS || r.t != tS || r.null() {
		fail()
	}
	s, p := l.v.(string), strings.ReplaceAll(r.v.(string), "%", "*")
	if !exact {
		s, p = strings.ToUpper(s), strings.ToUpper(p)
	}
	lead := strings.HasPrefix(p, "*")
	trail := strings.HasSuffix(p, "*")
	m := strings.Trim(p, "*")
	if m != p && len(p)-len(m) > b2i(lead)+b2i(trail) {
		freeForm() // repeated wildcards at one end
	}
	if strings.Contains(m, "*") {
		fail()
	}
	var z bool
	switch {
	case p == "":
		// an empty pattern: equality and "matches all" are both tenable
		z := s == ""
		return rout{v: vB(z != not), alt: []ev{vB(true != not)}}
	case m == "":
		z = true
	case lead && trail:
		z = strings.Contains(s, m)
	case lead:
		z = strings.HasSuffix(s, m)
	case trail:
		z = strings.HasPrefix(s, m)
	default:
		z = s == m
	}
	return is(vB(z != not))
}

func refIn(l ev, items []ev, exact, not bool) rout {
	if l.null() {
		return rout{v: null(tB), altErr: true}
	}
	found := false
	for _, it := range items {
		it = it.typed(l.t)
		t := cmpType(l.t, it.t)
		if it.null() {
			continue
		}
		c, ok := refCmp3(refConvert(l, t), refConvert(it, t), exact)
		if ok && c == 0 {
			// the remaining items need not be looked at
			found = true
			break
		}
	}
	return is(vB(found != not))
}

func refUnary(op string, a ev) rout {
	if a.null() {
		return rout{v: a, anyNull: a.lit}
	}
	switch v := a.v.(type) {
	case bool:
		if op == "NOT" || op == "!" || op == "~" {
			return is(vB(!v))
		}
	case int32:
		switch op {
		case "+":
			return is(a)
		case "-":
			return is(vI(-v))
		case "~", "NOT", "!":
			return is(vI(^v))
		}
	case int64:
		switch op {
		case "+":
			return is(a)
		case "-":
			return is(vL(-v))
		case "~", "NOT", "!":
			return is(vL(^v))
		}
	case decimal.Decimal:
		switch op {
		case "+":
			return is(a)
		case "-":
			return is(vD(v.Neg()))
		}
	case float64:
		switch op {
		case "+":
			return is(a)
		case "-":
			return is(vF(-v))
		}
	}
	fail()
	return rout{}
}

// ---- functions ----

type fnSpec struct {
	min, max int // max -1: any number
	f        func(a []ev) rout
}

func b0(e ev) bool { return !e.null() && e.v.(bool) }

// ignoreCase reads an optional flag argument.
func ignoreCase(a []ev, i int) bool {
	if len(a) <= i {
		return false
	}
	return b0(refConvert(a[i].typed(tB), tB))
}

func needS(e ev) ev {
	e = e.typed(tS)
	if e.t != tS {
		fail()
	}
	return e
}

func needInt(e ev) ev {
	e = e.typed(tI)
	if !isInt(e.t) {
		fail()
	}
	return e
}

func i64(e ev) int64 { return refConvert(e, tL).v.(int64) }

func fold(s string, ic bool) string {
	if ic {
		return strings.ToUpper(s)
	}
	return s
}

func strTest(f func(s, t string) bool) func(a []ev) rout {
	return func(a []ev) rout {
		s, t := needS(a[0]), needS(a[1])
		if s.null() {
			return rout{v: null(tB), altErr: true}
		}
		if t.null() {
			return rout{v: vB(false), altErr: len(a) > 2}
		}
		ic := ignoreCase(a, 2)
		return is(vB(f(fold(s.v.(string), ic), fold(t.v.(string), ic))))
	}
}

func indexFn(f func(s, t string) int) func(a []ev) rout {
	return func(a []ev) rout {
		s, t := needS(a[0]), needS(a[1])
		if t.null() {
			fail()
		}
		if s.null() {
			return rout{v: null(tI), altErr: true}
		}
		ic := ignoreCase(a, 2)
		return is(vI(int32(f(fold(s.v.(string), ic), fold(t.v.(string), ic)))))
	}
}

func rounding(ff func(float64) float64, fd func(decimal.Decimal) decimal.Decimal, fi func(int64) int64) func(a []ev) rout {
	return func(a []ev) rout {
		x := a[0]
		if x.lit {
			return rout{anyNull: true, v: null(tF)}
		}
		if !isNum(x.t) {
			fail()
		}
		switch v := x.v.(type) {
		case nil, bool:
			return is(x)
		case int32:
			return is(vI(int32(fi(int64(v)))))
		case int64:
			return is(vL(fi(v)))
		case decimal.Decimal:
			return is(vD(fd(v)))
		case float64:
			return is(vF(ff(v)))
		}
		panic("unreachable")
	}
}

func same(i int64) int64 { return i }

func textFn(f func(string) ev, nullT int) func(a []ev) rout {
	return func(a []ev) rout {
		s := needS(a[0])
		if s.null() {
			return is(null(nullT))
		}
		return is(f(s.v.(string)))
	}
}

func testFn(t int, f func(string) bool, isT func(int) bool) func(a []ev) rout {
	return func(a []ev) rout {
		x := a[0]
		if x.null() {
			return is(vB(false))
		}
		if isT(x.t) {
			return is(vB(true))
		}
		if x.t != tS {
			return is(vB(false))
		}
		return is(vB(f(x.v.(string))))
	}
}

func extreme(want int) func(a []ev) rout {
	return func(a []ev) rout {
		best := a[0]
		for _, x := range a[1:] {
			if best.lit || x.lit {
				// an untyped null among identifiers or dates: not specified
				for _, y := range a {
					if y.t == tG || y.t == tT {
						freeForm()
					}
				}
			}
			t := cmpType(best.t, x.t)
			if x.null() {
				continue
			}
			if best.null() {
				best = x
				continue
			}
			l, r := refConvert(best, t), refConvert(x, t)
			if c, ok := refCmp3(l, r, false); ok && c*want < 0 {
				best = x
			} else if !ok {
				freeForm()
			}
		}
		return rout{v: best, anyNull: best.null()}
	}
}

var intervals = []string{"Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond"}

func interval(e ev) string {
	e = needS(e)
	if e.null() {
		fail()
	}
	for _, n := range intervals {
		if strings.EqualFold(n, e.v.(string)) {
			return n
		}
	}
	fail()
	return ""
}

// badInterval checks the type of an interval argument and tells whether its
// text is unknown, which need not be noticed when there is no date.
func badInterval(e ev) bool {
	e = needS(e)
	if e.null() {
		fail()
	}
	return refRun(func() rout { interval(e); return rout{} }).err
}

func dateArg(e ev) ev {
	e = e.typed(tT)
	if e.t != tT && e.t != tS {
		fail()
	}
	return e
}

func toDate(e ev) time.Time { return refConvert(e, tT).v.(time.Time) }

var refFuncs map[string]fnSpec

func init() {
	refFuncs = map[string]fnSpec{
		"Abs": {1, 1, rounding(math.Abs, decimal.Decimal.Abs, func(i int64) int64 {
			if i < 0 {
				return -i
			}
			return i
		})},
		"Ceiling": {1, 1, rounding(math.Ceil, decimal.Decimal.Ceil, same)},
		"Floor":   {1, 1, rounding(math.Floor, decimal.Decimal.Floor, same)},
		"Round": {1, 1, rounding(math.Round, func(d decimal.Decimal) decimal.Decimal {
			// half away from zero
			h := decimal.New(5, -1)
			if d.IsNegative() {
				return d.Sub(h).Ceil()
			}
			return d.Add(h).Floor()
		}, same)},
		"Sqrt": {1, 1, func(a []ev) rout {
			if a[0].lit {
				return rout{anyNull: true, v: null(tF)}
			}
			if !isNum(a[0].t) {
				fail()
			}
			if a[0].null() {
				return rout{anyNull: true, v: null(tF)}
			}
			return rout{v: vF(math.Sqrt(refConvert(a[0], tF).v.(float64))), tol: 1e-12}
		}},
		"Power": {2, 2, func(a []ev) rout {
			b, x := a[0].typed(tF), a[1].typed(tI)
			if !isNum(b.t) || !isNum(x.t) {
				fail()
			}
			if b.null() || x.null() {
				return rout{anyNull: true, v: null(b.t)}
			}
			t := maxT(b.t, x.t)
			p := math.Pow(refConvert(b, tF).v.(float64), refConvert(x, tF).v.(float64))
			switch t {
			case tB:
				return is(vB(p != 0))
			case tI:
				return is(vI(int32(f2i(p, 32))))
			case tL:
				if math.Abs(p) > 1<<52 {
					freeForm()
				}
				return is(vL(f2i(p, 64)))
			case tD:
				if math.IsNaN(p) || math.IsInf(p, 0) {
					fail()
				}
				d := decimal.NewFromFloat(p)
				return rout{v: vD(d), tol: 1e-9}
			}
			return rout{v: vF(p), tol: 1e-12}
		}},
		"Coalesce": {2, -1, func(a []ev) rout {
			for _, x := range a {
				if !x.null() {
					return is(x)
				}
			}
			return rout{anyNull: true, v: a[0]}
		}},
		"Convert": {2, 2, func(a []ev) rout {
			n := needS(a[1])
			if n.null() {
				fail()
			}
			name := strings.TrimPrefix(strings.ToUpper(n.v.(string)), "SYSTEM.")
			for t := range typeNames {
				if strings.ToUpper(typeNames[t]) == name {
					return is(refConvert(a[0], t))
				}
			}
			alias := map[string]int{"BOOL": tB, "SINGLE": tF, "FLOAT": tF, "FLOAT32": tF, "FLOAT64": tF, "INT": tL, "INT16": tL, "UINT16": tL, "UINT32": tL, "UINT64": tL, "DATE": tT, "TIME": tT, "UUID": tG}
			if t, ok := alias[name]; ok {
				return is(refConvert(a[0], t))
			}
			fail()
			return rout{}
		}},
		"Contains":    {2, 3, strTest(strings.Contains)},
		"StartsWith":  {2, 3, strTest(strings.HasPrefix)},
		"EndsWith":    {2, 3, strTest(strings.HasSuffix)},
		"IndexOf":     {2, 3, indexFn(strings.Index)},
		"LastIndexOf": {2, 3, indexFn(strings.LastIndex)},
		"NthIndexOf": {3, 4, func(a []ev) rout {
			s, t, n := needS(a[0]), needS(a[1]), needInt(a[2])
			if t.null() || n.null() {
				fail()
			}
			if s.null() {
				return rout{v: null(tI), altErr: true}
			}
			ic := ignoreCase(a, 3)
			str, test, k := fold(s.v.(string), ic), fold(t.v.(string), ic), i64(n)
			if test == "" {
				freeForm()
			}
			if k >= 0 {
				for i := 0; i+len(test) <= len(str); i++ {
					if strings.HasPrefix(str[i:], test) {
						if k == 0 {
							return is(vI(int32(i)))
						}
						k--
					}
				}
			}
			return is(vI(-1))
		}},
		"Split": {3, 4, func(a []ev) rout {
			s, t, n := needS(a[0]), needS(a[1]), needInt(a[2])
			if t.null() || n.null() {
				fail()
			}
			if s.null() {
				return rout{v: null(tS), altErr: true}
			}
			ic := ignoreCase(a, 3)
			str, test, k := s.v.(string), t.v.(string), i64(n)
			if test == "" {
				freeForm()
			}
			var parts []string
			for {
				i := strings.Index(fold(str, ic), fold(test, ic))
				if i < 0 {
					break
				}
				parts = append(parts, str[:i])
				str = str[i+len(test):]
			}
			parts = append(parts, str)
			if k < 0 || k >= int64(len(parts)) {
				return rout{v: null(tS), alt: []ev{vS("")}}
			}
			return is(vS(parts[k]))
		}},
		"Replace": {3, 4, func(a []ev) rout {
			s, t, w := needS(a[0]), needS(a[1]), needS(a[2])
			if t.null() || w.null() {
				fail()
			}
			if s.null() {
				return rout{v: null(tS), altErr: true}
			}
			ic := ignoreCase(a, 3)
			str, test := s.v.(string), t.v.(string)
			if test == "" {
				freeForm()
			}
			var b strings.Builder
			for str != "" {
				if strings.HasPrefix(fold(str, ic), fold(test, ic)) {
					b.WriteString(w.v.(string))
					str = str[len(test):]
				} else {
					b.WriteByte(str[0])
					str = str[1:]
				}
			}
			return is(vS(b.String()))
		}},
		"StrCount": {2, 3, func(a []ev) rout {
			s, t := needS(a[0]), needS(a[1])
			if s.null() || t.null() || t.v.(string) == "" {
				return rout{v: vI(0), altErr: len(a) > 2}
			}
			ic := ignoreCase(a, 2)
			return is(vI(int32(strings.Count(fold(s.v.(string), ic), fold(t.v.(string), ic)))))
		}},
		"StrCmp": {2, 3, func(a []ev) rout {
			s, t := needS(a[0]), needS(a[1])
			if s.null() || t.null() {
				// nulls come first, as in every other order of the language
				return rout{v: vI(int32(b2i(!s.null()) - b2i(!t.null()))), altErr: len(a) > 2}
			}
			ic := ignoreCase(a, 2)
			return is(vI(int32(strings.Compare(fold(s.v.(string), ic), fold(t.v.(string), ic)))))
		}},
		"SubStr": {2, 3, func(a []ev) rout {
			s, i := needS(a[0]), needInt(a[1])
			n := null(tI)
			if len(a) > 2 {
				n = needInt(a[2])
			}
			if i.null() {
				fail()
			}
			if s.null() {
				return is(null(tS))
			}
			str, k := s.v.(string), i64(i)
			if k < 0 || k >= int64(len(str)) {
				return is(vS(""))
			}
			str = str[k:]
			if !n.null() {
				m := i64(n)
				if m <= 0 {
					return is(vS(""))
				}
				if m < int64(len(str)) {
					str = str[:m]
				}
			}
			return is(vS(str))
		}},
		"Len":   {1, 1, textFn(func(s string) ev { return vI(int32(len(s))) }, tI)},
		"Lower": {1, 1, textFn(func(s string) ev { return vS(strings.ToLower(s)) }, tS)},
		"Upper": {1, 1, textFn(func(s string) ev { return vS(strings.ToUpper(s)) }, tS)},
		"Reverse": {1, 1, textFn(func(s string) ev {
			if !utf8.ValidString(s) {
				freeForm()
			}
			var b strings.Builder
			r := []rune(s)
			for i := len(r) - 1; i >= 0; i-- {
				b.WriteRune(r[i])
			}
			return vS(b.String())
		}, tS)},
		"Trim":      {1, 1, textFn(func(s string) ev { return vS(strings.TrimSpace(s)) }, tS)},
		"TrimLeft":  {1, 1, textFn(func(s string) ev { return vS(strings.TrimLeft(s, " \t\n\v\f\r\u0085\u00a0")) }, tS)},
		"TrimRight": {1, 1, textFn(func(s string) ev { return vS(strings.TrimRight(s, " \t\n\v\f\r\u0085\u00a0")) }, tS)},
		"IsDate": {1, 1, testFn(tT, func(s string) bool {
			_, err := dateparse.ParseIn(s, time.UTC)
			return err == nil
		}, func(t int) bool { return t == tT })},
		"IsInteger": {1, 1, testFn(tL, func(s string) bool {
			_, err := strconv.ParseInt(s, 0, 64)
			return err == nil
		}, isInt)},
		"IsGuid": {1, 1, testFn(tG, func(s string) bool {
			_, err := guid.Parse(s)
			return err == nil
		}, func(t int) bool { return t == tG })},
		"IsNumeric": {1, 1, testFn(tD, func(s string) bool {
			_, err := strconv.ParseFloat(s, 64)
			_, err2 := decimal.NewFromString(s)
			return err == nil || err2 == nil
		}, isNum)},
		"IsNull": {2, 2, func(a []ev) rout {
			if a[1].null() {
				fail()
			}
			if a[0].null() {
				return is(a[1])
			}
			return is(a[0])
		}},
		"MaxOf": {2, -1, extreme(1)},
		"MinOf": {2, -1, extreme(-1)},
		"IIf": {3, 3, func(a []ev) rout {
			if a[0].t != tB {
				fail()
			}
			i := 2
			if b0(a[0]) {
				i = 1
			}
			return rout{v: a[i], anyNull: a[i].lit}
		}},
		"DateAdd": {3, 3, func(a []ev) rout {
			d, n := dateArg(a[0]), needInt(a[1])
			if n.null() {
				fail()
			}
			if d.null() {
				return rout{v: null(tT), anyNull: true, altErr: badInterval(a[2])}
			}
			iv := interval(a[2])
			t, k := toDate(d), i64(n)
			if k > 1<<31 || k < -(1<<31) {
				freeForm()
			}
			unit := map[string]time.Duration{"Hour": time.Hour, "Minute": time.Minute, "Second": time.Second, "Millisecond": time.Millisecond}
			switch iv {
			case "Year":
				t = t.AddDate(int(k), 0, 0)
			case "Month":
				t = t.AddDate(0, int(k), 0)
			case "DayOfYear", "Day", "WeekDay":
				t = t.AddDate(0, 0, int(k))
			case "Week":
				t = t.AddDate(0, 0, int(k)*7)
			default:
				u := unit[iv]
				if k > math.MaxInt64/int64(u) || k < math.MinInt64/int64(u) {
					freeForm()
				}
				t = t.Add(u * time.Duration(k))
			}
			return is(vT(t))
		}},
		"DateDiff": {3, 3, func(a []ev) rout {
			l, r := dateArg(a[0]), dateArg(a[1])
			if l.null() || r.null() {
				return rout{v: null(tI), altErr: badInterval(a[2])}
			}
			iv := interval(a[2])
			x, y := toDate(l), toDate(r)
			unit := map[string]float64{"DayOfYear": 86400e3, "Day": 86400e3, "WeekDay": 86400e3, "Week": 604800e3, "Hour": 3600e3, "Minute": 60e3, "Second": 1e3, "Millisecond": 1}
			switch iv {
			case "Year":
				return is(vI(int32(y.Year() - x.Year())))
			case "Month":
				return is(vI(int32((y.Year()-x.Year())*12 + int(y.Month()) - int(x.Month()))))
			}
			if d := y.Sub(x); d == math.MaxInt64 || d == math.MinInt64 {
				freeForm()
			}
			ms := float64(y.Sub(x)) / 1e6
			return is(vI(int32(f2i(math.Trunc(ms/unit[iv]), 32))))
		}},
		"DatePart": {2, 2, func(a []ev) rout {
			d := dateArg(a[0])
			if d.null() {
				return rout{v: null(tI), altErr: badInterval(a[1])}
			}
			iv := interval(a[1])
			t := toDate(d)
			_, week := t.ISOWeek()
			v := map[string]int{"Year": t.Year(), "Month": int(t.Month()), "DayOfYear": t.YearDay(), "Day": t.Day(), "Week": week, "WeekDay": int(t.Weekday()) + 1, "Hour": t.Hour(), "Minute": t.Minute(), "Second": t.Second(), "Millisecond": t.Nanosecond() / 1e6}
			return is(vI(int32(v[iv])))
		}},
		"RegExMatch": {2, 2, func(a []ev) rout {
			p, s := needS(a[0]), needS(a[1])
			if p.null() || s.null() {
				return is(null(tB))
			}
			re, err := regexp.Compile(p.v.(string))
			if err != nil {
				fail()
			}
			return is(vB(re.MatchString(s.v.(string))))
		}},
		"RegExVal": {2, 2, func(a []ev) rout {
			p, s := needS(a[0]), needS(a[1])
			if p.null() || s.null() {
				return is(null(tS))
			}
			re, err := regexp.Compile(p.v.(string))
			if err != nil {
				fail()
			}
			return is(vS(re.FindString(s.v.(string))))
		}},
	}
}
