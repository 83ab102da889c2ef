package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"verif.local/mc/mc"
)

var dataTypes = [nTypes]data.DataTypeEnum{data.DataType.Boolean, data.DataType.Int32, data.DataType.Int64, data.DataType.Decimal, data.DataType.Double, data.DataType.String, data.DataType.Guid, data.DataType.DateTime}

var valueTypes = [nTypes]data.ExpressionValueTypeEnum{data.ExpressionValueType.Boolean, data.ExpressionValueType.Int32, data.ExpressionValueType.Int64, data.ExpressionValueType.Decimal, data.ExpressionValueType.Double, data.ExpressionValueType.String, data.ExpressionValueType.Guid, data.ExpressionValueType.DateTime}

const gA = "11111111-2222-3333-4444-555555555555"
const gB = "a1111111-2222-3333-4444-5555555555ff"

var d1 = time.Date(2024, 2, 29, 23, 59, 58, 250e6, time.UTC)
var d2 = time.Date(1970, 1, 1, 0, 0, 1, 0, time.UTC)

// exprVals is the alphabet of operand values of each type.
var exprVals [nTypes][]ev

func init() {
	exprVals[tB] = []ev{vB(false), vB(true)}
	for _, i := range []int32{0, 1, -1, 2, 3, 7, 31, 32, 33, -33, math.MaxInt32, math.MinInt32} {
		exprVals[tI] = append(exprVals[tI], vI(i))
	}
	for _, i := range []int64{0, 1, -1, 2, 7, 63, 64, 65, 1 << 31, 1<<32 + 5, math.MaxInt64, math.MinInt64} {
		exprVals[tL] = append(exprVals[tL], vL(i))
	}
	for _, s := range []string{"0", "1", "-1", "0.5", "1.5", "-2.5", "100000000000000000000", "0.1", "3"} {
		exprVals[tD] = append(exprVals[tD], dec(s))
	}
	for _, f := range []float64{0, 1, -1, 0.5, -2.5, 1e300, 1e-7, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 7} {
		exprVals[tF] = append(exprVals[tF], vF(f))
	}
	for _, s := range []string{"", "a", "A", "ab", "B", "1", "1.5", "-1", "true", "abc", "É", gA, "{" + strings.ToUpper(gB) + "}", "2024-02-29 23:59:58.250", "1E5", "NaN"} {
		exprVals[tS] = append(exprVals[tS], vS(s))
	}
	exprVals[tG] = []ev{gd(gA), gd(gB), vG(guid.Guid{})}
	exprVals[tT] = []ev{vT(d1), vT(d2), vT(d1.Add(time.Hour)), vT(time.Time{})}
}

// allVals is every value of a type followed by its null.
func allVals(t int) []ev { return append(append([]ev{}, exprVals[t]...), null(t)) }

func (e ev) String() string {
	switch {
	case e.lit:
		return "NULL"
	case e.null():
		return "null " + typeNames[e.t]
	}
	return fmt.Sprintf("%s %v", typeNames[e.t], e.v)
}

func (r rout) String() string {
	switch {
	case r.err:
		return "error"
	case r.free:
		return "anything"
	case r.anyNull:
		return "null"
	}
	return r.v.String()
}

// exprTab is a one-row table with a column of every type per operand position.
type exprTab struct {
	set   *data.DataSet
	table *data.DataTable
	row   *data.DataRow
	trees map[string]*data.ExpressionTree
	errs  map[string]error
	n     int
	used  []int
}

func newExprTab(positions int) *exprTab {
	x := &exprTab{set: data.NewDataSet(), trees: map[string]*data.ExpressionTree{}, errs: map[string]error{}, n: positions}
	x.table = x.set.CreateTable("T")
	for p := 0; p < positions; p++ {
		for t := 0; t < nTypes; t++ {
			x.table.AddColumn(x.table.CreateColumn(fmt.Sprintf("c%d_%s", p, typeNames[t]), dataTypes[t], ""))
		}
	}
	x.set.AddTable(x.table)
	x.row = x.table.CreateRow()
	x.table.AddRow(x.row)
	return x
}

// operand stores a value in the row and returns the text denoting it.
func (x *exprTab) operand(pos int, e ev) string {
	if e.lit {
		return "NULL"
	}
	if err := x.row.SetValue(pos*nTypes+e.t, e.v); err != nil {
		panic(err)
	}
	return fmt.Sprintf("c%d_%s", pos, typeNames[e.t])
}

// eval evaluates text on the row.
func (x *exprTab) eval(text string) (v *data.ValueExpression, err error, crash any) {
	defer func() {
		if e := recover(); e != nil {
			if mc.IsStop(e) {
				panic(e)
			}
			crash = e
		}
	}()
	tree, ok := x.trees[text]
	if !ok {
		tree, err = data.GenerateExpressionTree(x.table, text, true)
		x.trees[text], x.errs[text] = tree, err
	}
	if err = x.errs[text]; err != nil {
		return nil, err, nil
	}
	v, err = tree.Evaluate(x.row)
	return
}

func typeOf(v *data.ValueExpression) int {
	for t := range valueTypes {
		if valueTypes[t] == v.ValueType() {
			return t
		}
	}
	return -1
}

func show(v *data.ValueExpression) string {
	if v == nil {
		return "nothing"
	}
	t := typeOf(v)
	if t < 0 {
		return fmt.Sprintf("value of type %v", v.ValueType())
	}
	return ev{t: t, v: v.Value()}.String()
}

func sameVal(v *data.ValueExpression, w ev, tol float64) bool {
	t := typeOf(v)
	if t != w.t {
		return false
	}
	if w.null() {
		return v.IsNull()
	}
	if v.IsNull() {
		return false
	}
	switch a := w.v.(type) {
	case decimal.Decimal:
		b, ok := v.Value().(decimal.Decimal)
		if !ok {
			return false
		}
		if a.Equal(b) {
			return true
		}
		if tol == 0 {
			return false
		}
		d := new(big.Rat).Sub(a.Rat(), b.Rat())
		d.Abs(d)
		lim := new(big.Rat).Mul(new(big.Rat).Abs(a.Rat()), new(big.Rat).SetFloat64(tol))
		lim.Add(lim, new(big.Rat).SetFloat64(1e-15))
		return d.Cmp(lim) <= 0
	case float64:
		b, ok := v.Value().(float64)
		return ok && (a == b || a != a && b != b || tol > 0 && math.Abs(a-b) <= tol*math.Abs(a))
	case time.Time:
		b, ok := v.Value().(time.Time)
		return ok && a.Equal(b)
	}
	return v.Value() == w.v
}

// judge compares an evaluation with the reference outcome.
func judge(c *mc.C, key string, what func() string, v *data.ValueExpression, err error, crash any, r rout) bool {
	fail := func(kind string) bool {
		got := show(v)
		if crash != nil {
			got = fmt.Sprintf("panic: %v", crash)
		} else if err != nil {
			got = "error: " + err.Error()
		}
		c.Fail(key+"/"+kind, "%s gives %s, expected %s", what(), got, r)
		return false
	}
	switch {
	case crash != nil:
		return fail("panic")
	case r.free:
		return true
	case r.err:
		if err == nil {
			return fail("no-error")
		}
		return true
	case err != nil:
		if r.altErr {
			return true
		}
		return fail("error")
	case v == nil:
		return fail("nothing")
	}
	if sameVal(v, r.v, r.tol) || r.anyNull && v.IsNull() {
		return true
	}
	for _, a := range r.alt {
		if sameVal(v, a, r.tol) {
			return true
		}
	}
	switch {
	case r.v.null() != v.IsNull():
		return fail("null")
	case typeOf(v) != r.v.t:
		return fail("type")
	}
	return fail("value")
}

type binOp struct {
	names []string
	f     func(l, r ev) rout
	prec  int // documented precedence, 1 binds tightest
	level int // precedence as implemented by the grammar
}

func arith(op string) func(l, r ev) rout { return func(l, r ev) rout { return refArith(op, l, r) } }

func compare(op string) func(l, r ev) rout {
	return func(l, r ev) rout { return refCompare(op, l, r) }
}

func shift(op string) func(l, r ev) rout { return func(l, r ev) rout { return refShift(op, l, r) } }
func logic(op string) func(l, r ev) rout { return func(l, r ev) rout { return refLogic(op, l, r) } }

func like(exact, not bool) func(l, r ev) rout {
	return func(l, r ev) rout { return refLike(l, r, exact, not) }
}

var binOps = []binOp{
	{[]string{"*"}, arith("*"), 1, 1},
	{[]string{"/"}, arith("/"), 1, 1},
	{[]string{"%"}, arith("%"), 1, 1},
	{[]string{"+"}, arith("+"), 2, 1},
	{[]string{"-"}, arith("-"), 2, 1},
	{[]string{"<<"}, shift("<<"), 3, 2},
	{[]string{">>"}, shift(">>"), 3, 2},
	{[]string{"&"}, arith("&"), 3, 2},
	{[]string{"|"}, arith("|"), 3, 2},
	{[]string{"^", "XOR", "xor", "Xor"}, arith("^"), 3, 2},
	{[]string{"<"}, compare("<"), 4, 3},
	{[]string{"<="}, compare("<="), 4, 3},
	{[]string{">"}, compare(">"), 4, 3},
	{[]string{">="}, compare(">="), 4, 3},
	{[]string{"=", "=="}, compare("="), 5, 3},
	{[]string{"==="}, compare("==="), 5, 3},
	{[]string{"!=", "<>"}, compare("!="), 5, 3},
	{[]string{"!=="}, compare("!=="), 5, 3},
	{[]string{"LIKE", "like", "Like"}, like(false, false), 6, 4},
	{[]string{"NOT LIKE", "not like", "! LIKE", "!LIKE"}, like(false, true), 6, 4},
	{[]string{"LIKE BINARY", "like binary", "LIKE ==="}, like(true, false), 6, 4},
	{[]string{"NOT LIKE BINARY", "!like==="}, like(true, true), 6, 4},
	{[]string{"AND", "and", "&&"}, logic("AND"), 7, 5},
	{[]string{"OR", "or", "||"}, logic("OR"), 8, 5},
}

var opKeys = []string{"mul", "div", "mod", "add", "sub", "shl", "shr", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "eqx", "ne", "nex", "like", "notlike", "likex", "notlikex", "AND", "OR"}

// wraps are redundant spellings of an operation: parentheses, spacing and
// comments.
var wraps = []string{"%s %s %s", "(%s %s %s)", "((%s) %s (%s))", "%s/* * */%s\t%s", "(%s)%s(%s)", " ( %s\n%s -- x\n %s ) "}

// likeVals extend the text alphabet with patterns.
var likeVals = []ev{vS("%"), vS("*"), vS("%a"), vS("a%"), vS("%b%"), vS("*B*"), vS("a*b"), vS("%%"), vS("**A"), vS("%A%"), vS("abc%"), vS("*c")}

func init() {
	register(mc.Check{
		ID:   "P23",
		Rule: "every operator spelling applied to every pair of operand values of every type pair equals an independent evaluator of the documented rules (type promotion, comparison, logic, bits, null), every literal form has its documented value, every pair of operators groups by the documented precedence, redundant parentheses, comments and letter case change nothing, and null conditions select no rows",
		Assumptions: []string{
			"conversions of numbers outside the range of the target integer type and of NaN or infinity to Decimal are unspecified: any outcome but a panic is accepted",
			"repeated wildcards at one end of a LIKE pattern are unspecified",
		},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "long", Pure: true, Body: longExpressions},
				{Name: "binary", Pure: true, Body: binaryScenario},
				{Name: "columns", Pure: true, Body: columnScenario},
				{Name: "unary", Pure: true, Body: unaryScenario},
				{Name: "membership", Pure: true, Body: membershipScenario},
				{Name: "literals", Pure: true, Body: literalScenario},
				{Name: "precedence", Pure: true, Body: func(c *mc.C) { precedenceScenario(c, tier == "thorough") }},
				{Name: "selects", Pure: true, Body: selectNullScenario},
			}
		},
	})
}

func binaryScenario(c *mc.C) {
	oi := c.Choose(len(binOps))
	op := binOps[oi]
	lt := c.Choose(nTypes + 1)
	x := newExprTab(2)
	lv := []ev{nullLit}
	if lt < nTypes {
		lv = allVals(lt)
	}
	for rt := 0; rt <= nTypes; rt++ {
		rv := []ev{nullLit}
		if rt < nTypes {
			rv = allVals(rt)
		}
		if rt == tS && strings.Contains(op.names[0], "LIKE") {
			rv = append(append([]ev{}, rv...), likeVals...)
		}
		for _, l := range lv {
			for _, r := range rv {
				want := refRun(func() rout { return op.f(l, r) })
				a, b := x.operand(0, l), x.operand(1, r)
				for ni, name := range op.names {
					for wi, w := range wraps {
						if ni > 0 && wi > 1 || wi > 2 && rt != lt || name[0] > ' ' && wi == 3 && name[0] >= 'A' && strings.Contains(name, "LIKE") {
							continue
						}
						text := fmt.Sprintf(w, a, name, b)
						v, err, crash := x.eval(text)
						c.CaseStr(text)
						judge(c, opKeys[oi], func() string { return fmt.Sprintf("%s (%v, %v)", text, l, r) }, v, err, crash, want)
						c.Steps(1)
					}
				}
				c.Traces(1)
				c.StateHash(mc.HashStr(fmt.Sprint(oi, l, r)))
				if !l.lit {
					checkKept(c, x, 0, l)
				}
				if !r.lit {
					checkKept(c, x, 1, r)
				}
			}
		}
	}
	c.Outcome(fmt.Sprintf("%s lt=%d", op.names[0], lt))
}

// checkKept verifies that evaluation left an operand column alone.
func checkKept(c *mc.C, x *exprTab, pos int, e ev) {
	v, err := x.row.Value(pos*nTypes + e.t)
	if err != nil {
		c.Fail("row-error", "reading column of %v: %v", e, err)
		return
	}
	switch a := e.v.(type) {
	case float64:
		if b, ok := v.(float64); ok && (a == b || a != a && b != b) {
			return
		}
	case decimal.Decimal:
		if b, ok := v.(decimal.Decimal); ok && a.Equal(b) {
			return
		}
	default:
		if v == e.v {
			return
		}
	}
	c.Fail("row-changed", "evaluation changed a row value from %v to %v", e, v)
}

func unaryScenario(c *mc.C) {
	ops := []string{"+", "-", "~", "NOT", "!"}
	op := ops[c.Choose(len(ops))]
	x := newExprTab(1)
	forms := []string{op + " %s", "(" + op + "(%s))", op + "(%s)", op + "(" + op + " %s)"}
	if op == "NOT" {
		forms = append(forms, "not %s", "Not(%s)")
	}
	for t := 0; t <= nTypes; t++ {
		vals := []ev{nullLit}
		if t < nTypes {
			vals = allVals(t)
		}
		for _, e := range vals {
			for fi, f := range forms {
				want := refRun(func() rout { return refUnary(op, e) })
				if fi == 3 {
					want = refRun(func() rout { return refUnary(op, refUnary(op, e).v) })
				}
				text := fmt.Sprintf(f, x.operand(0, e))
				v, err, crash := x.eval(text)
				c.CaseStr(text)
				judge(c, "unary"+op, func() string { return fmt.Sprintf("%s (%v)", text, e) }, v, err, crash, want)
				c.Steps(1)
			}
			c.Traces(1)
			c.StateHash(mc.HashStr(fmt.Sprint("u", op, e)))
		}
	}
}

func membershipScenario(c *mc.C) {
	x := newExprTab(3)
	lt := c.Choose(nTypes + 1)
	lv := []ev{nullLit}
	if lt < nTypes {
		lv = allVals(lt)
	}
	// IS [NOT] NULL
	for _, l := range lv {
		for _, f := range []struct {
			s   string
			not bool
		}{{"%s IS NULL", false}, {"%s is null", false}, {"(%s) Is Null", false}, {"%s IS NOT NULL", true}, {"%s is ! null", true}, {"(%s IS not NULL)", true}} {
			text := fmt.Sprintf(f.s, x.operand(0, l))
			v, err, crash := x.eval(text)
			c.CaseStr(text)
			judge(c, "isnull", func() string { return fmt.Sprintf("%s (%v)", text, l) }, v, err, crash, is(vB(l.null() != f.not)))
			c.Steps(1)
		}
	}
	for rt := 0; rt <= nTypes; rt++ {
		rv := []ev{nullLit}
		if rt < nTypes {
			rv = allVals(rt)
		}
		for _, l := range lv {
			for _, r := range rv {
				a, b := x.operand(0, l), x.operand(1, r)
				thirds := []ev{nullLit, l, r}
				for k := -1; k < len(thirds); k++ {
					items := []ev{r}
					list := b
					if k >= 0 {
						items = append(items, thirds[k])
						list += "," + x.operand(2, thirds[k])
					}
					for _, f := range []struct {
						s          string
						not, exact bool
					}{{"%s IN (%s)", false, false}, {"%s in(%s)", false, false}, {"%s NOT IN (%s)", true, false}, {"%s ! IN (%s)", true, false}, {"%s IN BINARY (%s)", false, true}, {"%s IN === (%s)", false, true}, {"%s not in binary (%s)", true, true}} {
						text := fmt.Sprintf(f.s, a, list)
						want := refRun(func() rout { return refIn(l, items, f.exact, f.not) })
						v, err, crash := x.eval(text)
						c.CaseStr(text)
						judge(c, "in", func() string { return fmt.Sprintf("%s (%v, %v)", text, l, items) }, v, err, crash, want)
						c.Steps(1)
					}
					c.Traces(1)
					c.StateHash(mc.HashStr(fmt.Sprint("in", l, items)))
				}
			}
		}
	}
}

func literalScenario(c *mc.C) {
	type lit struct {
		s string
		v ev
	}
	g := gd(gB)
	lits := []lit{
		{"0", vI(0)}, {"7", vI(7)}, {"2147483647", vI(math.MaxInt32)}, {"2147483648", vL(1 << 31)}, {"4294967295", vL(1<<32 - 1)},
		{"9223372036854775807", vL(math.MaxInt64)}, {"9223372036854775808", dec("9223372036854775808")}, {"99999999999999999999999", dec("99999999999999999999999")},
		{"010", vI(10)}, {"0010", vI(10)}, {"08", vI(8)}, {"00", vI(0)}, {"0x10", vI(16)}, {"0XfF", vI(255)}, {"0x7fffffff", vI(math.MaxInt32)}, {"0x80000000", vL(1 << 31)}, {"0x7fffffffffffffff", vL(math.MaxInt64)},
		{"1.5", dec("1.5")}, {"1.", dec("1")}, {".5", dec("0.5")}, {"0.10", dec("0.1")}, {"123456789012345678901234567890.5", dec("123456789012345678901234567890.5")},
		{"1E3", vF(1000)}, {"1e3", vF(1000)}, {"1.5E-3", vF(0.0015)}, {"2e+2", vF(200)}, {".5e1", vF(5)}, {"1e300", vF(1e300)}, {"1E-400", vF(0)},
		{"'x'", vS("x")}, {"''", vS("")}, {"'it''s'", vS("it's")}, {"''''", vS("'")}, {"' a '", vS(" a ")}, {"'a;b'", vS("a;b")}, {"'-- no /* comment'", vS("-- no /* comment")}, {"'É'", vS("É")}, {"'\"'", vS("\"")}, {"'1'", vS("1")}, {"'#1#'", vS("#1#")},
		{"#2024-02-29 23:59:58.250#", vT(d1)}, {"#1970-01-01T00:00:01Z#", vT(d2)}, {"#2024-02-29#", vT(time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC))},
		{"{" + gB + "}", g}, {"'" + gB + "'", g}, {gB, g}, {"{" + strings.ToUpper(gB) + "}", g}, {"{" + strings.ReplaceAll(gB, "-", "") + "}", g},
		{"TRUE", vB(true)}, {"true", vB(true)}, {"False", vB(false)},
	}
	l := lits[c.Choose(len(lits))]
	check := func(text string, want rout) {
		var v *data.ValueExpression
		var err error
		crash := func() (r any) {
			defer func() { r = recover() }()
			v, err = data.EvaluateExpression(text, true)
			return nil
		}()
		c.CaseStr(text)
		judge(c, "literal", func() string { return text }, v, err, crash, want)
		c.Steps(1)
		c.Traces(1)
		c.StateHash(mc.HashStr(text))
	}
	for _, f := range []string{"(%s)", "((%s))", " ( %s )", "/* c */(%s)", "(%s) -- c", "COALESCE(%s, NULL)", "iif(true,%s,null)", "(%s);"} {
		check(fmt.Sprintf(f, l.s), is(l.v))
	}
	if l.v.t != tG {
		check(l.s, is(l.v))
	}
	for _, m := range lits {
		want := refRun(func() rout { return refCompare("=", l.v, m.v) })
		check(fmt.Sprintf("(%s) = (%s)", l.s, m.s), want)
		check(fmt.Sprintf("(%s) + (%s)", l.s, m.s), refRun(func() rout { return refArith("+", l.v, m.v) }))
	}
	check(fmt.Sprintf("(%s) = NULL", l.s), is(null(tB)))
	check(fmt.Sprintf("NULL = (%s)", l.s), is(null(tB)))
	check(fmt.Sprintf("NULL <> (%s)", l.s), is(null(tB)))
}

// strictBin applies a binary reference operation to reference outcomes.
func strictBin(op binOp, l, r ev) ev {
	w := op.f(l, r)
	if w.err {
		fail()
	}
	if w.free || w.altErr || w.anyNull || w.alt != nil || w.tol != 0 {
		freeForm()
	}
	return w.v
}

func precedenceScenario(c *mc.C, thorough bool) {
	o1 := c.Choose(len(binOps))
	o2 := c.Choose(len(binOps))
	p, q := binOps[o1], binOps[o2]
	x := newExprTab(3)
	pool := []ev{vB(true), vB(false), vI(2), vI(3), vI(7), vF(1.5), vS("a"), vS("1")}
	if thorough {
		pool = append(pool, vI(-1), vI(0), vL(5), dec("2.5"), vF(-2), vS("%"), vS("true"), null(tI), null(tB))
	}
	for _, a := range pool {
		for _, b := range pool {
			for _, d := range pool {
				left := refRun(func() rout { return is(strictBin(q, strictBin(p, a, b), d)) })
				right := refRun(func() rout { return is(strictBin(p, a, strictBin(q, b, d))) })
				ta, tb, td := x.operand(0, a), x.operand(1, b), x.operand(2, d)
				what := func(s string) string { return fmt.Sprintf("%s (%v, %v, %v)", s, a, b, d) }
				// explicit parentheses
				text := fmt.Sprintf("(%s %s %s) %s %s", ta, p.names[0], tb, q.names[0], td)
				v, err, crash := x.eval(text)
				c.CaseStr(text)
				judge(c, "left-group/"+opKeys[o1]+"/"+opKeys[o2], func() string { return what(text) }, v, err, crash, left)
				text = fmt.Sprintf("%s %s (%s %s %s)", ta, p.names[0], tb, q.names[0], td)
				v, err, crash = x.eval(text)
				c.CaseStr(text)
				judge(c, "right-group/"+opKeys[o1]+"/"+opKeys[o2], func() string { return what(text) }, v, err, crash, right)
				// no parentheses
				doc, flat := left, left
				if q.prec < p.prec {
					doc = right
				}
				if q.level < p.level {
					flat = right
				}
				text = fmt.Sprintf("%s %s %s %s %s", ta, p.names[0], tb, q.names[0], td)
				v, err, crash = x.eval(text)
				c.CaseStr(text)
				c.Steps(3)
				c.Traces(1)
				c.StateHash(mc.HashStr(fmt.Sprint("p", o1, o2, a, b, d)))
				if crash == nil && (q.prec < p.prec) != (q.level < p.level) && matches(v, err, flat) && !matches(v, err, doc) {
					c.Fail("grouping/"+opKeys[o1]+"/"+opKeys[o2], "%s groups to the left: gives %s, by the documented precedence it is %s", what(text), show(v), doc)
					continue
				}
				judge(c, "mixed/"+opKeys[o1]+"/"+opKeys[o2], func() string { return what(text) }, v, err, crash, doc)
			}
		}
	}
}

func matches(v *data.ValueExpression, err error, r rout) bool {
	if r.free {
		return true
	}
	if r.err || err != nil || v == nil {
		return r.err == (err != nil)
	}
	return sameVal(v, r.v, r.tol)
}

// selectNullScenario checks that conditions without a true value select nothing.
func selectNullScenario(c *mc.C) {
	oi := 10 + c.Choose(8)
	op := binOps[oi]
	x := newExprTab(2)
	for t := 0; t < nTypes; t++ {
		for _, l := range allVals(t) {
			for _, r := range append(allVals(t), nullLit) {
				want := refRun(func() rout { return op.f(l, r) })
				for _, text := range []string{fmt.Sprintf("%s %s %s", x.operand(0, l), op.names[0], x.operand(1, r)), fmt.Sprintf("(%s %s %s) AND True", x.operand(0, l), op.names[0], x.operand(1, r))} {
					c.CaseStr(text)
					guard(c, "select/panic", func() {
						rows, err := data.SelectDataRows(x.set, "FILTER T WHERE "+text, "T", nil, true)
						sel, err2 := x.table.Select(text, "", -1)
						sel1 := !want.err && !want.free && want.v.v == true
						if want.free {
							return
						}
						if err != nil || err2 != nil {
							c.Fail("select/error", "%s (%v, %v): %v, %v", text, l, r, err, err2)
						}
						if (len(rows) == 1) != sel1 || (len(sel) == 1) != sel1 {
							c.Fail("select/rows", "%s (%v, %v) selects %d and %d rows, condition is %v", text, l, r, len(rows), len(sel), want)
						}
					})
					c.Steps(2)
					c.Traces(1)
					c.StateHash(mc.HashStr(fmt.Sprint("s", text, l, r)))
				}
			}
		}
	}
}

// columnValue is the value a column value of any type has in an expression.
func columnValue(t data.DataTypeEnum, v any) ev {
	D := data.DataType
	et := map[data.DataTypeEnum]int{
		D.String: tS, D.Boolean: tB, D.DateTime: tT, D.Single: tF, D.Double: tF, D.Decimal: tD, D.Guid: tG,
		D.Int8: tI, D.Int16: tI, D.Int32: tI, D.Int64: tL, D.UInt8: tI, D.UInt16: tI, D.UInt32: tL, D.UInt64: tL,
	}[t]
	switch n := v.(type) {
	case nil:
		return null(et)
	case int8:
		return vI(int32(n))
	case int16:
		return vI(int32(n))
	case uint8:
		return vI(int32(n))
	case uint16:
		return vI(int32(n))
	case uint32:
		return vL(int64(n))
	case uint64:
		if n > math.MaxInt64 {
			return vF(float64(n))
		}
		return vL(int64(n))
	case float32:
		return vF(float64(n))
	}
	return ev{t: et, v: v}
}

// columnScenario: columns of every type as operands on either side.
func columnScenario(c *mc.C) {
	types := rowVals()
	ct := types[c.Choose(len(types))]
	oi := c.Choose(len(binOps))
	x := newExprTab(1)
	col := x.table.CreateColumn("Wide", ct.t, "")
	x.table.AddColumn(col)
	x.row = x.table.CreateRow()
	x.table.AddRow(x.row)
	others := []ev{nullLit, vB(true), vI(0), vI(1), vI(-3), vL(1<<32 + 5), dec("0.5"), vF(0.5), vF(-200), vS("a"), vS("1"), gd(gA), vT(d1)}
	for _, v := range append([]any{nil}, ct.vals...) {
		if err := x.row.SetValue(col.Index(), v); err != nil {
			c.Fail("columns/set", "%v column cannot hold %v: %v", ct.t, v, err)
			continue
		}
		e := columnValue(ct.t, v)
		got, err, crash := x.eval("Wide")
		c.Case("%v column %v", ct.t, v)
		judge(c, "columns/read", func() string { return fmt.Sprintf("%v column holding %v", ct.t, v) }, got, err, crash, is(e))
		for _, o := range others {
			for side := 0; side < 2; side++ {
				a, b, l, r := "Wide", x.operand(0, o), e, o
				if side == 1 {
					a, b, l, r = b, a, o, e
				}
				want := refRun(func() rout { return binOps[oi].f(l, r) })
				text := fmt.Sprintf("%s %s %s", a, binOps[oi].names[0], b)
				got, err, crash := x.eval(text)
				c.CaseStr(text)
				judge(c, "columns/"+opKeys[oi], func() string { return fmt.Sprintf("%s (%v column %v, %v)", text, ct.t, v, o) }, got, err, crash, want)
				c.Steps(1)
			}
		}
		c.Traces(1)
		c.StateHash(mc.HashStr(fmt.Sprint("column", oi, ct.t, v)))
	}
}
