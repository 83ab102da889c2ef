package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"
	"verif.local/mc/mc"
)

// ---- P38: expression trees and the filter parser as objects ----

// tstmt is a statement with everything its tree should say.
type tstmt struct {
	text  string
	table string // filter statements
	cond  func(num int32) bool
	top   int
	order int // 0 none, 1 by Num, -1 by Num descending
	terms string
	name  int  // row an identifier denotes, -1 none
	guid  bool // identifier given as GUID
	bad   bool
	value bool // an expression that is no condition
}

// tRow is a row of the reference: identity and number.
type tRow struct {
	id  int
	num int32
}

func tstmts() []tstmt {
	const am = "ActiveMeasurements"
	return []tstmt{
		{text: "FILTER ActiveMeasurements WHERE Num >= 3", table: am, top: -1, cond: func(n int32) bool { return n >= 3 }, name: -1},
		{text: "filter top 2 [ActiveMeasurements] where Num < 4 order by Num", table: am, top: 2, order: 1, terms: "Num+", cond: func(n int32) bool { return n < 4 }, name: -1},
		{text: "FILTER TOP 1 activemeasurements WHERE Num <> 3 ORDER BY `num` DESC, BINARY PointTag", table: am, top: 1, order: -1, terms: "Num- PointTag+!", cond: func(n int32) bool { return n != 3 }, name: -1},
		{text: "FILTER TOP 0 ActiveMeasurements WHERE True", table: am, top: 0, cond: func(int32) bool { return true }, name: -1},
		{text: "FILTER TOP -1 ActiveMeasurements WHERE True ORDER BY Num ASC, === ID DESC", table: am, top: -1, order: 1, terms: "Num+ ID-!", cond: func(int32) bool { return true }, name: -1},
		{text: "FILTER TOP 3 ActiveMeasurements WHERE Num > 1", table: am, top: 3, cond: func(n int32) bool { return n > 1 }, name: -1},
		{text: "Num = 2", top: -1, cond: func(n int32) bool { return n == 2 }, name: -1},
		{text: "Num + 1", top: -1, cond: func(n int32) bool { return false }, name: -1, value: true},
		{text: "{" + guidText([16]byte(rowID(1))) + "}", name: 1, guid: true, top: -1},
		{text: "PPA:1", name: 0, top: -1},
		{text: "\"tag-C!x.y\"", name: 2, top: -1},
		{text: "FILTER Nope WHERE True", bad: true, name: -1},
		{text: "FILTER ActiveMeasurements WHERE Num > ", bad: true, name: -1},
		{text: "Nope = 1", bad: true, name: -1},
	}
}

func init() {
	register(mc.Check{
		ID:   "P38",
		Rule: "the trees prepared from every list of up to three statements say what the statements say and select, whatever prepared them, what the statement alone selects; every sequence of evaluations, tree requests, tracking changes, data changes and data set changes on one parser gives after each evaluation what a reference selection gives; trees built from their parts equal the reference for every operator, function and list form; access to a part as another kind or type is an error; invalid text is an error and reported through every entry point",
		Assumptions: []string{
			"rows of identifiers may precede rows of filters (known finding of P26)",
			"trees obtained before the data set or the tracking changed are not judged afterwards",
		},
		Scenarios: func(tier string) []mc.Scenario {
			d := 3
			if tier == "thorough" {
				d = 4
			}
			return []mc.Scenario{
				{Name: "accessors", Pure: true, Body: accessorScenario},
				{Name: "structure", Pure: true, Body: structureScenario},
				{Name: "entry-points", Pure: true, Body: entryScenario},
				{Name: "lists", Pure: true, Share: 2, Body: treeLists},
				{Name: "built", Pure: true, Share: 4, Body: func(c *mc.C) { builtScenario(c, tier == "thorough") }},
				{Name: "repeated", Pure: true, Lasso: 2, Body: func(c *mc.C) { parserHistories(c, 40) }},
				{Name: "histories", Pure: true, Share: 6, Body: func(c *mc.C) { parserHistories(c, d) }},
			}
		},
	})
}

// opTypes are the operator kinds in the order of binOps.
func opTypes() []data.ExpressionOperatorTypeEnum {
	o := data.ExpressionOperatorType
	return []data.ExpressionOperatorTypeEnum{o.Multiply, o.Divide, o.Modulus, o.Add, o.Subtract, o.BitShiftLeft, o.BitShiftRight, o.BitwiseAnd, o.BitwiseOr, o.BitwiseXor,
		o.LessThan, o.LessThanOrEqual, o.GreaterThan, o.GreaterThanOrEqual, o.Equal, o.EqualExactMatch, o.NotEqual, o.NotEqualExactMatch,
		o.Like, o.NotLike, o.LikeExactMatch, o.NotLikeExactMatch, o.And, o.Or}
}

func fnType(name string) data.ExpressionFunctionTypeEnum {
	return data.ExpressionFunctionTypeEnum(reflect.ValueOf(data.ExpressionFunctionType).FieldByName(name).Int())
}

func valueExpr(e ev) data.Expression {
	if e.lit {
		return data.NullValue(data.ExpressionValueType.Undefined)
	}
	if e.null() {
		return data.NullValue(valueTypes[e.t])
	}
	return data.NewValueExpression(valueTypes[e.t], e.v)
}

func evalTree(root data.Expression, row *data.DataRow) (v *data.ValueExpression, err error, crash any) {
	defer func() {
		if e := recover(); e != nil {
			if mc.IsStop(e) {
				panic(e)
			}
			crash = e
		}
	}()
	t := data.NewExpressionTree()
	t.Root = root
	v, err = t.Evaluate(row)
	return
}

// builtScenario evaluates trees put together from their parts.
func builtScenario(c *mc.C, thorough bool) {
	ops := opTypes()
	names := fnNames()
	k := c.Choose(len(ops) + len(names) + 3)
	few := func(t int) []ev {
		v := allVals(t)
		if !thorough && len(v) > 13 {
			v = append(append([]ev{}, v[:12]...), null(t))
		}
		return v
	}
	pool := []ev{nullLit}
	for t := 0; t < nTypes; t++ {
		pool = append(pool, few(t)...)
	}
	count := func(what string) {
		c.Steps(1)
		c.Traces(1)
		c.StateHash(mc.HashStr(what))
	}
	switch {
	case k < len(ops):
		x := newExprTab(1)
		for _, l := range pool {
			for _, r := range pool {
				want := refRun(func() rout { return binOps[k].f(l, r) })
				what := fmt.Sprintf("(%v) %s (%v)", l, binOps[k].names[0], r)
				c.CaseStr(what)
				v, err, crash := evalTree(data.NewOperatorExpression(ops[k], valueExpr(l), valueExpr(r)), nil)
				judge(c, "built/"+opKeys[k], func() string { return "built " + what }, v, err, crash, want)
				if !l.lit {
					// the same with a column on the left
					x.operand(0, l)
					v, err, crash = evalTree(data.NewOperatorExpression(ops[k], data.NewColumnExpression(x.table.Column(l.t)), valueExpr(r)), x.row)
					judge(c, "built-column/"+opKeys[k], func() string { return "built with column " + what }, v, err, crash, want)
				}
				count(what)
			}
		}
	case k < len(ops)+len(names):
		name := names[k-len(ops)]
		spec, alpha := refFuncs[name], fnArgs()[name]
		args := make([]ev, len(alpha))
		exprs := make([]data.Expression, len(alpha))
		var rec func(i int)
		rec = func(i int) {
			if i >= spec.min {
				want := refRun(func() rout { return spec.f(args[:i]) })
				what := fmt.Sprintf("%s%v", name, args[:i])
				c.CaseStr(what)
				v, err, crash := evalTree(data.NewFunctionExpression(fnType(name), append([]data.Expression{}, exprs[:i]...)), nil)
				judge(c, "built/"+name, func() string { return "built " + what }, v, err, crash, want)
				count(what)
			}
			if i == len(alpha) {
				return
			}
			step := 1
			if i > 1 && !thorough {
				step = 2
			}
			for a := 0; a < len(alpha[i]); a += step {
				args[i], exprs[i] = alpha[i][a], valueExpr(alpha[i][a])
				rec(i + 1)
			}
		}
		rec(0)
	case k == len(ops)+len(names):
		u := data.ExpressionUnaryType
		for ui, ut := range []data.ExpressionUnaryTypeEnum{u.Plus, u.Minus, u.Not} {
			op := []string{"+", "-", "~"}[ui]
			for t := 0; t <= nTypes; t++ {
				vals := []ev{nullLit}
				if t < nTypes {
					vals = allVals(t)
				}
				for _, e := range vals {
					what := fmt.Sprintf("%s (%v)", op, e)
					c.CaseStr(what)
					v, err, crash := evalTree(data.NewUnaryExpression(ut, valueExpr(e)), nil)
					judge(c, "built/unary"+op, func() string { return "built " + what }, v, err, crash, refRun(func() rout { return refUnary(op, e) }))
					count(what)
				}
			}
		}
	case k == len(ops)+len(names)+1:
		o := data.ExpressionOperatorType
		for _, e := range pool {
			for i, ot := range []data.ExpressionOperatorTypeEnum{o.IsNull, o.IsNotNull} {
				what := fmt.Sprintf("%v %v", ot, e)
				c.CaseStr(what)
				v, err, crash := evalTree(data.NewOperatorExpression(ot, valueExpr(e), nil), nil)
				judge(c, "built/isnull", func() string { return "built " + what }, v, err, crash, is(vB(e.null() != (i == 1))))
				count(what)
			}
		}
		// a tree without root is a null condition
		v, err, crash := evalTree(nil, nil)
		judge(c, "built/empty", func() string { return "tree without root" }, v, err, crash, is(null(tB)))
	default:
		for _, l := range pool {
			for _, r := range pool {
				for _, third := range []ev{nullLit, l, vS("ab"), vI(7)} {
					for f := 0; f < 4; f++ {
						not, exact := f&1 > 0, f&2 > 0
						items := []ev{r, third}
						what := fmt.Sprintf("(%v) in %v not=%v exact=%v", l, items, not, exact)
						c.CaseStr(what)
						v, err, crash := evalTree(data.NewInListExpression(valueExpr(l), []data.Expression{valueExpr(r), valueExpr(third)}, not, exact), nil)
						judge(c, "built/in", func() string { return "built " + what }, v, err, crash, refRun(func() rout { return refIn(l, items, exact, not) }))
						count(what)
					}
				}
			}
		}
	}
}

// kindsOf reports as which kinds an expression can be obtained.
func kindsOf(e data.Expression) (out [6]bool, bad string) {
	a, err := data.GetValueExpression(e)
	out[0] = err == nil
	if (a != nil) != (err == nil) {
		bad = "value"
	}
	b, err := data.GetUnaryExpression(e)
	out[1] = err == nil
	if (b != nil) != (err == nil) {
		bad = "unary"
	}
	d, err := data.GetColumnExpression(e)
	out[2] = err == nil
	if (d != nil) != (err == nil) {
		bad = "column"
	}
	f, err := data.GetInListExpression(e)
	out[3] = err == nil
	if (f != nil) != (err == nil) {
		bad = "list"
	}
	g, err := data.GetFunctionExpression(e)
	out[4] = err == nil
	if (g != nil) != (err == nil) {
		bad = "function"
	}
	h, err := data.GetOperatorExpression(e)
	out[5] = err == nil
	if (h != nil) != (err == nil) {
		bad = "operator"
	}
	return
}

// typedValue reads a value as the given type.
func typedValue(v *data.ValueExpression, t int) (any, error) {
	switch t {
	case tB:
		return v.BooleanValue()
	case tI:
		return v.Int32Value()
	case tL:
		return v.Int64Value()
	case tD:
		return v.DecimalValue()
	case tF:
		return v.DoubleValue()
	case tS:
		return v.StringValue()
	case tG:
		return v.GuidValue()
	}
	return v.DateTimeValue()
}

// accessorScenario reads every kind of expression as every kind and every
// value as every type.
func accessorScenario(c *mc.C) {
	k := c.Choose(nTypes + 1)
	if k == nTypes {
		x := newExprTab(1)
		kinds := []data.Expression{data.True, data.NewUnaryExpression(data.ExpressionUnaryType.Minus, data.True), data.NewColumnExpression(x.table.Column(3)),
			data.NewInListExpression(data.True, []data.Expression{data.False}, true, false), data.NewFunctionExpression(data.ExpressionFunctionType.Len, []data.Expression{data.EmptyString}),
			data.NewOperatorExpression(data.ExpressionOperatorType.Or, data.True, data.False)}
		for i, e := range append(kinds, nil) {
			var want [6]bool
			if i < 6 {
				want[i] = true
			}
			c.Case("kind %d", i)
			got, bad := kindsOf(e)
			if got != want || bad != "" {
				c.Fail("kind", "expression of kind %d can be obtained as %v, inconsistent %q", i, got, bad)
			}
			c.Steps(6)
			c.Traces(1)
			c.StateHash(mc.HashStr(fmt.Sprint("kind", i)))
		}
		for _, w := range []struct {
			v *data.ValueExpression
			e ev
		}{{data.True, vB(true)}, {data.False, vB(false)}, {data.EmptyString, vS("")}} {
			if !sameVal(w.v, w.e, 0) {
				c.Fail("constant", "%v is %s", w.e, show(w.v))
			}
		}
		return
	}
	for _, e := range allVals(k) {
		v, ok := valueExpr(e).(*data.ValueExpression)
		if !ok || !sameVal(v, e, 0) {
			c.Fail("value", "value made from %v is %s", e, show(v))
			continue
		}
		for t := 0; t < nTypes; t++ {
			c.Case("%v as %s", e, typeNames[t])
			guard(c, "value/panic", func() {
				got, err := typedValue(v, t)
				switch {
				case t != k && err == nil:
					c.Fail("value/type", "%v read as %s is accepted", e, typeNames[t])
				case t == k && err != nil:
					c.Fail("value/error", "%v read as %s: %v", e, typeNames[t], err)
				case t == k && e.null():
					if !reflect.ValueOf(got).IsZero() && fmt.Sprint(got) != "0" {
						c.Fail("value/null", "%v read as %v", e, got)
					}
				case t == k:
					if !sameVal(data.NewValueExpression(valueTypes[t], got), e, 0) {
						c.Fail("value/value", "%v read as %v", e, got)
					}
				}
			})
			// a value of another type is refused
			if !e.null() && t != k {
				func() {
					defer func() {
						if p := recover(); p == nil {
							c.Fail("value/mixed", "%v is accepted as a value of type %s", e, typeNames[t])
						}
					}()
					data.NewValueExpression(valueTypes[t], e.v)
				}()
			}
			c.Steps(2)
			c.Traces(1)
			c.StateHash(mc.HashStr(fmt.Sprint("value", k, e, t)))
		}
	}
}

// shape prints an expression through its accessors.
func shape(e data.Expression) string {
	list := func(l []data.Expression) string {
		var s []string
		for _, a := range l {
			s = append(s, shape(a))
		}
		return strings.Join(s, ",")
	}
	if e == nil {
		return "none"
	}
	if v, err := data.GetValueExpression(e); err == nil {
		if v.ValueType() == data.ExpressionValueType.Undefined && v.IsNull() {
			return "NULL"
		}
		if d, ok := v.Value().(decimal.Decimal); ok {
			return "Decimal " + d.String()
		}
		return show(v)
	}
	if u, err := data.GetUnaryExpression(e); err == nil {
		return fmt.Sprintf("%v(%s)", u.UnaryType(), shape(u.Value()))
	}
	if l, err := data.GetColumnExpression(e); err == nil {
		return l.DataColumn().Name()
	}
	if l, err := data.GetInListExpression(e); err == nil {
		return fmt.Sprintf("in[%v,%v](%s;%s)", l.HasNotKeyword(), l.ExtactMatch(), shape(l.Value()), list(l.Arguments()))
	}
	if f, err := data.GetFunctionExpression(e); err == nil {
		return fmt.Sprintf("%v(%s)", f.FunctionType(), list(f.Arguments()))
	}
	o, err := data.GetOperatorExpression(e)
	if err != nil {
		return "unknown"
	}
	return fmt.Sprintf("[%s %d %s]", shape(o.LeftValue()), o.OperatorType(), shape(o.RightValue()))
}

// structureScenario checks that single operations are prepared as what they
// are, with their operands in place.
func structureScenario(c *mc.C) {
	x := newExprTab(2)
	operands := []struct{ text, shape string }{
		{"c0_Int32", "c0_Int32"}, {"[c1_String]", "c1_String"}, {"C0_DOUBLE", "c0_Double"}, {"7", "Int32 7"}, {"4294967296", "Int64 4294967296"}, {"1.5", "Decimal 1.5"},
		{"'a b'", "String a b"}, {"True", "Boolean true"}, {"false", "Boolean false"}, {"NULL", "NULL"}, {"{" + gA + "}", "Guid " + fmt.Sprint(gd(gA).v)}, {"#2024-02-29 23:59:58.250#", "DateTime " + fmt.Sprint(d1)},
	}
	k := c.Choose(len(binOps) + 3)
	check := func(text, want string) {
		c.CaseStr(text)
		guard(c, "structure/panic", func() {
			t, err := data.GenerateExpressionTree(x.table, text, true)
			if err != nil {
				c.Fail("structure/error", "%s: %v", text, err)
				return
			}
			if got := shape(t.Root); got != want {
				c.Fail("structure", "%s is prepared as %s, expected %s", text, got, want)
			}
			if t.TableName != "" || t.TopLimit != -1 || len(t.OrderByTerms) != 0 {
				c.Fail("structure/clauses", "%s has table %q, limit %d, %d terms", text, t.TableName, t.TopLimit, len(t.OrderByTerms))
			}
		})
		c.Steps(1)
		c.Traces(1)
		c.StateHash(mc.HashStr(text))
	}
	switch {
	case k < len(binOps):
		for _, l := range operands {
			for _, r := range operands {
				for _, name := range binOps[k].names {
					check(l.text+" "+name+" "+r.text, fmt.Sprintf("[%s %d %s]", l.shape, opTypes()[k], r.shape))
				}
			}
		}
	case k == len(binOps):
		o := data.ExpressionOperatorType
		for _, a := range operands {
			check(a.text+" IS NULL", fmt.Sprintf("[%s %d none]", a.shape, o.IsNull))
			check(a.text+" IS NOT NULL", fmt.Sprintf("[%s %d none]", a.shape, o.IsNotNull))
			for _, n := range []string{"~", "NOT ", "!"} {
				check(n+a.text, "~("+a.shape+")")
			}
			check("("+a.text+")", a.shape)
			if strings.HasPrefix(strings.ToLower(a.text), "c") {
				check("-"+a.text, "-("+a.shape+")")
				check("+"+a.text, "+("+a.shape+")")
			}
		}
	case k == len(binOps)+1:
		for _, name := range fnNames() {
			for n := 1; n <= 3; n++ {
				var t, s []string
				for i := 0; i < n; i++ {
					t, s = append(t, operands[(i*5+len(name))%len(operands)].text), append(s, operands[(i*5+len(name))%len(operands)].shape)
				}
				check(name+"("+strings.Join(t, ", ")+")", fmt.Sprintf("%v(%s)", fnType(name), strings.Join(s, ",")))
				check(strings.ToUpper(name)+"("+strings.Join(t, ",")+")", fmt.Sprintf("%v(%s)", fnType(name), strings.Join(s, ",")))
			}
		}
	default:
		for _, l := range operands {
			for _, r := range operands {
				for f, form := range []string{"%s IN (%s)", "%s NOT IN (%s)", "%s IN BINARY (%s)", "%s NOT IN === (%s)"} {
					head := fmt.Sprintf("in[%v,%v](%s;", f&1 > 0, f&2 > 0, l.shape)
					check(fmt.Sprintf(form, l.text, r.text), head+r.shape+")")
					check(fmt.Sprintf(form, l.text, r.text+", "+l.text+",9"), head+r.shape+","+l.shape+",Int32 9)")
				}
			}
		}
	}
}

// entryScenario gives the same text to everything that accepts one.
func entryScenario(c *mc.C) {
	texts := []struct {
		text   string
		bad    bool // not well formed
		failed bool // well formed, cannot be prepared
	}{
		{"FILTER ActiveMeasurements WHERE Num = 1", false, false}, {"Num = 1", false, false}, {"Num = 1;Num = 2", false, false}, {"PPA:1; Num = 1", false, false},
		{"1 = 1", false, false}, {"Num IN (1,2) AND NOT Num IS NULL", false, false},
		{"Num = ", true, false}, {"= 1", true, false}, {"(Num = 1", true, false}, {"Num = 1)", true, false}, {"FILTER", true, false}, {"FILTER ActiveMeasurements", true, false},
		{"FILTER TOP ActiveMeasurements WHERE True", true, false}, {"FILTER ActiveMeasurements WHERE True ORDER BY", true, false}, {"FILTER TOP 1.5 ActiveMeasurements WHERE True", true, false},
		{"Num = 1; FILTER", true, false}, {"FILTER; Num = 1", true, false}, {"Num IN ()", true, false}, {"Num IS", true, false}, {"Foo(1)", true, false}, {"Num Num", true, false},
		{"FILTER Nope WHERE True", false, true}, {"Nope = 1", false, true}, {"Num = 1; Nope = 1", false, true}, {"FILTER ActiveMeasurements WHERE True ORDER BY Nope", false, true},
	}
	t := texts[c.Choose(len(texts))]
	f := stmtTable()
	c.CaseStr(t.text)
	want := t.bad || t.failed
	verdict := func(key string, err error, got any) {
		c.Steps(1)
		if (err != nil) != want {
			c.Fail("entry/"+key, "%q through %s: error %v", t.text, key, err)
		}
		if v := reflect.ValueOf(got); err != nil && !v.IsNil() && !(v.Kind() == reflect.Slice && v.Len() == 0) {
			c.Fail("entry/both", "%q through %s gives an error and a result", t.text, key)
		}
	}
	guard(c, "entry/panic", func() {
		trees, err := data.GenerateExpressionTrees(f.set, "ActiveMeasurements", t.text, true)
		verdict("trees", err, trees)
		trees, err = data.GenerateExpressionTreesFromTable(f.table, t.text, true)
		verdict("trees-from-table", err, trees)
		tree, err := data.GenerateExpressionTree(f.table, t.text, true)
		verdict("tree", err, tree)
		v, err := data.EvaluateDataRowExpression(f.rows[0], t.text, true)
		verdict("row-expression", err, v)
		rows, err := data.SelectDataRows(f.set, t.text, "ActiveMeasurements", nil, true)
		verdict("rows", err, rows)
		rows, err = data.SelectDataRowsFromTable(f.table, t.text, "", nil, true)
		verdict("rows-from-table", err, rows)
		set, err := data.SelectDataRowSet(f.set, t.text, "ActiveMeasurements", nil, true)
		verdict("row-set", err, set)
		set, err = data.SelectDataRowSetFromTable(f.table, t.text, nil, true)
		verdict("row-set-from-table", err, set)
		ids, err := data.SelectSignalIDSet(f.set, t.text, "ActiveMeasurements", nil, true)
		verdict("ids", err, ids)
		ids, err = data.SelectSignalIDSetFromTable(f.table, t.text, "", nil, true)
		verdict("ids-from-table", err, ids)
		if !strings.Contains(t.text, ";") && !strings.Contains(t.text, "FILTER") && t.text != "PPA:1" {
			rows, err = f.table.Select(t.text, "", -1)
			verdict("select", err, rows)
		}
		for round := 0; round < 3; round++ {
			// the callback hears of malformed text and only of that
			p := data.NewFilterExpressionParser(t.text, true)
			p.DataSet, p.PrimaryTableName = f.set, "ActiveMeasurements"
			p.TableIDFields["ActiveMeasurements"] = data.DefaultTableIDFields
			heard := 0
			p.SetParsingExceptionCallback(func(m string) {
				heard++
				if m == "" {
					c.Fail("callback/empty", "%q is reported without message", t.text)
				}
			})
			for i := 0; i < 2; i++ {
				heard = 0
				if round > 0 {
					_, err = p.ExpressionTrees()
				} else {
					err = p.Evaluate(true, true)
				}
				c.Steps(1)
				if (err != nil) != want {
					c.Fail("entry/parser", "%q attempt %d: error %v", t.text, i, err)
				}
				if (heard > 0) != t.bad {
					c.Fail("callback", "%q attempt %d is reported %d times", t.text, i, heard)
				}
				if round == 2 {
					p.SetParsingExceptionCallback(nil)
					if err = p.Evaluate(false, false); (err != nil) != want {
						c.Fail("entry/parser", "%q without callback: error %v", t.text, err)
					}
					break
				}
			}
		}
	})
	// missing arguments
	guard(c, "missing/panic", func() {
		must := func(key string, err error) {
			if err == nil {
				c.Fail("missing", "%s without its argument is accepted (%q)", key, t.text)
			}
			c.Steps(1)
		}
		_, err := data.GenerateExpressionTrees(nil, "ActiveMeasurements", t.text, true)
		must("trees without data set", err)
		_, err = data.GenerateExpressionTreesFromTable(nil, t.text, true)
		must("trees without table", err)
		_, err = data.GenerateExpressionTree(nil, t.text, true)
		must("tree without table", err)
		_, err = data.EvaluateDataRowExpression(nil, t.text, true)
		must("row expression without row", err)
		_, err = data.SelectDataRows(nil, t.text, "ActiveMeasurements", nil, true)
		must("rows without data set", err)
		_, err = data.SelectDataRowsFromTable(nil, t.text, "", nil, true)
		must("rows without table", err)
		_, err = data.SelectDataRowSet(nil, t.text, "ActiveMeasurements", nil, true)
		must("row set without data set", err)
		_, err = data.SelectDataRowSetFromTable(nil, t.text, nil, true)
		must("row set without table", err)
		_, err = data.SelectSignalIDSet(nil, t.text, "ActiveMeasurements", nil, true)
		must("signal IDs without data set", err)
		_, err = data.SelectSignalIDSetFromTable(nil, t.text, "", nil, true)
		must("signal IDs without table", err)
		must("evaluation without data set", data.NewFilterExpressionParser(t.text, true).Evaluate(true, true))
		_, err = data.EvaluateExpression("", true)
		must("evaluation of nothing", err)
		_, err = data.EvaluateDataRowExpression(f.rows[0], "", true)
		must("row expression of nothing", err)
		_, err = data.GenerateExpressionTrees(f.set, "ActiveMeasurements", "", true)
		must("trees of nothing", err)
		_, err = data.SelectDataRows(f.set, "", "ActiveMeasurements", nil, true)
		must("rows of nothing", err)
	})
	c.Traces(1)
	c.StateHash(mc.HashStr(t.text))
}

// pick is the reference selection of a statement.
func (s tstmt) pick(rows []tRow, limit, sorted bool) (out []int) {
	if s.name >= 0 {
		for _, r := range rows {
			if r.id == s.name {
				return []int{s.name}
			}
		}
		return nil
	}
	var sel []tRow
	for _, r := range rows {
		if s.cond(r.num) {
			sel = append(sel, r)
		}
	}
	if sorted && s.order != 0 {
		sort.SliceStable(sel, func(a, b int) bool { return int(sel[a].num)*s.order < int(sel[b].num)*s.order })
	}
	if limit && s.top >= 0 && len(sel) > s.top {
		sel = sel[:s.top]
	}
	for _, r := range sel {
		out = append(out, r.id)
	}
	return
}

// checkTree compares a tree with the statement it was made from.
func checkTree(c *mc.C, f *ftab, what string, t *data.ExpressionTree, s tstmt, rows []tRow) {
	if t == nil {
		c.Fail("tree/nil", "%s gives no tree for %q", what, s.text)
		return
	}
	if !strings.EqualFold(t.TableName, s.table) || t.TopLimit != s.top {
		c.Fail("tree/clauses", "%s: tree of %q has table %q and limit %d", what, s.text, t.TableName, t.TopLimit)
	}
	var terms []string
	for _, o := range t.OrderByTerms {
		x := o.Column.Name()
		if o.Ascending {
			x += "+"
		} else {
			x += "-"
		}
		if o.ExactMatch {
			x += "!"
		}
		terms = append(terms, x)
	}
	if strings.Join(terms, " ") != s.terms {
		c.Fail("tree/order", "%s: tree of %q has order %v, expected %q", what, s.text, terms, s.terms)
	}
	if s.guid {
		v, err := t.Evaluate(nil)
		if err != nil || !sameVal(v, vG(rowID(s.name)), 0) {
			c.Fail("tree/guid", "%s: %q evaluates to %s, %v", what, s.text, show(v), err)
		}
		return
	}
	// forwards, backwards and repeated rows
	for _, i := range []int{0, 1, 2, 3, 3, 2, -1, 0, 0, 1} {
		if i < 0 {
			if v, err := t.Evaluate(nil); err == nil && strings.Contains(s.text, "Num ") && !strings.Contains(s.text, "WHERE True") {
				c.Fail("tree/no-row", "%s: %q without row gives %s", what, s.text, show(v))
			}
			continue
		}
		v, err := t.Evaluate(f.rows[i])
		c.Steps(1)
		if err != nil {
			c.Fail("tree/evaluate", "%s: %q on row %d: %v", what, s.text, i, err)
		} else if s.value {
			if !sameVal(v, vI(rows[i].num+1), 0) {
				c.Fail("tree/evaluate", "%s: %q on row %d gives %s", what, s.text, i, show(v))
			}
		} else if !sameVal(v, vB(s.cond(rows[i].num)), 0) {
			c.Fail("tree/evaluate", "%s: %q on row %d gives %s", what, s.text, i, show(v))
		}
	}
	got, err := t.Select(f.table)
	c.Steps(1)
	if s.value {
		if err == nil {
			c.Fail("tree/no-condition", "%s: selecting by %q, which is no condition, is accepted", what, s.text)
		}
		return
	}
	if err != nil || fmt.Sprint(f.ids(got)) != fmt.Sprint(s.pick(rows, true, true)) {
		c.Fail("tree/select", "%s: %q selects %v, %v, expected %v", what, s.text, f.ids(got), err, s.pick(rows, true, true))
	}
	for flags := 0; flags < 4; flags++ {
		limit, sorted := flags&1 > 0, flags&2 > 0
		for _, inverted := range []bool{false, true} {
			ref := s
			if inverted {
				cond := s.cond
				ref.cond = func(n int32) bool { return !cond(n) }
			}
			got, err = t.SelectWhere(f.table, func(v *data.ValueExpression) (bool, error) {
				b, err := v.BooleanValue()
				return b != inverted, err
			}, limit, sorted)
			c.Steps(1)
			if err != nil || fmt.Sprint(f.ids(got)) != fmt.Sprint(ref.pick(rows, limit, sorted)) {
				c.Fail("tree/select-where", "%s: %q limit=%v sort=%v inverted=%v selects %v, %v, expected %v", what, s.text, limit, sorted, inverted, f.ids(got), err, ref.pick(rows, limit, sorted))
			}
		}
	}
	if _, err = t.SelectWhere(f.table, func(*data.ValueExpression) (bool, error) { return false, fmt.Errorf("no") }, false, false); err == nil {
		c.Fail("tree/predicate-error", "%s: %q: the error of the predicate is lost", what, s.text)
	}
	if _, err = t.Select(nil); err == nil {
		c.Fail("tree/no-table", "%s: %q selects from no table", what, s.text)
	}
}

func (f *ftab) ids(rows []*data.DataRow) (out []int) {
	for _, r := range rows {
		out = append(out, f.index(r))
	}
	return
}

var tRows = []tRow{{0, 4}, {1, 3}, {2, 2}, {3, 1}}

// treeLists prepares trees of statement lists in every way.
func treeLists(c *mc.C) {
	all := tstmts()
	list := []tstmt{all[c.Choose(len(all))]}
	if k := c.Choose(len(all) + 1); k < len(all) {
		list = append(list, all[k])
		if k = c.Choose(len(all) + 1); k < len(all) {
			list = append(list, all[k])
		}
	}
	f := stmtTable()
	var texts []string
	var trees, tracked []tstmt
	bad := false
	for _, s := range list {
		texts = append(texts, s.text)
		bad = bad || s.bad
		if s.name < 0 {
			tracked = append(tracked, s)
		}
		if s.name < 0 || s.guid {
			trees = append(trees, s)
		}
	}
	text := strings.Join(texts, "; ")
	c.CaseStr(text)
	check := func(what string, got []*data.ExpressionTree, err error, want []tstmt) {
		c.Steps(1)
		if bad {
			if err == nil {
				c.Fail("lists/accepted", "%s: %q is accepted with %d trees", what, text, len(got))
			}
			return
		}
		if err != nil || len(got) != len(want) {
			c.Fail("lists/count", "%s: %q gives %d trees, %v, expected %d", what, text, len(got), err, len(want))
			return
		}
		for i := range want {
			checkTree(c, f, what, got[i], want[i], tRows)
		}
	}
	guard(c, "lists/panic", func() {
		a, err := data.GenerateExpressionTrees(f.set, "ActiveMeasurements", text, true)
		check("trees", a, err, trees)
		b, err := data.GenerateExpressionTreesFromTable(f.table, text, true)
		check("trees of table", b, err, trees)
		one, err := data.GenerateExpressionTree(f.table, text, true)
		if bad || len(trees) == 0 {
			if err == nil {
				c.Fail("lists/accepted", "first tree: %q is accepted", text)
			}
		} else {
			check("first tree", []*data.ExpressionTree{one}, err, trees[:1])
		}
		for mode := 0; mode < 4; mode++ {
			p, err := data.NewFilterExpressionParserForDataSet(f.set, text, "ActiveMeasurements", nil, true)
			if err != nil {
				c.Fail("lists/create", "%q: %v", text, err)
				return
			}
			p.TrackFilteredRows, p.TrackFilteredSignalIDs = mode&1 > 0, mode&2 > 0
			want := tracked
			if mode == 0 {
				want = trees
			}
			first, err := p.ExpressionTrees()
			check(fmt.Sprintf("parser %d", mode), first, err, want)
			second, err := p.ExpressionTrees()
			check(fmt.Sprintf("parser %d again", mode), second, err, want)
			if !bad && p.FilterExpressionStatementCount() != len(list) {
				c.Fail("lists/statements", "%q: %d statements counted after trees were obtained, expected %d", text, p.FilterExpressionStatementCount(), len(list))
			}
		}
		// trees do not disturb each other
		if !bad && len(a) == len(b) {
			for i := range a {
				checkTree(c, f, "late", a[len(a)-1-i], trees[len(a)-1-i], tRows)
			}
		}
	})
	c.Traces(1)
	c.StateHash(mc.HashStr(text))
}

// parserHistories applies every sequence of d operations to one parser.
func parserHistories(c *mc.C, d int) {
	all := tstmts()
	lists := [][]int{{0}, {1}, {2}, {8}, {9}, {0, 1}, {1, 2}, {6, 9}, {8, 1}, {9, 8}, {2, 10, 0}, {9, 9, 8}, {3, 5}, {7, 6}, {0, 11}, {11}, {13, 0}}
	var list []tstmt
	var texts []string
	for _, i := range lists[c.Choose(len(lists))] {
		list, texts = append(list, all[i]), append(texts, all[i].text)
	}
	text := strings.Join(texts, ";")
	f, g := stmtTable(), stmtTable("PointTag", "ID", "SignalID", "Num")
	// the other data set has the columns in another order and other numbers
	for i := range g.rows {
		g.rows[i].SetValueByName("Num", int32(i+1))
	}
	refs := [2][]tRow{append([]tRow{}, tRows...), {{0, 1}, {1, 2}, {2, 3}, {3, 4}}}
	tabs := [2]*ftab{f, g}
	at := 0
	p, err := data.NewFilterExpressionParserForDataSet(f.set, text, "ActiveMeasurements", nil, true)
	if err != nil {
		c.Fail("histories/create", "%q: %v", text, err)
		return
	}
	rowsOn, idsOn := true, false
	bad := false
	want := 0
	for _, s := range list {
		bad = bad || s.bad
		if s.name < 0 {
			want++
		}
	}
	fresh := false // the last evaluation was made with the present settings
	limit, sorted := false, false
	var done []string
	judgeResults := func() {
		var exp, first, rest []int
		for _, s := range list {
			r := s.pick(refs[at], limit, sorted)
			exp = append(exp, r...)
			if s.name >= 0 {
				first = append(first, r...)
			} else {
				rest = append(rest, r...)
			}
		}
		exp, alt := uniq(exp), uniq(append(first, rest...))
		if rowsOn {
			got := tabs[at].ids(p.FilteredRows())
			if fmt.Sprint(got) != fmt.Sprint(exp) && fmt.Sprint(got) != fmt.Sprint(alt) {
				c.Fail("histories/rows", "%q after %v: rows %v, expected %v", text, done, got, exp)
			}
		} else if len(p.FilteredRows()) != 0 {
			c.Fail("histories/untracked", "%q after %v: %d rows without tracking", text, done, len(p.FilteredRows()))
		}
		if idsOn {
			var got []int
			for _, id := range p.FilteredSignalIDs() {
				got = append(got, int(id[15])-1)
			}
			if fmt.Sprint(got) != fmt.Sprint(exp) && fmt.Sprint(got) != fmt.Sprint(alt) {
				c.Fail("histories/ids", "%q after %v: signal IDs of rows %v, expected %v", text, done, got, exp)
			}
		} else if len(p.FilteredSignalIDs()) != 0 {
			c.Fail("histories/untracked", "%q after %v: %d signal IDs without tracking", text, done, len(p.FilteredSignalIDs()))
		}
		if n := p.FilterExpressionStatementCount(); n != len(list) {
			c.Fail("histories/count", "%q after %v: %d statements counted", text, done, n)
		}
	}
	judgeSets := func() {
		exp := map[int]bool{}
		for _, s := range list {
			for _, i := range s.pick(refs[at], limit, sorted) {
				exp[i] = true
			}
		}
		var set hashset.HashSet[*data.DataRow]
		var ids hashset.HashSet[guid.Guid]
		set, ids = p.FilteredRowSet(), p.FilteredSignalIDSet()
		n, m := 0, 0
		for i := range exp {
			if set.Contains(tabs[at].rows[i]) {
				n++
			}
			if ids.Contains(rowID(i)) {
				m++
			}
		}
		if rowsOn && (n != len(exp) || len(set) != n) || !rowsOn && len(set) != 0 {
			c.Fail("histories/row-set", "%q after %v: row set of %d, %d as expected of %d", text, done, len(set), n, len(exp))
		}
		if idsOn && (m != len(exp) || len(ids) != m) || !idsOn && len(ids) != 0 {
			c.Fail("histories/id-set", "%q after %v: signal ID set of %d, %d as expected of %d", text, done, len(ids), m, len(exp))
		}
	}
	guard(c, "histories/panic", func() {
		for step := 0; step < d; step++ {
			c.Step(step)
			op := c.Choose(10)
			c.Steps(1)
			switch op {
			case 0, 1, 2, 3:
				limit, sorted = op&1 == 0, op&2 == 0
				done = append(done, fmt.Sprintf("evaluate(%v,%v)", limit, sorted))
				c.CaseStr(text + fmt.Sprint(done))
				err := p.Evaluate(limit, sorted)
				expectErr := bad || !rowsOn && !idsOn
				if (err != nil) != expectErr {
					c.Fail("histories/error", "%q after %v: %v", text, done, err)
				}
				fresh = err == nil && !expectErr
				if fresh {
					judgeResults()
				}
			case 4:
				done = append(done, "trees")
				c.CaseStr(text + fmt.Sprint(done))
				t, err := p.ExpressionTrees()
				if bad != (err != nil) {
					c.Fail("histories/trees-error", "%q after %v: %v", text, done, err)
				} else if !bad && fresh {
					if len(t) != want {
						c.Fail("histories/trees", "%q after %v: %d trees, expected %d", text, done, len(t), want)
					}
					judgeResults()
				}
			case 5:
				done = append(done, "toggle rows")
				rowsOn, fresh = !rowsOn, false
				p.TrackFilteredRows = rowsOn
			case 6:
				done = append(done, "toggle ids")
				idsOn, fresh = !idsOn, false
				p.TrackFilteredSignalIDs = idsOn
			case 7:
				done = append(done, "other data set")
				at, fresh = 1-at, false
				p.DataSet = tabs[at].set
			case 8:
				done = append(done, "sets")
				c.CaseStr(text + fmt.Sprint(done))
				if fresh {
					judgeSets()
					judgeResults()
				} else {
					p.FilteredRowSet()
					p.FilteredSignalIDSet()
				}
			case 9:
				done = append(done, "swap numbers")
				fresh = false
				r := refs[at]
				r[0].num, r[2].num = r[2].num, r[0].num
				tabs[at].rows[0].SetValueByName("Num", r[0].num)
				tabs[at].rows[2].SetValueByName("Num", r[2].num)
			}
		}
		// and a last evaluation
		limit, sorted = true, true
		done = append(done, "evaluate(true,true)")
		err := p.Evaluate(true, true)
		if expectErr := bad || !rowsOn && !idsOn; (err != nil) != expectErr {
			c.Fail("histories/error", "%q after %v: %v", text, done, err)
		} else if !expectErr {
			judgeResults()
			judgeSets()
		}
	})
	c.Traces(1)
	c.StateHash(mc.HashStr(text + fmt.Sprint(done)))
}
