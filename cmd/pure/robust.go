package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"verif.local/mc/mc"
)

// P27: whatever the text, evaluating it ends with a result or an error.

var p27Tokens = []string{
	"1", "0", "2.5", "1E400", "9223372036854775808", "'a'", "''", "'", "#2024-01-01#", "#x#", "#", "NULL", "True", "Num", "Nope", "[Num]", "[", "{ab000000-0000-0000-0000-000000000001}", "PPA:1", "\"Tag\"", "\"",
	"+", "-", "*", "/", "%", "=", "===", "<", "<<", "AND", "NOT", "!", "LIKE", "IN", "IS NULL", "(", ")", ",", ";", "FILTER", "T", "WHERE", "TOP", "ORDER BY", "Abs", "IIf", "Len", "Now()", "\\", "--", "/*",
}

var p27Few = []string{
	"1", "'a'", "NULL", "Num", "PPA:1", "-", "=", "AND", "NOT", "LIKE", "IN", "(", ")", ",", ";", "FILTER", "T", "WHERE", "TOP", "ORDER BY", "Abs",
}

func p27Set() *data.DataSet {
	s := data.NewDataSet()
	t := s.CreateTable("T")
	t.AddColumn(t.CreateColumn("SignalID", data.DataType.Guid, ""))
	t.AddColumn(t.CreateColumn("ID", data.DataType.String, ""))
	t.AddColumn(t.CreateColumn("PointTag", data.DataType.String, ""))
	t.AddColumn(t.CreateColumn("Num", data.DataType.Int32, ""))
	for i := 0; i < 2; i++ {
		r := t.CreateRow()
		if i == 0 {
			r.SetValue(0, rowID(0))
			r.SetValue(1, "PPA:1")
			r.SetValue(2, "Tag")
			r.SetValue(3, int32(7))
		}
		t.AddRow(r)
	}
	s.AddTable(t)
	return s
}

// outcome runs f and describes its outcome; a panic is a violation.
func outcome(c *mc.C, what, text string, f func() (string, error)) (out string) {
	defer func() {
		if e := recover(); e != nil {
			if mc.IsStop(e) {
				panic(e)
			}
			c.Fail("panic/"+what, "%s of %q panics: %v", what, text, e)
			out = "panic"
		}
	}()
	s, err := f()
	if err != nil {
		return "error " + err.Error()
	}
	return "value " + s
}

func showVal(v *data.ValueExpression) string {
	if v == nil {
		return "nil"
	}
	return v.ValueType().String() + " " + v.String()
}

func robust(c *mc.C, set *data.DataSet, text string, full bool) {
	c.CaseStr(text)
	clock := strings.Contains(text, "Now")
	run := func(what string, f func() (string, error)) {
		a := outcome(c, what, text, f)
		b := outcome(c, what, text, f)
		if a != b && !clock {
			c.Fail("differs/"+what, "%s of %q: %s, then %s", what, text, a, b)
		}
		c.Steps(2)
		c.StateHash(mc.HashStr(what + "|" + text))
	}
	run("value", func() (string, error) {
		v, err := data.EvaluateExpression(text, true)
		if err == nil && v == nil {
			return "", fmt.Errorf("no value and no error")
		}
		return showVal(v), err
	})
	run("rows", func() (string, error) {
		rows, err := data.SelectDataRows(set, text, "T", nil, true)
		return fmt.Sprint(len(rows)), err
	})
	if full {
		row := set.Table("T").Row(0)
		run("row value", func() (string, error) {
			v, err := data.EvaluateDataRowExpression(row, text, true)
			return showVal(v), err
		})
		run("ids", func() (string, error) {
			ids, err := data.SelectSignalIDSet(set, text, "T", nil, true)
			return fmt.Sprint(len(ids)), err
		})
		run("select", func() (string, error) {
			rows, err := set.Table("T").Select(text, text, 1)
			return fmt.Sprint(len(rows)), err
		})
	}
	c.Traces(1)
}

func init() {
	register(mc.Check{
		ID:          "P27",
		Rule:        "every token sequence up to the bound, every function and operator over extreme values and odd text, every short date-like text, every nesting depth up to the bound and every single-character edit of valid statements is evaluated twice through every entry point: it must give a result or an error, the same both times, without panic, hang or memory exhaustion",
		Assumptions: []string{"an evaluation that runs for more than 100 s or needs more than 2.6 GB counts as a hang"},
		Scenarios: func(tier string) []mc.Scenario {
			deep := 3
			if tier == "thorough" {
				deep = 4
			}
			return []mc.Scenario{
				{Name: "tokens", Pure: true, Share: 3, Body: func(c *mc.C) {
					a, b := c.Choose(len(p27Tokens)), c.Choose(len(p27Tokens)+1)
					set := p27Set()
					if b == len(p27Tokens) {
						robust(c, set, p27Tokens[a], true)
						robust(c, set, "", true)
						return
					}
					two := p27Tokens[a] + " " + p27Tokens[b]
					robust(c, set, two, true)
					robust(c, set, p27Tokens[a]+p27Tokens[b], true)
					third := p27Tokens
					if deep == 3 {
						third = []string{"1", "'a'", ")", "Num"}
					}
					for _, t := range third {
						robust(c, set, two+" "+t, false)
					}
				}},
				{Name: "long", Pure: true, Share: 3, Body: func(c *mc.C) {
					a, b := c.Choose(len(p27Few)), c.Choose(len(p27Few))
					set := p27Set()
					for _, x := range p27Few {
						for _, y := range p27Few {
							text := p27Few[a] + " " + p27Few[b] + " " + x + " " + y
							if deep > 3 {
								robust(c, set, text, false)
								for _, z := range []string{"1", ")", "Num", "NOT", "=", "(", ";"} {
									robust(c, set, text+" "+z, false)
								}
							} else if y == "1" || y == ")" {
								robust(c, set, text, false)
							}
						}
					}
				}},
				{Name: "extremes", Pure: true, Share: 2, Body: extremes},
				{Name: "functions", Pure: true, Share: 4, Body: func(c *mc.C) { oddFunctions(c, deep) }},
				{Name: "dates", Pure: true, Share: 2, Body: func(c *mc.C) { oddDates(c, deep) }},
				{Name: "edits", Pure: true, Share: 2, Body: edits},
				{Name: "nesting", Pure: true, Body: func(c *mc.C) { nesting(c, deep) }},
			}
		},
	})
}

var extremeVals = []string{
	"0", "-1", "2147483647", "(-2147483647-1)", "9223372036854775807", "(-9223372036854775807-1)", "99999999999999999999999999999999999999", "0.000000000000000000000000000001", "1E308", "-1E308", "1E-320", "Power(10,400)", "Sqrt(-1)", "NULL", "True", "''", "'1e999999999'", "'1e-999999999'", "'-1e2147483647'", "'NaN'", "'Infinity'", "'0x'", "'abc'", "#0001-01-01#", "#9999-12-31 23:59:59#", "{00000000-0000-0000-0000-000000000000}", "Num",
}

func extremes(c *mc.C) {
	ops := []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "=", "===", "<>", "!==", "<", ">=", "AND", "OR", "LIKE", "IN"}
	op := ops[c.Choose(len(ops))]
	set := p27Set()
	row := set.Table("T").Row(0)
	for _, a := range extremeVals {
		for _, b := range extremeVals {
			text := "(" + a + ") " + op + " (" + b + ")"
			c.CaseStr(text)
			r := func() (string, error) {
				v, err := data.EvaluateDataRowExpression(row, text, true)
				return showVal(v), err
			}
			x := outcome(c, "value", text, r)
			if y := outcome(c, "value", text, r); x != y {
				c.Fail("differs/extremes", "%s: %s then %s", text, x, y)
			}
			c.Steps(2)
			c.Traces(1)
			c.StateHash(mc.HashStr(text))
		}
	}
}

func oddFunctions(c *mc.C, deep int) {
	var names []string
	for n := range refFuncs {
		names = append(names, n)
	}
	sort.Strings(names)
	name := names[c.Choose(len(names))]
	set := p27Set()
	row := set.Table("T").Row(0)
	f := refFuncs[name]
	try := func(args ...string) {
		text := name + "(" + strings.Join(args, ", ") + ")"
		c.CaseStr(text)
		r := func() (string, error) {
			v, err := data.EvaluateDataRowExpression(row, text, true)
			return showVal(v), err
		}
		x := outcome(c, "function", text, r)
		if y := outcome(c, "function", text, r); x != y && name != "Now" && name != "UtcNow" {
			c.Fail("differs/functions", "%s: %s then %s", text, x, y)
		}
		c.Steps(2)
		c.Traces(1)
		c.StateHash(mc.HashStr(text))
	}
	vals := extremeVals
	if deep == 3 {
		vals = []string{"0", "-1", "2147483647", "(-9223372036854775807-1)", "99999999999999999999999999999999999999", "1E308", "Sqrt(-1)", "NULL", "True", "''", "'1e999999999'", "'-1e2147483647'", "'abc'", "#9999-12-31 23:59:59#", "{00000000-0000-0000-0000-000000000000}", "Num"}
	}
	part := c.Choose(4)
	if part == 0 {
		try()
	}
	for i, a := range vals {
		if i%4 != part {
			continue
		}
		try(a)
		for _, b := range vals {
			try(a, b)
			if f.max >= 3 {
				for _, d := range []string{"0", "-1", "2147483647", "'1e999999999'", "NULL", "'Year'", "Sqrt(-1)"} {
					try(a, b, d)
					if f.max >= 4 {
						for _, e := range []string{"9223372036854775807", "NULL"} {
							try(a, b, d, e)
						}
					}
				}
			}
		}
	}
	if part > 0 {
		return
	}
	if name == "Convert" {
		for _, v := range extremeVals {
			for _, t := range []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime", "Nope", ""} {
				try(v, "'"+t+"'")
			}
		}
	}
	if strings.HasPrefix(name, "Date") {
		for _, v := range []string{"#0001-01-01#", "#9999-12-31 23:59:59.999#", "'2024-02-29'", "''"} {
			for _, n := range []string{"2147483647", "-2147483647", "9223372036854775807", "0", "NULL"} {
				for _, u := range []string{"Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond", "Nope"} {
					try(v, n, "'"+u+"'")
					try(v, v, "'"+u+"'")
					try("'"+u+"'", n, v)
					try(v, "'"+u+"'")
				}
			}
		}
	}
	if strings.HasPrefix(name, "RegEx") {
		for _, p := range []string{"(", "[", "*", "a**", "(a*)*b", "a{1000}", "a{99999}", "(?<x>a)", "\\\\", "\\d+", "(?i)A", "[[:alpha:]]", "\\x{110000}", "(((((((((((((((((((((a)))))))))))))))))))))"} {
			for _, s := range []string{"''", "'a'", "'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac'", "NULL", "Num"} {
				try("'"+p+"'", s)
			}
		}
	}
}

func oddDates(c *mc.C, deep int) {
	alpha := []string{"", "0", "1", "9", "12", "2024", "-", "/", ":", ".", " ", "T", "Z", "+", "jan", "pm", ",", "é"}
	if deep == 3 {
		alpha = []string{"", "1", "12", "2024", "-", "/", ":", ".", " ", "T", "pm"}
	}
	a, b := c.Choose(len(alpha)), c.Choose(len(alpha))
	for _, x := range alpha {
		for _, y := range alpha {
			s := alpha[a] + alpha[b] + x + y
			for _, text := range []string{"IsDate('" + s + "')", "Convert('" + s + "', 'DateTime')"} {
				c.CaseStr(text)
				r := func() (string, error) {
					v, err := data.EvaluateExpression(text, true)
					return showVal(v), err
				}
				p := outcome(c, "date", text, r)
				if q := outcome(c, "date", text, r); p != q {
					c.Fail("differs/date", "%s: %s then %s", text, p, q)
				}
				c.Steps(2)
				c.Traces(1)
				c.StateHash(mc.HashStr(text))
			}
			text := "#" + s + "# = #" + s + "#"
			outcome(c, "date", text, func() (string, error) {
				v, err := data.EvaluateExpression(text, true)
				return showVal(v), err
			})
			c.Steps(1)
		}
	}
}

// edits applies every single-character deletion, replacement and insertion to valid statements.
func edits(c *mc.C) {
	valid := []string{
		"FILTER TOP 1 T WHERE Num > 1 AND ID LIKE 'P%' ORDER BY Num DESC, === ID",
		"PPA:1; \"Tag\"; {ab000000-0000-0000-0000-000000000001}",
		"IIf(Num IS NULL, Abs(-1.5E3), Len('a''b')) IN (1, 0x1F)",
		"DateAdd(#2024-02-29 10:00#, 1, 'Year') <= Now()",
	}
	t := valid[c.Choose(len(valid))]
	i := c.Choose(len(t) + 1)
	set := p27Set()
	chars := []string{"'", "\"", "(", ")", "[", "]", "{", "}", "#", ";", ",", ".", ":", "-", "/*", "0", "a", " ", "\x00", "\xff", "é", "\n"}
	if i < len(t) {
		robust(c, set, t[:i]+t[i+1:], true)
	}
	for _, ch := range chars {
		robust(c, set, t[:i]+ch+t[i:], false)
		if i < len(t) {
			robust(c, set, t[:i]+ch+t[i+1:], false)
		}
	}
	robust(c, set, t[:i], true)
	robust(c, set, t[i:], true)
}

func nesting(c *mc.C, deep int) {
	set := p27Set()
	n := []int{1, 2, 5, 10, 20, 35, 100}[c.Choose(3+deep)]
	texts := []string{
		strings.Repeat("(", n) + "1" + strings.Repeat(")", n),
		strings.Repeat("(", n) + "1",
		"1" + strings.Repeat(")", n),
		strings.Repeat("!", n) + "True",
		strings.Repeat("NOT ", n) + "True",
		strings.Repeat("-", n) + "1",
		strings.Repeat("- ", n) + "1",
		strings.Repeat("Abs(", n) + "1" + strings.Repeat(")", n),
		"1" + strings.Repeat(" + 1", n),
		"1" + strings.Repeat(" +", n),
		"'" + strings.Repeat("a", n*100) + "'",
		strings.Repeat("9", n*10),
		"0." + strings.Repeat("9", n*10),
		strings.Repeat(";", n),
		strings.Repeat("PPA:1;", n),
		strings.Repeat("[", n),
		"1 IN (1" + strings.Repeat(", 2", n) + ")",
		"Coalesce(NULL" + strings.Repeat(", NULL", n) + ")",
		"FILTER T WHERE Num = 1 ORDER BY Num" + strings.Repeat(", Num", n),
		strings.Repeat("FILTER T WHERE True;", n),
		strings.Repeat("\x00", n),
		strings.Repeat("é", n),
	}
	robust(c, set, texts[c.Choose(len(texts))], true)
}
