package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"
	"verif.local/mc/mc"
)

// frow is a row of the filter tables: nil members are null.
type frow struct {
	name any // string
	num  any // int32
}

var frowNames = []any{nil, "a", "A", "b"}
var frowNums = []any{nil, int32(1), int32(2)}

func frowAt(i int) frow { return frow{frowNames[i%4], frowNums[i/4]} }

const frowCount = 12

// fcond is a condition with its reference: true, false or null.
type fcond struct {
	texts []string
	f     func(frow) any
}

func ci(s any) string { return strings.ToUpper(s.(string)) }

var fconds = []fcond{
	{[]string{"True", "1 = 1", "NOT False"}, func(frow) any { return true }},
	{[]string{"False", "!True"}, func(frow) any { return false }},
	{[]string{"NULL = 1", "Num = NULL"}, func(frow) any { return nil }},
	{[]string{"Name = 'a'", "name == 'A'", "[Name] = 'a'", "`NAME` = 'a'", "(Name = 'a')"}, func(r frow) any {
		if r.name == nil {
			return nil
		}
		return ci(r.name) == "A"
	}},
	{[]string{"Name === 'a'", "Name === 'a' /* x */"}, func(r frow) any {
		if r.name == nil {
			return nil
		}
		return r.name == "a"
	}},
	{[]string{"Num > 1", "num>1", "1 < Num"}, func(r frow) any {
		if r.num == nil {
			return nil
		}
		return r.num.(int32) > 1
	}},
	{[]string{"NOT Num > 1", "!(Num > 1)"}, func(r frow) any {
		if r.num == nil {
			return nil
		}
		return !(r.num.(int32) > 1)
	}},
	{[]string{"Num IS NULL OR Name LIKE 'a%'", "num is null || name like 'A*'"}, func(r frow) any {
		if r.name == nil {
			return nil
		}
		return r.num == nil || ci(r.name) == "A"
	}},
}

// fterm is one ordering term.
type fterm struct {
	col         int // 0 name, 1 num
	desc, exact bool
}

type forder struct {
	texts []string
	terms []fterm
}

var forders = []forder{
	{[]string{""}, nil},
	{[]string{"Name", "name ASC", "[Name] asc"}, []fterm{{0, false, false}}},
	{[]string{"Name DESC", "NAME desc"}, []fterm{{0, true, false}}},
	{[]string{"BINARY Name", "=== Name ASC", "binary `Name`"}, []fterm{{0, false, true}}},
	{[]string{"BINARY Name DESC"}, []fterm{{0, true, true}}},
	{[]string{"Num", "num asc"}, []fterm{{1, false, false}}},
	{[]string{"Num DESC"}, []fterm{{1, true, false}}},
	{[]string{"Name, Num DESC", "name asc,num desc"}, []fterm{{0, false, false}, {1, true, false}}},
	{[]string{"Num, === Name DESC"}, []fterm{{1, false, false}, {0, true, true}}},
	{[]string{"Num DESC, Name"}, []fterm{{1, true, false}, {0, false, false}}},
}

type flimit struct {
	texts []string
	n     int // -1 none
}

var flimits = []flimit{
	{[]string{""}, -1}, {[]string{"TOP -1", "top - 1"}, -1}, {[]string{"TOP 0"}, 0}, {[]string{"TOP 1", "TOP +1", "Top 1"}, 1}, {[]string{"TOP 2"}, 2}, {[]string{"TOP 100"}, 100},
}

func cmpAny(a, b any, exact bool) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	switch x := a.(type) {
	case string:
		y := b.(string)
		if !exact {
			x, y = strings.ToUpper(x), strings.ToUpper(y)
		}
		return strings.Compare(x, y)
	case int32:
		return int(x) - int(b.(int32))
	}
	panic("cmpAny")
}

func cmpRows(a, b frow, terms []fterm) int {
	for _, t := range terms {
		x, y := a.name, b.name
		if t.col == 1 {
			x, y = a.num, b.num
		}
		k := cmpAny(x, y, t.exact)
		if t.desc {
			k = -k
		}
		if k != 0 {
			return k
		}
	}
	return 0
}

type ftab struct {
	set   *data.DataSet
	table *data.DataTable
	rows  []*data.DataRow
	ref   []frow
}

func rowID(i int) guid.Guid {
	var g guid.Guid
	g[0], g[15] = 0xAB, byte(i+1)
	return g
}

func newFtab(name string, n int) *ftab {
	f := &ftab{set: data.NewDataSet(), ref: make([]frow, n)}
	f.table = f.set.CreateTable(name)
	f.table.AddColumn(f.table.CreateColumn("SignalID", data.DataType.Guid, ""))
	f.table.AddColumn(f.table.CreateColumn("Name", data.DataType.String, ""))
	f.table.AddColumn(f.table.CreateColumn("Num", data.DataType.Int32, ""))
	for i := 0; i < n; i++ {
		r := f.table.CreateRow()
		r.SetValue(0, rowID(i))
		f.table.AddRow(r)
		f.rows = append(f.rows, r)
	}
	f.set.AddTable(f.table)
	return f
}

func (f *ftab) put(i int, r frow) {
	f.ref[i] = r
	f.rows[i].SetValue(1, r.name)
	f.rows[i].SetValue(2, r.num)
}

// judgeRows checks a selection: rows satisfying the condition, in order, cut
// to the limit; ties may come in any order.
func (f *ftab) judgeRows(c *mc.C, key, what string, rows []*data.DataRow, err error, cond fcond, terms []fterm, limit int) {
	if err != nil {
		c.Fail(key+"/error", "%s on %v: %v", what, f.ref, err)
		return
	}
	var want []int
	for i, r := range f.ref {
		if cond.f(r) == true {
			want = append(want, i)
		}
	}
	sort.SliceStable(want, func(a, b int) bool { return cmpRows(f.ref[want[a]], f.ref[want[b]], terms) < 0 })
	if limit >= 0 && len(want) > limit {
		want = want[:limit]
	}
	var got []int
	seen := map[int]bool{}
	for _, r := range rows {
		k := -1
		for i := range f.rows {
			if f.rows[i] == r {
				k = i
			}
		}
		if k < 0 || seen[k] {
			c.Fail(key+"/strange-row", "%s on %v returns a row twice or of another table", what, f.ref)
			return
		}
		seen[k] = true
		got = append(got, k)
	}
	bad := len(got) != len(want)
	for i := 0; !bad && i < len(got); i++ {
		if cond.f(f.ref[got[i]]) != true {
			bad = true
		} else if len(terms) == 0 {
			bad = got[i] != want[i]
		} else {
			bad = cmpRows(f.ref[got[i]], f.ref[want[i]], terms) != 0
		}
	}
	if bad {
		c.Fail(key+"/rows", "%s on %v selects rows %v, expected %v", what, f.ref, got, want)
	}
}

func stmt(table, top, cond, order string) string {
	s := "FILTER "
	if top != "" {
		s += top + " "
	}
	s += table + " WHERE " + cond
	if order != "" {
		s += " ORDER BY " + order
	}
	return s
}

func init() {
	register(mc.Check{
		ID:          "P25",
		Rule:        "every statement (condition x order x limit) selects from every small table exactly the rows whose condition is true, sorted by a reference order and then cut; all spellings and all ways to select agree; each column type sorts in its natural order, nulls first",
		Assumptions: []string{"rows that compare equal may come in any order", "when a limit is combined with an order, selecting as a set ignores the order as documented"},
		Scenarios: func(tier string) []mc.Scenario {
			n := 3
			if tier == "thorough" {
				n = 4
			}
			return []mc.Scenario{
				{Name: "sizes", Pure: true, Body: filterSizes},
				{Name: "tables", Pure: true, Share: 3, Body: func(c *mc.C) { filterTables(c, n) }},
				{Name: "spellings", Pure: true, Share: 3, Body: filterSpellings},
				{Name: "types", Pure: true, Body: filterTypes},
				{Name: "large", Pure: true, Body: filterLarge},
			}
		},
	})
}

// filterTables evaluates every compiled statement on every table of up to n rows.
func filterTables(c *mc.C, n int) {
	ci, oi := c.Choose(len(fconds)), c.Choose(len(forders))
	for size := 0; size <= n; size++ {
		f := newFtab("T", size)
		var trees []*data.ExpressionTree
		for _, l := range flimits {
			t, err := data.GenerateExpressionTree(f.table, stmt("T", l.texts[0], fconds[ci].texts[0], forders[oi].texts[0]), true)
			if err != nil {
				c.Fail("parse", "%v", err)
				return
			}
			trees = append(trees, t)
		}
		seqs(frowCount, size, func(idx []int) {
			if len(idx) != size {
				return
			}
			for i, k := range idx {
				f.put(i, frowAt(k))
			}
			for li, l := range flimits {
				rows, err := trees[li].Select(f.table)
				f.judgeRows(c, "tree", stmt("T", l.texts[0], fconds[ci].texts[0], forders[oi].texts[0]), rows, err, fconds[ci], forders[oi].terms, l.n)
				c.Steps(1)
			}
			c.Traces(1)
			c.StateHash(mc.HashStr(fmt.Sprint(ci, oi, idx)))
		})
	}
}

func sameIDs(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	sort.Ints(a)
	sort.Ints(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// filterSpellings runs every spelling of every statement through every way of
// selecting on a few tables.
func filterSpellings(c *mc.C) {
	ci, oi, li := c.Choose(len(fconds)), c.Choose(len(forders)), c.Choose(len(flimits))
	cond, order, limit := fconds[ci], forders[oi], flimits[li]
	for _, idx := range [][]int{{}, {5}, {5, 6, 7, 4}, {0, 11, 2, 6, 1, 9}, {9, 5, 10, 6, 5, 2}} {
		f := newFtab("Tab", len(idx))
		for i, k := range idx {
			f.put(i, frowAt(k))
		}
		for _, ct := range cond.texts {
			for _, ot := range order.texts {
				for ti, lt := range limit.texts {
					for _, form := range []string{"%s", "; %s /* c */ ;"} {
						if ti > 0 && form != "%s" {
							continue
						}
						table := []string{"Tab", "tab", "[Tab]", "`TAB`"}[len(ct+ot)%4]
						text := fmt.Sprintf(form, stmt(table, lt, ct, ot))
						c.CaseStr(text)
						rows, err := data.SelectDataRows(f.set, text, "Tab", nil, true)
						f.judgeRows(c, "statement", text, rows, err, cond, order.terms, limit.n)
						low, err := data.SelectDataRows(f.set, strings.Replace(strings.Replace(strings.Replace(text, "FILTER", "filter", 1), " WHERE", " where", 1), "ORDER BY", "order By", 1), "tab", nil, true)
						f.judgeRows(c, "lower", text, low, err, cond, order.terms, limit.n)
						c.Steps(2)
						c.Traces(1)
						c.StateHash(mc.HashStr(fmt.Sprint(text, idx)))
					}
				}
				// the other ways to select
				text := stmt("Tab", limit.texts[0], ct, ot)
				rows, err := f.table.Select(ct, ot, limit.n)
				f.judgeRows(c, "table-select", text, rows, err, cond, order.terms, limit.n)
				if limit.n < 0 && ci == 0 {
					rows, err = f.table.Select("", ot, -1)
					f.judgeRows(c, "table-select-all", text, rows, err, cond, order.terms, -1)
				}
				rows, err = data.SelectDataRowsFromTable(f.table, text, "", nil, true)
				f.judgeRows(c, "rows-from-table", text, rows, err, cond, order.terms, limit.n)
				set, err := data.SelectDataRowSet(f.set, text, "Tab", nil, true)
				set2, err2 := data.SelectDataRowSetFromTable(f.table, text, nil, true)
				ids, err3 := data.SelectSignalIDSet(f.set, text, "TAB", nil, true)
				ids2, err4 := data.SelectSignalIDSetFromTable(f.table, text, "", nil, true)
				if err != nil || err2 != nil || err3 != nil || err4 != nil {
					c.Fail("set/error", "%s on %v: %v, %v, %v, %v", text, f.ref, err, err2, err3, err4)
					continue
				}
				c.Steps(7)
				want := f.natural(cond, limit.n)
				var a, b, d, e []int
				for i, r := range f.rows {
					if set.Contains(r) {
						a = append(a, i)
					}
					if set2.Contains(r) {
						b = append(b, i)
					}
					if ids.Contains(rowID(i)) {
						d = append(d, i)
					}
					if ids2.Contains(rowID(i)) {
						e = append(e, i)
					}
				}
				if len(set) != len(a) || len(set2) != len(b) || len(ids) != len(d) || len(ids2) != len(e) {
					c.Fail("set/strange", "%s on %v returns rows that are not in the table", text, f.ref)
				}
				sorted := f.sorted(cond, order.terms, limit.n)
				for k, got := range [][]int{a, b, d, e} {
					if !sameIDs(got, append([]int{}, want...)) && !(order.terms != nil && limit.n >= 0 && len(got) == len(sorted)) {
						c.Fail("set/rows", "%s on %v: set form %d has rows %v, expected %v", text, f.ref, k, got, want)
					}
				}
				pred := f.table.RowsWhere(func(r *data.DataRow) bool {
					for i := range f.rows {
						if f.rows[i] == r {
							return cond.f(f.ref[i]) == true
						}
					}
					return false
				}, limit.n)
				f.judgeRows(c, "rows-where", text, pred, nil, cond, nil, limit.n)
			}
		}
	}
}

func (f *ftab) natural(cond fcond, limit int) (out []int) {
	for i, r := range f.ref {
		if cond.f(r) == true && (limit < 0 || len(out) < limit) {
			out = append(out, i)
		}
	}
	return
}

func (f *ftab) sorted(cond fcond, terms []fterm, limit int) []int {
	out := f.natural(cond, -1)
	sort.SliceStable(out, func(a, b int) bool { return cmpRows(f.ref[out[a]], f.ref[out[b]], terms) < 0 })
	if limit >= 0 && len(out) > limit {
		out = out[:limit]
	}
	return out
}

// colVal is one value of a column type in ascending position.
type colType struct {
	t    data.DataTypeEnum
	vals []any // ascending, without null
}

func colTypes() []colType {
	D := data.DataType
	return []colType{
		{D.String, []any{"", "B", "c", "É"}},
		{D.Boolean, []any{false, true}},
		{D.DateTime, []any{time.Time{}, d2, d1, d1.Add(time.Nanosecond)}},
		{D.Single, []any{float32(math.Inf(-1)), float32(-1.5), float32(0), float32(2)}},
		{D.Double, []any{math.Inf(-1), -1.5, 0.0, 1e300}},
		{D.Decimal, []any{decimal.RequireFromString("-100"), decimal.RequireFromString("0"), decimal.RequireFromString("0.5"), decimal.RequireFromString("3")}},
		{D.Guid, []any{guid.Guid{}, gd(gB).v, rowID(0), rowID(1)}},
		{D.Int8, []any{int8(-128), int8(-1), int8(0), int8(127)}},
		{D.Int16, []any{int16(-32768), int16(-1), int16(0), int16(32767)}},
		{D.Int32, []any{int32(math.MinInt32), int32(-1), int32(0), int32(math.MaxInt32)}},
		{D.Int64, []any{int64(math.MinInt64), int64(-1), int64(0), int64(math.MaxInt64)}},
		{D.UInt8, []any{uint8(0), uint8(1), uint8(128), uint8(255)}},
		{D.UInt16, []any{uint16(0), uint16(1), uint16(0x8000), uint16(65535)}},
		{D.UInt32, []any{uint32(0), uint32(1), uint32(1 << 31), uint32(math.MaxUint32)}},
		{D.UInt64, []any{uint64(0), uint64(1), uint64(1 << 63), uint64(math.MaxUint64)}},
	}
}

// filterTypes sorts tables of up to three rows by a column of each type.
func filterTypes(c *mc.C) {
	types := colTypes()
	ct := types[c.Choose(len(types))]
	vals := append([]any{nil}, ct.vals...)
	for _, desc := range []bool{false, true} {
		for size := 0; size <= 4; size++ {
			set := data.NewDataSet()
			table := set.CreateTable("T")
			table.AddColumn(table.CreateColumn("V", ct.t, ""))
			for i := 0; i < size; i++ {
				table.AddRow(table.CreateRow())
			}
			set.AddTable(table)
			text := "FILTER T WHERE True ORDER BY V"
			if desc {
				text += " DESC"
			}
			tree, err := data.GenerateExpressionTree(table, text, true)
			if err != nil {
				c.Fail("parse", "%v", err)
				return
			}
			seqs(len(vals), size, func(idx []int) {
				if len(idx) != size {
					return
				}
				pos := map[*data.DataRow]int{}
				for i, k := range idx {
					table.Row(i).SetValue(0, vals[k])
					pos[table.Row(i)] = k
				}
				c.CaseStr(text)
				rows, err := tree.Select(table)
				if err != nil || len(rows) != size {
					c.Fail("types/error", "%s of %v: %d rows, %v", text, idx, len(rows), err)
					return
				}
				for i := 1; i < len(rows); i++ {
					a, b := pos[rows[i-1]], pos[rows[i]]
					if desc {
						a, b = b, a
					}
					if a > b && ct.t == data.DataType.Boolean && a > 0 && b > 0 {
						continue // true before false is accepted here
					}
					if a > b {
						c.Fail("types/order", "%s of %v values %v: row with %v before %v", text, ct.t, idx, vals[pos[rows[i-1]]], vals[pos[rows[i]]])
						return
					}
				}
				c.Steps(1)
				c.Traces(1)
				c.StateHash(mc.HashStr(fmt.Sprint(ct.t, desc, idx)))
			})
		}
	}
}

// filterLarge sorts tables that are larger than what simple sorting methods
// handle, built from every pattern of repeated blocks.
func filterLarge(c *mc.C) {
	oi, li := c.Choose(len(forders)), c.Choose(3)
	limit := []int{-1, 5, 17}[li]
	for _, size := range []int{12, 13, 33, 60} {
		for step := 1; step < 12; step++ {
			f := newFtab("T", size)
			for i := 0; i < size; i++ {
				f.put(i, frowAt((i*step+i/7)%frowCount))
			}
			for k, cond := range fconds {
				text := cond.texts[0]
				rows, err := f.table.Select(text, forders[oi].texts[0], limit)
				c.CaseStr(text)
				f.judgeRows(c, "large", text, rows, err, cond, forders[oi].terms, limit)
				c.Steps(1)
				c.Traces(1)
				c.StateHash(mc.HashStr(fmt.Sprint("large", oi, li, size, step, k)))
			}
		}
	}
}

// ---- P26 ----

type fstmt struct {
	text string
	rows []int // rows selected alone, in order
	ids  []int // additional signal IDs that are in no row
	bad  bool  // not a valid statement
	name bool  // an identifier
	set  []int // rows selected as a set, when the limit applies before the order
}

func stmtTable(order ...string) *ftab {
	f := &ftab{set: data.NewDataSet()}
	f.table = f.set.CreateTable("ActiveMeasurements")
	types := map[string]data.DataTypeEnum{"Num": data.DataType.Int32, "SignalID": data.DataType.Guid, "ID": data.DataType.String, "PointTag": data.DataType.String}
	if len(order) == 0 {
		order = []string{"Num", "SignalID", "ID", "PointTag"}
	}
	for _, n := range order {
		f.table.AddColumn(f.table.CreateColumn(n, types[n], ""))
	}
	for i := 0; i < 4; i++ {
		r := f.table.CreateRow()
		r.SetValueByName("Num", int32(4-i))
		r.SetValueByName("SignalID", rowID(i))
		r.SetValueByName("ID", fmt.Sprintf("PPA:%d", i+1))
		r.SetValueByName("PointTag", fmt.Sprintf("Tag-%c!x.y", 'A'+i))
		if i == 3 {
			r.SetValueByName("ID", nil)
			r.SetValueByName("PointTag", nil)
		}
		f.table.AddRow(r)
		f.rows = append(f.rows, r)
	}
	f.set.AddTable(f.table)
	other := f.set.CreateTable("Other")
	other.AddColumn(other.CreateColumn("X", data.DataType.Int32, ""))
	f.set.AddTable(other)
	return f
}

func fstmts() []fstmt {
	g := func(i int) string { return guidText([16]byte(rowID(i))) }
	var unknown [16]byte
	unknown[3] = 9
	return []fstmt{
		{text: "FILTER ActiveMeasurements WHERE Num >= 3", rows: []int{0, 1}},
		{text: "filter top 2 activemeasurements where Num < 4 order by Num", rows: []int{3, 2}, set: []int{1, 2}},
		{text: "FILTER ActiveMeasurements WHERE True ORDER BY PointTag DESC", rows: []int{2, 1, 0, 3}},
		{text: "FILTER ActiveMeasurements WHERE False"},
		{text: "Num = 2", rows: []int{2}},
		{text: "{" + g(1) + "}", rows: []int{1}, name: true},
		{text: "'" + strings.ToUpper(g(3)) + "'", rows: []int{3}, name: true},
		{text: g(0), rows: []int{0}, name: true},
		{text: "{" + guidText(unknown) + "}", ids: []int{99}, name: true},
		{text: "PPA:2", rows: []int{1}, name: true},
		{text: "ppa:1", rows: []int{0}, name: true},
		{text: "PPA:9", name: true},
		{text: "\"Tag-C!x.y\"", rows: []int{2}, name: true},
		{text: "\"TAG-b!X.Y\"", rows: []int{1}, name: true},
		{text: "\"Tag\"", name: true},
		{text: "FILTER Nope WHERE True", bad: true},
		{text: "FILTER ActiveMeasurements WHERE Nope = 1", bad: true},
		{text: "FILTER ActiveMeasurements WHERE", bad: true},
		{text: "FILTER ActiveMeasurements WHERE Num = ", bad: true},
		{text: "FILTER ActiveMeasurements WHERE Num > 1 ORDER BY Nope", bad: true},
		{text: "FILTER ActiveMeasurements WHERE (Num = 1", bad: true},
		{text: "Num = = 1", bad: true},
		{text: "?", bad: true},
		{text: "FILTER ActiveMeasurements WHERE Num / 0 = 1", bad: true},
	}
}

func init() {
	register(mc.Check{
		ID:          "P26",
		Rule:        "every list of up to three (four in the thorough tier) statements, with every separator form, selects the rows of its statements in statement order, each once; signal IDs and sets agree; a list with an invalid statement is an error; evaluating the same parser again gives the same",
		Assumptions: []string{"a signal ID stated literally counts as selected in signal ID results even if no row has it", "rows of identifiers may precede rows of filters: recorded as known finding, see known-findings.txt"},
		Scenarios: func(tier string) []mc.Scenario {
			n := 3
			if tier == "thorough" {
				n = 4
			}
			return []mc.Scenario{
				{Name: "sizes", Pure: true, Body: listSizes},
				{Name: "lists", Pure: true, Share: 4, Body: func(c *mc.C) { filterLists(c, n) }},
				{Name: "fields", Pure: true, Body: filterFields},
				{Name: "configurations", Pure: true, Body: filterConfigurations},
			}
		},
	})
}

func (f *ftab) index(r *data.DataRow) int {
	for i := range f.rows {
		if f.rows[i] == r {
			return i
		}
	}
	return -1
}

func uniq(in []int) (out []int) {
	seen := map[int]bool{}
	for _, i := range in {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return
}

func filterLists(c *mc.C, n int) {
	all := fstmts()
	var list []fstmt
	list = append(list, all[c.Choose(len(all))])
	second := c.Choose(len(all) + 1)
	if second < len(all) {
		list = append(list, all[second])
	}
	f := stmtTable()
	checkList(c, f, list)
	if len(list) < 2 {
		return
	}
	pool := all
	for _, s := range pool {
		l3 := append(append([]fstmt{}, list...), s)
		checkList(c, f, l3)
		if n > 3 && !s.bad {
			for k := 0; k < 15; k += 2 {
				checkList(c, f, append(append([]fstmt{}, l3...), all[k]))
			}
		}
	}
}

func checkList(c *mc.C, f *ftab, list []fstmt) {
	var texts []string
	var rows, first, rest []int
	bad := false
	for _, s := range list {
		texts = append(texts, s.text)
		bad = bad || s.bad
		rows = append(rows, s.rows...)
		if s.name {
			first = append(first, s.rows...)
		} else {
			rest = append(rest, s.rows...)
		}
	}
	rows, known := uniq(rows), uniq(append(first, rest...))
	seps := []string{";", " ;\n", ";;"}
	for si, sep := range seps {
		text := strings.Join(texts, sep)
		if si == 2 {
			text = ";" + text + ";"
		}
		if si > 0 && len(list) > 2 {
			break
		}
		c.CaseStr(text)
		guard(c, "panic", func() {
			p, err := data.NewFilterExpressionParserForDataSet(f.set, text, "ActiveMeasurements", nil, true)
			if err != nil {
				c.Fail("create", "%s: %v", text, err)
				return
			}
			p.TrackFilteredSignalIDs = true
			for round := 0; round < 2; round++ {
				err = p.Evaluate(true, true)
				if bad {
					if err == nil {
						c.Fail("invalid-accepted", "%q is accepted in round %d", text, round)
						return
					}
					continue
				}
				if err != nil {
					c.Fail("error", "%q round %d: %v", text, round, err)
					return
				}
				var got []int
				for _, r := range p.FilteredRows() {
					got = append(got, f.index(r))
				}
				if fmt.Sprint(got) != fmt.Sprint(rows) {
					if fmt.Sprint(got) == fmt.Sprint(known) {
						c.Fail("identifiers-first", "%q round %d selects rows %v, expected %v", text, round, got, rows)
					} else {
						c.Fail("rows", "%q round %d selects rows %v, expected %v", text, round, got, rows)
						return
					}
				}
				if p.FilterExpressionStatementCount() != len(list) {
					c.Fail("count", "%q: %d statements counted", text, p.FilterExpressionStatementCount())
				}
				set := p.FilteredRowSet()
				for _, i := range rows {
					if !set.Contains(f.rows[i]) {
						c.Fail("row-set", "%q round %d: row %d missing in set", text, round, i)
					}
				}
				if len(set) != len(rows) {
					c.Fail("row-set", "%q round %d: set has %d rows, expected %v", text, round, len(set), rows)
				}
				checkIDs(c, text, list, p.FilteredSignalIDs(), p.FilteredSignalIDSet())
			}
			ids, err := data.SelectSignalIDSet(f.set, text, "ActiveMeasurements", nil, true)
			if (err != nil) != bad {
				c.Fail("id-set/error", "%q: %v", text, err)
			} else if !bad {
				unordered := append([]fstmt{}, list...)
				for i := range unordered {
					if unordered[i].set != nil {
						unordered[i].rows = unordered[i].set
					}
				}
				checkIDs(c, text, unordered, nil, ids)
			}
			c.Steps(3)
			c.Traces(1)
			c.StateHash(mc.HashStr(text))
		})
	}
}

func checkIDs(c *mc.C, text string, list []fstmt, ids []guid.Guid, set hashset.HashSet[guid.Guid]) {
	want := map[guid.Guid]bool{}
	for _, s := range list {
		for _, i := range s.rows {
			want[rowID(i)] = true
		}
		for range s.ids {
			var u guid.Guid
			u[3] = 9
			want[u] = true
		}
	}
	for g := range want {
		if _, ok := set[g]; !ok {
			c.Fail("ids", "%q: signal ID %v is not in the set", text, g)
			return
		}
	}
	if len(set) != len(want) {
		c.Fail("ids", "%q: set has %d signal IDs, expected %d", text, len(set), len(want))
		return
	}
	if ids == nil {
		return
	}
	seen := map[guid.Guid]bool{}
	for _, g := range ids {
		if !want[g] || seen[g] {
			c.Fail("ids", "%q: signal ID %v unexpected or repeated", text, g)
			return
		}
		seen[g] = true
	}
	if len(seen) != len(want) {
		c.Fail("ids", "%q: %d signal IDs, expected %d", text, len(seen), len(want))
	}
}

// filterFields checks other identifying fields, tables and missing values.
func filterFields(c *mc.C) {
	names := []string{"SignalID", "MyID"}[c.Choose(2)]
	key := []string{"ID", "Key"}[c.Choose(2)]
	tag := []string{"PointTag", "Label"}[c.Choose(2)]
	set := data.NewDataSet()
	t := set.CreateTable("Meas")
	t.AddColumn(t.CreateColumn(tag, data.DataType.String, ""))
	t.AddColumn(t.CreateColumn(key, data.DataType.String, ""))
	t.AddColumn(t.CreateColumn(names, data.DataType.Guid, ""))
	var rows []*data.DataRow
	for i := 0; i < 3; i++ {
		r := t.CreateRow()
		r.SetValue(0, fmt.Sprintf("T%d", i))
		r.SetValue(1, fmt.Sprintf("K:%d", i))
		r.SetValue(2, rowID(i))
		t.AddRow(r)
		rows = append(rows, r)
	}
	set.AddTable(t)
	fields := &data.TableIDFields{SignalIDFieldName: strings.ToUpper(names), MeasurementKeyFieldName: strings.ToLower(key), PointTagFieldName: tag}
	for i := 0; i < 3; i++ {
		for _, text := range []string{fmt.Sprintf("\"t%d\"", i), fmt.Sprintf("k:%d", i), "{" + guidText([16]byte(rowID(i))) + "}", fmt.Sprintf("FILTER Meas WHERE [%s] = 'T%d'", tag, i), fmt.Sprintf("FILTER meas WHERE [%s] = 'K:%d'", key, i)} {
			for _, primary := range []string{"Meas", "MEAS"} {
				c.CaseStr(text)
				got, err := data.SelectDataRows(set, text, primary, fields, true)
				ids, err2 := data.SelectSignalIDSet(set, text, primary, fields, true)
				if err != nil || err2 != nil || len(got) != 1 || got[0] != rows[i] || len(ids) != 1 || !ids.Contains(rowID(i)) {
					c.Fail("fields", "%s with fields %v in table %s: %d rows, %d ids, %v, %v", text, *fields, primary, len(got), len(ids), err, err2)
				}
				c.Steps(2)
				c.Traces(1)
				c.StateHash(mc.HashStr(fmt.Sprint(names, key, tag, text, primary)))
			}
		}
	}
}
