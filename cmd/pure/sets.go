package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/sttp/goapi/sttp/data"
	"verif.local/mc/mc"
)

// P37: data sets and tables against ordered lists and maps.

func init() {
	register(mc.Check{
		ID:          "P37",
		Rule:        "every history of up to the bound of adding, replacing, removing and clearing tables, columns and rows, with all members looked up in every letter case and at every position after each step",
		Assumptions: []string{"two columns of a table do not share a name", "rows are discarded when the columns of their table are discarded"},
		Scenarios: func(tier string) []mc.Scenario {
			n := 5
			if tier == "thorough" {
				n = 6
			}
			return []mc.Scenario{
				{Name: "sizes", Pure: true, Body: memberSizes},
				{Name: "tables", Pure: true, Body: func(c *mc.C) { setTables(c, n+1) }},
				{Name: "repeated-tables", Pure: true, Body: func(c *mc.C) { setTables(c, 40) }},
				{Name: "repeated-rows", Pure: true, Body: func(c *mc.C) { setRows(c, 40) }},
				{Name: "rows", Pure: true, Share: 3, Body: func(c *mc.C) { setRows(c, n+1) }},
			}
		},
	})
}

// letterCases are the upper, lower and mixed forms of a name.
func letterCases(s string) []string {
	r := []rune(s)
	return []string{s, strings.ToLower(s), strings.ToUpper(s), strings.ToUpper(string(r[:1])) + strings.ToLower(string(r[1:]))}
}

var setNames = []string{"Ab", "aB", "Cd", "É"}

func setTables(c *mc.C, depth int) {
	histories(c, 9, depth, 2, func(ops []int) {
		guard(c, "panic", func() {
			s := data.NewDataSet()
			ref := map[string]*data.DataTable{}
			var old *data.DataTable
			for k, op := range ops {
				c.Case("history %v", ops[:k+1])
				switch {
				case op < 4:
					t := s.CreateTable(setNames[op])
					if t.Parent() != s || t.Name() != setNames[op] || s.Table(setNames[op]) == t {
						c.Fail("tables/create", "a created table has parent %p name %q, or is a member before it is added", t.Parent(), t.Name())
					}
					s.AddTable(t)
					u := strings.ToUpper(setNames[op])
					if ref[u] != nil {
						old = ref[u]
					}
					ref[u] = t
				case op < 8:
					u := strings.ToUpper(setNames[op-4])
					if got := s.RemoveTable(setNames[op-4]); got != (ref[u] != nil) {
						c.Fail("tables/remove", "removing %s reports %v, present %v", setNames[op-4], got, ref[u] != nil)
					}
					if ref[u] != nil {
						old = ref[u]
					}
					delete(ref, u)
				default:
					if old != nil {
						s.AddTable(old)
						ref[strings.ToUpper(old.Name())] = old
					}
				}
				var want, got []string
				for _, n := range append(setNames, "Zz") {
					for _, v := range letterCases(n) {
						if s.Table(v) != ref[strings.ToUpper(v)] {
							c.Fail("tables/lookup", "table %q is %v, expected %v", v, s.Table(v), ref[strings.ToUpper(v)])
						}
					}
				}
				for _, t := range ref {
					want = append(want, fmt.Sprintf("%s %p", t.Name(), t))
				}
				s.Name = []string{"", "Set"}[k%2]
				words := map[string]int{}
				for _, w := range strings.FieldsFunc(s.String(), func(r rune) bool { return !unicode.IsLetter(r) }) {
					words[w]++
				}
				for _, n := range append(setNames, "Zz") {
					t := ref[strings.ToUpper(n)]
					if w := words[n]; w > 1 || (w == 1) != (t != nil && t.Name() == n) {
						c.Fail("tables/text", "the set prints as %q, expected each of its tables once", s.String())
					}
				}
				if s.Name != "" && words[s.Name] != 1 {
					c.Fail("tables/text", "the set named %s prints as %q", s.Name, s.String())
				}
				names := s.TableNames()
				for _, t := range s.Tables() {
					got = append(got, fmt.Sprintf("%s %p", t.Name(), t))
				}
				sort.Strings(want)
				sort.Strings(got)
				sort.Strings(names)
				var wantNames []string
				for _, w := range want {
					wantNames = append(wantNames, w[:strings.IndexByte(w, ' ')])
				}
				if fmt.Sprint(want) != fmt.Sprint(got) || fmt.Sprint(names) != fmt.Sprint(wantNames) || s.TableCount() != len(ref) {
					c.Fail("tables/members", "tables %v names %v count %d, expected %v", got, names, s.TableCount(), wantNames)
				}
			}
		})
		c.Steps(len(ops))
		c.Traces(1)
		c.State("tables", ops)
	})
}

var setCols = []struct {
	name string
	t    data.DataTypeEnum
}{{"Name", data.DataType.String}, {"nuM", data.DataType.Int32}, {"É", data.DataType.Int32}}

func setRows(c *mc.C, depth int) {
	const nops = 10
	histories(c, nops, depth, 2, func(ops []int) {
		guard(c, "panic", func() {
			s := data.NewDataSet()
			t := s.CreateTable("T")
			s.AddTable(t)
			other := s.CreateTable("U")
			s.AddTable(other)
			type rrow struct {
				r    *data.DataRow
				vals []any
			}
			var cols []int // indexes into setCols
			var colObj []*data.DataColumn
			var rows []*rrow
			next := 0
			value := func(col int) any {
				next++
				if setCols[col].t == data.DataType.String {
					return fmt.Sprint("v", next)
				}
				return int32(next)
			}
			for k, op := range ops {
				c.Case("history %v", ops[:k+1])
				switch op {
				case 0, 1, 2: // add a column, or its clone of another table
					if has(cols, op) {
						break
					}
					col := t.CreateColumn(setCols[op].name, setCols[op].t, "")
					if k%2 == 1 {
						col = t.CloneColumn(other.CreateColumn(setCols[op].name, setCols[op].t, ""))
					}
					t.AddColumn(col)
					cols = append(cols, op)
					colObj = append(colObj, col)
				case 3, 4: // a new row, filled or empty
					r := &rrow{r: t.CreateRow()}
					for i, col := range cols {
						if op == 3 {
							v := value(col)
							if err := r.r.SetValue(i, v); err != nil {
								c.Fail("rows/set", "%v", err)
							}
							r.vals = append(r.vals, v)
						} else {
							r.vals = append(r.vals, nil)
						}
					}
					t.AddRow(r.r)
					rows = append(rows, r)
				case 5: // a clone of the first row
					if len(rows) == 0 {
						break
					}
					r := &rrow{r: t.CloneRow(rows[0].r)}
					for i := range cols {
						r.vals = append(r.vals, at(rows[0].vals, i))
					}
					t.AddRow(r.r)
					rows = append(rows, r)
				case 6, 7: // assign the last column of the first or last row
					if len(rows) == 0 || len(cols) == 0 {
						break
					}
					r := rows[0]
					if op == 7 {
						r = rows[len(rows)-1]
					}
					i := len(cols) - 1
					v := value(cols[i])
					if err := r.r.SetValueByName(strings.ToLower(setCols[cols[i]].name), v); err != nil {
						c.Fail("rows/set", "%v", err)
					}
					for len(r.vals) <= i {
						r.vals = append(r.vals, nil)
					}
					r.vals[i] = v
				case 8:
					t.InitRows(k % 3)
					rows = nil
				case 9:
					t.InitColumns(k % 3)
					t.InitRows(0)
					cols, colObj, rows = nil, nil, nil
				}
				// columns
				if t.ColumnCount() != len(cols) || t.Column(-1) != nil || t.Column(len(cols)) != nil {
					c.Fail("rows/columns", "%d columns, expected %d", t.ColumnCount(), len(cols))
				}
				for ci, sc := range setCols {
					i := -1
					var obj *data.DataColumn
					for j, x := range cols {
						if x == ci {
							i, obj = j, colObj[j]
						}
					}
					for _, n := range letterCases(sc.name) {
						if t.ColumnIndex(n) != i || t.ColumnByName(n) != obj {
							c.Fail("rows/columns", "column %s is at %d, expected %d", n, t.ColumnIndex(n), i)
						}
					}
					if obj != nil && (t.Column(i) != obj || obj.Index() != i || obj.Parent() != t || obj.Name() != sc.name || obj.Type() != sc.t || obj.Expression() != "") {
						c.Fail("rows/columns", "column %d is %v at %d, expected %s", i, t.Column(i), obj.Index(), sc.name)
					}
				}
				text := t.String()
				last := -1
				for i, x := range cols {
					p := strings.Index(text, colObj[i].String())
					if p <= last || !strings.Contains(colObj[i].String(), setCols[x].name) || !strings.Contains(colObj[i].String(), setCols[x].t.String()) {
						c.Fail("rows/text", "the table prints as %q, column %d as %q", text, i, colObj[i].String())
					}
					last = p
				}
				for ci, sc := range setCols {
					if !has(cols, ci) && strings.Contains(text, sc.name) {
						c.Fail("rows/text", "the table prints as %q", text)
					}
				}
				if !strings.HasPrefix(text, t.Name()) || !strings.Contains(text, fmt.Sprint(len(rows))) {
					c.Fail("rows/text", "the table with %d rows prints as %q", len(rows), text)
				}
				// rows
				if t.RowCount() != len(rows) || len(t.Rows()) != len(rows) || t.Row(-1) != nil || t.Row(len(rows)) != nil {
					c.Fail("rows/rows", "%d rows, expected %d", t.RowCount(), len(rows))
				}
				for i, r := range rows {
					if t.Row(i) != r.r || t.Rows()[i] != r.r || r.r.Parent() != t {
						c.Fail("rows/rows", "row %d is not the row that was added there", i)
					}
					for j, col := range cols {
						want := at(r.vals, j)
						got, err := r.r.Value(j)
						named, err2 := r.r.ValueByName(setCols[col].name)
						text := ""
						if want != nil {
							text = fmt.Sprint(want)
						}
						if want == nil {
							text = t.RowValueAsString(i, j) // the text of null is not specified here
						}
						if err != nil || err2 != nil || got != want || named != want || t.RowValueAsString(i, j) != text || t.RowValueAsStringByName(i, setCols[col].name) != text {
							c.Fail("rows/values", "row %d column %s reads %v (%v), %v (%v), %q, %q, expected %v", i, setCols[col].name, got, err, named, err2, t.RowValueAsString(i, j), t.RowValueAsStringByName(i, setCols[col].name), want)
						}
					}
					if _, err := r.r.Value(len(cols)); err == nil {
						c.Fail("rows/values", "a value is read from a column that does not exist")
					}
				}
				if t.RowValueAsString(len(rows), 0) != "" || t.RowValueAsString(-1, 0) != "" || t.RowValueAsStringByName(0, "missing") != "" {
					c.Fail("rows/values", "a missing row or column has a text")
				}
				// a predicate over positions
				for mask := 0; mask < 1<<min(len(rows), 3); mask++ {
					for limit := -1; limit <= len(rows)+1; limit++ {
						var want []*data.DataRow
						for i, r := range rows {
							if mask>>(i%3)&1 == 1 && (limit < 0 || len(want) < limit) {
								want = append(want, r.r)
							}
						}
						got := t.RowsWhere(func(d *data.DataRow) bool {
							for i, r := range rows {
								if r.r == d {
									return mask>>(i%3)&1 == 1
								}
							}
							return false
						}, limit)
						ok := len(got) == len(want)
						for i := 0; ok && i < len(want); i++ {
							ok = got[i] == want[i]
						}
						if !ok {
							c.Fail("rows/where", "%d rows match the predicate %b with limit %d, expected %d", len(got), mask, limit, len(want))
						}
					}
				}
			}
			if other.ColumnCount() != 0 || other.RowCount() != 0 {
				c.Fail("rows/other", "another table changed")
			}
		})
		c.Steps(len(ops))
		c.Traces(1)
		c.State("rows", ops)
	})
}

func has(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func at(s []any, i int) any {
	if i < len(s) {
		return s[i]
	}
	return nil
}
