package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/xml"
	"verif.local/mc/mc"
)

func farID(i int) guid.Guid {
	g := rowID(i)
	binary.BigEndian.PutUint32(g[4:], uint32(i)+7)
	return g
}

// permuted lists 0..n-1 in an order without long runs.
func permuted(n int) []int {
	step := 7
	for step < n && gcd(step, n) != 1 {
		step += 2
	}
	if gcd(step, n) != 1 {
		step = 1
	}
	out := make([]int, n)
	for i := range out {
		out[i] = i * step % n
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// sizeTable is a table of n rows whose numbers are a permutation.
func sizeTable(n int) (*data.DataSet, *data.DataTable, []int) {
	s := data.NewDataSet()
	t := s.CreateTable("ActiveMeasurements")
	t.AddColumn(t.CreateColumn("SignalID", data.DataType.Guid, ""))
	t.AddColumn(t.CreateColumn("ID", data.DataType.String, ""))
	t.AddColumn(t.CreateColumn("PointTag", data.DataType.String, ""))
	t.AddColumn(t.CreateColumn("Num", data.DataType.Int32, ""))
	nums := permuted(n)
	for i := 0; i < n; i++ {
		r := t.CreateRow()
		r.SetValue(0, farID(i))
		r.SetValue(1, fmt.Sprintf("PPA:%d", i))
		r.SetValue(2, fmt.Sprintf("Tag%d", i))
		r.SetValue(3, int32(nums[i]))
		t.AddRow(r)
	}
	s.AddTable(t)
	return s, t, nums
}

// filterSizes selects from tables of every size with limits around it.
func filterSizes(c *mc.C) {
	sizes := mc.Sizes(1025)
	n := sizes[c.Choose(len(sizes))]
	s, t, nums := sizeTable(n)
	pos := make([]int, n)
	for i, k := range nums {
		pos[k] = i
	}
	natural := func(f func(k int) bool) (out []int) {
		for i, k := range nums {
			if f(k) {
				out = append(out, i)
			}
		}
		return
	}
	sorted := func(desc bool, f func(k int) bool) (out []int) {
		for i := range pos {
			k := i
			if desc {
				k = n - 1 - i
			}
			if f(k) {
				out = append(out, pos[k])
			}
		}
		return
	}
	guard(c, "sizes/panic", func() {
		for _, limit := range []int{-1, 0, 1, 2, n / 2, n - 1, n, n + 1} {
			if limit < -1 {
				continue
			}
			for ci, cond := range []struct {
				text string
				f    func(k int) bool
			}{{"True", func(int) bool { return true }}, {"Num % 2 = 0", func(k int) bool { return k%2 == 0 }}, {fmt.Sprintf("Num >= %d", n-2), func(k int) bool { return k >= n-2 }}} {
				for oi, order := range []string{"", "Num", "Num DESC"} {
					var want []int
					if oi == 0 {
						want = natural(cond.f)
					} else {
						want = sorted(oi == 2, cond.f)
					}
					if limit >= 0 && len(want) > limit {
						want = want[:limit]
					}
					text := stmt("ActiveMeasurements", fmt.Sprintf("TOP %d", limit), cond.text, order)
					c.Case("%d rows: %s", n, text)
					for way := 0; way < 2; way++ {
						var rows []*data.DataRow
						var err error
						if way == 0 {
							rows, err = data.SelectDataRows(s, text, "ActiveMeasurements", nil, true)
						} else {
							rows, err = t.Select(cond.text, order, limit)
						}
						if err != nil || len(rows) != len(want) {
							c.Fail("sizes/count", "%d rows selected, expected %d, %v", len(rows), len(want), err)
							return
						}
						for i, w := range want {
							if rows[i] != t.Row(w) {
								c.Fail("sizes/rows", "row %d of the selection is not row %d of the table", i, w)
								return
							}
						}
						c.Steps(1)
					}
					if oi == 0 {
						set, err := data.SelectSignalIDSet(s, text, "ActiveMeasurements", nil, true)
						if err != nil || len(set) != len(want) {
							c.Fail("sizes/set", "%d signal IDs selected, expected %d, %v", len(set), len(want), err)
							return
						}
						for _, w := range want {
							if !set.Contains(farID(w)) {
								c.Fail("sizes/set", "the signal ID of row %d is missing", w)
								return
							}
						}
					}
					c.Traces(1)
					c.State(n, limit, ci, oi)
				}
			}
		}
	})
}

// listSizes selects with lists of every number of identifiers and statements.
func listSizes(c *mc.C) {
	sizes := mc.Sizes(301)
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(5)
	s, t, _ := sizeTable(n + 3)
	order := permuted(n)
	var parts []string
	for _, i := range order {
		switch kind {
		case 0:
			parts = append(parts, farID(i).String())
		case 1:
			parts = append(parts, fmt.Sprintf("ppa:%d", i))
		case 2:
			parts = append(parts, fmt.Sprintf(`"tag%d"`, i))
		case 3:
			parts = append(parts, fmt.Sprintf("FILTER ActiveMeasurements WHERE ID = 'PPA:%d'", i))
		case 4:
			parts = append(parts, []string{farID(i).String(), fmt.Sprintf("PPA:%d", i), fmt.Sprintf(`"Tag%d"`, i)}[i%3])
		}
	}
	if n == 0 {
		parts = []string{"FILTER ActiveMeasurements WHERE False"}
	}
	text := strings.Join(parts, ";")
	c.Case("list of %d, kind %d", n, kind)
	guard(c, "sizes/panic", func() {
		rows, err := data.SelectDataRows(s, text, "ActiveMeasurements", nil, true)
		if err != nil || len(rows) != n {
			c.Fail("sizes/count", "%d rows selected, expected %d, %v", len(rows), n, err)
			return
		}
		for i, k := range order {
			if rows[i] != t.Row(k) {
				c.Fail("sizes/rows", "row %d of the selection is not the one named there", i)
				return
			}
		}
		set, err := data.SelectSignalIDSet(s, text, "ActiveMeasurements", nil, true)
		if err != nil || len(set) != n {
			c.Fail("sizes/ids", "%d signal IDs, expected %d, %v", len(set), n, err)
		}
		rset, err := data.SelectDataRowSet(s, text, "ActiveMeasurements", nil, true)
		if err != nil || len(rset) != n {
			c.Fail("sizes/set", "row set of %d, expected %d, %v", len(rset), n, err)
		}
	})
	c.Steps(3)
	c.Traces(1)
	c.State(n, kind)
}

// documentSizes loads documents with many rows, columns, tables and long texts.
func documentSizes(c *mc.C) {
	kind := c.Choose(4)
	sizes := mc.Sizes([]int{2049, 301, 301, 131073}[kind])
	n := sizes[c.Choose(len(sizes))]
	f := forms()[c.Choose(len(forms()))]
	all := xsdTypes()
	str, num := all[0], all[0]
	for _, t := range all {
		if t.t == data.DataType.String && t.ext == "" {
			str = t
		}
		if t.t == data.DataType.Int32 {
			num = t
		}
	}
	c.Case("%d %s, form %+v", n, []string{"rows", "columns", "tables", "bytes of text"}[kind], f)
	tab := func(name string, cols, rows int) xtab {
		x := xtab{name: name}
		for i := 0; i < cols; i++ {
			x.cols = append(x.cols, xcol{name: fmt.Sprintf("C%d", i), t: []xsdType{num, str}[i%2]})
		}
		for k := 0; k < rows; k++ {
			var r []int
			for i := 0; i < cols; i++ {
				r = append(r, (i+k)%(len(x.cols[i].t.vals)+1)-1)
			}
			x.rows = append(x.rows, r)
		}
		return x
	}
	var tabs []xtab
	switch kind {
	case 0:
		tabs = []xtab{tab("A", 3, n), tab("B", 2, 2)}
	case 1:
		tabs = []xtab{tab("A", n, 3), tab("B", 2, 2)}
	case 2:
		for i := 0; i < n; i++ {
			tabs = append(tabs, tab(fmt.Sprintf("T%d", i), 2, i%4))
		}
	case 3:
		long := strings.Repeat("text é ", n/8+1)
		long = strings.ToValidUTF8(long[:n], "")
		long = "x" + long + "x"
		s := str
		s.vals = append(s.vals[:len(s.vals):len(s.vals)], s.vals[0])
		k := len(s.vals) - 1
		s.vals[k].text, s.vals[k].v = long, long
		x := tab("A", 2, 3)
		x.cols[1].t = s
		x.rows[1][1] = k
		tabs = []xtab{x, tab("B", 2, 2)}
	}
	guard(c, "sizes/panic", func() {
		if s, ok := load(c, "sizes", document(tabs, f)); ok {
			loaded(c, "sizes", s, tabs, true)
		}
	})
	c.Steps(1)
	c.Traces(1)
	c.State(kind, n, f)
}

// chainSizes evaluates chains of computed columns.
func chainSizes(c *mc.C) {
	sizes := mc.Sizes(65)
	n := sizes[c.Choose(len(sizes))]
	down := c.Choose(2) == 1
	s := data.NewDataSet()
	t := s.CreateTable("T")
	t.AddColumn(t.CreateColumn("A", data.DataType.Int32, ""))
	for i := 0; i < n; i++ {
		k := i
		if down {
			k = n - 1 - i
		}
		from := "A"
		if k > 0 {
			from = fmt.Sprintf("X%d", k-1)
		}
		t.AddColumn(t.CreateColumn(fmt.Sprintf("X%d", k), data.DataType.Int32, from+" + 1"))
	}
	// many columns on the same one
	for i := 0; i < n; i++ {
		t.AddColumn(t.CreateColumn(fmt.Sprintf("W%d", i), data.DataType.String, fmt.Sprintf("'w%d-' + A", i)))
	}
	s.AddTable(t)
	c.Case("chain of %d computed columns, listed backwards %v", n, down)
	guard(c, "sizes/panic", func() {
		for row := 0; row < 3; row++ {
			r := t.CreateRow()
			t.AddRow(r)
			r.SetValueByName("A", int32(100*row))
			for i := n - 1; i >= 0; i-- {
				v, null, err := r.Int32ValueByName(fmt.Sprintf("X%d", i))
				if err != nil || null || v != int32(100*row+i+1) {
					c.Fail("sizes/chain", "column %d reads %v, %v, %v", i, v, null, err)
					return
				}
				w, null, err := r.StringValueByName(fmt.Sprintf("W%d", i))
				if want := fmt.Sprintf("w%d-%d", i, 100*row); err != nil || null || w != want {
					c.Fail("sizes/wide", "column W%d reads %q, %v, %v", i, w, null, err)
					return
				}
				c.Steps(2)
			}
		}
	})
	c.Traces(1)
	c.State(n, down)
}

// bigSets applies the set operations to sets made of large blocks.
func bigSets(c *mc.C) {
	sizes := mc.Sizes(2049)[1:]
	n := sizes[c.Choose(len(sizes))]
	blocks := [][2]int{{0, n}, {n, n + 1}, {n + 1, 2*n + 2}}
	items := func(m int) (out []int) {
		for i, b := range blocks {
			if m>>i&1 == 1 {
				for x := b[0]; x < b[1]; x++ {
					out = append(out, x)
				}
			}
		}
		return
	}
	build := func(m int) iset {
		h := make(iset)
		for _, x := range items(m) {
			h.Add(x)
		}
		return h
	}
	same := func(h iset, m int) bool {
		want := items(m)
		for _, x := range want {
			if !h.Contains(x) {
				return false
			}
		}
		return len(h) == len(want) && len(h.Keys()) == len(want)
	}
	for a := 0; a < 8; a++ {
		for b := 0; b < 8; b++ {
			for _, op := range setOps {
				if a == 0 && op.name == "IsProperSupersetOf" {
					continue // recorded for small sets
				}
				after, result := op.model(a, b)
				for way := 0; way < 2; way++ {
					c.Case("%s of %03b and %03b, blocks of %d, 1 and %d", op.name, a, b, n, n+1)
					h, o := build(a), build(b)
					var got int
					var has bool
					if way == 0 {
						l := items(b)
						got, has = op.slice(h, append(l, l...))
					} else {
						got, has = op.set(h, o)
					}
					if has && got != result || !same(h, after) || !same(o, b) {
						c.Fail("sizes/"+op.name, "way %d answers %d, expected %d; the set has %d elements, the operand %d", way, got, result, len(h), len(o))
					}
					c.Steps(1)
				}
			}
			c.Traces(1)
			c.State(n, a, b)
		}
	}
}

// documentShapes loads XML documents that are wide, deep or long.
func documentShapes(c *mc.C) {
	kind := c.Choose(4)
	sizes := mc.Sizes([]int{1025, 201, 257, 131073}[kind])
	n := sizes[c.Choose(len(sizes))]
	root := &xnode{name: "r"}
	add := func(p *xnode, name string) *xnode {
		k := &xnode{name: name, parent: p, level: p.level + 1}
		p.kids = append(p.kids, k)
		return k
	}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			k := add(root, []string{"a", "b"}[i%2])
			k.attrs = [][2]string{{"x", fmt.Sprint(i)}}
		}
	case 1:
		p := root
		for i := 0; i < n; i++ {
			p = add(p, []string{"a", "b"}[i%2])
		}
		p.text = "leaf"
	case 2:
		k := add(root, "a")
		for i := 0; i < n; i++ {
			k.attrs = append(k.attrs, [2]string{fmt.Sprintf("x%d", i), fmt.Sprint(i)})
		}
		add(root, "b")
	case 3:
		add(root, "a").text = strings.Repeat("t", n)
		add(root, "b").attrs = [][2]string{{"x", strings.Repeat("v", n)}}
	}
	var doc xml.XmlDocument
	guard(c, "sizes/panic", func() {
		var b strings.Builder
		root.write(&b)
		c.Case("%d %s", n, []string{"children", "levels", "attributes", "bytes"}[kind])
		if err := doc.LoadXml([]byte(b.String())); err != nil {
			c.Fail("sizes/load", "load failed: %v", err)
			return
		}
		m := xcompare(c, &doc, root)
		for _, p := range [][]xseg{{{name: "a"}}, {{name: "*"}}, {{name: "b", pred: true, attr: true, predName: "x"}}} {
			var got []*xnode
			for _, g := range doc.Root.SelectNodes(p[0].String()) {
				got = append(got, m[g])
			}
			want := xselect(root, p)
			if len(got) != len(want) {
				c.Fail("sizes/select", "%s selects %d nodes, expected %d", p[0], len(got), len(want))
				return
			}
			for i := range got {
				if got[i] != want[i] {
					c.Fail("sizes/select", "%s selects another node at %d", p[0], i)
					return
				}
			}
			c.Steps(1)
		}
	})
	c.Traces(1)
	c.State(kind, n)
}

// memberSizes fills and empties sets and tables with many members.
func memberSizes(c *mc.C) {
	sizes := mc.Sizes(513)
	n := sizes[c.Choose(len(sizes))]
	announced := c.Choose(3) // not, exactly, more
	c.Case("%d members, size announced %d", n, announced)
	guard(c, "sizes/panic", func() {
		s := data.NewDataSet()
		var tabs []*data.DataTable
		for i := 0; i < n; i++ {
			t := s.CreateTable(fmt.Sprintf("Tab%d", i))
			s.AddTable(t)
			tabs = append(tabs, t)
		}
		for i, t := range tabs {
			if s.Table(fmt.Sprintf("tAB%d", i)) != t {
				c.Fail("sizes/table", "table %d is not found", i)
				return
			}
		}
		if s.TableCount() != n || len(s.Tables()) != n || len(s.TableNames()) != n {
			c.Fail("sizes/tables", "%d tables, %d listed, %d named", s.TableCount(), len(s.Tables()), len(s.TableNames()))
		}
		for i := 0; i < n; i += 2 {
			if !s.RemoveTable(fmt.Sprintf("TAB%d", i)) {
				c.Fail("sizes/remove", "table %d could not be removed", i)
			}
		}
		for i, t := range tabs {
			if g := s.Table(fmt.Sprintf("Tab%d", i)); (g == t) != (i%2 == 1) {
				c.Fail("sizes/table", "table %d after removing the others is %v", i, g)
				return
			}
		}
		t := s.CreateTable("Wide")
		if announced > 0 {
			t.InitColumns(n + (announced-1)*3)
		}
		var cols []*data.DataColumn
		for i := 0; i < n; i++ {
			k := t.CreateColumn(fmt.Sprintf("Col%d", i), data.DataType.Int32, "")
			t.AddColumn(k)
			cols = append(cols, k)
		}
		for i, k := range cols {
			if t.Column(i) != k || t.ColumnByName(fmt.Sprintf("cOL%d", i)) != k || t.ColumnIndex(fmt.Sprintf("COL%d", i)) != i || k.Index() != i {
				c.Fail("sizes/column", "column %d is found as %v, %v, %d", i, t.Column(i), t.ColumnByName(k.Name()), t.ColumnIndex(k.Name()))
				return
			}
		}
		if t.ColumnCount() != n || t.Column(n) != nil || t.Column(-1) != nil {
			c.Fail("sizes/columns", "%d columns", t.ColumnCount())
		}
		if announced > 0 {
			t.InitRows(n + (announced-1)*3)
		}
		var rows []*data.DataRow
		for i := 0; i < n; i++ {
			r := t.CreateRow()
			if err := r.SetValue(i, int32(i+1)); err != nil {
				c.Fail("sizes/set", "value %d: %v", i, err)
				return
			}
			t.AddRow(r)
			rows = append(rows, r)
		}
		for i, r := range rows {
			v, null, err := r.Int32Value(i)
			w, _, err2 := r.Int32ValueByName(fmt.Sprintf("col%d", i))
			if t.Row(i) != r || null || err != nil || err2 != nil || v != int32(i+1) || w != v || t.RowValueAsString(i, i) != fmt.Sprint(i+1) {
				c.Fail("sizes/row", "row %d reads %v %v %v %v", i, v, w, err, err2)
				return
			}
			k := t.CloneRow(r)
			if v, _, err := k.Int32Value(i); err != nil || v != int32(i+1) {
				c.Fail("sizes/clone", "clone of row %d reads %v %v", i, v, err)
			}
		}
		if t.RowCount() != n || len(t.Rows()) != n || t.Row(n) != nil || t.Row(-1) != nil {
			c.Fail("sizes/rows", "%d rows", t.RowCount())
		}
		for _, limit := range []int{-1, 0, 1, n / 2, n, n + 1} {
			want := n
			if limit >= 0 && limit < n {
				want = limit
			}
			got := t.RowsWhere(func(*data.DataRow) bool { return true }, limit)
			bad := len(got) != want
			for i := 0; !bad && i < want; i++ {
				bad = got[i] != rows[i]
			}
			if bad {
				c.Fail("sizes/where", "limit %d gives %d of %d rows", limit, len(got), n)
			}
		}
	})
	c.Steps(1)
	c.Traces(1)
	c.State(n, announced)
}

// longExpressions evaluates expressions of many terms and deep nesting.
func longExpressions(c *mc.C) {
	kind := c.Choose(9)
	sizes := mc.Sizes([]int{301, 301, 301, 301, 41, 41, 8193, 301, 301}[kind])
	n := sizes[c.Choose(len(sizes))]
	x := newExprTab(1)
	x.operand(0, vI(3))
	var text string
	var want ev
	switch kind {
	case 0:
		text, want = "c0_Int32"+strings.Repeat(" + 1", n), vI(int32(3+n))
	case 1:
		text, want = "True"+strings.Repeat(" AND c0_Int32 = 3", n), vB(true)
	case 2:
		text, want = "c0_Int32 = 4"+strings.Repeat(" OR c0_Int32 = 5", n)+" OR c0_Int32 = 3", vB(true)
	case 3:
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprint(i+10))
		}
		text, want = "c0_Int32 IN ("+strings.Join(append(l, "3"), ",")+")", vB(true)
	case 4:
		text, want = strings.Repeat("(", n)+"c0_Int32"+strings.Repeat(" + 1)", n), vI(int32(3+n))
	case 5:
		text, want = strings.Repeat("Abs(-1 * ", n)+"c0_Int32"+strings.Repeat(")", n), vI(3)
	case 6:
		s := strings.Repeat("abcdefgh", n/8+1)[:n]
		text, want = "'"+s+"' + c0_Int32", vS(s+"3")
	case 7:
		text, want = "Coalesce(NULL,"+strings.Repeat("NULL,", n)+"c0_Int32)", vI(3)
	case 8:
		text, want = "MaxOf(1,"+strings.Repeat("2,", n)+"c0_Int32)", vI(3)
	}
	c.Case("%d x %.60s", n, text)
	for round := 0; round < 2; round++ {
		v, err, crash := x.eval(text)
		judge(c, "long", func() string { return fmt.Sprintf("%.80s", text) }, v, err, crash, is(want))
		c.Steps(1)
	}
	c.Traces(1)
	c.State(kind, n)
}

// longTexts applies the text functions to long texts.
func longTexts(c *mc.C) {
	var names []string
	for _, n := range fnNames() {
		switch n {
		case "Len", "Lower", "Upper", "Reverse", "Trim", "TrimLeft", "TrimRight", "Contains", "StartsWith", "EndsWith", "IndexOf", "LastIndexOf", "NthIndexOf", "Split", "Replace", "StrCount", "StrCmp", "SubStr":
			names = append(names, n)
		}
	}
	name := names[c.Choose(len(names))]
	sizes := mc.Sizes(1025)
	n := sizes[c.Choose(len(sizes))]
	pad := strings.Repeat(" ", n)
	s := strings.Repeat("aB,", n/3+1)[:n]
	srcs := []string{s, s + "X", "X" + s, pad + s + pad, s + "X" + s}
	spec := refFuncs[name]
	x := newExprTab(4)
	var tuples [][]ev
	for _, t := range srcs {
		a := vS(t)
		switch name {
		case "Len", "Lower", "Upper", "Reverse", "Trim", "TrimLeft", "TrimRight":
			tuples = append(tuples, []ev{a})
		case "Contains", "StartsWith", "EndsWith", "IndexOf", "LastIndexOf", "StrCount":
			for _, u := range []string{"X", "x", ",", s + "X", "b,"} {
				tuples = append(tuples, []ev{a, vS(u)}, []ev{a, vS(u), vB(true)})
			}
		case "StrCmp":
			for _, u := range srcs {
				tuples = append(tuples, []ev{a, vS(u)}, []ev{a, vS(strings.ToLower(u)), vB(true)})
			}
		case "NthIndexOf", "Split":
			for _, k := range []int{0, 1, n / 6, n/3 - 1, n / 3, n/3 + 1} {
				tuples = append(tuples, []ev{a, vS(","), vI(int32(k))}, []ev{a, vS("b"), vI(int32(k)), vB(true)})
			}
		case "Replace":
			for _, u := range []string{"X", ",", "b"} {
				tuples = append(tuples, []ev{a, vS(u), vS("--")}, []ev{a, vS(u), vS(""), vB(true)})
			}
		case "SubStr":
			for _, k := range []int{0, 1, n / 2, n - 1, n, n + 1} {
				for _, l := range []int{0, 1, n / 2, n, n + 5} {
					tuples = append(tuples, []ev{a, vI(int32(k)), vI(int32(l))})
				}
				tuples = append(tuples, []ev{a, vI(int32(k))})
			}
		}
	}
	for i, args := range tuples {
		var texts []string
		for k, a := range args {
			texts = append(texts, x.operand(k, a))
		}
		want := refRun(func() rout { return spec.f(args) })
		text := name + "(" + strings.Join(texts, ",") + ")"
		c.Case("%s with texts of %d, arguments %d", text, n, i)
		v, err, crash := x.eval(text)
		if !judge(c, "long/"+name, func() string { return fmt.Sprintf("%s%.200v", name, args) }, v, err, crash, want) {
			return
		}
		c.Steps(1)
		c.Traces(1)
		c.State(name, n, i)
	}
}
