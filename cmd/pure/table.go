package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/xml"
	"verif.local/mc/mc"
)

// typed reads a column through the accessor of one type, by index or name.
func typed(r *data.DataRow, t data.DataTypeEnum, index int, name string) (v any, null bool, err error) {
	D := data.DataType
	by := name != ""
	switch t {
	case D.String:
		if by {
			return r.StringValueByName(name)
		}
		return r.StringValue(index)
	case D.Boolean:
		if by {
			return r.BooleanValueByName(name)
		}
		return r.BooleanValue(index)
	case D.DateTime:
		if by {
			return r.DateTimeValueByName(name)
		}
		return r.DateTimeValue(index)
	case D.Single:
		if by {
			return r.SingleValueByName(name)
		}
		return r.SingleValue(index)
	case D.Double:
		if by {
			return r.DoubleValueByName(name)
		}
		return r.DoubleValue(index)
	case D.Decimal:
		if by {
			return r.DecimalValueByName(name)
		}
		return r.DecimalValue(index)
	case D.Guid:
		if by {
			return r.GuidValueByName(name)
		}
		return r.GuidValue(index)
	case D.Int8:
		if by {
			return r.Int8ValueByName(name)
		}
		return r.Int8Value(index)
	case D.Int16:
		if by {
			return r.Int16ValueByName(name)
		}
		return r.Int16Value(index)
	case D.Int32:
		if by {
			return r.Int32ValueByName(name)
		}
		return r.Int32Value(index)
	case D.Int64:
		if by {
			return r.Int64ValueByName(name)
		}
		return r.Int64Value(index)
	case D.UInt8:
		if by {
			return r.UInt8ValueByName(name)
		}
		return r.UInt8Value(index)
	case D.UInt16:
		if by {
			return r.UInt16ValueByName(name)
		}
		return r.UInt16Value(index)
	case D.UInt32:
		if by {
			return r.UInt32ValueByName(name)
		}
		return r.UInt32Value(index)
	case D.UInt64:
		if by {
			return r.UInt64ValueByName(name)
		}
		return r.UInt64Value(index)
	}
	panic("type")
}

func eqVal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case decimal.Decimal:
		y, ok := b.(decimal.Decimal)
		return ok && x.Equal(y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

// readsAs checks that a column reads as want (nil for null) in every way.
func readsAs(c *mc.C, key string, r *data.DataRow, col *data.DataColumn, want any) {
	for _, name := range []string{"", col.Name(), strings.ToUpper(col.Name()), strings.ToLower(col.Name())} {
		v, null, err := typed(r, col.Type(), col.Index(), name)
		if err != nil {
			c.Fail(key+"/error", "column %v by name %q: %v, expected %v", col, name, err, want)
			return
		}
		if null != (want == nil) || want != nil && !eqVal(v, want) {
			c.Fail(key+"/value", "column %v by name %q: %v (null %v), expected %v", col, name, v, null, want)
			return
		}
		var raw any
		if name == "" {
			raw, err = r.Value(col.Index())
		} else {
			raw, err = r.ValueByName(name)
		}
		if err != nil || !eqVal(raw, want) {
			c.Fail(key+"/raw", "untyped column %v by name %q: %v, %v, expected %v", col, name, raw, err, want)
			return
		}
		c.Steps(2)
	}
}

// ---- P28 ----

type xsdType struct {
	xsd, ext string
	t        data.DataTypeEnum
	vals     []xsdVal
}

type xsdVal struct {
	text string
	v    any
}

func tm(s string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return t
}

func xsdTypes() []xsdType {
	D := data.DataType
	dc := func(s string) decimal.Decimal { return decimal.RequireFromString(s) }
	gA16 := gd(gA).v
	return []xsdType{
		{"string", "", D.String, []xsdVal{{"abc", "abc"}, {"", ""}, {" a b ", " a b "}, {"A&amp;B &lt;x&gt; &quot;q&quot;", `A&B <x> "q"`}, {"<![CDATA[1<2]]>", "1<2"}, {"é&#65;", "éA"}, {"true", "true"}, {"a;b={c}", "a;b={c}"}}},
		{"string", "System.Guid", D.Guid, []xsdVal{{gA, gA16}, {"{" + strings.ToUpper(gA) + "}", gA16}, {"00000000-0000-0000-0000-000000000000", guid.Guid{}}}},
		{"boolean", "", D.Boolean, []xsdVal{{"true", true}, {"false", false}, {"1", true}, {"0", false}}},
		{"dateTime", "", D.DateTime, []xsdVal{{"2021-07-28T21:40:46.99-05:00", tm("2021-07-28T21:40:46.99-05:00")}, {"2021-07-28T21:40:46.1234567+00:00", tm("2021-07-28T21:40:46.1234567Z")}, {"1999-12-31T23:59:59Z", tm("1999-12-31T23:59:59Z")}, {"2024-02-29T00:00:00", tm("2024-02-29T00:00:00Z")}, {"2024-02-29T01:02:03.5", tm("2024-02-29T01:02:03.5Z")}}},
		{"float", "", D.Single, []xsdVal{{"1.5", float32(1.5)}, {"-0.1", float32(-0.1)}, {"3.4028235E38", float32(math.MaxFloat32)}, {"0", float32(0)}, {"INF", float32(math.Inf(1))}, {"NaN", float32(math.NaN())}}},
		{"double", "", D.Double, []xsdVal{{"1.5", 1.5}, {"-0.1", -0.1}, {"1.7976931348623157E+308", math.MaxFloat64}, {"4.9E-324", 4.9e-324}, {"-INF", math.Inf(-1)}}},
		{"decimal", "", D.Decimal, []xsdVal{{"1.50", dc("1.5")}, {"-123456789012345678901234567890.123456789", dc("-123456789012345678901234567890.123456789")}, {"0", dc("0")}, {"+7", dc("7")}}},
		{"byte", "", D.Int8, []xsdVal{{"-128", int8(-128)}, {"127", int8(127)}, {"010", int8(10)}}},
		{"short", "", D.Int16, []xsdVal{{"-32768", int16(-32768)}, {"32767", int16(32767)}, {"0128", int16(128)}}},
		{"int", "", D.Int32, []xsdVal{{"-2147483648", int32(math.MinInt32)}, {"2147483647", int32(math.MaxInt32)}, {"+5", int32(5)}, {"000", int32(0)}, {"-1024", int32(-1024)}}},
		{"long", "", D.Int64, []xsdVal{{"-9223372036854775808", int64(math.MinInt64)}, {"9223372036854775807", int64(math.MaxInt64)}, {"4294967296", int64(1 << 32)}, {"-5", int64(-5)}, {"9007199254740993", int64(1<<53 + 1)}}},
		{"unsignedByte", "", D.UInt8, []xsdVal{{"0", uint8(0)}, {"255", uint8(255)}, {"200", uint8(200)}}},
		{"unsignedShort", "", D.UInt16, []xsdVal{{"0", uint16(0)}, {"65535", uint16(65535)}, {"40000", uint16(40000)}}},
		{"unsignedInt", "", D.UInt32, []xsdVal{{"0", uint32(0)}, {"4294967295", uint32(math.MaxUint32)}, {"3000000000", uint32(3000000000)}}},
		{"unsignedLong", "", D.UInt64, []xsdVal{{"0", uint64(0)}, {"18446744073709551615", uint64(math.MaxUint64)}, {"9223372036854775808", uint64(1 << 63)}, {"4294967296", uint64(1 << 32)}, {"9223372036854775807", uint64(math.MaxInt64)}, {"2147483648", uint64(1 << 31)}}},
	}
}

// xcol is a column of a document; cells are indexes into the type's values, -1 missing.
type xcol struct {
	name string
	t    xsdType
	expr string
	bad  bool // unknown type: the column is not loaded
}

type xtab struct {
	name string
	cols []xcol
	rows [][]int
}

type docForm struct {
	prefix   string // namespace prefix of the schema
	where    int    // 0 prefix declared on the schema, 1 on the root
	shuffled bool   // records before the schema, fields in reverse order
}

func document(tabs []xtab, f docForm) string {
	var b strings.Builder
	pre := ""
	decl := ` xmlns="http://www.w3.org/2001/XMLSchema"`
	if f.prefix != "" {
		pre = f.prefix + ":"
		decl = ` xmlns:` + f.prefix + `="http://www.w3.org/2001/XMLSchema"`
	}
	rootDecl := ""
	if f.where == 1 && f.prefix != "" {
		rootDecl, decl = decl, ""
	}
	var schema strings.Builder
	fmt.Fprintf(&schema, `<%sschema id="DataSet"%s xmlns:ms="urn:schemas-microsoft-com:xml-msdata"><%selement name="DataSet"><%scomplexType><%schoice minOccurs="0" maxOccurs="unbounded">`, pre, decl, pre, pre, pre)
	for _, t := range tabs {
		fmt.Fprintf(&schema, `<%selement name="%s"><%scomplexType><%ssequence>`, pre, t.name, pre, pre)
		for _, col := range t.cols {
			ext := ""
			if col.t.ext != "" {
				ext += fmt.Sprintf(` ms:DataType="%s, mscorlib"`, col.t.ext)
			}
			if col.expr != "" {
				ext += fmt.Sprintf(` ms:Expression="%s"`, col.expr)
			}
			fmt.Fprintf(&schema, `<%selement name="%s" type="%s%s"%s minOccurs="0"/>`, pre, col.name, pre, col.t.xsd, ext)
		}
		fmt.Fprintf(&schema, `</%ssequence></%scomplexType></%selement>`, pre, pre, pre)
	}
	fmt.Fprintf(&schema, `</%schoice></%scomplexType></%selement></%sschema>`, pre, pre, pre, pre)
	var recs strings.Builder
	for i := 0; ; i++ { // records of the tables are interleaved
		more := false
		for _, t := range tabs {
			if i >= len(t.rows) {
				continue
			}
			more = true
			fmt.Fprintf(&recs, "<%s>", t.name)
			for k := range t.cols {
				if f.shuffled {
					k = len(t.cols) - 1 - k
				}
				if v := t.rows[i][k]; v >= 0 && t.cols[k].expr == "" {
					text := "x"
					if !t.cols[k].bad {
						text = t.cols[k].t.vals[v].text
					}
					fmt.Fprintf(&recs, "<%s>%s</%s>", t.cols[k].name, text, t.cols[k].name)
				}
			}
			fmt.Fprintf(&recs, "</%s>\n", t.name)
		}
		if !more {
			break
		}
	}
	b.WriteString(`<?xml version="1.0" encoding="utf-8"?><DataSet` + rootDecl + ">\n")
	if f.shuffled {
		b.WriteString(recs.String() + schema.String())
	} else {
		b.WriteString(schema.String() + recs.String())
	}
	b.WriteString("</DataSet>")
	return b.String()
}

// loaded checks that a data set holds exactly the tables of a document.
func loaded(c *mc.C, key string, s *data.DataSet, tabs []xtab, exact bool) {
	if exact && (s.TableCount() != len(tabs) || len(s.Tables()) != len(tabs) || len(s.TableNames()) != len(tabs)) {
		c.Fail(key+"/tables", "%d tables loaded, expected %d", s.TableCount(), len(tabs))
		return
	}
	for _, t := range tabs {
		for _, n := range []string{t.name, strings.ToUpper(t.name), strings.ToLower(t.name)} {
			if s.Table(n) == nil {
				c.Fail(key+"/table", "table %s is not found as %s", t.name, n)
				return
			}
		}
		tab := s.Table(t.name)
		var cols []xcol
		var pos []int
		for i, col := range t.cols {
			if !col.bad {
				cols = append(cols, col)
				pos = append(pos, i)
			}
		}
		if tab.Name() != t.name || tab.Parent() != s || tab.ColumnCount() != len(cols) || tab.RowCount() != len(t.rows) {
			c.Fail(key+"/shape", "table %s has %d columns and %d rows, expected %d and %d", tab.Name(), tab.ColumnCount(), tab.RowCount(), len(cols), len(t.rows))
			return
		}
		for i, col := range cols {
			dc := tab.ColumnByName(strings.ToUpper(col.name))
			if dc == nil || dc != tab.Column(i) || dc.Name() != col.name || dc.Type() != col.t.t || dc.Index() != i || tab.ColumnIndex(strings.ToLower(col.name)) != i || dc.Parent() != tab || dc.Expression() != col.expr {
				c.Fail(key+"/column", "column %d of %s is %v, expected %s of type %v", i, t.name, tab.Column(i), col.name, col.t.t)
				return
			}
			for k, row := range t.rows {
				if tab.Row(k) == nil || tab.Row(k).Parent() != tab {
					c.Fail(key+"/row", "row %d of %s is missing", k, t.name)
					return
				}
				var want any
				if v := row[pos[i]]; v >= 0 && col.expr == "" {
					want = col.t.vals[v].v
				}
				if col.expr == "" {
					readsAs(c, key, tab.Row(k), dc, want)
				} else {
					readsAs(c, key+"/computed", tab.Row(k), dc, int32(3))
				}
			}
		}
	}
}

func forms() []docForm {
	return []docForm{{"xs", 0, false}, {"xsd", 0, true}, {"", 0, false}, {"x", 1, false}, {"xs", 1, true}}
}

func init() {
	register(mc.Check{
		ID:          "P28",
		Rule:        "every small document (table counts, column type pairs, present and missing values in every boundary text, schema prefix forms, element orders) loads into exactly its tables, columns, types and values; every sequence of loads in fresh and in reused data sets gives what the last document says; every broken schema form is an error",
		Assumptions: []string{"values that are not valid text of their column type are outside the property", "tables of an earlier document may remain in a reused data set, without rows"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "values", Pure: true, Share: 2, Body: func(c *mc.C) { xmlValues(c) }},
				{Name: "shapes", Pure: true, Share: 2, Body: func(c *mc.C) { xmlShapes(c, tier) }},
				{Name: "sizes", Pure: true, Body: documentSizes},
				{Name: "repeated", Pure: true, Body: func(c *mc.C) { xmlHistories(c, 24) }},
				{Name: "histories", Pure: true, Body: func(c *mc.C) { xmlHistories(c, 4) }},
				{Name: "broken", Pure: true, Body: xmlBroken},
				{Name: "nameless", Pure: true, Body: xmlNameless},
				{Name: "extensions", Pure: true, Body: xmlExtensions},
			}
		},
	})
}

func load(c *mc.C, key, doc string) (*data.DataSet, bool) {
	s := data.NewDataSet()
	ok := false
	guard(c, key+"/panic", func() {
		// the three ways to load a document take turns
		var x xml.XmlDocument
		var err error
		switch mc.HashStr(doc) % 3 {
		case 0:
			err = s.ParseXml([]byte(doc))
		case 1:
			s = data.FromXml([]byte(doc))
		default:
			if err = x.LoadXml([]byte(doc)); err == nil {
				err = s.ParseXmlDocument(&x)
			}
		}
		if err != nil || s == nil {
			c.Fail(key+"/load", "%v", err)
			return
		}
		ok = true
	})
	return s, ok
}

// xmlExtensions: data type and expression attributes of the extension
// namespace, of another one and of none, in every combination on two columns.
func xmlExtensions(c *mc.C) {
	const n = 4 // absent, extension namespace, other namespace, no namespace
	pre := []string{"", "m:", "o:", ""}
	f := c.Choose(n * n)
	base := []string{"string", "int"}[c.Choose(2)]
	for g := 0; g < n*n; g++ {
		for _, guidName := range []string{"System.Guid", "System.Guid, mscorlib", "System.String", "Guid"} {
			attrs := func(f int) string {
				s := ""
				if f%n > 0 {
					s += fmt.Sprintf(` %sDataType="%s"`, pre[f%n], guidName)
				}
				if f/n > 0 {
					s += fmt.Sprintf(` %sExpression="1 + 2"`, pre[f/n])
				}
				return s
			}
			doc := fmt.Sprintf(`<DataSet xmlns:m="urn:schemas-microsoft-com:xml-msdata" xmlns:o="urn:other"><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="DataSet"><xs:complexType><xs:choice><xs:element name="T"><xs:complexType><xs:sequence><xs:element name="A" type="xs:%s"%s/><xs:element%s name="B" type="xs:%s"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema></DataSet>`, base, attrs(f), attrs(g), base)
			c.CaseStr(doc)
			s, ok := load(c, "extensions", doc)
			if !ok || s.Table("T") == nil || s.Table("T").ColumnCount() != 2 {
				c.Fail("extensions", "table or columns missing")
				continue
			}
			for k, x := range []int{f, g} {
				want, expr := data.DataType.Int32, ""
				if base == "string" {
					want = data.DataType.String
					if x%n == 1 && strings.HasPrefix(guidName, "System.Guid") {
						want = data.DataType.Guid
					}
				}
				if x/n == 1 {
					expr = "1 + 2"
				}
				col := s.Table("T").Column(k)
				if col.Type() != want || col.Expression() != expr {
					c.Fail("extensions", "column %s has type %v and expression %q, expected %v and %q", col.Name(), col.Type(), col.Expression(), want, expr)
				}
			}
			c.Steps(1)
			c.Traces(1)
			c.StateHash(mc.HashStr(doc))
		}
	}
}

// xmlValues loads two columns of every type pair with every pair of values.
func xmlValues(c *mc.C) {
	types := xsdTypes()
	a, b := types[c.Choose(len(types))], types[c.Choose(len(types))]
	for fi, f := range forms() {
		var rows [][]int
		for i := -1; i < len(a.vals); i++ {
			for j := -1; j < len(b.vals); j++ {
				rows = append(rows, []int{i, j})
			}
		}
		tabs := []xtab{{"Tab", []xcol{{name: "First", t: a}, {name: "Second", t: b}}, rows}}
		c.Case("%s %s form %d", a.xsd, b.xsd, fi)
		if s, ok := load(c, "values", document(tabs, f)); ok {
			loaded(c, "values", s, tabs, true)
		}
		c.Traces(1)
		for _, r := range rows {
			c.State("values", a.xsd, b.xsd, f, r)
		}
	}
}

// xmlShapes loads documents with up to three tables with up to three columns
// and every pattern of present and missing cells.
func xmlShapes(c *mc.C, tier string) {
	types := xsdTypes()
	n := c.Choose(4)
	f := forms()[c.Choose(5)]
	special := c.Choose(4)
	pick := func(t, k int) xsdType { return types[(t*5+k*3+special)%len(types)] }
	max := 2
	if tier == "thorough" {
		max = 3
	}
	var build func(tabs []xtab)
	build = func(tabs []xtab) {
		if len(tabs) == n {
			c.Case("%d tables %v %+v", n, f, tabs)
			if s, ok := load(c, "shapes", document(tabs, f)); ok {
				loaded(c, "shapes", s, tabs, true)
			}
			c.Traces(1)
			c.State("shapes", f, special, tabs)
			return
		}
		t := len(tabs)
		for cols := 0; cols <= max; cols++ {
			tab := xtab{name: []string{"Alpha", "Beta", "gamma"}[t]}
			for k := 0; k < cols; k++ {
				col := xcol{name: fmt.Sprintf("Col%d", k), t: pick(t, k)}
				if k == 1 && special == 1 {
					col.bad = true
					col.t.xsd = "anyURI"
				}
				if k == 0 && special == 2 {
					col.t, col.expr = xsdTypes()[9], "1 + 2"
				}
				tab.cols = append(tab.cols, col)
			}
			for rows := 0; rows <= max; rows++ {
				seqs(1<<cols, rows, func(p []int) {
					if len(p) != rows {
						return
					}
					tab := tab
					tab.rows = nil
					for i, m := range p {
						r := make([]int, cols)
						for k := range r {
							r[k] = -1
							if m>>k&1 == 1 {
								r[k] = (i + k) % len(tab.cols[k].t.vals)
							}
						}
						tab.rows = append(tab.rows, r)
					}
					if t == 1 && len(p) > 1 || t == 2 && len(p) > 0 && cols > 1 {
						return
					}
					build(append(append([]xtab{}, tabs...), tab))
				})
			}
		}
	}
	build(nil)
}

func historyDocs() []struct {
	tabs []xtab
	text string
} {
	t := xsdTypes()
	a := []xtab{{"Alpha", []xcol{{name: "ID", t: t[9]}, {name: "Name", t: t[0]}}, [][]int{{0, 0}, {1, -1}}}}
	b := []xtab{{"Alpha", []xcol{{name: "ID", t: t[9]}, {name: "Name", t: t[0]}}, [][]int{{2, 3}}}}
	d := []xtab{{"Alpha", []xcol{{name: "Name", t: t[9]}, {name: "id", t: t[0]}, {name: "X", t: t[2]}}, [][]int{{0, 1, 0}}}, {"Beta", []xcol{{name: "ID", t: t[1]}}, [][]int{{0}, {-1}, {2}}}}
	e := []xtab{{"BETA", []xcol{{name: "Q", t: t[3]}}, nil}}
	var out []struct {
		tabs []xtab
		text string
	}
	for i, tabs := range [][]xtab{a, b, d, e} {
		out = append(out, struct {
			tabs []xtab
			text string
		}{tabs, document(tabs, forms()[i])})
	}
	return out
}

// xmlHistories loads every sequence of documents into one data set and fresh ones.
func xmlHistories(c *mc.C, n int) {
	docs := historyDocs()
	reuse := c.Choose(2) == 1
	histories(c, len(docs)+2, n, 1, func(p []int) {
		s := data.NewDataSet()
		for step, k := range p {
			if !reuse {
				s = data.NewDataSet()
			}
			c.Case("loads %v reuse %v step %d", p, reuse, step)
			var err error
			switch k {
			case len(docs):
				err = s.ParseXml([]byte("<DataSet><x/></DataSet>"))
				if err == nil {
					c.Fail("histories/accepted", "document without schema is accepted")
				}
			case len(docs) + 1:
				err = s.ParseXml([]byte("<DataSet"))
				if err == nil {
					c.Fail("histories/accepted", "truncated document is accepted")
				}
			default:
				if err = s.ParseXml([]byte(docs[k].text)); err != nil {
					c.Fail("histories/load", "%v", err)
					return
				}
				loaded(c, "histories", s, docs[k].tabs, !reuse)
				// what earlier documents left has no rows
				for _, t := range s.Tables() {
					mine := false
					for _, x := range docs[k].tabs {
						mine = mine || strings.EqualFold(x.name, t.Name())
					}
					if !mine && t.RowCount() > 0 {
						c.Fail("histories/stale", "table %s still has %d rows", t.Name(), t.RowCount())
					}
				}
			}
		}
		c.Traces(1)
		c.State("history", reuse, p)
	})
}

// xmlNameless loads schemas with elements that name no table or column.
func xmlNameless(c *mc.C) {
	tabs := []string{`name="Alpha"`, `name="Beta"`, `name=""`, `minOccurs="0"`}
	cols := []string{`name="A" type="xs:int"`, `name="B" type="xs:string"`, `type="xs:int"`, `name="" type="xs:int"`, `name="C"`, `name="D" type=""`, `name="E" type="xs:int"`}
	pick := func(n, most int) (out []int) {
		for len(out) < most {
			k := c.Choose(n + 1)
			if k == n {
				return
			}
			for _, o := range out {
				if o == k && k < 2 {
					return
				}
			}
			out = append(out, k)
		}
		return
	}
	ti, ci := pick(len(tabs), 3), pick(len(cols), 3)
	var fields, elements, records string
	var wantCols []string
	for _, k := range ci {
		fields += "<xs:element " + cols[k] + "/>"
		switch k {
		case 0, 1, 6:
			name := map[int]string{0: "A", 1: "B", 6: "E"}[k]
			for _, w := range wantCols {
				if w == name {
					return // the same column twice is not judged
				}
			}
			wantCols = append(wantCols, name)
		}
	}
	var wantTabs []string
	for _, k := range ti {
		elements += "<xs:element " + tabs[k] + "><xs:complexType><xs:sequence>" + fields + "</xs:sequence></xs:complexType></xs:element>"
		if k < 2 {
			name := []string{"Alpha", "Beta"}[k]
			wantTabs = append(wantTabs, name)
			records += "<" + name + "><A>1</A><B>2</B><C>3</C><D>4</D><E>5</E></" + name + ">"
		}
	}
	doc := `<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="DataSet"><xs:complexType><xs:choice>` + elements + `</xs:choice></xs:complexType></xs:element></xs:schema>` + records + `</DataSet>`
	c.CaseStr(doc)
	guard(c, "nameless/panic", func() {
		s := data.NewDataSet()
		if err := s.ParseXml([]byte(doc)); err != nil {
			c.Fail("nameless/error", "%v", err)
			return
		}
		if s.TableCount() != len(wantTabs) {
			c.Fail("nameless/tables", "%d tables, expected %v", s.TableCount(), wantTabs)
		}
		for _, n := range wantTabs {
			t := s.Table(n)
			if t == nil || t.ColumnCount() != len(wantCols) || t.RowCount() != 1 {
				c.Fail("nameless/shape", "table %s is missing or of wrong shape", n)
				return
			}
			for i, w := range wantCols {
				if t.Column(i) == nil || t.Column(i).Name() != w || t.ColumnByName(w) != t.Column(i) {
					c.Fail("nameless/column", "column %d of %s is not %s", i, n, w)
					return
				}
				got, err := t.Row(0).Value(i)
				if want := map[string]any{"A": int32(1), "B": "2", "E": int32(5)}[w]; err != nil || got != want {
					c.Fail("nameless/value", "column %s of %s is %v, %v", w, n, got, err)
				}
			}
		}
	})
	c.Steps(1)
	c.Traces(1)
	c.StateHash(mc.HashStr(doc))
}

func xmlBroken(c *mc.C) {
	good := document(historyDocs()[0].tabs, forms()[0])
	i := c.Choose(12)
	broken := []string{
		"", " ", "<", "<DataSet/>", "<DataSet><Alpha><ID>1</ID></Alpha></DataSet>",
		strings.Replace(good, `id="DataSet"`, `id="Other"`, 1),
		strings.Replace(good, `id="DataSet" `, ``, 1),
		strings.ReplaceAll(good, "http://www.w3.org/2001/XMLSchema", "http://example.com/Schema"),
		good[:len(good)/2], good[:len(good)-1],
		strings.Replace(good, "xs:schema", "xs:scheme", 2),
		strings.Replace(good, "</Alpha>", "</Beta>", 1),
	}
	c.CaseStr(broken[i])
	guard(c, "panic", func() {
		if err := data.NewDataSet().ParseXml([]byte(broken[i])); err == nil {
			c.Fail("accepted", "a document without usable schema is accepted")
		}
	})
	guard(c, "panic", func() { data.FromXml([]byte(broken[i])) })
	c.Traces(1)
	c.Steps(2)
	c.State("broken", i)
	// every truncation of a document is an error or, at most, a document
	if i == 0 {
		for k := range good {
			c.Case("truncated at %d", k)
			guard(c, "panic", func() {
				if err := data.NewDataSet().ParseXml([]byte(good[:k])); err == nil {
					c.Fail("truncated", "a document truncated at %d is accepted", k)
				}
			})
			c.Steps(1)
			c.State("truncated", k)
		}
	}
}

// ---- P29 ----

type compExpr struct {
	text string
	deps []string                                         // computed columns it refers to
	f    func(a, b any, at func(string) any) (any, error) // over columns A, B (Int32); result before conversion
}

var errComp = fmt.Errorf("not computable")

func addN(x, y any) any {
	if x == nil || y == nil {
		return nil
	}
	return x.(int32) + y.(int32)
}

// text is an expression that gives a constant text.
func text(s string) compExpr {
	q := "'" + s + "'"
	if len(s) > 8 {
		q = "'" + s[:5] + "' + '" + s[5:] + "'" // a quoted GUID would be a GUID
	}
	return compExpr{text: q, f: func(a, b any, _ func(string) any) (any, error) { return s, nil }}
}

var compExprs = []compExpr{
	{text: "A + 1", f: func(a, b any, _ func(string) any) (any, error) { return addN(a, int32(1)), nil }},
	{text: "A * 0.5", f: func(a, b any, _ func(string) any) (any, error) {
		if a == nil {
			return nil, nil
		}
		return decimal.NewFromInt32(a.(int32)).Mul(decimal.RequireFromString("0.5")), nil
	}},
	{text: "A > B", f: func(a, b any, _ func(string) any) (any, error) {
		if a == nil || b == nil {
			return nil, nil
		}
		return a.(int32) > b.(int32), nil
	}},
	{text: "NULL", f: func(a, b any, _ func(string) any) (any, error) { return nil, nil }},
	{text: "Coalesce(A, B, 7)", f: func(a, b any, _ func(string) any) (any, error) {
		if a != nil {
			return a, nil
		}
		if b != nil {
			return b, nil
		}
		return int32(7), nil
	}},
	text("12"), text("1"), text("0"), text("-7"), text("300"), text("99999999999999999999"), text("0.25"), text("1E2"), text("-1.5e-2"), text("true"), text("TRUE"), text("false"), text("x"), text(""),
	text("127"), text("128"), text("-128"), text("-129"), text("255"), text("256"), text("32767"), text("32768"), text("-32768"), text("-32769"), text("65535"), text("65536"), text("2147483647"), text("2147483648"), text("-2147483648"), text("-2147483649"), text("4294967295"), text("4294967296"), text("9223372036854775807"), text("9223372036854775808"), text("-9223372036854775808"), text("-9223372036854775809"), text("18446744073709551615"), text("18446744073709551616"),
	text(gB), text("{" + strings.ToUpper(gB) + "}"), text("2024-02-29 23:59:58.250"), text("2024-02-29T23:59:58.250Z"), text("2024-02-29T18:59:58.250-05:00"),
	{text: "#2024-02-29 23:59:58.250#", f: func(a, b any, _ func(string) any) (any, error) { return d1, nil }},
	{text: "{" + gB + "}", f: func(a, b any, _ func(string) any) (any, error) { return gd(gB).v, nil }},
	{text: "1E2", f: func(a, b any, _ func(string) any) (any, error) { return float64(100), nil }},
	{text: "5000000000", f: func(a, b any, _ func(string) any) (any, error) { return int64(5000000000), nil }},
	{text: "4294967296", f: func(a, b any, _ func(string) any) (any, error) { return int64(1 << 32), nil }},
	{text: "0.25", f: func(a, b any, _ func(string) any) (any, error) { return decimal.RequireFromString("0.25"), nil }},
	{text: "1E-3", f: func(a, b any, _ func(string) any) (any, error) { return 0.001, nil }},
	{text: "Sqrt(-1)", f: func(a, b any, _ func(string) any) (any, error) { return math.NaN(), nil }},
	{text: "A / 0", f: func(a, b any, _ func(string) any) (any, error) {
		if a == nil {
			return nil, errNullOrErr
		}
		return nil, errComp
	}},
	{text: "Missing + 1", f: func(a, b any, _ func(string) any) (any, error) { return nil, errComp }},
	{text: "A +", f: func(a, b any, _ func(string) any) (any, error) { return nil, errComp }},
	{text: "C", f: func(a, b any, _ func(string) any) (any, error) { return nil, errComp }},
	{text: "IIf(A IS NULL, 1, C + 1)", f: func(a, b any, _ func(string) any) (any, error) {
		if a == nil {
			return nil, errEither
		}
		return nil, errComp
	}},
}

var errNullOrErr = fmt.Errorf("null or error")
var errEither = fmt.Errorf("any")

// compConvert is the reference conversion of a computed value to a column type.
// The second result is false when the conversion must fail, free when it is
// not specified (out of range).
func compConvert(v any, t data.DataTypeEnum) (out any, ok, free bool) {
	D := data.DataType
	var f float64
	isInt := false
	var n int64
	switch x := v.(type) {
	case nil:
		return nil, true, false
	case bool:
		switch t {
		case D.Boolean:
			return x, true, false
		case D.String:
			return strconv.FormatBool(x), true, false
		}
		isInt, n = true, int64(b2i(x))
	case int32:
		isInt, n = true, int64(x)
	case int64:
		isInt, n = true, x
	case decimal.Decimal:
		switch t {
		case D.Decimal:
			return x, true, false
		case D.String:
			return x.String(), true, false
		}
		f, _ = x.Float64()
	case float64:
		if x != x {
			switch t {
			case D.Single:
				return float32(x), true, false
			case D.Double:
				return x, true, false
			case D.Decimal, D.Guid, D.DateTime:
				return nil, false, false
			}
			return nil, true, true
		}
		f = x
		if t == D.String {
			return strconv.FormatFloat(x, 'f', 6, 64), true, false
		}
	case string:
		switch t {
		case D.String:
			return x, true, false
		case D.Boolean:
			b, known := map[string]bool{"1": true, "true": true, "TRUE": true, "false": false, "0": false}[x]
			return b, known, false
		case D.Guid:
			if x == gB || x == "{"+strings.ToUpper(gB)+"}" {
				return gd(gB).v, true, false
			}
			return nil, false, false
		case D.DateTime:
			if strings.HasPrefix(x, "2024-02-29") {
				return d1, true, false
			}
			return nil, !strings.ContainsAny(x, "xrasb") && x != "", true
		case D.Single, D.Double, D.Decimal:
			y, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return nil, false, false
			}
			f = y
			if t == D.Decimal {
				return decimal.RequireFromString(x), true, false
			}
			if t == D.Single {
				return float32(f), true, false
			}
			return f, true, false
		}
		y, good := new(big.Int).SetString(x, 10)
		if !good {
			return nil, false, false
		}
		bits, signed := map[data.DataTypeEnum]uint{D.Int8: 8, D.Int16: 16, D.Int32: 32, D.Int64: 64, D.UInt8: 8, D.UInt16: 16, D.UInt32: 32, D.UInt64: 64}[t], t == D.Int8 || t == D.Int16 || t == D.Int32 || t == D.Int64
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		if y.Cmp(lo) < 0 || y.Cmp(hi) >= 0 {
			return nil, false, false // the column cannot hold the number in the text
		}
		if t == D.UInt64 {
			return y.Uint64(), true, false
		}
		isInt, n = true, y.Int64()
	case guid.Guid:
		switch t {
		case D.Guid:
			return x, true, false
		case D.String:
			return x.String(), true, false
		}
		return nil, false, false
	case time.Time:
		switch t {
		case D.DateTime:
			return x, true, false
		case D.String:
			return x.Format("2006-01-02T15:04:05.99-07:00"), true, false
		case D.Guid:
			return nil, false, false
		}
		isInt, n = true, x.Unix()
	}
	if t == D.Guid || t == D.DateTime {
		return nil, false, false
	}
	if !isInt {
		switch t {
		case D.Boolean:
			return f != 0, true, false
		case D.Single:
			return float32(f), true, false
		case D.Double:
			return f, true, false
		case D.Decimal:
			return decimal.NewFromFloat(f), true, false
		}
		n = int64(f)
	}
	in := func(lo, hi int64) bool { return n >= lo && n <= hi }
	switch t {
	case D.Boolean:
		return n != 0, true, false
	case D.String:
		return strconv.FormatInt(n, 10), true, false
	case D.Single:
		return float32(n), true, false
	case D.Double:
		return float64(n), true, false
	case D.Decimal:
		return decimal.NewFromInt(n), true, false
	case D.Int8:
		return int8(n), true, !in(-128, 127)
	case D.Int16:
		return int16(n), true, !in(-32768, 32767)
	case D.Int32:
		return int32(n), true, !in(math.MinInt32, math.MaxInt32)
	case D.Int64:
		return n, true, false
	case D.UInt8:
		return uint8(n), true, !in(0, 255)
	case D.UInt16:
		return uint16(n), true, !in(0, 65535)
	case D.UInt32:
		return uint32(n), true, !in(0, math.MaxUint32)
	case D.UInt64:
		return uint64(n), true, n < 0
	}
	panic("compConvert")
}

func init() {
	register(mc.Check{
		ID:          "P29",
		Rule:        "every expression in a computed column of every type in every position, over every value of the columns it uses, reads as an independent evaluation converted to the type, null as null, errors as errors; every history of writes and reads on two rows follows the current values of the row; every chain and cycle of up to three computed columns in every order gives its value or an error",
		Assumptions: []string{"conversions of numbers (not of texts) outside the range of the column type are not specified"},
		Scenarios: func(tier string) []mc.Scenario {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			return []mc.Scenario{
				{Name: "expressions", Pure: true, Body: computedExprs},
				{Name: "sizes", Pure: true, Body: chainSizes},
				{Name: "repeated", Pure: true, Body: func(c *mc.C) { computedHistories(c, 40) }},
				{Name: "histories", Pure: true, Share: 2, Body: func(c *mc.C) { computedHistories(c, n) }},
				{Name: "chains", Pure: true, Body: computedChains},
			}
		},
	})
}

func computedExprs(c *mc.C) {
	e := compExprs[c.Choose(len(compExprs))]
	pos := c.Choose(3)
	for _, ct := range colTypes() {
		s := data.NewDataSet()
		t := s.CreateTable("T")
		var cc *data.DataColumn
		for i, k := 0, 0; i < 3; i++ {
			if i == pos {
				cc = t.CreateColumn("C", ct.t, e.text)
				t.AddColumn(cc)
			} else {
				t.AddColumn(t.CreateColumn([]string{"A", "B"}[k], data.DataType.Int32, ""))
				k++
			}
		}
		s.AddTable(t)
		for _, a := range []any{nil, int32(0), int32(1), int32(-7), int32(100)} {
			for _, b := range []any{nil, int32(0), int32(3)} {
				r := t.CreateRow()
				t.AddRow(r)
				r.SetValueByName("a", a)
				r.SetValueByName("B", b)
				c.Case("%s as %v with A=%v B=%v", e.text, ct.t, a, b)
				guard(c, "panic", func() { judgeComputed(c, "expressions", r, cc, e, a, b) })
				clone := t.CloneRow(r)
				for _, n := range []string{"A", "B"} {
					if v, err := clone.ValueByName(n); err != nil || v != map[string]any{"A": a, "B": b}[n] {
						c.Fail("expressions/clone", "%s of a cloned row is %v, %v", n, v, err)
					}
				}
				if err := r.SetValue(cc.Index(), nil); err == nil {
					c.Fail("expressions/assigned", "a computed column can be assigned")
				}
				c.Traces(1)
				c.State("expressions", e.text, pos, ct.t, a, b)
			}
		}
	}
}

func judgeComputed(c *mc.C, key string, r *data.DataRow, cc *data.DataColumn, e compExpr, a, b any) {
	v, err := e.f(a, b, nil)
	var want any
	ok, free := true, false
	if err == nil {
		want, ok, free = compConvert(v, cc.Type())
	}
	if err == errEither || free {
		for _, n := range []string{"", cc.Name()} {
			typed(r, cc.Type(), cc.Index(), n)
		}
		r.Value(cc.Index())
		return
	}
	if err != nil || !ok {
		for _, n := range []string{"", cc.Name(), "c"} {
			got, null, gerr := typed(r, cc.Type(), cc.Index(), n)
			var raw any
			var rerr error
			if n == "" {
				raw, rerr = r.Value(cc.Index())
			} else {
				raw, rerr = r.ValueByName(n)
			}
			if (gerr == nil || rerr == nil) && !(err == errNullOrErr && (null || gerr != nil) && (raw == nil || rerr != nil)) {
				c.Fail(key+"/no-error", "column %v %q by name %q: %v (null %v) and %v without error", cc, e.text, n, got, null, raw)
				return
			}
		}
		if s := r.ValueAsString(cc.Index()); s != "" && err != errNullOrErr {
			c.Fail(key+"/no-error", "column %v %q: text %q without error", cc, e.text, s)
		}
		return
	}
	readsAs(c, key, r, cc, want)
}

// computedHistories: every sequence of writes and reads on two rows.
func computedHistories(c *mc.C, n int) {
	order := c.Choose(4) // position of the computed columns
	run := func(ops []int) {
		s := data.NewDataSet()
		t := s.CreateTable("T")
		mk := func(name, expr string) { t.AddColumn(t.CreateColumn(name, data.DataType.Int32, expr)) }
		switch order {
		case 0:
			mk("A", "")
			mk("B", "")
			mk("S", "A + B")
			mk("D", "S * 2")
		case 1:
			mk("D", "S * 2")
			mk("S", "A + B")
			mk("B", "")
			mk("A", "")
		case 2:
			mk("S", "A + B")
			mk("A", "")
			mk("D", "S * 2")
			mk("B", "")
		case 3:
			mk("A", "")
			mk("D", "s * 2")
			mk("S", "[a] + `B`")
			mk("B", "")
		}
		s.AddTable(t)
		rows := []*data.DataRow{t.CreateRow(), t.CreateRow()}
		ref := [2][2]any{}
		t.AddRow(rows[0])
		t.AddRow(rows[1])
		check := func(r int, name string) {
			want := addN(ref[r][0], ref[r][1])
			if name == "D" && want != nil {
				want = want.(int32) * 2
			}
			readsAs(c, "histories", rows[r], t.ColumnByName(name), want)
		}
		c.Case("order %d operations %v", order, ops)
		guard(c, "panic", func() {
			for _, op := range ops {
				r := op & 1
				switch op >> 1 {
				case 0:
					check(r, "S")
				case 1:
					check(r, "D")
				case 2, 3:
					v := []any{int32(5), nil}[op>>1-2]
					rows[r].SetValueByName("A", v)
					ref[r][0] = v
				case 4:
					rows[r].SetValueByName("B", int32(-2))
					ref[r][1] = int32(-2)
				}
			}
			for r := 0; r < 2; r++ {
				check(r, "S")
				check(r, "D")
			}
			sel, err := t.Select("S = 3 AND D = 6", "D", -1)
			want := 0
			for r := 0; r < 2; r++ {
				if x := addN(ref[r][0], ref[r][1]); x != nil && x.(int32) == 3 {
					want++
				}
			}
			if err != nil || len(sel) != want {
				c.Fail("histories/select", "%d rows selected, expected %d, %v", len(sel), want, err)
			}
			clone := t.CloneRow(rows[0])
			readsAs(c, "histories/clone", clone, t.ColumnByName("S"), addN(ref[0][0], ref[0][1]))
		})
		c.Steps(len(ops))
		c.Traces(1)
		c.State("history", order, ops)
	}
	histories(c, 10, n, 1, run)
}

// computedChains: every assignment of simple references to three computed columns.
func computedChains(c *mc.C) {
	refs := []string{"A", "X", "Y", "Z", "X + Y", "Y + Z", "IIf(True, Z, X)", "A + Missing"}
	x, y := c.Choose(len(refs)), c.Choose(len(refs))
	for z := range refs {
		for perm := 0; perm < 6; perm++ {
			s := data.NewDataSet()
			t := s.CreateTable("T")
			defs := map[string]int{"X": x, "Y": y, "Z": z}
			order := [][]string{{"X", "Y", "Z"}, {"X", "Z", "Y"}, {"Y", "X", "Z"}, {"Y", "Z", "X"}, {"Z", "X", "Y"}, {"Z", "Y", "X"}}[perm]
			for i, n := range order {
				if i == perm%3 {
					t.AddColumn(t.CreateColumn("A", data.DataType.Int32, ""))
				}
				t.AddColumn(t.CreateColumn(n, data.DataType.Int32, refs[defs[n]]))
			}
			s.AddTable(t)
			r := t.CreateRow()
			t.AddRow(r)
			r.SetValueByName("A", int32(3))
			var eval func(n string, depth int) (int32, bool)
			eval = func(n string, depth int) (int32, bool) {
				if n == "A" {
					return 3, true
				}
				if depth > 4 {
					return 0, false
				}
				var sum int32
				switch k := defs[n]; k {
				case 7:
					return 0, false
				case 4, 5:
					for _, m := range strings.Split(refs[k], " + ") {
						v, ok := eval(m, depth+1)
						if !ok {
							return 0, false
						}
						sum += v
					}
					return sum, true
				case 6:
					v, ok := eval("Z", depth+1)
					if _, ok2 := eval("X", depth+1); !ok2 && ok {
						return v, false // whether the other branch is looked at is open
					}
					return v, ok
				default:
					return eval(refs[k], depth+1)
				}
			}
			c.Case("X=%s Y=%s Z=%s order %v", refs[x], refs[y], refs[z], order)
			for _, n := range order {
				want, ok := eval(n, 0)
				open := false
				for _, d := range defs {
					open = open || d == 6
				}
				guard(c, "panic", func() {
					col := t.ColumnByName(n)
					v, null, err := r.Int32ValueByName(n)
					raw, rerr := r.Value(col.Index())
					if ok && (err != nil || null || v != want || rerr != nil || raw != want) {
						c.Fail("chains/value", "%s reads %v, %v, %v and %v, %v, expected %d", n, v, null, err, raw, rerr, want)
					}
					if !ok && !open && (err == nil || rerr == nil) {
						c.Fail("chains/no-error", "%s reads %v, %v without error", n, v, raw)
					}
				})
				c.Steps(2)
			}
			c.Traces(1)
			c.State("chains", x, y, z, perm)
		}
	}
}

// ---- P30 ----

func rowVals() []colType {
	D := data.DataType
	out := colTypes()
	for i := range out {
		switch out[i].t {
		case D.String:
			out[i].vals = []any{"", " ", "1", "a", "ab", "B", "é"}
		case D.Boolean:
			out[i].vals = []any{true, false}
		case D.Single:
			out[i].vals = []any{float32(math.NaN()), float32(math.Inf(-1)), float32(-math.MaxFloat32), float32(-1.5), float32(0), float32(0.25), float32(2), float32(math.Inf(1))}
		case D.Double:
			out[i].vals = []any{math.NaN(), math.Inf(-1), -math.MaxFloat64, -1.5, 0.0, 0.25, 2.0, math.Inf(1)}
		case D.Int64:
			out[i].vals = []any{int64(math.MinInt64), int64(math.MinInt32) - 1, int64(-5), int64(0), int64(1 << 32), int64(1<<53 + 1), int64(math.MaxInt64)}
		case D.UInt32:
			out[i].vals = []any{uint32(0), uint32(7), uint32(math.MaxInt32), uint32(1 << 31), uint32(math.MaxUint32)}
		case D.UInt64:
			out[i].vals = []any{uint64(0), uint64(5), uint64(1 << 31), uint64(1 << 32), uint64(math.MaxInt64), uint64(1 << 63), uint64(math.MaxUint64)}
		case D.DateTime:
			out[i].vals = []any{time.Time{}, time.Unix(0, 0).UTC(), d2.Add(250 * time.Millisecond), time.Date(2024, 2, 29, 23, 59, 58, 250000000, time.FixedZone("", 3600)), d1, d1.Add(time.Nanosecond)}
		}
	}
	return out
}

func init() {
	register(mc.Check{
		ID:          "P30",
		Rule:        "every boundary value of every column type is read back through every accessor pair by index and by name in every letter case, refused by the 14 other typed accessors, and its text form parses back; all pairs and triples of values compare as the order of the type",
		Assumptions: []string{"the text form shows floating point numbers with six decimals and times with hundredths of a second, values are compared to that precision", "true orders before false, not-a-number before all numbers"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "accessors", Pure: true, Body: rowAccessors},
				{Name: "order", Pure: true, Body: rowOrder},
			}
		},
	})
}

func rowAccessors(c *mc.C) {
	types := rowVals()
	ti, pos := c.Choose(len(types)), c.Choose(3)
	ct := types[ti]
	for _, other := range types {
		s := data.NewDataSet()
		t := s.CreateTable("T")
		for i := 0; i < 3; i++ {
			if i == pos {
				t.AddColumn(t.CreateColumn("Val", ct.t, ""))
			} else {
				t.AddColumn(t.CreateColumn(fmt.Sprintf("Val%d", i), other.t, ""))
			}
		}
		s.AddTable(t)
		r, untouched := t.CreateRow(), t.CreateRow()
		t.AddRow(r)
		t.AddRow(untouched)
		col := t.ColumnByName("VAL")
		for vi, v := range append([]any{nil}, ct.vals...) {
			for _, byName := range []bool{false, true} {
				c.Case("%v value %v at %d beside %v", ct.t, v, pos, other.t)
				var err error
				if byName {
					err = r.SetValueByName("vaL", v)
				} else {
					err = r.SetValue(pos, v)
				}
				if err != nil {
					c.Fail("set", "%v", err)
					return
				}
				readsAs(c, "accessors", r, col, v)
				for i := 0; i < 3; i++ {
					if i != pos {
						readsAs(c, "accessors/other", r, t.Column(i), nil)
					}
					readsAs(c, "accessors/untouched", untouched, t.Column(i), nil)
				}
				for _, o := range types {
					if o.t == ct.t {
						continue
					}
					if _, _, err := typed(r, o.t, pos, ""); err == nil {
						c.Fail("refused", "%v accessor reads a %v column", o.t, ct.t)
					}
					if _, _, err := typed(r, o.t, pos, "val"); err == nil {
						c.Fail("refused", "%v accessor reads a %v column by name", o.t, ct.t)
					}
				}
				for _, bad := range []int{-1, 3} {
					if _, _, err := typed(r, ct.t, bad, ""); err == nil {
						c.Fail("range", "column index %d is accepted", bad)
					}
					if r.SetValue(bad, v) == nil || r.ValueAsString(bad) != "" {
						c.Fail("range", "column index %d is accepted", bad)
					}
				}
				if _, _, err := typed(r, ct.t, 0, "Nope"); err == nil {
					c.Fail("range", "unknown column name is accepted")
				}
				textForm(c, r, t, col, v)
				clone := t.CloneRow(r)
				readsAs(c, "clone", clone, col, v)
				c.Traces(1)
				c.State("accessors", ct.t, pos, other.t, vi, byName)
			}
		}
	}
}

func textForm(c *mc.C, r *data.DataRow, t *data.DataTable, col *data.DataColumn, v any) {
	texts := []string{r.ValueAsString(col.Index()), r.ValueAsStringByName("val"), r.ColumnValueAsString(col), t.RowValueAsString(0, col.Index()), t.RowValueAsStringByName(0, "VAL")}
	for _, x := range texts {
		if x != texts[0] {
			c.Fail("text/differs", "text forms %q", texts)
			return
		}
	}
	s := texts[0]
	if !strings.Contains(r.String(), s) {
		c.Fail("text/row", "row text %q does not show %q", r.String(), s)
	}
	ok := false
	switch x := v.(type) {
	case nil:
		ok = s == "<NULL>"
	case string:
		ok = s == x
	case bool:
		ok = s == strconv.FormatBool(x)
	case time.Time:
		p, err := time.Parse(time.RFC3339Nano, s)
		d := x.Sub(p)
		ok = err == nil && d >= 0 && d < 10*time.Millisecond
	case float32:
		p, err := strconv.ParseFloat(s, 32)
		ok = err == nil && (float32(p) == x || x != x && p != p || math.Abs(p-float64(x)) < 1e-6)
	case float64:
		p, err := strconv.ParseFloat(s, 64)
		ok = err == nil && (p == x || x != x && p != p || math.Abs(p-x) < 1e-6)
	case decimal.Decimal:
		p, err := decimal.NewFromString(s)
		ok = err == nil && p.Equal(x)
	case guid.Guid:
		p, err := guid.Parse(s)
		ok = err == nil && p == x
	default:
		ok = s == fmt.Sprint(x)
	}
	if !ok {
		c.Fail("text/value", "value %v has text %q", v, s)
	}
}

func rowOrder(c *mc.C) {
	types := rowVals()
	ct := types[c.Choose(len(types))]
	exact := c.Choose(2) == 1
	vals := append([]any{nil}, ct.vals...)
	if ct.t == data.DataType.String {
		if exact {
			vals = []any{nil, "", " ", "1", "A", "B", "a", "ab", "b", "é"}
		} else {
			vals = []any{nil, "", " ", "1", "a", "ab", "B", "é"}
		}
	}
	s := data.NewDataSet()
	t := s.CreateTable("T")
	t.AddColumn(t.CreateColumn("X", data.DataType.Int32, ""))
	t.AddColumn(t.CreateColumn("V", ct.t, ""))
	t2 := s.CreateTable("U")
	t2.AddColumn(t2.CreateColumn("X", data.DataType.Int32, ""))
	t2.AddColumn(t2.CreateColumn("V", types[(c.Choose(len(types)))].t, ""))
	var rows []*data.DataRow
	for _, v := range vals {
		r := t.CreateRow()
		r.SetValue(1, v)
		rows = append(rows, r)
	}
	rank := func(i int) int { // equal ranks compare equal
		if i > 0 {
			if x, ok := vals[i].(time.Time); ok {
				if y, ok := vals[i-1].(time.Time); ok && x.Equal(y) {
					return i - 1
				}
			}
		}
		return i
	}
	sign := func(i int) int { return b2i(i > 0) - b2i(i < 0) }
	for i, a := range rows {
		for j, b := range rows {
			k, err := data.CompareDataRowColumns(a, b, 1, exact)
			c.Case("%v %v with %v exact %v", ct.t, vals[i], vals[j], exact)
			if err != nil || sign(k) != sign(rank(i)-rank(j)) {
				c.Fail("order", "compares as %d, %v", k, err)
			}
			c.Steps(1)
			c.State("order", ct.t, exact, i, j)
			for _, d := range rows {
				kd, _ := data.CompareDataRowColumns(b, d, 1, exact)
				ad, _ := data.CompareDataRowColumns(a, d, 1, exact)
				if k <= 0 && kd <= 0 && ad > 0 {
					c.Fail("transitive", "not transitive")
				}
				c.Steps(2)
			}
		}
		for _, bad := range []int{-1, 2} {
			if _, err := data.CompareDataRowColumns(a, a, bad, exact); err == nil {
				c.Fail("range", "column index %d is compared", bad)
			}
		}
		o := t2.CreateRow()
		_, err := data.CompareDataRowColumns(a, o, 1, exact)
		if (err == nil) != (t2.Column(1).Type() == ct.t) {
			c.Fail("mixed", "comparing a %v with a %v column: %v", ct.t, t2.Column(1).Type(), err)
		}
	}
	if ct.t == data.DataType.String && !exact {
		for _, p := range [][2]string{{"a", "A"}, {"É", "é"}, {"aB", "Ab"}} {
			a, b := t.CreateRow(), t.CreateRow()
			a.SetValue(1, p[0])
			b.SetValue(1, p[1])
			if k, err := data.CompareDataRowColumns(a, b, 1, false); k != 0 || err != nil {
				c.Fail("case", "%q and %q compare as %d, %v", p[0], p[1], k, err)
			}
			if k, err := data.CompareDataRowColumns(a, b, 1, true); k == 0 || err != nil {
				c.Fail("case", "%q and %q compare exactly as %d, %v", p[0], p[1], k, err)
			}
		}
	}
	c.Traces(1)
}
