package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// ---- P41 ----

// p41Set is a data set of two tables, one with computed columns.
func p41Set() *data.DataSet {
	ds := data.NewDataSet()
	t := ds.CreateTable("ActiveMeasurements")
	col := func(t *data.DataTable, name string, typ data.DataTypeEnum, expr string) {
		t.AddColumn(t.CreateColumn(name, typ, expr))
	}
	col(t, "SignalID", data.DataType.Guid, "")
	col(t, "ID", data.DataType.String, "")
	col(t, "PointTag", data.DataType.String, "")
	col(t, "Value", data.DataType.Double, "")
	col(t, "Twice", data.DataType.Double, "Value * 2")
	col(t, "Label", data.DataType.String, "PointTag + ':' + Twice")
	for i := 0; i < 3; i++ {
		r := t.CreateRow()
		for k, v := range []any{sig(1 + i), fmt.Sprintf("P:%d", i), []string{"beta", "Alpha", "gamma"}[i], []float64{2, 4.5, -1}[i]} {
			r.SetValue(k, v)
		}
		t.AddRow(r)
	}
	ds.AddTable(t)
	u := ds.CreateTable("Other")
	col(u, "SignalID", data.DataType.Guid, "")
	col(u, "Value", data.DataType.Int32, "")
	for i := 0; i < 2; i++ {
		r := u.CreateRow()
		r.SetValue(0, sig(1+i))
		r.SetValue(1, int32(7-i))
		u.AddRow(r)
	}
	ds.AddTable(u)
	return ds
}

func p41Rows(rs []*data.DataRow, err error) string {
	s := fmt.Sprint(err)
	for _, r := range rs {
		s += " " + r.ValueAsString(0)
	}
	return s
}

func p41IDs(ids hashset.HashSet[guid.Guid], err error) string {
	var s []string
	for id := range ids {
		s = append(s, id.String())
	}
	sort.Strings(s)
	return fmt.Sprint(err, s)
}

// p41Ops are things readers do; each says what it has seen.
var p41Ops = []struct {
	name string
	f    func(ds *data.DataSet) string
	want string
}{
	{"computed value", func(ds *data.DataSet) string {
		v, null, err := ds.Table("ActiveMeasurements").Row(0).DoubleValueByName("Twice")
		return fmt.Sprint(v, null, err)
	}, "4 false <nil>"},
	{"computed text", func(ds *data.DataSet) string {
		v, null, err := ds.Table("ActiveMeasurements").Row(0).StringValueByName("Label")
		return fmt.Sprint(v, null, err)
	}, "beta:4.000000false <nil>"},
	{"computed text of another row", func(ds *data.DataSet) string {
		return ds.Table("activemeasurements").Row(1).ValueAsStringByName("label")
	}, "Alpha:9.000000"},
	{"selection", func(ds *data.DataSet) string {
		return p41Rows(ds.Table("ActiveMeasurements").Select("Value > 0 AND PointTag LIKE '%a'", "PointTag DESC", -1))
	}, "<nil> {0115181b-1e21-2427-2a2d-303336393c3f} {0226292c-2f32-3538-3b3e-4144474a4d50}"},
	{"selection by computed column", func(ds *data.DataSet) string {
		return p41Rows(ds.Table("ActiveMeasurements").Select("Twice IN (4, 9)", "Label", 1))
	}, "<nil> {0226292c-2f32-3538-3b3e-4144474a4d50}"},
	{"statement list", func(ds *data.DataSet) string {
		return p41Rows(data.SelectDataRows(ds, "FILTER TOP 1 ActiveMeasurements WHERE Value < 3 ORDER BY Value; FILTER Other WHERE Value = 7", "ActiveMeasurements", nil, true))
	}, "<nil> {03373a3d-4043-4649-4c4f-5255585b5e61} {0115181b-1e21-2427-2a2d-303336393c3f}"},
	{"signals", func(ds *data.DataSet) string {
		return p41IDs(data.SelectSignalIDSet(ds, "P:1; FILTER ActiveMeasurements WHERE Upper(PointTag) = 'GAMMA'", "ActiveMeasurements", nil, true))
	}, "<nil> [{0226292c-2f32-3538-3b3e-4144474a4d50} {03373a3d-4043-4649-4c4f-5255585b5e61}]"},
	{"expression on a row", func(ds *data.DataSet) string {
		v, err := data.EvaluateDataRowExpression(ds.Table("ActiveMeasurements").Row(2), "IIf(Value < 0, Len(PointTag), Value) + 1", true)
		return fmt.Sprint(v, err)
	}, "6 <nil>"},
	{"expression", func(ds *data.DataSet) string {
		v, err := data.EvaluateExpression("StrCmp('a', 'B', true) + Power(2, 3)", true)
		return fmt.Sprint(v, err)
	}, "7 <nil>"},
	{"malformed expression", func(ds *data.DataSet) string {
		rs, err := ds.Table("Other").Select("Value + ", "", -1)
		return fmt.Sprint(len(rs), err != nil)
	}, "0 true"},
	{"names", func(ds *data.DataSet) string {
		n := ds.TableNames()
		sort.Strings(n)
		t := ds.Table("OTHER")
		return fmt.Sprint(n, ds.TableCount(), t.ColumnByName("value").Index(), t.ColumnIndex("SIGNALID"), t.ColumnByName("x") == nil, t.RowCount(), t.Row(1).ValueAsString(1), t.String() != "")
	}, "[ActiveMeasurements Other] 2 1 0 true 26true"},
	{"row text and order", func(ds *data.DataSet) string {
		t := ds.Table("ActiveMeasurements")
		c, err := data.CompareDataRowColumns(t.Row(0), t.Row(1), 2, false)
		return fmt.Sprint(strings.Contains(t.Row(1).String(), "Alpha"), c, err, len(t.RowsWhere(func(r *data.DataRow) bool { v, _, _ := r.DoubleValue(3); return v > 0 }, -1)))
	}, "true 1 <nil> 2"},
	{"computed value of another row", func(ds *data.DataSet) string {
		v, err := ds.Table("ActiveMeasurements").Row(1).ValueByName("Twice")
		return fmt.Sprint(v, err)
	}, "9 <nil>"},
	{"document", func(*data.DataSet) string {
		x := data.FromXml([]byte(strings.Replace(string(p16XML(sig(3), 0x3F, "A:1", "tag")), "tag", "tag2", 1)))
		n := x.TableNames()
		sort.Strings(n)
		s := fmt.Sprint(n)
		for _, k := range n {
			for _, r := range x.Table(k).Rows() {
				for i := 0; i < x.Table(k).ColumnCount(); i++ {
					s += "|" + r.ValueAsString(i)
				}
			}
		}
		return s
	}, "[MeasurementDetail]|{03373a3d-4043-4649-4c4f-5255585b5e61}|A:1|tag2|ref-tag|FREQ|about tag|2021-03-04T05:06:07+00:00"},
}

// p41Readers lets each thread do one thing with the same data set.
func p41Readers(threads int, ops []int) func(c *mc.C) {
	return func(c *mc.C) {
		var do []int
		var names []string
		for i := 0; i < threads; i++ {
			k := c.Choose(len(ops))
			do = append(do, ops[k])
			names = append(names, p41Ops[ops[k]].name)
		}
		c.Case("threads: %s", strings.Join(names, ", "))
		var want []string
		for _, k := range do {
			want = append(want, p41Ops[k].want)
		}
		ds := p41Set()
		got := make([]string, threads)
		vrt.SetDataStmt(true)
		var ts []*task
		for i, k := range do {
			ts = append(ts, spawn(fmt.Sprintf("reader%d", i), func() { got[i] = p41Ops[k].f(ds) }))
		}
		for _, t := range ts {
			t.wait()
		}
		vrt.SetDataStmt(false)
		vrt.PauseChoices()
		for i, k := range do {
			if got[i] != want[i] {
				c.Fail("reader", "thread %d (%s) has %q, alone it has %q", i+1, names[i], got[i], want[i])
			}
			if k > 2 && k != 12 {
				continue
			}
			if s := p41Ops[k].f(ds); s != want[i] {
				c.Fail("later", "%s gives %q after the threads are done, alone it gives %q", names[i], s, want[i])
			}
		}
		c.State(do)
		c.Outcome(strings.Join(want, "|"))
	}
}

func init() {
	register(mc.Check{
		ID:          "P41",
		Rule:        "every pair and selected triples of reading operations on one data set, every schedule up to the deviation bound with switches before all statements of the data set code that read or write memory the code changes anywhere",
		Assumptions: []string{"the expression grammar's generated code and the packages below the data sets run without switches"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "pairs", Body: p41Readers(2, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}), Bound: 1 + d, MaxSteps: 5_000_000, Share: 3},
				{Name: "computed", Body: p41Readers(2, []int{0, 12}), Bound: 2 + d, MaxSteps: 5_000_000},
				{Name: "triples", Body: p41Readers(3, []int{0, 11, 12}), Bound: 1 + d, MaxSteps: 5_000_000},
			}
		},
	})
}
