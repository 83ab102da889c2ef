package main

import (
	"fmt"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"verif.local/mc/mc"
)

// cfgTables are the two tables of the configurations scenario; the rows of the
// second one have other signal IDs and other identifier column names.
func cfgTables() (*data.DataSet, [2]*data.DataTable) {
	set := data.NewDataSet()
	var ts [2]*data.DataTable
	for k, cols := range [2][4]string{{"SignalID", "ID", "PointTag", "Num"}, {"UID", "Key", "Label", "Num"}} {
		t := set.CreateTable([]string{"First", "Second"}[k])
		for i, typ := range []data.DataTypeEnum{data.DataType.Guid, data.DataType.String, data.DataType.String, data.DataType.Int32} {
			t.AddColumn(t.CreateColumn(cols[i], typ, ""))
		}
		for i := 0; i < 2; i++ {
			r := t.CreateRow()
			r.SetValue(0, rowID(2*k+i))
			r.SetValue(1, fmt.Sprintf("K:%d", i))
			r.SetValue(2, fmt.Sprintf("T%d", i))
			r.SetValue(3, int32(i))
			t.AddRow(r)
		}
		set.AddTable(t)
		ts[k] = t
	}
	return set, ts
}

// cfgStmt is one statement: what it names and what it should match.
type cfgStmt struct {
	text string
	kind byte // g(uid), k(ey), t(ag), f(ilter), e(xpression)
	tab  int  // table of a filter, -1 for a missing one
	row  int  // matching row, or global row of a GUID, -1 for none
}

// filterConfigurations checks statements against every configuration of the
// primary table, the identifying fields and the tracked results.
func filterConfigurations(c *mc.C) {
	primaries := []string{"", "First", "fIRST", "Second", "Absent"}
	primary := primaries[c.Choose(len(primaries))]
	ptab := map[string]int{"First": 0, "fIRST": 0, "Second": 1}
	pt, ok := ptab[primary]
	if !ok {
		pt = -1
	}
	// identifying fields of the primary table and of the other table
	fields := func(k int) []*data.TableIDFields {
		n := [2][3]string{{"SignalID", "ID", "PointTag"}, {"UID", "Key", "Label"}}[k]
		return []*data.TableIDFields{nil,
			{SignalIDFieldName: n[0], MeasurementKeyFieldName: n[1], PointTagFieldName: n[2]},
			{SignalIDFieldName: "absent", MeasurementKeyFieldName: n[1], PointTagFieldName: n[2]},
			{SignalIDFieldName: strings.ToLower(n[0]), MeasurementKeyFieldName: "absent", PointTagFieldName: strings.ToUpper(n[2])},
			{SignalIDFieldName: n[0], MeasurementKeyFieldName: n[1], PointTagFieldName: "absent"},
		}
	}
	set, ts := cfgTables()
	var has [2]int // index of the fields in use for a table
	has[0], has[1] = c.Choose(5), c.Choose(3)
	if pt == 1 {
		has[0], has[1] = has[1], has[0]
	}
	var sts []cfgStmt
	for i := 0; i < 4; i++ {
		sts = append(sts, cfgStmt{"{" + guidText([16]byte(rowID(i))) + "}", 'g', 0, i})
	}
	sts = append(sts, cfgStmt{"{" + guidText([16]byte(rowID(9))) + "}", 'g', 0, -1},
		cfgStmt{"K:1", 'k', 0, 1}, cfgStmt{"k:0", 'k', 0, 0}, cfgStmt{"K:7", 'k', 0, -1},
		cfgStmt{`"T1"`, 't', 0, 1}, cfgStmt{`"t0"`, 't', 0, 0}, cfgStmt{`"T7"`, 't', 0, -1},
		cfgStmt{"FILTER First WHERE Num = 1", 'f', 0, 1}, cfgStmt{"FILTER sECOND WHERE Num = 0", 'f', 1, 0}, cfgStmt{"FILTER Third WHERE Num = 0", 'f', -1, 0},
		cfgStmt{"Num = 1", 'e', 0, 1}, cfgStmt{"Num = 0", 'e', 0, 0})
	judge := func(list []cfgStmt) {
		var texts []string
		for _, s := range list {
			texts = append(texts, s.text)
		}
		text := strings.Join(texts, "; ")
		c.CaseStr(text)
		for mode := 1; mode < 4; mode++ {
			wantRows, mayRows, wantIDs, mayIDs := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
			bad, may := false, false
			for _, s := range list {
				t, row := s.tab, s.row
				switch s.kind {
				case 'f', 'e':
					if s.kind == 'e' {
						t = pt
					}
					if t < 0 || mode&2 > 0 && (has[t] == 0 || has[t] == 2) {
						bad = true
						continue
					}
					wantRows[2*t+row], wantIDs[2*t+row] = true, true
				case 'g':
					g := row
					if g < 0 {
						g = 9
					}
					wantIDs[g] = true
					if row >= 0 && pt == row/2 {
						if has[pt] == 0 || has[pt] == 2 {
							may, mayRows[row] = true, true
						} else {
							wantRows[row] = true
						}
					}
				default:
					// without a usable table or fields there is nothing to match
					if pt < 0 || has[pt] == 0 {
						may = true
						continue
					}
					if s.kind == 'k' && has[pt] == 3 || s.kind == 't' && has[pt] == 4 {
						may = true
						continue
					}
					if row < 0 {
						continue
					}
					if has[pt] == 2 {
						may = true
						mayRows[2*pt+row], mayIDs[2*pt+row] = true, true
					} else {
						wantRows[2*pt+row], wantIDs[2*pt+row] = true, true
					}
				}
			}
			guard(c, "configurations/panic", func() {
				p := data.NewFilterExpressionParser(text, true)
				p.DataSet, p.PrimaryTableName = set, primary
				p.TrackFilteredRows, p.TrackFilteredSignalIDs = mode&1 > 0, mode&2 > 0
				for k := range ts {
					if f := fields(k)[has[k]]; f != nil {
						name := ts[k].Name()
						if k == pt {
							name = primary
						}
						p.TableIDFields[name] = f
					}
				}
				err := p.Evaluate(true, true)
				c.Steps(1)
				if bad {
					if err == nil {
						c.Fail("configurations/accepted", "%q with primary table %q, fields %v, tracking %d is accepted", text, primary, has, mode)
					}
					return
				}
				if err != nil {
					if !may {
						c.Fail("configurations/error", "%q with primary table %q, fields %v, tracking %d: %v", text, primary, has, mode, err)
					}
					return
				}
				if mode&1 == 0 {
					wantRows, mayRows = nil, nil
				}
				if mode&2 == 0 {
					wantIDs, mayIDs = nil, nil
				}
				seen := map[int]bool{}
				for _, r := range p.FilteredRows() {
					id, null, err := r.GuidValue(0)
					n := int(id[15]) - 1
					if null || err != nil || seen[n] || !wantRows[n] && !mayRows[n] {
						c.Fail("configurations/rows", "%q with primary table %q, fields %v, tracking %d: row %d selected, expected %v", text, primary, has, mode, n, wantRows)
					}
					seen[n] = true
				}
				for n := range wantRows {
					if !seen[n] {
						c.Fail("configurations/rows", "%q with primary table %q, fields %v, tracking %d: row %d not selected", text, primary, has, mode, n)
					}
				}
				seen = map[int]bool{}
				for _, id := range p.FilteredSignalIDs() {
					n := int(id[15]) - 1
					if id != rowID(n) || seen[n] || !wantIDs[n] && !mayIDs[n] {
						c.Fail("configurations/ids", "%q with primary table %q, fields %v, tracking %d: ID %d selected, expected %v", text, primary, has, mode, n, wantIDs)
					}
					seen[n] = true
				}
				for n := range wantIDs {
					if !seen[n] {
						c.Fail("configurations/ids", "%q with primary table %q, fields %v, tracking %d: ID %d not selected", text, primary, has, mode, n)
					}
				}
			})
		}
		c.Traces(1)
		c.StateHash(mc.HashStr(fmt.Sprint(primary, has, text)))
	}
	for _, a := range sts {
		judge([]cfgStmt{a})
		for _, b := range sts {
			if a.text != b.text {
				judge([]cfgStmt{a, b})
			}
		}
	}
}
