package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vctx"
	"verif.local/mc/shim/vrt"
)

// ---- P16 ----

// p16Lookups: concurrent lookups, cache installation and metadata loading must
// all see the same record of a signal.
func p16Lookups(threads, kinds int, stmt bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		p := w.connectQuiet()
		id := cacheA(0, 0)[0].Sig
		var ops []int
		for i := 0; i < threads; i++ {
			ops = append(ops, c.Choose(kinds))
		}
		names := []string{"lookup", "lookup by measurement", "cache arrives", "metadata arrives"}
		c.Case("operations %v of %v", ops, names)
		var recs []*transport.MeasurementMetadata
		if stmt {
			vrt.SetStmt(true)
		}
		var ts []*task
		for i, op := range ops {
			ts = append(ts, spawn(fmt.Sprintf("app%d", i), func() {
				switch op {
				case 0:
					r := w.sb.LookupMetadata(id)
					if r.SignalID != id || r.Multiplier != 1 || r.Adder != 0 {
						c.Fail("neutral", "new record has signal %v multiplier %v adder %v", r.SignalID, r.Multiplier, r.Adder)
					}
					recs = append(recs, r)
				case 1:
					recs = append(recs, w.sb.Metadata(&transport.Measurement{SignalID: id}))
				case 2:
					p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
				case 3:
					p.send(resp(respSucceeded, cmdMetadata, zip(p16XML(id, 0x3F, "A:1", "tag"))))
				}
			}))
		}
		for _, t := range ts {
			t.wait()
		}
		vrt.Idle()
		vrt.SetStmt(false)
		vrt.PauseChoices()
		r := w.sb.LookupMetadata(id)
		for _, x := range recs {
			if x != r {
				c.Fail("identity", "lookups of one signal returned different records")
			}
		}
		for _, op := range ops {
			if op == 3 && r.Tag != "tag" {
				c.Fail("lost", "metadata is not in the record that everyone has: tag %q", r.Tag)
			}
			if op == 2 && r.Source == "" {
				c.Fail("lost", "signal index cache details are not in the record that everyone has")
			}
		}
		c.State(ops)
		w.closeAll()
	}
}

// p16XML is metadata for one signal with a choice of columns.
func p16XML(id guid.Guid, cols int, key, tag string) []byte {
	when := "2021-03-04T05:06:07Z"
	if tag == "two" {
		when = "2022-12-31T23:59:58Z"
	}
	names := []string{"ID", "PointTag", "SignalReference", "SignalAcronym", "Description", "UpdatedOn"}
	values := []string{key, tag, "ref-" + tag, "FREQ", "about " + tag, when}
	var def, row strings.Builder
	for i, n := range names {
		if cols>>i&1 == 0 {
			continue
		}
		t := "xs:string"
		if i == 5 {
			t = "xs:dateTime"
		}
		def.WriteString(`<xs:element name="` + n + `" type="` + t + `" minOccurs="0"/>`)
		row.WriteString("<" + n + ">" + values[i] + "</" + n + ">")
	}
	return []byte(`<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence><xs:element name="SignalID" type="xs:string" ext:DataType="System.Guid" minOccurs="0"/>` +
		def.String() + `</xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema><MeasurementDetail><SignalID>` + id.String() + `</SignalID>` + row.String() + `</MeasurementDetail></DataSet>`)
}

// p16Fields: every column subset, in every order with the cache, twice.
func p16Fields(c *mc.C) {
	w := newWorld(c)
	cols := c.Choose(64)
	keys := []string{"A:1", "PPA:18446744073709551615", "nokey", "A:B:1", "A:x", ""}
	key := keys[c.Choose(len(keys))]
	order := c.Choose(3) // metadata only, metadata then cache, cache then metadata
	again := c.Choose(2) == 1
	reconnect := c.Choose(2) == 1
	c.CaseStr(fmt.Sprintf("columns %06b key %q order %d again %v new connection %v", cols, key, order, again, reconnect))
	p := w.connectQuiet()
	es := cacheA(0, 0)
	id := es[1].Sig
	r := w.sb.LookupMetadata(id)
	cache := func() {
		p.send(cacheResp(2, 0, sig(99), es, true, false))
		vrt.Idle()
	}
	if order == 2 {
		cache()
	}
	tag := "one"
	p.send(resp(respSucceeded, cmdMetadata, zip(p16XML(id, cols, key, tag))))
	vrt.Idle()
	if again {
		tag = "two"
		if key == "A:1" {
			key = "A:2"
		}
		p.send(resp(respSucceeded, cmdMetadata, zip(p16XML(id, cols, key, tag))))
		vrt.Idle()
	}
	if order == 1 {
		cache()
	}
	if w.sb.LookupMetadata(id) != r || w.sb.Metadata(&transport.Measurement{SignalID: id}) != r {
		c.Fail("identity", "the record changed")
	}
	want := transport.MeasurementMetadata{SignalID: id, Multiplier: 1}
	if cols&1 != 0 {
		switch key {
		case "A:1":
			want.Source, want.ID = "A", 1
		case "A:2":
			want.Source, want.ID = "A", 2
		case "PPA:18446744073709551615":
			want.Source, want.ID = "PPA", math.MaxUint64
		case "A:x":
			want.Source = "A"
		}
	}
	if want.Source == "" && order > 0 {
		want.Source, want.ID = es[1].Src, es[1].ID
	}
	if cols&2 != 0 {
		want.Tag = tag
	}
	if cols&4 != 0 {
		want.SignalReference = "ref-" + tag
	}
	if cols&8 != 0 {
		want.SignalType = "FREQ"
	}
	if cols&16 != 0 {
		want.Description = "about " + tag
	}
	if cols&32 != 0 {
		want.UpdatedOn = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
		if again {
			want.UpdatedOn = time.Date(2022, 12, 31, 23, 59, 58, 0, time.UTC)
		}
	}
	got := *r
	if !got.UpdatedOn.Equal(want.UpdatedOn) {
		c.Fail("fields", "updated on %v, sent %v", got.UpdatedOn, want.UpdatedOn)
	}
	got.UpdatedOn = want.UpdatedOn
	if got != want {
		c.Fail("fields", "record %+v, should be %+v", got, want)
	}
	if o := w.sb.LookupMetadata(sig(777)); o.Tag != "" || o.Multiplier != 1 || o.SignalID != sig(777) {
		c.Fail("other", "metadata leaked into another record: %+v", *o)
	}
	for _, x := range [][3]float64{{2, 3, 1}, {-0.5, 0, 7}, {0, 4, 3}, {1, 0, 2.25}} {
		r.Multiplier, r.Adder = x[0], x[1]
		if g := w.sb.AdjustedValue(&transport.Measurement{SignalID: id, Value: x[2]}); g != x[2]*x[0]+x[1] {
			c.Fail("adjusted", "value %v multiplier %v adder %v adjusted to %v", x[2], x[0], x[1], g)
		}
	}
	if g := w.sb.AdjustedValue(&transport.Measurement{SignalID: sig(778), Value: 5}); g != 5 {
		c.Fail("adjusted", "value 5 of an unknown signal adjusted to %v", g)
	}
	if reconnect {
		w.sb.Disconnect()
		vrt.Idle()
		w.connect()
		if x := w.sb.LookupMetadata(id); x.Multiplier != 1 || x.Adder != 0 || x.SignalID != id {
			c.Fail("neutral", "record after a new connection: %+v", *x)
		}
	}
	c.State(cols, key, order, again, reconnect)
	w.closeAll()
}

// p16Tables: metadata of every list of up to three rows, with rows that name no
// signal and rows without details, in data sets with and without the table and
// the column that are looked for; the subscription that waits for the metadata
// is made all the same.
func p16Tables(c *mc.C) {
	w := newWorld(c)
	shape := c.Choose(5) // as it should be, other table before, no such table, no such column, nothing
	auto := c.Choose(2) == 1
	var rows []int
	for len(rows) < 3 {
		k := c.Choose(5)
		if k == 4 {
			break
		}
		rows = append(rows, k) // signal 0, signal 1, no signal, signal 0 without details
	}
	c.CaseStr(fmt.Sprintf("shape %d rows %v automatic %v", shape, rows, auto))
	table, column := "MeasurementDetail", "SignalID"
	switch shape {
	case 2:
		table = "PhasorDetail"
	case 3:
		column = "DeviceID"
	}
	def := func(name, column string) string {
		return `<xs:element name="` + name + `"><xs:complexType><xs:sequence><xs:element name="PointTag" type="xs:string" minOccurs="0"/><xs:element name="` + column +
			`" type="xs:string" ext:DataType="System.Guid" minOccurs="0"/><xs:element name="ID" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>`
	}
	ids := []guid.Guid{sig(1), sig(2)}
	type record struct {
		tag, source string
		id          uint64
	}
	want := map[guid.Guid]record{}
	var doc, body strings.Builder
	doc.WriteString(`<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice>`)
	tables := ""
	if shape == 1 {
		doc.WriteString(def("Devices", "SignalID"))
		body.WriteString("<Devices><PointTag>other</PointTag><SignalID>" + ids[0].String() + "</SignalID><ID>Z:9</ID></Devices>")
		tables = "Devices,"
	}
	if shape != 4 {
		doc.WriteString(def(table, column))
	}
	doc.WriteString(`</xs:choice></xs:complexType></xs:element></xs:schema>`)
	if shape == 4 {
		table = ""
	}
	for i, k := range rows {
		if shape == 4 {
			break
		}
		tag, key := fmt.Sprintf("tag%d", i), uint64(10+i)
		body.WriteString("<" + table + ">")
		if k != 3 {
			fmt.Fprintf(&body, "<PointTag>%s</PointTag><ID>S%d:%d</ID>", tag, i, key)
		}
		if k != 2 {
			id := ids[k%3]
			body.WriteString("<" + column + ">" + id.String() + "</" + column + ">")
			if shape < 2 {
				r := record{tag, fmt.Sprintf("S%d", i), key}
				if k == 3 {
					// no details, no key: the key known is kept
					r = record{"", want[id].source, want[id].id}
				}
				want[id] = r
			}
		}
		body.WriteString("</" + table + ">")
	}
	doc.WriteString(body.String() + "</DataSet>")
	w.auto.Metadata = []byte(doc.String())
	w.cfg.AutoRequestMetadata = true
	w.cfg.AutoSubscribe = auto
	w.connectQuiet()
	vrt.Idle()
	if g := w.texts("metadata"); len(g) != 1 || g[0] != tables+table {
		c.Fail("received", "the application got metadata with tables %q, sent %q", g, tables+table)
	}
	if w.sb.IsSubscribed() != auto {
		c.Fail("subscribed", "automatic subscription %v, subscribed %v", auto, w.sb.IsSubscribed())
	}
	if bad := shape >= 2; (w.n("error") > 0) != bad {
		c.Fail("report", "metadata without the signal list %v, error messages %q", bad, w.texts("error"))
	}
	for _, id := range ids {
		r := w.sb.LookupMetadata(id)
		if got := (record{r.Tag, r.Source, r.ID}); got != want[id] || r.Multiplier != 1 || r.SignalID != id {
			c.Fail("fields", "record of %v is %+v, should be %+v", id, *r, want[id])
		}
	}
	c.State(shape, rows, auto)
	c.Outcome(fmt.Sprint(len(want)))
	w.closeAll()
}

// ---- P19 ----

// p19Run: packets arrive while consumers read.
func p19Run(c *mc.C, consumers int, sizes []int, end int, cancel int) {
	w := newWorld(c)
	vrt.PauseChoices()
	p := w.connectQuiet()
	w.subscribe()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.Idle()
	rd := w.sb.ReadMeasurements()
	vrt.ResumeChoices()
	total := 0
	for _, n := range sizes {
		total += n
	}
	var got [][]float64
	var all []float64
	var kept []*transport.Measurement
	ts := make([]*task, consumers)
	// every consumer reads until it is told that reading has completed
	ctx, stop := vctx.WithCancel(vctx.Background())
	completed := 0
	for i := 0; i < consumers; i++ {
		got = append(got, nil)
		ts[i] = spawn(fmt.Sprintf("consumer%d", i), func() {
			for {
				cx := ctx
				if cancel == 1 && i == 0 {
					// a context of its own that ends soon
					var f func()
					cx, f = vctx.WithTimeout(ctx, time.Duration(1)*time.Millisecond)
					defer f()
				}
				m, over := rd.NextMeasurement(cx)
				if over {
					if m != nil {
						c.Fail("completed", "a measurement came with the completed flag")
					}
					completed++
					if cancel == 1 && i == 0 && ctx.Err() == nil && len(all) < total {
						continue
					}
					return
				}
				if m == nil {
					c.Fail("nil", "no measurement without the completed flag")
				}
				got[i] = append(got[i], m.Value)
				all = append(all, m.Value)
				kept = append(kept, m)
				if m.SignalID != cacheA(0, 0)[0].Sig || int64(m.Timestamp) != baseT+int64(m.Value) {
					c.Fail("content", "returned %s", measText([]transport.Measurement{*m}))
				}
			}
		})
	}
	k := 0
	for _, n := range sizes {
		var ms []cm
		for i := 0; i < n; i++ {
			k++
			ms = append(ms, full(0, float32(k), baseT+int64(k)))
		}
		p.send(compactResp(0, ms...))
		vrt.Point("sent", nil)
	}
	check := func(complete bool) {
		seen := map[float64]int{}
		for i := range got {
			for j := 1; j < len(got[i]); j++ {
				if got[i][j] <= got[i][j-1] {
					c.Fail("order", "consumer %d got %v", i, got[i])
				}
			}
			for _, v := range got[i] {
				seen[v]++
				if seen[v] > 1 {
					c.Fail("twice", "value %v was returned twice: %v", v, got)
				}
			}
		}
		if complete && len(seen) != total {
			c.Fail("lost", "%d of %d measurements returned: %v; live threads %v", len(seen), total, got, vrt.LiveThreads())
		}
		// without an end, what was returned is a prefix
		for v := 1; v <= len(seen); v++ {
			if consumers == 1 && seen[float64(v)] != 1 {
				c.Fail("gap", "returned %v", got)
			}
		}
	}
	switch end {
	case 0: // everything is read, then the context ends
		if cancel == 1 {
			w.sleep(time.Second)
		} else {
			vrt.Idle()
		}
		check(true)
		stop()
	case 1: // the context ends at any moment; the rest is read with another one
		stop()
		vrt.Idle()
		for i := range ts {
			if !ts[i].done {
				c.Fail("stuck", "consumer %d did not return after its context ended", i)
			}
		}
		vrt.PauseChoices()
		for len(all) < total {
			cx, f := vctx.WithTimeout(vctx.Background(), time.Second)
			m, over := rd.NextMeasurement(cx)
			f()
			if over {
				c.Fail("lost", "%d of %d measurements returned: %v", len(all), total, all)
			}
			got[0] = append(got[0], m.Value)
			all = append(all, m.Value)
		}
		for i := 1; i < len(all) && consumers == 1; i++ {
			if all[i] != all[i-1]+1 {
				c.Fail("order", "returned %v", all)
			}
		}
		check(true)
		vrt.ResumeChoices()
	case 2: // the reader is closed at any moment
		rd.Close()
		vrt.Idle()
		check(false)
	case 3: // the subscriber is disconnected at any moment
		w.sb.Disconnect()
		vrt.Idle()
		check(false)
		stop()
	case 4: // the subscriber is closed at any moment
		w.sb.Close()
		vrt.Idle()
		check(false)
		stop()
	case 5: // the publisher drops
		p.p.Close()
		vrt.Idle()
		check(true)
		stop()
	case 6: // closed twice, by two threads
		t := spawn("closer", func() { rd.Close() })
		rd.Close()
		t.wait()
		vrt.Idle()
		check(false)
	}
	for i, t := range ts {
		vrt.Idle()
		if !t.done {
			c.Fail("stuck", "consumer %d did not return; live threads %v", i, vrt.LiveThreads())
		}
	}
	vrt.PauseChoices()
	// what was handed out stays as it was
	for i, m := range kept {
		for j, v := range all {
			if j == i && (m.Value != v || int64(m.Timestamp) != baseT+int64(v)) {
				c.Fail("changed", "measurement returned with value %v now reads %s", v, measText([]transport.Measurement{*m}))
			}
		}
	}
	// a reader that is closed or abandoned does not get in the way
	if end == 2 || end == 6 {
		p.send(compactResp(0, full(0, 1, baseT)))
		vrt.Idle()
		n := p.count(cmdConfirmNotify)
		p.send(resp(respNotify, 0, cat(be32(1), []byte("n"))))
		vrt.Idle()
		if p.count(cmdConfirmNotify) != n+1 {
			c.Fail("wedged", "data is not processed after the reader was closed")
		}
	}
	c.State(consumers, sizes, end, cancel, fmt.Sprint(got))
	c.Outcome(fmt.Sprint(len(all), completed))
	w.closeAll()
}

var p19Ends = []string{"read to the end", "context cancelled", "reader closed", "disconnected", "subscriber closed", "publisher dropped", "reader closed twice"}

func p19Consumers(consumers int, packs [][]int) func(c *mc.C) {
	return func(c *mc.C) {
		sizes := packs[c.Choose(len(packs))]
		end := c.Choose(7)
		cancel := 0
		if end == 0 {
			cancel = c.Choose(2)
		}
		c.Case("%d consumers, packets of %v, %s, short contexts %v", consumers, sizes, p19Ends[end], cancel == 1)
		p19Run(c, consumers, sizes, end, cancel)
	}
}

// p19Unread: nobody reads while the reader, the subscriber or the connection is
// closed.
func p19Unread(c *mc.C) {
	w := newWorld(c)
	end := c.Choose(6)
	c.Case("unread measurements, end %d", end)
	p := w.connectQuiet()
	rd := w.sb.ReadMeasurements()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), compactResp(0, full(0, 1, baseT), full(0, 2, baseT+1)))
	if end < 5 {
		vrt.Point("sent", nil)
	} else {
		vrt.Idle()
	}
	switch end {
	case 0, 5:
		w.sb.Disconnect()
		vrt.Idle()
	case 1:
		w.sb.Close()
	case 2:
		rd.Close()
	case 3:
		rd.Close()
		ctx, f := vctx.WithTimeout(vctx.Background(), time.Second)
		if m, over := rd.NextMeasurement(ctx); !over || m != nil {
			c.Fail("completed", "a closed reader returned %v", m)
		}
		f()
	case 4:
		// a context that has already ended
		ctx, f := vctx.WithCancel(vctx.Background())
		f()
		rd.NextMeasurement(ctx)
		rd.Close()
	}
	vrt.Idle()
	c.State(end)
	vrt.PauseChoices()
	w.closeAll()
}

// p19Replaced: a second reader takes over.
func p19Replaced(c *mc.C) {
	w := newWorld(c)
	closeFirst := c.Choose(2) == 1
	c.Case("second reader, first one closed %v", closeFirst)
	p := w.connectQuiet()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.NoChoice(vrt.Idle)
	a := w.sb.ReadMeasurements()
	p.send(compactResp(0, full(0, 1, baseT+1)))
	m, over := a.NextMeasurement(nil)
	if over || m.Value != 1 {
		c.Fail("first", "first reader returned %v %v", m, over)
	}
	vrt.Idle()
	if closeFirst {
		a.Close()
	}
	b := w.sb.ReadMeasurements()
	p.send(compactResp(0, full(0, 2, baseT+2), full(0, 3, baseT+3)))
	for _, v := range []float64{2, 3} {
		m, over := b.NextMeasurement(nil)
		if over || m.Value != v {
			c.Fail("second", "second reader returned %v %v", m, over)
		}
	}
	c.State(closeFirst)
	vrt.PauseChoices()
	w.closeAll()
}

// ---- P20 ----

// assign sets one callback to count into a slot; none removes it.
func (w *world) assign(kind string, none bool, f func()) {
	sb := w.sb
	switch kind {
	case "status":
		if none {
			sb.SetStatusMessageLogger(nil)
		} else {
			sb.SetStatusMessageLogger(func(m string) {
				if strings.Contains(m, "provoked") {
					f()
				}
			})
		}
	case "error":
		if none {
			sb.SetErrorMessageLogger(nil)
		} else {
			sb.SetErrorMessageLogger(func(m string) {
				if strings.Contains(m, "provoked") {
					f()
				}
			})
		}
	case "metadata":
		if none {
			sb.SetMetadataReceiver(nil)
		} else {
			sb.SetMetadataReceiver(func(*data.DataSet) { f() })
		}
	case "updated":
		if none {
			sb.SetSubscriptionUpdatedReceiver(nil)
		} else {
			sb.SetSubscriptionUpdatedReceiver(func(*transport.SignalIndexCache) { f() })
		}
	case "start":
		if none {
			sb.SetDataStartTimeReceiver(nil)
		} else {
			sb.SetDataStartTimeReceiver(func(time.Time) { f() })
		}
	case "config":
		if none {
			sb.SetConfigurationChangedReceiver(nil)
		} else {
			sb.SetConfigurationChangedReceiver(f)
		}
	case "data":
		if none {
			sb.SetNewMeasurementsReceiver(nil)
		} else {
			sb.SetNewMeasurementsReceiver(func(*[]transport.Measurement) { f() })
		}
	case "blocks":
		if none {
			sb.SetNewBufferBlocksReceiver(nil)
		} else {
			sb.SetNewBufferBlocksReceiver(func([]transport.BufferBlock) { f() })
		}
	case "notify":
		if none {
			sb.SetNotificationReceiver(nil)
		} else {
			sb.SetNotificationReceiver(func(string) { f() })
		}
	case "complete":
		if none {
			sb.SetHistoricalReadCompleteReceiver(nil)
		} else {
			sb.SetHistoricalReadCompleteReceiver(f)
		}
	case "established":
		if none {
			sb.SetConnectionEstablishedReceiver(nil)
		} else {
			sb.SetConnectionEstablishedReceiver(f)
		}
	case "terminated":
		if none {
			sb.SetConnectionTerminatedReceiver(nil)
		} else {
			sb.SetConnectionTerminatedReceiver(f)
		}
	}
}

// fire provokes an event and lets the connection survive it.
func (w *world) fire(kind string, seq int) {
	switch kind {
	case "established":
		if w.sb.IsConnected() {
			w.sb.Disconnect()
			vrt.Idle()
		}
		w.connect()
	case "terminated":
		w.last().p.Close()
	case "blocks":
		w.last().send(blockResp(2, uint32(seq), 0, 0, []byte{1}))
	case "data":
		w.last().send(compactResp(0, full(0, 1, baseT)))
	default:
		w.provoke(kind)
	}
}

// p20Assign: before, during and after an event the callback is replaced.
func p20Assign(c *mc.C) {
	w := newWorld(c)
	w.sb = sttp.NewSubscriber()
	w.sb.SetStatusMessageLogger(nil)
	w.sb.SetErrorMessageLogger(nil)
	w.sb.SetConnectionEstablishedReceiver(nil)
	w.sb.SetConnectionTerminatedReceiver(nil)
	kind := callbackKinds[c.Choose(len(callbackKinds))]
	before := c.Choose(2) == 1 // first assignment before connecting
	none := c.Choose(2) == 1   // the replacement is none
	inside := c.Choose(2) == 1 // replaced from inside the callback
	c.Case("%s callback, assigned before connecting %v, replaced by none %v, from inside %v", kind, before, none, inside)
	var count [3]int
	cbB := func() { count[1]++ }
	assigned, armed := false, false
	seq := 0
	cbA := func() {
		count[0]++
		if inside && !assigned && armed {
			w.assign(kind, none, cbB)
			assigned = true
		}
	}
	prep := func() {
		if kind == "blocks" || kind == "data" {
			w.last().send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
			vrt.Idle()
		}
	}
	vrt.PauseChoices()
	if before {
		w.assign(kind, false, cbA)
	}
	w.connect()
	prep()
	if !before {
		w.assign(kind, false, cbA)
	}
	first := count[0]
	// first event: old callback
	w.fire(kind, seq)
	seq++
	vrt.Idle()
	if count[0] != first+1 || count[1] != 0 {
		c.Fail("first", "first event: %d calls of the assigned callback", count[0]-first)
	}
	again := func() {
		if !w.sb.IsConnected() {
			w.connect()
			seq = 0
			prep()
		}
	}
	if kind == "terminated" {
		again()
	}
	vrt.ResumeChoices()
	// second event: at the same time as the assignment
	armed = true
	seq++
	s := seq - 1
	if kind == "blocks" {
		s = 1
	}
	base := count[0] + count[1]
	if inside {
		w.fire(kind, s)
		vrt.Idle()
		if !assigned {
			c.Fail("second", "second event was not delivered")
		}
	} else {
		t := spawn("assigner", func() { w.assign(kind, none, cbB); assigned = true })
		w.fire(kind, s)
		t.wait()
		vrt.Idle()
	}
	n := count[0] + count[1] - base
	if n != 1 && !(none && n == 0) {
		c.Fail("second", "event during the assignment was delivered %d times (old %d new %d)", n, count[0], count[1])
	}
	vrt.PauseChoices()
	if kind == "terminated" {
		again()
	}
	// third event: new callback only
	a, b := count[0], count[1]
	s = 2
	if kind == "terminated" {
		s = 0
	}
	w.fire(kind, s)
	vrt.Idle()
	wantB := 1
	if none {
		wantB = 0
	}
	if count[0] != a || count[1]-b != wantB {
		c.Fail("third", "event after the assignment: %d calls of the old and %d of the new callback", count[0]-a, count[1]-b)
	}
	c.State(kind, before, none, inside, count)
	c.Outcome(fmt.Sprint(count))
	w.closeAll()
}

// p20Flood: several threads assign while all kinds of events arrive.
func p20Flood(c *mc.C) {
	w := newWorld(c)
	p := w.connectQuiet()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.NoChoice(vrt.Idle)
	a, b := callbackKinds[c.Choose(len(callbackKinds))], callbackKinds[c.Choose(len(callbackKinds))]
	ev := []string{"status", "data", "blocks", "notify", "config", "start"}[c.Choose(6)]
	c.Case("assigning %s and %s at the same time while a %s event arrives", a, b, ev)
	old := w.n(ev)
	cnt := 0
	count := func(kind string) func() {
		return func() {
			if kind == ev {
				cnt++
			}
		}
	}
	t := spawn("assigner1", func() { w.assign(a, false, count(a)) })
	u := spawn("assigner2", func() { w.assign(b, false, count(b)) })
	w.fire(ev, 0)
	t.wait()
	u.wait()
	vrt.Idle()
	extra := w.n(ev) - old
	if ev == "status" {
		extra = 0
		for _, x := range w.texts("status") {
			if strings.Contains(x, "provoked") {
				extra++
			}
		}
	}
	if extra+cnt != 1 {
		c.Fail("count", "a %s event was delivered %d times", ev, extra+cnt)
	}
	c.State(a, b, ev)
	c.Outcome(fmt.Sprint(extra, cnt))
	vrt.PauseChoices()
	w.closeAll()
}

func init() {
	register(mc.Check{
		ID:          "P16",
		Rule:        "every pair or triple of lookups, cache installation and metadata loading on every schedule up to the deviation bound, switching at any statement; every column subset, key form and order",
		Assumptions: []string{"sequentially consistent memory"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "lookups", Body: p16Lookups(3, 2, true), Bound: 3 + d},
				{Name: "cache", Body: p16Lookups(2, 3, true), Bound: 2},
				{Name: "metadata", Body: p16Lookups(2, 4, true), Bound: 1},
				{Name: "triples", Body: p16Lookups(3, 4, false), Bound: 2 + d},
				{Name: "sizes", Body: p16Sizes, MaxSteps: 20_000_000},
				{Name: "fields", Body: p16Fields},
				{Name: "tables", Body: p16Tables},
			}
		},
	})
	register(mc.Check{
		ID:          "P19",
		Rule:        "every schedule up to the deviation bound of packet arrival, one or two consumers and every way of ending",
		Assumptions: []string{"sequentially consistent memory between scheduling points", "select picks any ready case"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "sizes", Body: p19Sizes, MaxSteps: 20_000_000},
				{Name: "one-consumer", Body: p19Consumers(1, [][]int{{1}, {2}, {1, 1}, {2, 1}}), Bound: 3 + d},
				{Name: "two-consumers", Body: p19Consumers(2, [][]int{{2}, {1, 2}, {3}}), Bound: 2 + d},
				{Name: "unread", Body: p19Unread, Bound: 3 + d},
				{Name: "unread-statements", Body: p19Unread, Bound: 2 + d, Stmt: true},
				{Name: "one-consumer-statements", Body: p19Consumers(1, [][]int{{1}, {2}, {1, 2}}), Bound: 2 + d, Stmt: true},
				{Name: "replaced", Body: p19Replaced, Bound: 2 + d},
			}
		},
	})
	register(mc.Check{
		ID:          "P20",
		Rule:        "every callback kind, moment and manner of assignment on every schedule up to the deviation bound",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "assign", Body: p20Assign, Bound: 2 + d},
				{Name: "assign-statements", Body: p20Assign, Bound: 2 + d, Stmt: true},
				{Name: "flood", Body: p20Flood, Bound: 2 + d},
			}
		},
	})
}
