package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/ref"
	"verif.local/mc/shim/vrt"
)

// farSig is a signal ID for large sets; all are different.
func farSig(n int) guid.Guid {
	g := sig(n)
	binary.BigEndian.PutUint32(g[4:], uint32(n)+0x5000000)
	return g
}

func farCache(n, gen int) []entry {
	es := make([]entry, 0, n)
	for i := 0; i < n; i++ {
		// neighbouring indexes, then a gap
		es = append(es, entry{int32(i + i/100*1000), farSig(i + gen*1_000_000), fmt.Sprintf("S%d", i%7), uint64(i) + uint64(gen)<<40})
	}
	return es
}

// p03Sizes: packets of every size, back to back with small ones.
func p03Sizes(c *mc.C) {
	w := newWorld(c)
	sizes := mc.Sizes(65537)
	n := sizes[c.Choose(len(sizes))]
	zipped := c.Choose(2) == 1
	mode, back := 1, false
	if n <= 2049 {
		mode = c.Choose(3)
		back = c.Choose(2) == 1
	}
	w.recycle, w.hold = mode > 0, mode/2
	w.quiet = true
	c.Case("packets of %d measurements, compressed %v, slices %s, back to back %v", n, zipped, p03Modes[mode], back)
	p := w.connectQuiet()
	w.subscribe()
	es := farCache(n+2, 0)
	p.send(cacheResp(2, 0, sig(99), es, true, false))
	vrt.Idle()
	var want []transport.Measurement
	enc := ref.NewEncoder()
	tick := int64(baseT)
	seq := uint16(0)
	for k, m := range []int{n, 1, n, 0, 2, n + 1} {
		if zipped && m == 0 {
			continue
		}
		var ms []cm
		var rs []ref.Meas
		for i := 0; i < m; i++ {
			tick += int64(1 + i%3)
			j := (i + k) % len(es)
			v := float32(i*7+k) / 4
			ms = append(ms, full(es[j].Idx, v, tick))
			rs = append(rs, ref.Meas{ID: es[j].Idx, Time: tick, Value: f32(v)})
			want = append(want, transport.Measurement{SignalID: es[j].Sig, Value: float64(v), Timestamp: ticks.Ticks(tick)})
		}
		if zipped {
			p.send(resp(respData, cmdSubscribe, tsscData(0, seq, m, tsscEnc(enc, rs...))))
			seq++
		} else {
			p.send(compactResp(0, ms...))
		}
		if !back {
			vrt.Idle()
		}
	}
	vrt.Idle()
	w.expectMany("sizes", want)
	w.checkHeld()
	if g := w.sb.TotalMeasurementsReceived(); g != uint64(len(want)) {
		c.Fail("count", "%d measurements counted, %d sent", g, len(want))
	}
	c.State(n, zipped, mode, back)
	w.closeAll()
}

// expectMany is expectMeas with a short report.
func (w *world) expectMany(key string, want []transport.Measurement) {
	for i := range want {
		if i >= len(w.meas) {
			w.c.Fail(key, "%d measurements delivered, %d sent", len(w.meas), len(want))
			return
		}
		if !sameMeas(want[i], w.meas[i]) {
			w.c.Fail(key, "measurement %d of %d delivered as %s, sent %s", i, len(want), measText(w.meas[i:i+1]), measText(want[i:i+1]))
			return
		}
	}
	if len(w.meas) > len(want) {
		w.c.Fail(key, "%d measurements delivered, %d sent", len(w.meas), len(want))
	}
}

// p03Many: many small packets without a pause.
func p03Many(c *mc.C) {
	w := newWorld(c)
	sizes := mc.Sizes(1025)
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(3) // compact, compressed, alternating
	mode := c.Choose(3)
	w.recycle, w.hold = mode > 0, mode/2
	w.quiet = true
	c.Case("%d packets without a pause, kind %d, slices %s", n, kind, p03Modes[mode])
	p := w.connectQuiet()
	w.subscribe()
	es := cacheA(0, 0)
	p.send(cacheResp(2, 0, sig(99), es, true, false))
	vrt.Idle()
	var want []transport.Measurement
	enc := ref.NewEncoder()
	seq := uint16(0)
	for k := 0; k < n; k++ {
		t := int64(baseT) + int64(k)*333
		var ms []cm
		var rs []ref.Meas
		for i := 0; i <= k%3; i++ {
			e := es[(i+k)%3]
			v := float32(k*3+i) / 2
			ms = append(ms, full(e.Idx, v, t))
			rs = append(rs, ref.Meas{ID: e.Idx, Time: t, Value: f32(v)})
			want = append(want, transport.Measurement{SignalID: e.Sig, Value: float64(v), Timestamp: ticks.Ticks(t)})
		}
		if kind == 1 || kind == 2 && k%2 == 1 {
			p.send(resp(respData, cmdSubscribe, tsscData(0, seq, len(rs), tsscEnc(enc, rs...))))
			seq++
		} else {
			p.send(compactResp(0, ms...))
		}
	}
	vrt.Idle()
	w.expectMany("many", want)
	w.checkHeld()
	c.State(n, kind, mode)
	w.closeAll()
}

// p05Sizes: many blocks in several orders, blocks of every size.
func p05Sizes(c *mc.C) {
	w := newWorld(c)
	version := 1 + c.Choose(2)
	w.cfg.Version = byte(version)
	order := c.Choose(6)
	limit := 513
	if order == 5 {
		limit = 131073
	}
	sizes := mc.Sizes(limit)
	n := sizes[c.Choose(len(sizes))]
	names := []string{"in order", "backwards", "even numbers first", "first one last", "each one twice", "one block of this many bytes between two others"}
	c.Case("version %d: %d blocks, %s", version, n, names[order])
	es := cacheA(0, 0)
	p := w.connectQuiet()
	w.subscribe()
	p.send(cacheResp(version, 0, sig(99), es, w.cfg.CompressSignalIndexCache, false))
	vrt.Idle()
	var seqs []int
	switch order {
	case 0:
		for i := 0; i < n; i++ {
			seqs = append(seqs, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			seqs = append(seqs, i)
		}
	case 2:
		for i := 0; i < n; i += 2 {
			seqs = append(seqs, i)
		}
		for i := 1; i < n; i += 2 {
			seqs = append(seqs, i)
		}
	case 3:
		for i := 1; i < n; i++ {
			seqs = append(seqs, i)
		}
		if n > 0 {
			seqs = append(seqs, 0)
		}
	case 4:
		for i := 0; i < n; i++ {
			seqs = append(seqs, i)
			if i > 0 {
				seqs = append(seqs, i-1)
			}
		}
	case 5:
		seqs = []int{0, 1, 2}
	}
	load := func(i int) []byte {
		l := 1 + i%5
		if order == 5 && i == 1 {
			l = n
		}
		b := make([]byte, l)
		for k := range b {
			b[k] = byte(i*31 + k + k>>8*3)
		}
		return b
	}
	got := map[int]int{}
	for _, i := range seqs {
		p.send(blockResp(version, uint32(i), 0, es[i%3].Idx, load(i)))
		got[i]++
	}
	vrt.Idle()
	if len(w.blocks) != len(got) {
		c.Fail("blocks", "%d blocks delivered, %d sent", len(w.blocks), len(got))
	}
	for i, b := range w.blocks {
		if b.SignalID != es[i%3].Sig || string(b.Buffer) != string(load(i)) {
			c.Fail("blocks", "block %d was delivered with %d bytes for %v", i, len(b.Buffer), b.SignalID)
		}
	}
	acks := map[int]int{}
	for _, m := range p.cmds {
		if m.Code == cmdConfirmBlock && len(m.Payload) == 4 {
			acks[int(binary.BigEndian.Uint32(m.Payload))]++
		}
	}
	for i, k := range got {
		if acks[i] < 1 || acks[i] > k {
			c.Fail("ack", "block %d arrived %d times and was acknowledged %d times", i, k, acks[i])
		}
		delete(acks, i)
	}
	if len(acks) > 0 {
		c.Fail("ack", "acknowledgements %v of blocks that have not arrived", acks)
	}
	c.State(version, order, n)
	w.closeAll()
}

// p08Sizes: caches of every size and sources of every length.
func p08Sizes(c *mc.C) {
	w := newWorld(c)
	version := 1 + c.Choose(2)
	w.cfg.Version = byte(version)
	w.cfg.CompressSignalIndexCache = c.Choose(2) == 1
	long := c.Choose(2) == 1
	sizes := mc.Sizes(65537)
	n := sizes[c.Choose(len(sizes))]
	swap := !w.cfg.RfcGuidEncoding
	c.Case("version %d compressed %v long source %v size %d", version, w.cfg.CompressSignalIndexCache, long, n)
	var announced []*transport.SignalIndexCache
	w.sb.SetSubscriptionUpdatedReceiver(func(s *transport.SignalIndexCache) { announced = append(announced, s) })
	p := w.connectQuiet()
	w.subscribe()
	sets := [][]entry{farCache(3, 1), farCache(n, 0), farCache(2, 2)}
	if long {
		es := farCache(3, 0)
		es[1].Src = strings.Repeat("sö%d", n/5+1)[:n]
		sets[1] = es
	}
	for k, es := range sets {
		p.send(cacheResp(version, k%version, sig(90+k), es, w.cfg.CompressSignalIndexCache, swap))
		vrt.Idle()
		checkCache(c, "active cache", w.sb.ActiveSignalIndexCache(), es)
		if w.sb.SubscriberID() != sig(90+k) {
			c.Fail("subscriber", "subscriber ID %v, publisher sent %v", w.sb.SubscriberID(), sig(90+k))
		}
		if len(announced) != k+1 {
			c.Fail("announce", "%d updates announced, %d sent", len(announced), k+1)
		}
		for i, s := range announced {
			checkCache(c, fmt.Sprintf("announced cache %d", i), s, sets[i])
		}
	}
	// the records carry what the cache said
	for i, e := range sets[1] {
		r := w.sb.LookupMetadata(e.Sig)
		if r.Source != e.Src || r.ID != e.ID {
			c.Fail("record", "record %d has source of %d bytes and ID %d, publisher sent %d bytes and %d", i, len(r.Source), r.ID, len(e.Src), e.ID)
		}
	}
	c.State(version, w.cfg.CompressSignalIndexCache, long, n)
	w.closeAll()
}

// p16Sizes: metadata of every number of rows, then again with changed rows.
func p16Sizes(c *mc.C) {
	w := newWorld(c)
	w.cfg.CompressMetadata = c.Choose(2) == 1
	sizes := mc.Sizes(1025)
	n := sizes[c.Choose(len(sizes))]
	c.Case("compressed %v, metadata of %d rows", w.cfg.CompressMetadata, n)
	def := `<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence><xs:element name="PointTag" type="xs:string" minOccurs="0"/><xs:element name="SignalID" type="xs:string" ext:DataType="System.Guid" minOccurs="0"/><xs:element name="ID" type="xs:string" minOccurs="0"/><xs:element name="Description" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema>`
	p := w.connectQuiet()
	tags := map[int]string{}
	for round := 0; round < 2; round++ {
		var doc strings.Builder
		doc.WriteString(def)
		for i := round; i < n; i += 1 + round {
			tags[i] = fmt.Sprintf("tag%d-%d", round, i)
			fmt.Fprintf(&doc, "<MeasurementDetail><PointTag>%s</PointTag><SignalID>%s</SignalID><ID>S%d:%d</ID><Description>%s</Description></MeasurementDetail>", tags[i], farSig(i).String(), i%5, i, strings.Repeat("d", i%50))
		}
		doc.WriteString("</DataSet>")
		b := []byte(doc.String())
		if w.cfg.CompressMetadata {
			b = zip(b)
		}
		p.send(resp(respSucceeded, cmdMetadata, b))
		vrt.Idle()
		if w.n("metadata") != round+1 {
			c.Fail("received", "metadata %d was received %d times; errors %q", round+1, w.n("metadata"), w.texts("error"))
		}
		for i := 0; i < n; i++ {
			r := w.sb.LookupMetadata(farSig(i))
			if r.Tag != tags[i] || r.Source != fmt.Sprintf("S%d", i%5) || r.ID != uint64(i) || r.Description != strings.Repeat("d", i%50) {
				c.Fail("fields", "record %d is %+v, tag sent %q", i, *r, tags[i])
			}
		}
	}
	c.State(w.cfg.CompressMetadata, n)
	w.closeAll()
}

// p19Sizes: a reader gets everything, in order, however much it is.
func p19Sizes(c *mc.C) {
	w := newWorld(c)
	many := c.Choose(2) == 1
	late := c.Choose(2) == 1
	sizes := mc.Sizes(1025)
	n := sizes[c.Choose(len(sizes))]
	c.Case("many packets %v, read after everything was sent %v, %d", many, late, n)
	w.quiet = true
	p := w.connectQuiet()
	w.subscribe()
	es := farCache(5, 0)
	p.send(cacheResp(2, 0, sig(99), es, true, false))
	vrt.Idle()
	rd := w.sb.ReadMeasurements()
	var want, got []transport.Measurement
	var packs [][]byte
	tick := int64(baseT)
	make1 := func(m int) {
		var ms []cm
		for i := 0; i < m; i++ {
			tick++
			e := es[int(tick)%5]
			ms = append(ms, full(e.Idx, float32(tick%5000), tick))
			want = append(want, transport.Measurement{SignalID: e.Sig, Value: float64(float32(tick % 5000)), Timestamp: ticks.Ticks(tick)})
		}
		packs = append(packs, compactResp(0, ms...))
	}
	if many {
		for i := 0; i < n; i++ {
			make1(1 + i%2)
		}
	} else {
		make1(n)
		make1(1)
		make1(n)
	}
	if late {
		p.send(packs...)
		vrt.Idle()
	}
	t := spawn("consumer", func() {
		for len(got) < len(want) {
			m, over := rd.NextMeasurement(nil)
			if over {
				return
			}
			got = append(got, *m)
		}
	})
	if !late {
		p.send(packs...)
	}
	vrt.Idle()
	if !t.done {
		c.Fail("stuck", "%d of %d measurements were read", len(got), len(want))
	}
	w.meas = got
	w.expectMany("order", want)
	c.State(many, late, n)
	rd.Close()
	w.closeAll()
}

// p21Lengths: texts and metadata of every length.
func p21Lengths(c *mc.C) {
	w := newWorld(c)
	w.cfg.CompressMetadata = false
	sizes := mc.Sizes(131073)
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(5)
	names := []string{"success", "failure", "notification", "read complete", "table name"}
	c.Case("%s text of %d bytes", names[kind], n)
	p := w.connectQuiet()
	w.subscribe()
	w.ev = nil
	text := "x" + strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz", n/36+1)[:n]
	acks := p.count(cmdConfirmNotify)
	var kinds []string
	switch kind {
	case 0:
		p.send(resp(respSucceeded, cmdInterval, []byte(text)))
		kinds = []string{"status"}
	case 1:
		p.send(resp(respFailed, cmdInterval, []byte(text)))
		kinds = []string{"error"}
	case 2:
		p.send(resp(respNotify, 0, cat(be32(77), []byte(text))))
		kinds = []string{"notify"}
	case 3:
		p.send(resp(respComplete, cmdSubscribe, []byte(text)))
		kinds = []string{"status", "complete"}
	case 4:
		p.send(resp(respSucceeded, cmdMetadata, tableXML(text)))
		kinds = []string{"metadata"}
	}
	p.send(resp(respNotify, 0, cat(be32(78), []byte("after"))))
	vrt.Idle()
	found := 0
	for _, t := range w.texts(kinds[0]) {
		if strings.Contains(t, text) {
			found++
			if kind == 2 && t != text || kind == 4 && t != "MeasurementDetail,"+text {
				c.Fail("content", "delivered %d bytes", len(t))
			}
		}
	}
	if found != 1 {
		c.Fail("lost", "%s event delivered %d times", kinds[0], found)
	}
	if kind == 3 && w.n("complete") != 1 {
		c.Fail("lost", "completion delivered %d times", w.n("complete"))
	}
	wantN, wantE := 1, 0
	if kind == 2 {
		wantN = 2
	}
	if kind == 1 {
		wantE = 1
	}
	if w.n("notify") != wantN || w.n("error") != wantE || p.count(cmdConfirmNotify) != acks+wantN || !w.sb.IsConnected() {
		c.Fail("after", "%d notifications (%d confirmed), %d errors, connected %v", w.n("notify"), p.count(cmdConfirmNotify)-acks, w.n("error"), w.sb.IsConnected())
	}
	c.State(kind, n)
	w.closeAll()
}

// p22Sizes: datagrams of every size, plain and enciphered.
func p22Sizes(c *mc.C) {
	w := newWorld(c)
	sizes := mc.Sizes(1920)
	n := sizes[c.Choose(len(sizes))]
	keyed := c.Choose(2) == 1
	many := c.Choose(2) == 1
	w.recycle = c.Choose(2) == 1
	w.quiet = true
	c.Case("size %d, enciphered %v, many datagrams %v, slices returned %v", n, keyed, many, w.recycle)
	const port = 9600
	s := sttp.NewSettings()
	s.UdpPort = port
	p := w.connectQuiet()
	w.sb.Subscribe("x", s)
	vrt.Idle()
	es := farCache(40, 0)
	p.send(cacheResp(2, 0, sig(99), es, true, false))
	key := [2][]byte{[]byte("0123456789abcdef0123456789abcdef"), []byte("fedcba9876543210")}
	if keyed {
		p.send(keysResp(key, key))
	}
	vrt.Idle()
	var want []transport.Measurement
	tick := int64(baseT)
	total := uint64(0)
	send := func(m int) {
		ms := make([]cm, 0, m)
		for i := 0; i < m; i++ {
			tick++
			e := es[int(tick)%len(es)]
			ms = append(ms, full(e.Idx, float32(tick%5000), tick))
			want = append(want, transport.Measurement{SignalID: e.Sig, Value: float64(float32(tick % 5000)), Timestamp: ticks.Ticks(tick)})
		}
		d := compactData(0, ms...)
		if keyed {
			d = cat(d[:1], encipher(key[0], key[1], d[1:]))
		}
		b := body(respData, cmdSubscribe, d)
		total += uint64(len(b))
		if !w.sim.SendUDP(port, b) {
			c.Fail("port", "the UDP port is not open while subscribed")
		}
		if !many {
			vrt.Idle()
		}
	}
	if many {
		for i := 0; i < n; i++ {
			send(i % 4)
		}
	} else {
		for _, m := range []int{n, 1, n} {
			send(m)
		}
	}
	vrt.Idle()
	w.expectMany("measurements", want)
	if w.sb.TotalDataChannelBytesReceived() != total {
		c.Fail("bytes", "data channel bytes %d, sent %d", w.sb.TotalDataChannelBytesReceived(), total)
	}
	c.State(n, keyed, many, w.recycle)
	w.closeAll()
}

// p10Long: long filters and parameters arrive whole.
func p10Long(c *mc.C) {
	w := newWorld(c)
	sizes := mc.Sizes(131073)
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(3) // ASCII, two-byte letters, quotes and braces
	c.Case("filter of %d bytes, kind %d", n, kind)
	unit := []string{"ABCDEFGH-", "aé", "'x' "}[kind]
	f := strings.Repeat(unit, n/len(unit)+1)[:n]
	if kind == 1 && n > 0 && f[n-1] == 0xC3 {
		f = f[:n-1]
	}
	f = "F" + f + "z"
	w.cfg.MetadataFilters = f
	w.cfg.AutoRequestMetadata = true
	p := w.connectQuiet()
	vrt.Idle()
	s := sttp.NewSettings()
	s.ConstraintParameters = "c" + f
	w.sb.Subscribe(f, s)
	vrt.Idle()
	seen := 0
	for _, m := range p.cmds {
		switch m.Code {
		case cmdSubscribe:
			p10CheckSubscribe(c, m, f, s)
			seen |= 1
		case cmdMetadata:
			if len(m.Payload) < 4 || int(binary.BigEndian.Uint32(m.Payload)) != len(m.Payload)-4 || string(m.Payload[4:]) != f {
				c.Fail("metadata", "metadata request with %d bytes, filter of %d bytes", len(m.Payload), len(f))
			}
			seen |= 2
		}
	}
	if seen != 3 {
		c.Fail("requests", "requests seen %d: %s", seen, p.codes())
	}
	c.State(n, kind)
	w.closeAll()
}

// p06Sizes: a response of every size between two others, in pieces of every
// boundary size.
func p06Sizes(c *mc.C) {
	w := newWorld(c)
	sizes := mc.Sizes(131073)
	n := sizes[c.Choose(len(sizes))]
	pieces := []int{0, 1, 4, 7, 64, 1460, 4096, 65535, 65536}
	piece := pieces[c.Choose(len(pieces))]
	if piece > 0 && n/piece > 5000 {
		piece = 64
	}
	c.Case("response of %d bytes in pieces of %d (0: whole)", n, piece)
	p := w.connectQuiet()
	w.subscribe()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.Idle()
	before := w.sb.TotalCommandChannelBytesReceived()
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*7 + i>>8)
	}
	stream := cat(compactResp(0, full(0, 1, baseT)), blockResp(2, 0, 0, 1, data), compactResp(0, full(1, 2, baseT+1)), resp(respNotify, 0, cat(be32(5), []byte("end"))))
	if piece == 0 {
		p.send(stream)
	} else {
		for i := 0; i < len(stream); i += piece {
			p.send(stream[i:min(i+piece, len(stream))])
			if n < 2000 {
				vrt.Idle()
			}
		}
	}
	vrt.Idle()
	es := cacheA(0, 0)
	w.expectMeas("data", []transport.Measurement{{SignalID: es[0].Sig, Value: 1, Timestamp: baseT}, {SignalID: es[1].Sig, Value: 2, Timestamp: baseT + 1}})
	if len(w.blocks) != 1 || string(w.blocks[0].Buffer) != string(data) {
		c.Fail("block", "%d blocks delivered", len(w.blocks))
	}
	if g := w.texts("notify"); len(g) != 1 || g[0] != "end" {
		c.Fail("notify", "notifications %q", g)
	}
	if g := w.sb.TotalCommandChannelBytesReceived() - before; g != uint64(len(stream)) {
		c.Fail("bytes", "%d bytes counted, %d sent", g, len(stream))
	}
	c.State(n, piece)
	w.closeAll()
}

// p09Sizes: payloads of every size and any number of commands from one sender.
func p09Sizes(c *mc.C) {
	many := c.Choose(2) == 1
	limit := 131073
	if many {
		limit = 301
	}
	all := mc.Sizes(limit)
	n := all[c.Choose(len(all))]
	slow := c.Choose(2) == 1
	c.Case("many commands %v, size %d, slow publisher %v", many, n, slow)
	sizes := []int{n, 1, n}
	if many {
		sizes = nil
		for i := 0; i < n; i++ {
			sizes = append(sizes, i%30)
		}
	}
	p09Run(c, [][]int{sizes}, len(sizes), slow, false)
}
