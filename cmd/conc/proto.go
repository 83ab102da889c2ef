package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/ref"
	"verif.local/mc/shim/vrt"
)

// ---- P06 ----

// p06Streams are response streams that together contain every response kind.
func p06Streams() [][][]byte {
	e := ref.NewEncoder()
	c0 := cacheA(0, 0)
	a := [][]byte{
		resp(respNoOP, 0, nil),
		cacheResp(2, 0, sig(99), c0, false, false),
		compactResp(0, full(0, 1, baseT), full(1, 2, baseT+1)),
		resp(respNotify, 0, cat(be32(0x11223344), []byte("n1"))),
		compactResp(0, full(2, 3, baseT+2)),
	}
	b := [][]byte{
		cacheResp(2, 1, sig(98), cacheA(1, 1)[:2], false, false),
		baseResp(1, baseT, baseT+600000000),
		resp(respData, cmdSubscribe, tsscData(1, 0, 2, tsscEnc(e, ref.Meas{ID: 7, Time: baseT, Value: f32(5)}, ref.Meas{ID: 8, Time: baseT, Value: f32(6)}))),
		blockResp(2, 0, 1, 8, []byte{1, 2, 3, 4, 5}),
		resp(respData, cmdSubscribe, tsscData(1, 1, 1, tsscEnc(e, ref.Meas{ID: 7, Time: baseT + 5, Value: f32(7)}))),
		blockResp(2, 1, 1, 7, nil),
	}
	d := [][]byte{
		resp(respSucceeded, cmdSubscribe, []byte("sub ok")),
		resp(respStartTime, cmdSubscribe, be64(baseT)),
		resp(respComplete, cmdSubscribe, []byte("done")),
		resp(respConfigChg, 0, nil),
		resp(respFailed, cmdRotateKeys, []byte("no keys")),
		resp(respSucceeded, cmdUnsubscribe, nil),
		resp(respSucceeded, cmdMetadata, []byte("<DataSet/>")),
		keysResp([2][]byte{make([]byte, 16), make([]byte, 16)}, [2][]byte{make([]byte, 16), make([]byte, 16)}),
		resp(respNoOP, cmdConnect, nil),
	}
	return [][][]byte{a, b, d}
}

// observation is what a run of a response stream looks like from outside.
func (w *world) observation(p *pub) (string, string) {
	var sync []string
	byKind := map[string][]string{}
	for _, e := range w.ev {
		switch e.Kind {
		case "data", "blocks", "start", "established", "terminated":
			sync = append(sync, e.Kind+" "+e.Text)
		default:
			byKind[e.Kind] = append(byKind[e.Kind], e.Text)
		}
	}
	var ks []string
	for k := range byKind {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "events: " + strings.Join(sync, "; ")
	for _, k := range ks {
		sort.Strings(byKind[k])
		s += fmt.Sprintf("\n%s: %q", k, byKind[k])
	}
	s += "\nmeasurements: " + measText(w.meas)
	for _, b := range w.blocks {
		s += fmt.Sprintf("\nblock %s %x", b.SignalID, b.Buffer)
	}
	s += fmt.Sprintf("\nstate: connected %v subscribed %v validated %v", w.sb.IsConnected(), w.sb.IsSubscribed(), w.sb.IsValidated())
	if p != nil {
		s += "\ncommands: " + p.codes()
		for _, m := range p.cmds {
			s += fmt.Sprintf(" %x", m.Payload)
		}
	}
	n := fmt.Sprintf("\nbytes %d/%d total %d", w.sb.TotalCommandChannelBytesReceived(), w.sb.TotalDataChannelBytesReceived(), w.sb.TotalMeasurementsReceived())
	return s, n
}

func p06World(c *mc.C) (*world, *pub) {
	w := newWorld(c)
	w.cfg.CompressMetadata = false
	w.cfg.CompressSignalIndexCache = false
	p := w.connectQuiet()
	w.subscribe()
	return w, p
}

// p06Reference runs the first n responses of a stream one by one.
func p06Reference(c *mc.C, st, n int, loss bool) (string, string) {
	w, p := p06World(c)
	for _, f := range p06Streams()[st][:n] {
		p.send(f)
		vrt.Idle()
	}
	if loss {
		p.p.Close()
		vrt.Idle()
	}
	a, b := w.observation(p)
	w.closeAll()
	return a, b
}

func p06Split(splits int) func(c *mc.C) {
	return func(c *mc.C) {
		st := c.Choose(3)
		stream := cat(p06Streams()[st]...)
		wantS, wantN := p06Reference(c, st, len(p06Streams()[st]), false)
		cuts := []int{}
		lo := 1
		for k := 0; k < splits; k++ {
			x := lo + c.Choose(len(stream)-lo)
			cuts = append(cuts, x)
			lo = x
			if lo >= len(stream)-1 {
				break
			}
		}
		together := c.Choose(2) == 1
		c.Case("stream %d split at %v, segments available at once %v", st, cuts, together)
		w, p := p06World(c)
		prev := 0
		for _, x := range append(cuts, len(stream)) {
			p.send(stream[prev:x])
			prev = x
			if !together {
				vrt.Idle()
			}
		}
		vrt.Idle()
		gotS, gotN := w.observation(p)
		if gotS != wantS || gotN != wantN {
			c.Fail("differs", "observed\n%s%s\nexpected\n%s%s", gotS, gotN, wantS, wantN)
		}
		c.State(st, cuts, together)
		w.closeAll()
	}
}

// p06Bytes delivers a stream in equal segments of every size.
func p06Bytes(c *mc.C) {
	st := c.Choose(3)
	stream := cat(p06Streams()[st]...)
	wantS, wantN := p06Reference(c, st, len(p06Streams()[st]), false)
	n := 1 + c.Choose(len(stream))
	idle := c.Choose(2) == 1
	c.Case("stream %d in segments of %d bytes", st, n)
	w, p := p06World(c)
	for i := 0; i < len(stream); i += n {
		p.send(stream[i:min(len(stream), i+n)])
		if idle {
			vrt.Idle()
		}
	}
	vrt.Idle()
	gotS, gotN := w.observation(p)
	if gotS != wantS || gotN != wantN {
		c.Fail("differs", "observed\n%s%s\nexpected\n%s%s", gotS, gotN, wantS, wantN)
	}
	c.State(st, n, idle)
	w.closeAll()
}

// p06Cut ends the stream at every byte.
func p06Cut(c *mc.C) {
	st := c.Choose(3)
	fs := p06Streams()[st]
	stream := cat(fs...)
	at := c.Choose(len(stream) + 1)
	how := c.Choose(3)
	n, sum := 0, 0
	for _, f := range fs {
		if sum+len(f) <= at {
			sum += len(f)
			n++
		} else {
			break
		}
	}
	wantS, _ := p06Reference(c, st, n, true)
	c.Case("stream %d cut at byte %d (%d complete responses), ending %d", st, at, n, how)
	w, p := p06World(c)
	switch how {
	case 0: // everything in one segment
		p.send(stream[:at])
	case 1: // complete responses first
		p.send(stream[:sum])
		vrt.Idle()
		p.send(stream[sum:at])
	case 2: // byte by byte
		for i := 0; i < at; i++ {
			p.send(stream[i : i+1])
		}
	}
	vrt.Idle()
	p.p.Close()
	vrt.Idle()
	gotS, _ := w.observation(p)
	if gotS != wantS {
		c.Fail("truncated", "observed\n%s\nexpected\n%s", gotS, wantS)
	}
	c.State(st, at, how)
	w.closeAll()
}

// ---- P08 ----

type cacheState struct {
	es  []entry
	sub guid.Guid
}

func checkCache(c *mc.C, what string, s *transport.SignalIndexCache, es []entry) {
	fail := func(f string, a ...any) { c.Fail("lookup", what+": "+f, a...) }
	if s == nil {
		fail("no cache")
		return
	}
	if int(s.Count()) != len(es) {
		fail("count %d, publisher sent %d records", s.Count(), len(es))
	}
	all := s.SignalIDs()
	for _, e := range es {
		g, src, id, ok := s.Record(e.Idx)
		if !ok || g != e.Sig || src != e.Src || id != e.ID {
			fail("record %d is %v %q %d %v, publisher sent %v %q %d", e.Idx, g, src, id, ok, e.Sig, e.Src, e.ID)
		}
		if !s.Contains(e.Idx) || s.SignalID(e.Idx) != e.Sig || s.Source(e.Idx) != e.Src || s.ID(e.Idx) != e.ID {
			fail("single lookups of %d are %v %v %q %d", e.Idx, s.Contains(e.Idx), s.SignalID(e.Idx), s.Source(e.Idx), s.ID(e.Idx))
		}
		if s.SignalIndex(e.Sig) != e.Idx {
			fail("reverse lookup of %v is %d, publisher sent %d", e.Sig, s.SignalIndex(e.Sig), e.Idx)
		}
		if !all.Contains(e.Sig) {
			fail("set of signal IDs lacks %v", e.Sig)
		}
	}
	if n := len(all); n != len(es) {
		fail("set of signal IDs has %d members", n)
	}
	for _, u := range []int32{-7, 12345, math.MaxInt32 - 1} {
		if g, _, _, ok := s.Record(u); ok || s.Contains(u) || !g.IsZero() || !s.SignalID(u).IsZero() || s.Source(u) != "" || s.ID(u) != math.MaxUint64 {
			fail("unknown index %d resolves to %v", u, g)
		}
	}
	if s.SignalIndex(sig(250)) != -1 {
		fail("unknown signal resolves to %d", s.SignalIndex(sig(250)))
	}
}

var p08Sets = [][]entry{
	{{0, sig(1), "PPA", 1}, {1, sig(2), "", 0}, {2, sig(3), "ΩSource", math.MaxUint64}},
	{{2, sig(1), "X", 9}, {1, sig(4), "PPA", 2}},
	{},
	{{math.MaxInt32, sig(5), "S", 5}, {math.MinInt32, sig(6), "S", 6}, {-1, sig(7), "S", 7}},
}

func p08History(depth int, subscribed bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		version := 1 + c.Choose(2)
		w.cfg.Version = byte(version)
		w.cfg.CompressSignalIndexCache = c.Choose(2) == 1
		w.cfg.RfcGuidEncoding = c.Choose(2) == 1
		cfg := fmt.Sprintf("version %d compressed %v rfc %v", version, w.cfg.CompressSignalIndexCache, w.cfg.RfcGuidEncoding)
		var announced []*transport.SignalIndexCache
		w.sb.SetSubscriptionUpdatedReceiver(func(s *transport.SignalIndexCache) { announced = append(announced, s) })
		p := w.connectQuiet()
		if subscribed {
			w.subscribe()
		} else {
			// caches may arrive ahead of the answer to the subscription
			w.auto.Subscribe = false
			w.subscribe()
			cfg += " subscription not answered yet"
		}
		var slots [2]*cacheState
		var active *cacheState
		var accepted []*cacheState
		var want []transport.Measurement
		hist := ""
		nslots := 1
		if version > 1 {
			nslots = 2
		}
		tick := int64(baseT)
		good := len(p08Sets)
		for k := 0; k < depth; k++ {
			c.Step(k)
			slot := c.Choose(nslots)
			a := c.Choose(good + 4)
			hist += fmt.Sprintf(" %d:%d", slot, a)
			c.CaseStr(cfg + " history" + hist)
			raw := func(b []byte) []byte {
				if w.cfg.CompressSignalIndexCache {
					b = zip(b)
				}
				if version > 1 {
					b = cat([]byte{byte(slot)}, b)
				}
				return resp(respCache, cmdSubscribe, b)
			}
			sub := sig(90 + k)
			switch {
			case a < good:
				cs := &cacheState{p08Sets[a], sub}
				p.send(cacheResp(version, slot, sub, cs.es, w.cfg.CompressSignalIndexCache, !w.cfg.RfcGuidEncoding))
				slots[slot], active = cs, cs
				accepted = append(accepted, cs)
			case a == good: // cut short
				b := cacheBody(sub, p08Sets[0], !w.cfg.RfcGuidEncoding)
				p.send(raw(b[:len(b)-9]))
			case a == good+1: // more records announced than sent
				b := cacheBody(sub, p08Sets[1], !w.cfg.RfcGuidEncoding)
				binary.BigEndian.PutUint32(b[20:], 3)
				p.send(raw(b))
			case a == good+2: // not decodable at all
				if w.cfg.CompressSignalIndexCache {
					p.send(resp(respCache, cmdSubscribe, cat([]byte{byte(slot)}, []byte("not gzip data"))))
				} else {
					p.send(raw([]byte{0, 0, 1}))
				}
			case a == good+3: // a data packet for the slot
				tick++
				ids := []int32{0, 1, 2}
				if cs := slots[slot]; cs != nil && len(cs.es) > 0 {
					ids = nil
					for _, e := range cs.es {
						ids = append(ids, e.Idx)
						want = append(want, transport.Measurement{SignalID: e.Sig, Value: 4.5, Timestamp: ticks.Ticks(tick)})
					}
				}
				var ms []cm
				for _, id := range ids {
					ms = append(ms, full(id, 4.5, tick))
				}
				p.send(compactResp(slot, ms...))
			}
			vrt.Idle()
			w.expectMeas("resolve", want)
			if active != nil {
				checkCache(c, "active cache", w.sb.ActiveSignalIndexCache(), active.es)
				if w.sb.SubscriberID() != active.sub {
					c.Fail("subscriber", "subscriber ID %v, publisher sent %v", w.sb.SubscriberID(), active.sub)
				}
			} else if w.sb.ActiveSignalIndexCache().Count() != 0 {
				c.Fail("rejected", "records of a rejected update are visible")
			}
			if len(announced) != len(accepted) {
				c.Fail("announce", "%d updates accepted, %d announced", len(accepted), len(announced))
			}
			for i, s := range announced {
				if i >= len(announced)-4 || k == depth-1 {
					checkCache(c, fmt.Sprintf("announced cache %d", i), s, accepted[i].es)
				}
			}
			conf := 0
			if version > 1 {
				conf = len(accepted)
			}
			if p.count(cmdConfirmCache) != conf {
				c.Fail("confirm", "%d updates accepted, %d confirmed", len(accepted), p.count(cmdConfirmCache))
			}
			if !w.sb.IsConnected() {
				c.Fail("connection", "the connection was dropped")
			}
		}
		c.State(cfg, hist)
		c.Outcome(fmt.Sprint(len(accepted)))
		w.closeAll()
	}
}

// p08Cut replaces a good cache by an update cut at every byte or with a
// changed length or count field.
func p08Cut(c *mc.C) {
	w := newWorld(c)
	version := 1 + c.Choose(2)
	w.cfg.Version = byte(version)
	w.cfg.CompressSignalIndexCache = c.Choose(2) == 1
	b := cacheBody(sig(91), p08Sets[0], false)
	n := len(b)
	cut := c.Choose(n + 12)
	label := fmt.Sprintf("version %d compressed %v", version, w.cfg.CompressSignalIndexCache)
	if cut < n {
		b = b[:cut]
		label += fmt.Sprintf(" cut at %d of %d", cut, n)
	} else {
		v := []uint32{0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, uint32(n + 1)}[(cut-n)%4]
		off := []int{0, 20, 44}[(cut-n)/4]
		b = append([]byte(nil), b...)
		binary.BigEndian.PutUint32(b[off:], v)
		label += fmt.Sprintf(" field at %d set to %x", off, v)
	}
	c.CaseStr(label)
	p := w.connectQuiet()
	w.subscribe()
	slot := 0
	p.send(cacheResp(version, slot, sig(90), p08Sets[1], w.cfg.CompressSignalIndexCache, false))
	vrt.Idle()
	if w.cfg.CompressSignalIndexCache {
		b = zip(b)
	}
	if version > 1 {
		b = cat([]byte{0}, b)
	}
	p.send(resp(respCache, cmdSubscribe, b))
	vrt.Idle()
	checkCache(c, "active cache after an undecodable update", w.sb.ActiveSignalIndexCache(), p08Sets[1])
	if w.sb.SubscriberID() != sig(90) {
		c.Fail("subscriber", "subscriber ID changed by a rejected update")
	}
	if w.n("updated") != 1 || version > 1 && p.count(cmdConfirmCache) != 1 {
		c.Fail("announce", "%d announcements and %d confirmations of one accepted update", w.n("updated"), p.count(cmdConfirmCache))
	}
	p.send(compactResp(0, full(2, 1, baseT)))
	vrt.Idle()
	w.expectMeas("resolve", []transport.Measurement{{SignalID: sig(1), Value: 1, Timestamp: baseT}})
	c.State(label)
	w.closeAll()
}

// ---- P10 ----

func parseParams(c *mc.C, s string) map[string]string {
	out := map[string]string{}
	i := 0
	for i < len(s) {
		eq := strings.IndexByte(s[i:], '=')
		if eq < 0 {
			c.Fail("connection-string", "no key=value at %q", s[i:])
		}
		key := s[i : i+eq]
		i += eq + 1
		var val string
		if i < len(s) && s[i] == '{' {
			depth, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '{' {
					depth++
				}
				if s[j] == '}' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				c.Fail("connection-string", "unbalanced braces in %q", s)
			}
			val = s[i+1 : j]
			i = j + 1
			if i < len(s) && s[i] != ';' {
				c.Fail("connection-string", "text %q after a braced value", s[i:])
			}
		} else {
			j := strings.IndexByte(s[i:], ';')
			if j < 0 {
				j = len(s) - i
			}
			val = s[i : i+j]
			i += j
		}
		if _, dup := out[strings.ToLower(key)]; dup {
			c.Fail("connection-string", "key %q appears twice", key)
		}
		out[strings.ToLower(key)] = val
		if i < len(s) {
			i++
		}
	}
	return out
}

func p10CheckModes(c *mc.C, w *world, p *pub, udp bool) {
	if len(p.cmds) == 0 || p.cmds[0].Code != cmdModes || len(p.cmds[0].Payload) != 4 {
		c.Fail("modes", "first command is not a well-formed operational modes command: %s", p.codes())
	}
	m := p.modes
	cfg := w.cfg
	want := uint32(cfg.Version) & 0x1F
	want |= 0x200 // UTF-8
	if cfg.Version < 10 {
		want |= 0x20
	}
	if cfg.CompressPayloadData && !udp {
		want |= 0x20000000
		if cfg.Version < 10 {
			want |= 0x40
		}
	}
	if cfg.CompressSignalIndexCache {
		want |= 0x40000000
	}
	if cfg.CompressMetadata {
		want |= 0x80000000
	}
	if m != want {
		c.Fail("modes", "operational modes %08x, configured %08x", m, want)
	}
}

func p10CheckSubscribe(c *mc.C, m cmdMsg, filter string, s *sttp.Settings) {
	if len(m.Payload) < 5 || m.Payload[0] != flagCompact || int(binary.BigEndian.Uint32(m.Payload[1:])) != len(m.Payload)-5 {
		c.Fail("subscribe", "malformed subscribe payload %q", m.Payload)
	}
	kv := parseParams(c, string(m.Payload[5:]))
	str := func(k, want string) {
		if got, ok := kv[strings.ToLower(k)]; !ok && want != "" || got != want {
			c.Fail("setting", "%s is %q (present %v), application chose %q; string %q", k, got, ok, want, m.Payload[5:])
		}
	}
	boolean := func(k string, want bool) {
		got, err := strconv.ParseBool(strings.ToLower(kv[strings.ToLower(k)]))
		if err != nil || got != want {
			c.Fail("setting", "%s is %q, application chose %v", k, kv[strings.ToLower(k)], want)
		}
	}
	num := func(k string, want float64) {
		got, err := strconv.ParseFloat(kv[strings.ToLower(k)], 64)
		if err != nil || math.Abs(got-want) > 5e-7 {
			c.Fail("setting", "%s is %q, application chose %v", k, kv[strings.ToLower(k)], want)
		}
	}
	boolean("throttled", s.Throttled)
	num("publishInterval", s.PublishInterval)
	boolean("includeTime", s.IncludeTime)
	boolean("enableTimeReasonabilityCheck", s.EnableTimeReasonabilityCheck)
	num("lagTime", s.LagTime)
	num("leadTime", s.LeadTime)
	boolean("useLocalClockAsRealTime", s.UseLocalClockAsRealTime)
	num("processingInterval", float64(s.ProcessingInterval))
	boolean("useMillisecondResolution", s.UseMillisecondResolution)
	boolean("requestNaNValueFilter", s.RequestNaNValueFilter)
	str("filterExpression", filter)
	if s.UdpPort > 0 {
		str("dataChannel", fmt.Sprintf("localport=%d", s.UdpPort))
	} else {
		str("dataChannel", "")
	}
	str("startTimeConstraint", s.StartTime)
	str("stopTimeConstraint", s.StopTime)
	str("timeConstraintParameters", s.ConstraintParameters)
	known := map[string]bool{}
	for _, k := range strings.Fields("throttled publishinterval includetime enabletimereasonabilitycheck lagtime leadtime uselocalclockasrealtime processinginterval usemillisecondresolution requestnanvaluefilter filterexpression datachannel starttimeconstraint stoptimeconstraint timeconstraintparameters assemblyinfo") {
		known[k] = true
	}
	rest := map[string]string{}
	for k, v := range kv {
		if !known[k] {
			rest[k] = v
		}
	}
	extra := map[string]string{}
	if s.ExtraConnectionStringParameters != "" {
		extra = parseParams(c, s.ExtraConnectionStringParameters)
	}
	if fmt.Sprint(rest) != fmt.Sprint(extra) {
		c.Fail("setting", "extra parameters %v, application chose %v", rest, extra)
	}
}

// p10Modes checks every connection configuration.
func p10Modes(c *mc.C) {
	w := newWorld(c)
	w.cfg.CompressPayloadData = c.Choose(2) == 1
	w.cfg.CompressMetadata = c.Choose(2) == 1
	w.cfg.CompressSignalIndexCache = c.Choose(2) == 1
	w.cfg.RfcGuidEncoding = c.Choose(2) == 1
	w.cfg.Version = byte([]int{1, 2, 3, 9, 10, 31}[c.Choose(6)])
	listen := c.Choose(2) == 1
	udp := c.Choose(2) == 1
	second := c.Choose(2) == 1
	filters := []string{"", "FILTER MeasurementDetail WHERE True", "FILTER A WHERE X='é;{}'; FILTER B WHERE True"}[c.Choose(3)]
	w.cfg.MetadataFilters = filters
	w.cfg.AutoRequestMetadata = true
	w.cfg.AutoSubscribe = false
	c.Case("payload %v metadata %v cache %v version %d listen %v udp %v second connection %v filters %q", w.cfg.CompressPayloadData, w.cfg.CompressMetadata, w.cfg.CompressSignalIndexCache, w.cfg.Version, listen, udp, second, filters)
	s := sttp.NewSettings()
	if udp {
		s.UdpPort = 9600
	}
	w.sb.Subscribe("x", s)
	conns := 1
	if second {
		conns = 2
	}
	if listen {
		if err := w.sb.Listen(":7165", w.cfg); err != nil {
			c.Fail("listen", "listening failed: %v", err)
		}
		vrt.Idle()
	}
	for i := 0; i < conns; i++ {
		if i > 0 {
			w.last().p.Close()
			vrt.Idle()
		}
		if listen {
			w.sim.Connect(7165)
			vrt.Idle()
		} else if i == 0 {
			w.connect()
		} else {
			// the configuration may be changed between connections
			w.cfg.CompressMetadata = !w.cfg.CompressMetadata
			w.connect()
		}
		p := w.last()
		p10CheckModes(c, w, p, udp)
		if p.count(cmdModes) != 1 {
			c.Fail("modes", "%d operational modes commands on one connection", p.count(cmdModes))
		}
		if p.count(cmdMetadata) != 1 {
			c.Fail("metadata", "%d metadata requests", p.count(cmdMetadata))
		}
		for _, m := range p.cmds {
			if m.Code == cmdMetadata {
				want := []byte(nil)
				if filters != "" {
					want = cat(be32(uint32(len(filters))), []byte(filters))
				}
				if string(m.Payload) != string(want) {
					c.Fail("metadata", "metadata request payload %q, configured filters %q", m.Payload, filters)
				}
			}
		}
	}
	c.State(c.Choose(1), w.cfg.Version, listen, udp, second, filters, w.pubs[0].modes)
	c.Outcome(fmt.Sprintf("%08x", w.pubs[0].modes))
	w.closeAll()
}

// p10Settings checks every combination of the subscription settings on one
// connection after the other settings were in force.
func p10Settings(c *mc.C) {
	w := newWorld(c)
	bits := c.Choose(32)
	p := w.connectQuiet()
	n := 0
	try := func(filter string, s *sttp.Settings) {
		c.CaseStr(fmt.Sprintf("filter %q settings %+v", filter, *s))
		keep := *s
		before := len(p.cmds)
		w.sb.Subscribe(filter, s)
		vrt.Idle()
		var sub *cmdMsg
		for i := before; i < len(p.cmds); i++ {
			if p.cmds[i].Code == cmdSubscribe {
				if sub != nil {
					c.Fail("subscribe", "two subscribe commands for one request")
				}
				sub = &p.cmds[i]
			}
		}
		if sub == nil {
			c.Fail("subscribe", "no subscribe command was sent")
		}
		p10CheckSubscribe(c, *sub, filter, &keep)
		n++
	}
	mk := func(b int) *sttp.Settings {
		s := sttp.NewSettings()
		s.Throttled = b&1 > 0
		s.IncludeTime = b&2 > 0
		s.EnableTimeReasonabilityCheck = b&4 > 0
		s.UseLocalClockAsRealTime = b&8 > 0
		s.UseMillisecondResolution = b&16 > 0
		s.RequestNaNValueFilter = b&32 > 0
		if b&64 > 0 {
			s.UdpPort = 9600
		}
		return s
	}
	filters := []string{"", " FILTER ActiveMeasurements WHERE SignalType='FREQ' AND Tag LIKE '{a}%'; ü\t ", strings.Repeat("PPA:1;", 8000)}
	for b := bits; b < 128; b += 32 {
		s := mk(b)
		try(filters[0], s)
		try(filters[1], s)
		for _, iv := range []float64{0, 0.000001, 0.5, 33.333333, 86400} {
			t := *s
			t.PublishInterval, t.LagTime, t.LeadTime = iv, iv*2, iv*3
			try(filters[1], &t)
		}
		for _, pi := range []int32{-1, 0, 1, math.MaxInt32, math.MinInt32} {
			t := *s
			t.ProcessingInterval = pi
			try("x", &t)
		}
		for k := 0; k < 16; k++ {
			t := *s
			if k&1 > 0 {
				t.StartTime = "*-5M"
			}
			if k&2 > 0 {
				t.StopTime = "2022-01-01 00:00:00"
			}
			if k&4 > 0 {
				t.ConstraintParameters = "{a=1;b=2}"
			}
			if k&8 > 0 {
				t.ExtraConnectionStringParameters = "custom=1;other={x;y}"
			}
			if k&4 > 0 {
				// braces are part of the value the publisher strips
				t2 := t
				t2.ConstraintParameters = "p"
				try(filters[1], &t2)
				continue
			}
			try(filters[1], &t)
		}
		t := *s
		t.UdpPort = 65535
		try("x", &t)
	}
	if bits == 0 {
		try(filters[2], mk(2))
		w.sb.Subscribe("plain", nil)
		vrt.Idle()
		p10CheckSubscribe(c, p.cmds[len(p.cmds)-1], "plain", sttp.NewSettings())
	}
	c.Traces(n)
	c.State(bits)
	w.closeAll()
}

// p10Defaults leaves configuration and settings as created.
func p10Defaults(c *mc.C) {
	w := newWorld(c)
	other := c.Choose(2) == 1
	config := c.Choose(2) == 1
	settings := c.Choose(3)
	listen := c.Choose(2) == 1
	drops := c.Choose(3)
	c.Case("other objects changed %v, configuration given %v, settings %s, listening %v, %d drops", other, config, []string{"none", "nil", "given"}[settings], listen, drops)
	if other {
		// objects of another subscriber
		t := sttp.NewConfig()
		*t = sttp.Config{}
		s := sttp.NewSettings()
		*s = sttp.Settings{Throttled: true, UdpPort: 9, EnableTimeReasonabilityCheck: true, UseLocalClockAsRealTime: true, UseMillisecondResolution: true, RequestNaNValueFilter: true}
		o := sttp.NewSubscriber()
		o.SetStatusMessageLogger(func(string) {})
		o.SetErrorMessageLogger(func(string) {})
		o.Subscribe("other", s)
	}
	w.cfg = &sttp.Config{Version: 2, CompressPayloadData: true, CompressMetadata: true, CompressSignalIndexCache: true, RfcGuidEncoding: true}
	want := &sttp.Settings{PublishInterval: 1, IncludeTime: true, ProcessingInterval: -1, LagTime: 10, LeadTime: 5}
	w.auto.Metadata = []byte("<DataSet/>")
	var cfg *sttp.Config
	if config {
		cfg = sttp.NewConfig()
	}
	filter := ""
	if settings > 0 {
		filter = "mine"
		var s *sttp.Settings
		if settings == 2 {
			s = sttp.NewSettings()
		}
		w.sb.Subscribe(filter, s)
	}
	if listen {
		if err := w.sb.Listen(":7165", cfg); err != nil {
			c.Fail("listen", "listening failed: %v", err)
		}
	} else if err := w.sb.Dial(pubAddr, cfg); err != nil {
		c.Fail("connect", "connecting to an available publisher failed: %v", err)
	}
	vrt.Idle()
	for i := 0; i <= drops; i++ {
		if listen {
			w.sim.Connect(7165)
			vrt.Idle()
		}
		if len(w.pubs) != i+1 || !w.sb.IsConnected() {
			c.Fail("reconnect", "%d connections were made after %d drops", len(w.pubs), i)
		}
		p := w.last()
		p10CheckModes(c, w, p, false)
		if p.codes() != fmt.Sprintf("%x %x %x", cmdModes, cmdMetadata, cmdSubscribe) {
			c.Fail("workflow", "commands %s", p.codes())
		}
		if len(p.cmds[1].Payload) > 0 {
			c.Fail("metadata", "metadata request with payload %q, no filters are configured", p.cmds[1].Payload)
		}
		p10CheckSubscribe(c, p.cmds[2], filter, want)
		es := cacheA(0, 0)
		p.send(cacheResp(2, 0, sig(99), es, true, false), compactResp(0, full(0, 3, baseT)))
		vrt.Idle()
		if n := len(w.meas); n != i+1 || w.meas[i].SignalID != es[0].Sig || w.meas[i].Timestamp != ticks.Ticks(baseT) {
			c.Fail("data", "delivered %s", measText(w.meas))
		}
		if i == drops {
			break
		}
		// refuse for a long time: retries do not end and their pace is bounded
		n := len(w.sim.Dials)
		w.accept = func(k int) bool { return k >= n+40 }
		p.p.Close()
		vrt.Idle()
		if listen {
			continue
		}
		w.sleep(2000 * time.Second)
		for k := n + 1; k < len(w.sim.Dials); k++ {
			if d := w.sim.Dials[k].At - w.sim.Dials[k-1].At; d < time.Second || d > 30*time.Second {
				c.Fail("pace", "attempt %d made %v after the one before", k-n, d)
			}
		}
	}
	c.State(other, config, settings, listen, drops)
	w.closeAll()
}

// p10Deferred makes the settings before the connection exists.
func p10Deferred(c *mc.C) {
	w := newWorld(c)
	b := c.Choose(128)
	meta := c.Choose(2) == 1
	listen := c.Choose(2) == 1
	w.cfg.AutoSubscribe = true
	w.cfg.AutoRequestMetadata = meta
	w.auto.Metadata = []byte("<DataSet/>")
	s := sttp.NewSettings()
	s.Throttled = b&1 > 0
	s.IncludeTime = b&2 > 0
	s.EnableTimeReasonabilityCheck = b&4 > 0
	s.UseLocalClockAsRealTime = b&8 > 0
	s.UseMillisecondResolution = b&16 > 0
	s.RequestNaNValueFilter = b&32 > 0
	if b&64 > 0 {
		s.UdpPort = 9700
	}
	c.Case("settings %+v metadata %v listen %v", *s, meta, listen)
	w.sb.Subscribe("A;B", s)
	if listen {
		w.sb.Listen(":7165", w.cfg)
		vrt.Idle()
		w.sim.Connect(7165)
		vrt.Idle()
	} else {
		w.connect()
	}
	p := w.last()
	p10CheckModes(c, w, p, b&64 > 0)
	if p.count(cmdSubscribe) != 1 {
		c.Fail("subscribe", "%d subscribe commands: %s", p.count(cmdSubscribe), p.codes())
	}
	for _, m := range p.cmds {
		if m.Code == cmdSubscribe {
			p10CheckSubscribe(c, m, "A;B", s)
		}
	}
	c.State(b, meta, listen)
	w.closeAll()
}

// p10Configs differ from each other in every field.
func p10Config(n int, cfg *sttp.Config) {
	v := []struct {
		payload, meta, cache, rfc, request bool
		version                            byte
		filters                            string
	}{
		{false, false, false, false, false, 1, ""},
		{true, true, true, true, true, 2, "FILTER A WHERE True"},
		{true, false, false, true, true, 1, ""},
		{false, true, false, false, true, 10, "FILTER B WHERE True ORDER BY C"},
		{false, false, true, true, false, 2, "FILTER A WHERE True"},
	}[n]
	cfg.CompressPayloadData, cfg.CompressMetadata, cfg.CompressSignalIndexCache = v.payload, v.meta, v.cache
	cfg.RfcGuidEncoding, cfg.AutoRequestMetadata, cfg.Version, cfg.MetadataFilters = v.rfc, v.request, v.version, v.filters
	cfg.AutoSubscribe = true
}

func p10Setting(n int) (string, *sttp.Settings) {
	s := sttp.NewSettings()
	filter := "A;B"
	switch n {
	case 1:
		s.Throttled, s.PublishInterval, s.IncludeTime, s.UdpPort = true, 0.25, false, 9600
		filter = "FILTER ActiveMeasurements WHERE Tag = 'x;y'"
	case 2:
		s.StartTime, s.StopTime, s.ConstraintParameters, s.ProcessingInterval = "*-5M", "*", "p", 33
		s.EnableTimeReasonabilityCheck, s.LagTime, s.LeadTime = true, 1.5, 2.5
		filter = "C"
	case 3:
		s.UdpPort, s.UseMillisecondResolution, s.RequestNaNValueFilter, s.UseLocalClockAsRealTime = 9700, true, true, true
		s.ExtraConnectionStringParameters = "custom=1"
		filter = ""
	}
	return filter, s
}

// p10Successive changes the configuration and the settings between the
// connections of one subscriber: what is sent on each connection must be what
// is in force when it is made, not what was in force on an earlier one.
func p10Successive(n int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.auto.Metadata = []byte("<DataSet/>")
		how := c.Choose(7)
		inPlace := false
		hist := ""
		var want []transport.Measurement
		config, setting, udp := 0, 0, false
		for i := 0; i < n; i++ {
			listening, reuse := false, false
			switch how {
			case 0: // the publisher closes each connection, the application dials
			case 1: // the application disconnects and dials
			case 2: // alternating dial and listen
				listening = i%2 == 1
			case 3: // alternating listen and dial
				listening = i%2 == 0
			case 4: // publishers connecting one after the other
				listening, reuse = true, i > 0
			case 5: // automatic reconnection
				reuse = i > 0
				w.cfg.MaxRetries = -1
				w.cfg.AutoReconnect = true
			case 6: // the same configuration object is changed in place
				inPlace = true
			}
			if !reuse {
				config = c.Choose(5)
			}
			setting = c.Choose(4)
			hist += fmt.Sprintf(" configuration %d settings %d;", config, setting)
			c.CaseStr(fmt.Sprintf("manner %d:", how) + hist)
			if i > 0 {
				switch how {
				case 0, 4, 5, 6:
					w.last().p.Close()
				default:
					w.sb.Disconnect()
				}
				vrt.Idle()
			}
			filter, s := p10Setting(setting)
			udp = s.UdpPort > 0
			keep := *s
			w.sb.Subscribe(filter, s)
			before := len(w.pubs)
			if !reuse {
				if !inPlace {
					cp := *w.cfg
					w.cfg = &cp
				}
				p10Config(config, w.cfg)
			}
			switch {
			case listening:
				if !reuse {
					if err := w.sb.Listen(":7165", w.cfg); err != nil {
						c.Fail("listen", "listening failed: %v", err)
					}
					vrt.Idle()
				}
				w.sim.Connect(7165)
				vrt.Idle()
			case reuse:
				w.sleep(time.Minute)
			default:
				w.connect()
			}
			if len(w.pubs) != before+1 {
				c.Fail("connect", "%d connections were made, expected one", len(w.pubs)-before)
			}
			p := w.last()
			p10CheckModes(c, w, p, udp)
			wantCodes := "6"
			if w.cfg.AutoRequestMetadata {
				wantCodes += " 1"
			}
			wantCodes += " 2"
			if p.codes() != wantCodes {
				c.Fail("commands", "commands %s, expected %s", p.codes(), wantCodes)
			}
			for _, m := range p.cmds {
				switch m.Code {
				case cmdMetadata:
					f := []byte(nil)
					if w.cfg.MetadataFilters != "" {
						f = cat(be32(uint32(len(w.cfg.MetadataFilters))), []byte(w.cfg.MetadataFilters))
					}
					if string(m.Payload) != string(f) {
						c.Fail("metadata", "metadata request payload %q, configured filters %q", m.Payload, w.cfg.MetadataFilters)
					}
				case cmdSubscribe:
					p10CheckSubscribe(c, m, filter, &keep)
				}
			}
			// what the publisher sends in the announced form is understood
			e := entry{Idx: int32(5 + i), Sig: sig(20 + i), Src: "S", ID: uint64(i)}
			p.send(cacheResp(int(w.cfg.Version), 0, sig(90+i), []entry{e}, w.cfg.CompressSignalIndexCache, !w.cfg.RfcGuidEncoding))
			tm := cm{ID: e.Idx, Val: f32(float32(i)), Time: be64(uint64(baseT + int64(i)))}
			x := transport.Measurement{SignalID: e.Sig, Value: float64(i), Timestamp: ticks.Ticks(baseT + int64(i))}
			if !keep.IncludeTime {
				tm.Time, x.Timestamp = nil, 0
			}
			p.send(compactResp(0, tm))
			vrt.Idle()
			want = append(want, x)
			w.expectMeas("data", want)
			c.State(i, how, config, setting)
		}
		c.Outcome(fmt.Sprint(how))
		w.closeAll()
	}
}

func init() {
	register(mc.Check{
		ID:          "P06",
		Rule:        "every single and double split point, every segment size and every truncation point of three streams containing every response kind",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			s := []mc.Scenario{
				{Name: "sizes", Body: p06Sizes, MaxSteps: 20_000_000},
				{Name: "one-split", Body: p06Split(1)},
				{Name: "segments", Body: p06Bytes},
				{Name: "truncation", Body: p06Cut},
				{Name: "two-splits", Body: p06Split(2)},
			}
			return s
		},
	})
	register(mc.Check{
		ID:          "P08",
		Rule:        "every history of cache updates and data packets up to the depth bound in every configuration; every truncation point and boundary length field of an update; every schedule up to the deviation bound of arrivals on both channels",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 4
			if tier == "thorough" {
				d = 5
			}
			return []mc.Scenario{
				{Name: "sizes", Body: p08Sizes, MaxSteps: 20_000_000},
				{Name: "repeated", Body: p08History(30, true), Lasso: 2, MaxSteps: 5_000_000},
				{Name: "histories", Body: p08History(d, true), Share: 3},
				{Name: "early", Body: p08History(d-1, false)},
				{Name: "undecodable", Body: p08Cut},
				{Name: "beside", Body: p08Beside, Bound: d - 2},
			}
		},
	})
	register(mc.Check{
		ID:          "P10",
		Rule:        "every combination of connection configuration values and of boolean subscription settings with boundary values of the others",
		Assumptions: []string{"default thread schedule"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				{Name: "long", Body: p10Long, MaxSteps: 20_000_000},
				{Name: "defaults", Body: p10Defaults},
				{Name: "modes", Body: p10Modes},
				{Name: "settings", Body: p10Settings, MaxSteps: 2_000_000},
				{Name: "before-connecting", Body: p10Deferred},
				{Name: "successive", Body: p10Successive(3), Share: 3},
			}
		},
	})
}
