package main

import (
	"fmt"
	"net"
	"os"
	"slices"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vrt"
)

// ---- P40 ----

// console is what the library writes to standard output and standard error.
var console [2]*os.File

// catchConsole redirects both to empty scratch files.
func catchConsole() (restore func()) {
	for i := range console {
		if console[i] == nil {
			f, err := os.CreateTemp("", "console")
			if err != nil {
				panic(err)
			}
			os.Remove(f.Name())
			console[i] = f
		}
		console[i].Truncate(0)
		console[i].Seek(0, 0)
	}
	out, err := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = console[0], console[1]
	return func() { os.Stdout, os.Stderr = out, err }
}

func consoleText(i int) string {
	st, err := console[i].Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size())
	console[i].ReadAt(b, 0)
	return string(b)
}

// logWorld is a world whose application leaves the connection receivers, and
// on request the loggers, as they are.
type logWorld struct {
	*world
	printed bool
}

func newLogWorld(c *mc.C, printed bool) *logWorld {
	w := newWorld(c)
	w.sb = sttp.NewSubscriber()
	if !printed {
		w.sb.SetStatusMessageLogger(func(m string) { w.log("status", m) })
		w.sb.SetErrorMessageLogger(func(m string) { w.log("error", m) })
	}
	return &logWorld{w, printed}
}

// messages returns the messages of a kind.
func (w *logWorld) messages(kind string) []string {
	if !w.printed {
		return w.texts(kind)
	}
	t := consoleText(map[string]int{"status": 0, "error": 1}[kind])
	if t == "" {
		return nil
	}
	if !strings.HasSuffix(t, "\n") {
		w.c.Fail("lines", "the %s output does not end with a line end: %q", kind, t)
	}
	return strings.Split(strings.TrimSuffix(t, "\n"), "\n")
}

// reports are the messages about connections.
func (w *logWorld) reports(kind string) []string {
	word := map[string]string{"status": "established", "error": "terminated"}
	var out []string
	for _, k := range []string{"status", "error"} {
		for _, m := range w.messages(k) {
			if l := strings.ToLower(m); strings.Contains(l, "connection") && strings.Contains(l, word[kind]) && !strings.Contains(l, "reconnect") && !strings.Contains(l, "duplicate") {
				if k != kind {
					w.c.Fail("channel", "message %q in the %s log", m, k)
				}
				out = append(out, m)
			}
		}
	}
	return out
}

// logged is an expected report: words that must be in it.
type logged []string

func (w *logWorld) expect(kind string, want []logged) {
	got := w.reports(kind)
	if len(got) != len(want) {
		w.c.Fail(kind, "%d connections reported in the %s log (%q), expected %v", len(got), kind, got, want)
	}
	for i, m := range got {
		for _, s := range want[i] {
			if !strings.Contains(" "+m+" ", s) {
				w.c.Fail(kind, "report %d is %q, expected %q in it", i+1, m, s)
			}
		}
	}
}

// p40Names are the names of publisher addresses.
var p40Names = [][]string{nil, {"pmu.example.com."}, {"first.example.com", "second.example.com"}}

// p40Dialed: histories of connections made by the subscriber.
func p40Dialed(depth int) func(c *mc.C) {
	return func(c *mc.C) {
		defer catchConsole()()
		w := newLogWorld(c, c.Choose(2) == 1)
		w.cfg.AutoReconnect = c.Choose(2) == 1
		w.cfg.MaxRetries = 2
		hosts := []string{"publisher:7165", "10.1.2.3:40001"}
		hist := fmt.Sprintf("printed %v, automatic reconnect %v:", w.printed, w.cfg.AutoReconnect)
		var est, term []logged
		cur := ""
		up := true
		w.accept = func(int) bool { return up }
		lost := func() {
			if cur != "" {
				term = append(term, logged{" " + cur + " "})
			}
		}
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(7)
			hist += " " + []string{"dial-1", "dial-2", "drop", "disconnect", "unavailable", "available", "traffic"}[a]
			c.CaseStr(hist)
			switch a {
			case 0, 1:
				if cur != "" {
					return
				}
				err := w.sb.Dial(hosts[a], w.cfg)
				vrt.Idle()
				if (err == nil) != up {
					c.Fail("dial", "dialing returned %v, publisher available %v", err, up)
				}
				if up {
					cur = hosts[a]
					est = append(est, logged{" to ", " " + cur + " "})
				}
			case 2:
				if cur == "" {
					return
				}
				lost()
				w.last().p.Close()
				vrt.Idle()
				w.sleep(100 * time.Second)
				if w.cfg.AutoReconnect && up {
					est = append(est, logged{" to ", " " + cur + " "})
				} else {
					cur = ""
				}
			case 3:
				lost()
				cur = ""
				w.sb.Disconnect()
				vrt.Idle()
			case 4, 5:
				if up == (a == 5) {
					return
				}
				up = a == 5
			case 6:
				if cur == "" {
					return
				}
				w.traffic(k)
			}
			w.expect("status", est)
			w.expect("error", term)
		}
		c.State(hist)
		c.Outcome(fmt.Sprint(len(est), len(term)))
		w.closeAll()
	}
}

// traffic sends one response of every kind; most of them have no receiver.
func (w *logWorld) traffic(k int) {
	if !w.sb.IsSubscribed() {
		w.subscribe()
	}
	p := w.last()
	text := fmt.Sprintf("text %d é", k)
	n := len(w.messages("status"))
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), w.cfg.CompressSignalIndexCache, !w.cfg.RfcGuidEncoding),
		compactResp(0, full(0, 1, baseT)),
		resp(respBlock, cmdSubscribe, cat(be32(0), []byte{0}, be32(0), []byte("block"))),
		resp(respNotify, 0, cat(be32(5), []byte("n"))),
		resp(respStartTime, cmdSubscribe, be64(uint64(baseT))),
		resp(respConfigChg, cmdSubscribe, nil),
		resp(respComplete, cmdSubscribe, []byte(text)))
	vrt.Idle()
	if !w.sb.IsConnected() {
		w.c.Fail("traffic", "the connection was lost; errors %q", w.messages("error"))
	}
	found := 0
	for _, m := range w.messages("status")[n:] {
		if strings.Contains(m, text) {
			found++
		}
	}
	if found != 1 {
		w.c.Fail("traffic", "the text of a processing-complete response is in the status log %d times", found)
	}
}

// p40Accepted: histories of connections made by publishers.
func p40Accepted(depth int) func(c *mc.C) {
	return func(c *mc.C) {
		defer catchConsole()()
		w := newLogWorld(c, c.Choose(2) == 1)
		names := p40Names[c.Choose(len(p40Names))]
		w.sim.Names = func(string) []string { return names }
		hist := fmt.Sprintf("printed %v, names %q:", w.printed, names)
		var est, term []logged
		var act *pub
		id := func(p *pub) logged {
			host, _, _ := net.SplitHostPort(p.p.Conn.RemoteAddr().String())
			l := logged{host}
			if len(names) > 0 {
				l = append(l, names[0])
			}
			return l
		}
		listening := false
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(6)
			hist += " " + []string{"listen", "connect", "drop", "disconnect", "traffic", "two"}[a]
			c.CaseStr(hist)
			switch a {
			case 0:
				if listening {
					return
				}
				if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
					c.Fail("listen", "listening failed: %v", err)
				}
				vrt.Idle()
				listening = true
			case 1, 5:
				if !listening {
					return
				}
				for i := 0; i < 1+a/5; i++ {
					n := len(w.pubs)
					w.sim.Connect(listenPort)
					vrt.Idle()
					if act == nil {
						act = w.pubs[n]
						est = append(est, append(id(act), " from "))
					}
				}
			case 2:
				if act == nil {
					return
				}
				term = append(term, id(act))
				act.p.Close()
				act = nil
				vrt.Idle()
			case 3:
				if act != nil {
					term = append(term, id(act))
				}
				act, listening = nil, false
				w.sb.Disconnect()
				vrt.Idle()
			case 4:
				if act == nil {
					return
				}
				w.pubs = append(w.pubs, act) // the last one may be an additional one
				w.traffic(k)
				w.pubs = w.pubs[:len(w.pubs)-1]
			}
			if act != nil {
				for _, s := range id(act) {
					if !strings.Contains(w.sb.ConnectionID(), s) {
						c.Fail("identity", "connection reported as %q, expected %q in it", w.sb.ConnectionID(), s)
					}
				}
			}
			w.expect("status", est)
			w.expect("error", term)
		}
		c.State(hist)
		c.Outcome(fmt.Sprint(len(est), len(term)))
		w.closeAll()
	}
}

// p40Next: the next publisher connects while the loss of the first is noticed.
func p40Next(c *mc.C) {
	w := newLogWorld(c, false)
	c.Case("the next publisher connects while the loss of the first is noticed")
	vrt.PauseChoices()
	if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
		c.Fail("listen", "listening failed: %v", err)
	}
	vrt.Idle()
	w.sim.Connect(listenPort)
	vrt.Idle()
	host := func(p *pub) string { h, _, _ := net.SplitHostPort(p.p.Conn.RemoteAddr().String()); return h }
	a := w.last()
	vrt.ResumeChoices()
	a.p.Close()
	w.sim.Connect(listenPort)
	vrt.Idle()
	b := w.last()
	vrt.PauseChoices()
	est := []logged{{" from ", host(a)}}
	if !b.p.LibClosed {
		est = append(est, logged{" from ", host(b)})
	}
	w.expect("status", est)
	w.expect("error", []logged{{host(a)}})
	c.State(b.p.LibClosed)
	c.Outcome(fmt.Sprint(b.p.LibClosed))
	w.closeAll()
}

// p40Metadata: the summary of metadata documents.
func p40Metadata(c *mc.C) {
	w := newLogWorld(c, false)
	sizes := mc.Sizes(1025)
	n := []int{sizes[c.Choose(len(sizes))], 1, 2, 0}
	tables := 1 + c.Choose(4)
	first := c.Choose(tables)
	n[0], n[first] = n[first], n[0]
	names := []string{"MeasurementDetail", "DeviceDetail", "PhasorDetail", "A"}
	version := c.Choose(5)
	c.Case("tables %v with %v records, schema version %s", names[:tables], n[:tables], []string{"none", "7", "14 before other tables", "empty table", "without number"}[version])
	el := func(name, col, typ string) string {
		return `<xs:element name="` + name + `"><xs:complexType><xs:sequence><xs:element name="` + col + `" type="` + typ + `" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>`
	}
	var defs, rows strings.Builder
	if version > 0 {
		col := "VersionNumber"
		if version == 4 {
			col = "Other"
		}
		defs.WriteString(el("SchemaVersion", col, "xs:int"))
	}
	total := 0
	if version == 2 {
		rows.WriteString("<SchemaVersion><VersionNumber>14</VersionNumber></SchemaVersion>")
		total++
	}
	for i, t := range names[:tables] {
		defs.WriteString(el(t, "SignalID", "xs:string"))
		total += n[i]
		for j := 0; j < n[i]; j++ {
			rows.WriteString("<" + t + "><SignalID></SignalID></" + t + ">")
		}
	}
	switch version {
	case 1:
		rows.WriteString("<SchemaVersion><VersionNumber>7</VersionNumber></SchemaVersion>")
		total++
	case 4:
		rows.WriteString("<SchemaVersion><Other>5</Other></SchemaVersion>")
		total++
	}
	doc := []byte(`<DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="DataSet"><xs:complexType><xs:choice>` + defs.String() + `</xs:choice></xs:complexType></xs:element></xs:schema>` + rows.String() + `</DataSet>`)
	w.connectQuiet()
	w.auto.Metadata = doc
	for round := 1; round <= 2; round++ {
		w.sb.RequestMetadata()
		vrt.Idle()
		var sum []string
		for _, m := range w.messages("status") {
			if strings.Contains(m, "metadata records") {
				sum = append(sum, m)
			}
		}
		if len(sum) != round {
			c.Fail("summary", "%d summaries of %d documents; messages %q %q", len(sum), round, w.messages("status"), w.messages("error"))
		}
		m := sum[round-1]
		counted := false
		for _, l := range strings.Split(m, "\n") {
			counted = counted || strings.Contains(l, "metadata records") && slices.Contains(strings.Fields(l), grouped(total))
		}
		if !counted {
			c.Fail("total", "summary %q of %d records", m, total)
		}
		for i, t := range names[:tables] {
			found := false
			for _, l := range strings.Split(m, "\n") {
				fs := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == ':' || r == '\t' })
				found = found || slices.Contains(fs, grouped(n[i])) && slices.Contains(fs, t)
			}
			if !found {
				c.Fail("table", "summary %q, table %s has %d records", m, t, n[i])
			}
		}
		lines := strings.Split(strings.TrimSpace(m), "\n")
		last := lines[len(lines)-1]
		switch {
		case version == 1 && !strings.HasSuffix(last, " 7") || version == 2 && !strings.HasSuffix(last, " 14"):
			c.Fail("version", "summary %q ends with another schema version", m)
		case version == 0 && strings.ContainsAny(last, "0123456789"):
			c.Fail("version", "summary %q names a schema version, there is none", m)
		}
	}
	c.State(n, tables, version)
	w.closeAll()
}

// grouped is a number with its digits in groups of three.
func grouped(n int) string {
	s := fmt.Sprint(n)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

// p40Sequence: reports of compressed data out of sequence.
func p40Sequence(depth int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newLogWorld(c, false)
		p := w.connectQuiet()
		d := newDataModel(w.world, p, 2)
		w.subscribe()
		d.sendCache(0, cacheA(0, 0))
		d.sendCache(1, cacheA(1, 0))
		vrt.Idle()
		hist := ""
		silent := true // from a subscribe to the next restart
		want := 0
		var last time.Duration = -1
		now := time.Duration(0)
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(8)
			hist += " " + []string{"next0", "next1", "wrong0", "wrong1", "restart0", "wait-1s", "wait-2.1s", "resubscribe"}[a]
			c.CaseStr("history" + hist)
			switch a {
			case 0, 1:
				if d.expect[a] == 0 {
					silent, last = false, -1
				}
				d.sendTSSC(a, d.expect[a], false, 1)
			case 2, 3:
				d.junkTSSC(a-2, d.expect[a-2]+5, 1)
				if !silent && (last < 0 || now-last > 2*time.Second) {
					want++
					last = now
				}
			case 4:
				d.sendTSSC(0, 0, true, 1)
				silent, last = false, -1
			case 5, 6:
				t := time.Second
				if a == 6 {
					t = 2100 * time.Millisecond
				}
				w.sleep(t)
				now += t
			case 7:
				w.subscribe()
				silent, last = true, -1
			}
			vrt.Idle()
			got := 0
			for _, m := range w.messages("error") {
				if strings.Contains(m, "out of sequence") {
					got++
				}
			}
			if got != want {
				c.Fail("sequence", "%d reports of data out of sequence, expected %d", got, want)
			}
		}
		c.State(hist)
		c.Outcome(fmt.Sprint(want))
		w.closeAll()
	}
}

func init() {
	register(mc.Check{
		ID:          "P40",
		Rule:        "every history of connections, drops and traffic up to the depth bound with every choice of loggers and name service answers; every listed combination of tables, record counts and schema versions; every history of compressed packets, restarts and waits up to the depth bound",
		Assumptions: []string{"messages are recognised by the words established, terminated, metadata records and out of sequence"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "metadata", Body: p40Metadata, MaxSteps: 5_000_000},
				{Name: "next", Body: p40Next, Bound: 4 + d},
				{Name: "dialed", Body: p40Dialed(6 + d)},
				{Name: "accepted", Body: p40Accepted(6 + d)},
				{Name: "sequence", Body: p40Sequence(5 + d)},
				{Name: "repeated-dialed", Body: p40Dialed(40), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "repeated-accepted", Body: p40Accepted(40), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "repeated-sequence", Body: p40Sequence(40), Lasso: 3 + d, MaxSteps: 5_000_000},
			}
		},
	})
}
