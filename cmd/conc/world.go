package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vnet"
	"verif.local/mc/shim/vrt"
)

// cmdMsg is one command received by the publisher.
type cmdMsg struct {
	Code    byte
	Payload []byte
}

func (m cmdMsg) String() string { return fmt.Sprintf("%02x:%x", m.Code, m.Payload) }

// pub is the publisher's end of one connection.
type pub struct {
	w    *world
	p    *vnet.Peer
	cmds []cmdMsg
	// modes is the announced operational modes value.
	modes uint32
	// frames that could not be a command
	torn string
	auto *autoPub
	// sent counts the bytes sent to the subscriber
	sent uint64
}

// autoPub says what a publisher answers by itself.
type autoPub struct {
	Modes     bool
	ModesResp []byte // replaces the answer to operational modes
	Metadata  []byte // XML; nil: metadata requests are not answered
	Subscribe bool
	// After is sent after the answer to a subscribe.
	After func(p *pub) [][]byte
	// On sees every command first; true means it has been dealt with.
	On func(p *pub, m cmdMsg) bool
}

func defaultAuto() *autoPub { return &autoPub{Modes: true, Subscribe: true} }

func (p *pub) send(b ...[]byte) {
	for _, x := range b {
		p.sent += uint64(len(x))
		p.p.Send(x)
	}
}

func (p *pub) onData() {
	for {
		b := p.p.Bytes()
		if len(b) < 4 {
			return
		}
		n := int(binary.BigEndian.Uint32(b))
		if n < 1 || n > 1<<24 {
			if p.torn == "" {
				p.torn = fmt.Sprintf("command with length %d", n)
			}
			return
		}
		if len(b) < 4+n {
			return
		}
		f := p.p.Take(4 + n)
		m := cmdMsg{f[4], append([]byte(nil), f[5:]...)}
		p.cmds = append(p.cmds, m)
		p.react(m)
	}
}

func (p *pub) react(m cmdMsg) {
	if m.Code == cmdModes && len(m.Payload) == 4 {
		p.modes = binary.BigEndian.Uint32(m.Payload)
	}
	a := p.auto
	if a == nil {
		return
	}
	if a.On != nil && a.On(p, m) {
		return
	}
	switch m.Code {
	case cmdModes:
		if a.ModesResp != nil {
			p.send(a.ModesResp)
		} else if a.Modes {
			p.send(resp(respSucceeded, cmdModes, []byte("modes ok")))
		}
	case cmdMetadata:
		if a.Metadata != nil {
			b := a.Metadata
			if p.modes&0x80000000 != 0 {
				b = zip(b)
			}
			p.send(resp(respSucceeded, cmdMetadata, b))
		}
	case cmdSubscribe:
		if a.Subscribe {
			p.send(resp(respSucceeded, cmdSubscribe, []byte("subscribed")))
			if a.After != nil {
				p.send(a.After(p)...)
			}
		}
	case cmdUnsubscribe:
		if a.Subscribe {
			p.send(resp(respSucceeded, cmdUnsubscribe, []byte("unsubscribed")))
		}
	}
}

// codes lists the received command codes.
func (p *pub) codes() string {
	var s []string
	for _, m := range p.cmds {
		s = append(s, fmt.Sprintf("%x", m.Code))
	}
	return strings.Join(s, " ")
}

func (p *pub) count(code byte) int {
	n := 0
	for _, m := range p.cmds {
		if m.Code == code {
			n++
		}
	}
	return n
}

// event is one observation of the application.
type event struct {
	Kind string
	Text string
}

// world is one subscriber, its application and the network around it.
type world struct {
	c    *mc.C
	sim  *vnet.Sim
	sb   *sttp.Subscriber
	cfg  *sttp.Config
	pubs []*pub
	auto *autoPub
	// accept decides whether the n-th outgoing connection succeeds.
	accept func(n int) bool
	ev     []event
	meas   []transport.Measurement
	packs  [][]transport.Measurement
	blocks []transport.BufferBlock
	// recycle returns measurement slices to the subscriber
	recycle bool
	// hold is the number of slices kept before the oldest is returned
	hold int
	held []heldSlice
	// prompt expects shutdown calls to end without waiting for retry delays
	prompt bool
	// quiet leaves data events out of the event list
	quiet bool
	// onEvent runs inside callbacks
	onEvent func(kind, text string)
	// onMeas and onBlocks run inside the data callbacks
	onMeas   func(m *[]transport.Measurement)
	onBlocks func(b []transport.BufferBlock)
	// connection announcement state
	up, announced, terminated int
}

func (w *world) log(kind, text string) {
	w.ev = append(w.ev, event{kind, text})
	vrt.Logf("event %s %s", kind, text)
	if w.onEvent != nil {
		w.onEvent(kind, text)
	}
}

// kinds returns the texts of all events of a kind.
func (w *world) texts(kind string) []string {
	var out []string
	for _, e := range w.ev {
		if e.Kind == kind {
			out = append(out, e.Text)
		}
	}
	return out
}

func (w *world) n(kind string) int { return len(w.texts(kind)) }

// newWorld creates a subscriber with every callback recorded.
func newWorld(c *mc.C) *world {
	w := &world{c: c, sim: vnet.NewSim(), cfg: sttp.NewConfig(), auto: defaultAuto()}
	w.cfg.AutoRequestMetadata = false
	w.cfg.AutoSubscribe = false
	w.cfg.AutoReconnect = false
	w.cfg.MaxRetries = 0
	w.sim.OnDial = func(addr string, n int) vnet.DialResult {
		if w.accept == nil || w.accept(n) {
			return vnet.DialResult{}
		}
		return vnet.DialResult{Err: vnet.ErrRefused}
	}
	w.sim.OnOpen = func(p *vnet.Peer) {
		q := &pub{w: w, p: p, auto: w.auto}
		w.pubs = append(w.pubs, q)
		p.OnData = q.onData
	}
	w.attach(sttp.NewSubscriber())
	return w
}

func (w *world) attach(sb *sttp.Subscriber) {
	w.sb = sb
	sb.SetStatusMessageLogger(func(m string) { w.log("status", m) })
	sb.SetErrorMessageLogger(func(m string) { w.log("error", m) })
	sb.SetMetadataReceiver(func(d *data.DataSet) {
		n := d.TableNames()
		sort.Strings(n)
		w.log("metadata", strings.Join(n, ","))
	})
	sb.SetSubscriptionUpdatedReceiver(func(s *transport.SignalIndexCache) { w.log("updated", fmt.Sprint(s.Count())) })
	sb.SetDataStartTimeReceiver(func(t time.Time) { w.log("start", fmt.Sprint(t.UTC().UnixNano())) })
	sb.SetConfigurationChangedReceiver(func() { w.log("config", "") })
	sb.SetNewMeasurementsReceiver(w.measurements)
	sb.SetNewBufferBlocksReceiver(w.bufferBlocks)
	sb.SetNotificationReceiver(func(n string) { w.log("notify", n) })
	sb.SetHistoricalReadCompleteReceiver(func() { w.log("complete", "") })
	sb.SetConnectionEstablishedReceiver(func() { w.announced++; w.log("established", "") })
	sb.SetConnectionTerminatedReceiver(func() { w.terminated++; w.log("terminated", "") })
}

func (w *world) measurements(m *[]transport.Measurement) {
	pack := append([]transport.Measurement(nil), *m...)
	w.packs = append(w.packs, pack)
	if w.quiet && len(w.held) > 64 {
		w.held = w.held[32:]
	}
	w.meas = append(w.meas, pack...)
	if !w.quiet {
		w.log("data", fmt.Sprint(len(pack)))
	}
	if w.onMeas != nil {
		w.onMeas(m)
	}
	if !w.recycle || w.hold > 0 {
		w.held = append(w.held, heldSlice{m, pack})
		w.checkHeld()
	}
	if w.recycle {
		if w.hold > 0 {
			if len(w.held) <= w.hold {
				return
			}
			m = w.held[0].m
			w.held = w.held[1:]
		}
		w.sb.PutMeasurementSlice(m)
	}
}

// heldSlice is a measurement slice the application has not returned, with the
// contents it had when it was delivered.
type heldSlice struct {
	m    *[]transport.Measurement
	want []transport.Measurement
}

// checkHeld verifies that slices still in use by the application are intact.
func (w *world) checkHeld() {
	for _, h := range w.held {
		ok := len(*h.m) == len(h.want)
		for i := 0; ok && i < len(h.want); i++ {
			ok = sameMeas((*h.m)[i], h.want[i])
		}
		if !ok {
			w.c.Fail("in-use", "measurements handed out as %s and not returned now read %s", measText(h.want), measText(*h.m))
		}
	}
}

func (w *world) bufferBlocks(b []transport.BufferBlock) {
	w.blocks = append(w.blocks, b...)
	w.log("blocks", fmt.Sprint(len(b)))
	if w.onBlocks != nil {
		w.onBlocks(b)
	}
}

const pubAddr = "publisher:7165"

// dial connects and lets everything settle.
func (w *world) dial() error {
	err := w.sb.Dial(pubAddr, w.cfg)
	vrt.Idle()
	return err
}

// connect is dial that must succeed; it returns the publisher's end.
func (w *world) connect() *pub {
	if err := w.dial(); err != nil {
		w.c.Fail("connect", "connecting to an available publisher failed: %v", err)
	}
	return w.last()
}

// connectQuiet connects without exploring schedules.
func (w *world) connectQuiet() *pub {
	var p *pub
	vrt.NoChoice(func() { p = w.connect() })
	return p
}

// subscribe requests data and lets everything settle.
func (w *world) subscribe() { w.sb.Subscribe("FILTER ActiveMeasurements WHERE True", nil); vrt.Idle() }

func (w *world) last() *pub {
	if len(w.pubs) == 0 {
		w.c.Fail("connect", "no connection was opened")
	}
	return w.pubs[len(w.pubs)-1]
}

// settle lets everything run that can run at this moment.
func (w *world) settle() { vrt.Idle() }

// sleep advances the clock and lets everything settle.
func (w *world) sleep(d time.Duration) {
	vrt.Sleep(int64(d))
	vrt.Idle()
}

// spawn starts an application thread.
func spawn(name string, f func()) *task {
	t := &task{}
	vrt.GoNamed(name, func() { f(); t.done = true })
	return t
}

type task struct{ done bool }

func (t *task) wait() { vrt.BlockUntil("join", t, func() bool { return t.done }) }

// closeAll closes the subscriber; whatever happened before, this must end and
// leave nothing open.
func (w *world) closeAll() {
	t := spawn("closer", func() { w.sb.Close() })
	t.wait()
	vrt.Idle()
	if s := w.sim.OpenSockets(); len(s) > 0 {
		w.c.Fail("open-sockets", "after close these sockets are still open: %v", s)
	}
}

func sameMeas(a, b transport.Measurement) bool {
	return a.SignalID == b.SignalID && a.Timestamp == b.Timestamp && a.Flags == b.Flags &&
		math.Float64bits(a.Value) == math.Float64bits(b.Value)
}

func measText(ms []transport.Measurement) string {
	var s []string
	for _, m := range ms {
		s = append(s, fmt.Sprintf("{%s %v t%d f%x}", m.SignalID.String()[1:9], m.Value, int64(m.Timestamp), uint32(m.Flags)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// expectMeas compares everything delivered so far with what it must be.
func (w *world) expectMeas(key string, want []transport.Measurement) {
	ok := len(want) == len(w.meas)
	for i := 0; ok && i < len(want); i++ {
		ok = sameMeas(want[i], w.meas[i])
	}
	if !ok {
		w.c.Fail(key, "delivered %s, publisher sent %s", measText(w.meas), measText(want))
	}
}
