package main

import (
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/sttp/goapi/sttp"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vnet"
	"verif.local/mc/shim/vrt"
)

// ---- P11 ----

// tcpOpen counts connections the library holds open.
func (w *world) tcpOpen() int {
	n := 0
	for _, p := range w.pubs {
		if !p.p.LibClosed {
			n++
		}
	}
	return n
}

// order checks that announcements alternate and data stays in between.
func (w *world) order() {
	up := false
	for i, e := range w.ev {
		switch e.Kind {
		case "established":
			if up {
				w.c.Fail("announced", "two connections announced without a termination in between: event %d of %s", i, w.brief())
			}
			up = true
		case "terminated":
			if !up {
				w.c.Fail("announced", "termination announced without an announced connection: event %d of %s", i, w.brief())
			}
			up = false
		case "data", "blocks":
			if !up {
				w.c.Fail("late-data", "%s delivered outside of an announced connection: event %d of %s", e.Kind, i, w.brief())
			}
		}
	}
}

// brief lists the events that matter for ordering.
func (w *world) brief() string {
	var s []string
	for _, e := range w.ev {
		switch e.Kind {
		case "established", "terminated", "data", "blocks":
			s = append(s, e.Kind)
		}
	}
	return strings.Join(s, " ")
}

var p11Names = []string{"dial", "disconnect", "subscribe", "unsubscribe", "drop", "reset", "publisher-down", "publisher-up", "wait", "data", "listen", "incoming", "garbage", "subscribe-udp", "datagram",
	"writes-fail", "data-port-taken", "data-port-free", "accept-fails", "closes-fail", "datagram-fails", "listen-port-taken", "listen-port-free"}

const dataPort = 9600

var errTaken = &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}

const listenPort = 7199

// p11History runs every history of operations and events against a model.
func p11History(depth int, auto bool, acts []int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		up := true
		w.accept = func(int) bool { return up }
		w.cfg.AutoReconnect = auto
		if auto {
			w.cfg.MaxRetries = 3
		}
		var conn, sub, listening, pending, cached bool
		conns, ends := 0, 0
		var measIn, dataIn uint64
		value := 0
		udp, asked := false, false
		// faults: the connection cannot be written, ports are in use, closing
		// sockets gives errors, reading the data port has failed
		var broken, udpTaken, listenTaken, closeFails, dead bool
		w.sim.UDPErr = func(int) error {
			if udpTaken {
				return errTaken
			}
			return nil
		}
		w.sim.ListenErr = func(int) error {
			if listenTaken {
				return errTaken
			}
			return nil
		}
		w.sim.CloseErr = func(kind string) error {
			if closeFails {
				return &net.OpError{Op: "close", Net: kind, Err: os.NewSyscallError("close", syscall.EIO)}
			}
			return nil
		}
		begin := func() {
			conn, sub, pending, cached, broken = true, false, false, false, false
			conns++
			measIn, dataIn = 0, 0
		}
		end := func() {
			if conn {
				ends++
			}
			conn, sub, udp, dead = false, false, false, false
		}
		hist := ""
		listenConn := false
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := acts[c.Choose(len(acts))]
			hist += " " + p11Names[a]
			c.CaseStr(fmt.Sprintf("automatic reconnect %v: history%s", auto, hist))
			errs := w.n("error")
			reported := func(what string) {
				if w.n("error") == errs {
					c.Fail("report", "%s was not reported", what)
				}
			}
			// sockets that closing them is bound to report
			closing := ""
			if closeFails {
				switch {
				case a == 1 && (conn || listening), (a == 4 || a == 5 || a == 12) && conn, a == 11 && conn && listening:
					closing = "an error closing the connection"
				case (a == 2 || a == 3 || a == 13) && conn && udp:
					closing = "an error closing the data port"
				}
			}
			switch a {
			case 0:
				err := w.dial()
				switch {
				case conn || listening:
					if err == nil {
						c.Fail("dial", "dialing succeeded while connected %v listening %v", conn, listening)
					}
				case up:
					if err != nil {
						c.Fail("dial", "dialing an available publisher failed: %v", err)
					}
					begin()
					listenConn = false
				default:
					if err == nil {
						c.Fail("dial", "dialing an unavailable publisher succeeded")
					}
					pending = false
				}
			case 1:
				w.sb.Disconnect()
				vrt.Idle()
				end()
				listening, pending = false, false
			case 2, 13:
				s := sttp.NewSettings()
				if a == 13 {
					s.UdpPort = dataPort
				}
				asked = a == 13
				w.sb.Subscribe("x", s)
				vrt.Idle()
				if conn {
					dead = false
					// measurements are counted since the last subscription
					measIn = 0
					switch {
					case a == 13 && udpTaken:
						// a subscription that asks for what cannot be had
						// ends the one before
						reported("a data port that cannot be opened")
						if broken && sub {
							end()
							pending = auto && !listenConn
						}
						sub, udp = false, false
					case broken:
						reported("a request that could not be sent")
						end()
						pending = auto && !listenConn
					default:
						sub, udp = true, a == 13
					}
				}
			case 3:
				w.sb.Unsubscribe()
				vrt.Idle()
				if conn && broken {
					reported("a request that could not be sent")
					end()
					pending = auto && !listenConn
				}
				if conn {
					sub, udp, dead = false, false, false
				}
			case 4, 5, 12:
				if !conn {
					continue
				}
				switch a {
				case 4:
					w.last().p.Close()
				case 5:
					w.last().p.Reset()
				case 12:
					w.last().send(cat(be32(3), []byte{1, 2, 3}))
				}
				vrt.Idle()
				end()
				pending = auto && !listenConn
			case 6:
				up = false
			case 7:
				up = true
			case 8:
				w.sleep(300 * time.Second)
				if pending && up {
					begin()
				}
				pending = false
			case 9:
				// the signal list is to be confirmed
				if !conn || broken && !cached {
					continue
				}
				if !cached {
					w.last().send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
					cached = true
				}
				value++
				n := w.n("data")
				w.last().send(compactResp(0, full(0, float32(value), baseT+int64(value)), full(1, 2, baseT)))
				measIn += 2
				vrt.Idle()
				if w.n("data") != n+1 {
					c.Fail("data", "%d data callbacks for one packet", w.n("data")-n)
				}
			case 14:
				if dead {
					continue
				}
				b := body(respNoOP, 0, make([]byte, k))
				if !w.sim.SendUDP(dataPort, b) {
					if udp {
						c.Fail("port", "the data port is not open while subscribed to data on it")
					}
					continue
				}
				dataIn += uint64(len(b))
				vrt.Idle()
			case 10:
				err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg)
				vrt.Idle()
				if conn || listening {
					if err == nil {
						c.Fail("listen", "listening succeeded while connected %v listening %v", conn, listening)
					}
				} else if listenTaken {
					if err == nil {
						c.Fail("listen", "listening on a port in use succeeded")
					}
				} else {
					if err != nil {
						c.Fail("listen", "listening failed: %v", err)
					}
					listening, pending = true, false
				}
			case 11:
				if !w.sim.Listening(listenPort) {
					if listening {
						c.Fail("listen", "the port is not open while listening")
					}
					continue
				}
				w.sim.Connect(listenPort)
				vrt.Idle()
				if conn {
					p := w.last()
					w.pubs = w.pubs[:len(w.pubs)-1]
					if !p.p.LibClosed {
						c.Fail("extra", "a second publisher connection was not closed")
					}
				} else {
					begin()
					listenConn = true
				}
			case 15:
				if !conn {
					continue
				}
				broken = true
				w.last().p.WriteErr = func(int) error {
					return &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ETIMEDOUT)}
				}
			case 16, 17:
				udpTaken = a == 16
			case 18:
				if w.sim.FailAccept(listenPort, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}) {
					vrt.Idle()
					reported("an error accepting connections")
				}
			case 19:
				closeFails = true
			case 20:
				if w.sim.FailUDP(dataPort, &net.OpError{Op: "read", Net: "udp", Err: os.NewSyscallError("recvfrom", syscall.EIO)}) && !dead {
					vrt.Idle()
					reported("an error reading the data port")
					dead = true
				}
			case 21, 22:
				listenTaken = a == 21
			}
			if closing != "" {
				reported(closing)
			}
			if w.sb.IsConnected() != conn || w.sb.IsSubscribed() != sub || w.sb.IsListening() != listening {
				c.Fail("state", "reported connected %v subscribed %v listening %v, actual %v %v %v; events %v", w.sb.IsConnected(), w.sb.IsSubscribed(), w.sb.IsListening(), conn, sub, listening, w.ev)
			}
			if w.sb.IsValidated() != conn {
				c.Fail("validated", "reported validated %v, connected %v", w.sb.IsValidated(), conn)
			}
			if w.sim.Listening(listenPort) != listening {
				c.Fail("port", "port open %v, listening %v", w.sim.Listening(listenPort), listening)
			}
			if w.n("established") != conns || w.n("terminated") != ends {
				c.Fail("announced", "announced %d connections and %d terminations of %d and %d", w.n("established"), w.n("terminated"), conns, ends)
			}
			want := 0
			if conn {
				want = 1
				if g := w.sb.TotalCommandChannelBytesReceived(); g != w.last().sent {
					c.Fail("bytes", "command channel bytes %d, sent %d", g, w.last().sent)
				}
				if g := w.sb.TotalMeasurementsReceived(); g != measIn {
					c.Fail("measurements", "measurement count %d, sent %d", g, measIn)
				}
				// without a data port the command channel carries the data
				bytes := w.last().sent
				if asked {
					bytes = dataIn
				}
				if g := w.sb.TotalDataChannelBytesReceived(); g != bytes {
					c.Fail("bytes", "data channel bytes %d, sent %d", g, bytes)
				}
			}
			if w.tcpOpen() != want {
				c.Fail("sockets", "%d connections open, connected %v", w.tcpOpen(), conn)
			}
			if w.sim.UDPOpen(dataPort) != udp && !dead {
				c.Fail("port", "data port open %v, subscribed to data on it %v", w.sim.UDPOpen(dataPort), udp)
			}
			w.order()
			c.State(conn, sub, listening, pending, up, conns, ends, cached, udp, asked, broken, udpTaken, listenTaken, closeFails, dead)
		}
		c.Outcome(fmt.Sprint(conn, sub, listening, conns, ends))
		w.closeAll()
		end()
		if w.n("established") != conns || w.n("terminated") != ends {
			c.Fail("announced", "after close: announced %d connections and %d terminations of %d and %d", w.n("established"), w.n("terminated"), conns, ends)
		}
		w.order()
	}
}

// consistent checks the reported state against the sockets once idle.
func (w *world) consistent() {
	c := w.c
	open := w.tcpOpen()
	if w.sb.IsConnected() && open != 1 || !w.sb.IsConnected() && open != 0 {
		c.Fail("sockets", "connected %v with %d open connections; live threads %v", w.sb.IsConnected(), open, vrt.LiveThreads())
	}
	if w.sb.IsListening() != w.sim.Listening(listenPort) {
		c.Fail("port", "listening %v, port open %v", w.sb.IsListening(), w.sim.Listening(listenPort))
	}
	if s := w.sim.OpenSockets(); !w.sb.IsConnected() && !w.sb.IsListening() && len(s) > 0 {
		c.Fail("sockets", "neither connected nor listening with open sockets %v", s)
	}
	if !w.sb.IsConnected() && (w.sb.IsSubscribed() || w.sb.IsValidated()) {
		c.Fail("state", "not connected but subscribed %v validated %v", w.sb.IsSubscribed(), w.sb.IsValidated())
	}
	w.order()
	e, t := w.n("established"), w.n("terminated")
	d := 0
	if w.sb.IsConnected() {
		d = 1
	}
	if e != t+d {
		c.Fail("announced", "announced %d connections and %d terminations, connected %v", e, t, w.sb.IsConnected())
	}
}

// p11Race lets application and publisher act at the same time.
func p11Race(auto, two bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.cfg.AutoReconnect = auto
		if auto {
			w.cfg.MaxRetries = 2
		}
		w.cfg.AutoSubscribe = true
		w.auto.After = func(p *pub) [][]byte {
			return [][]byte{cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), compactResp(0, full(0, 1, baseT))}
		}
		ops := []string{"dial", "disconnect", "subscribe", "unsubscribe", "nothing"}
		connected := c.Choose(2) == 1
		if connected {
			w.connectQuiet()
		}
		a, b := c.Choose(4), 4
		if two {
			b = c.Choose(4)
		}
		peer := c.Choose(4)
		set := sttp.NewSettings()
		if (a == 2 || b == 2) && c.Choose(2) == 1 {
			set.UdpPort = 9600
		}
		c.Case("automatic reconnect %v, connected %v, application %s then %s (data port %d), publisher action %d", auto, connected, ops[a], ops[b], set.UdpPort, peer)
		run := func(op int) {
			switch op {
			case 0:
				w.sb.Dial(pubAddr, w.cfg)
			case 1:
				w.sb.Disconnect()
			case 2:
				w.sb.Subscribe("y", set)
			case 3:
				w.sb.Unsubscribe()
			}
		}
		t := spawn("app", func() { run(a); run(b) })
		q := spawn("publisher", func() {
			if peer == 0 {
				return
			}
			vrt.BlockUntil("open", nil, func() bool { return len(w.pubs) > 0 && w.last().count(cmdModes) > 0 || t.done })
			if len(w.pubs) == 0 {
				return
			}
			p := w.last()
			switch peer {
			case 1:
				p.p.Close()
			case 2:
				p.send(compactResp(0, full(1, 2, baseT)))
				vrt.Point("pub", nil)
				p.p.Reset()
			case 3:
				p.send(resp(respNotify, 0, cat(be32(1), []byte("x"))), cat(be32(2), []byte{0, 0}))
			}
		})
		t.wait()
		q.wait()
		vrt.Idle()
		w.consistent()
		vrt.PauseChoices()
		w.sleep(200 * time.Second)
		w.consistent()
		// and it still works
		w.sb.Disconnect()
		vrt.Idle()
		w.consistent()
		w.connect()
		w.consistent()
		c.State(connected, a, b, peer, w.brief())
		c.Outcome(w.brief())
		w.closeAll()
		w.order()
	}
}

// ---- P12 ----

// ended checks that a completed disconnect is final.
func (w *world) ended(what string) {
	c := w.c
	if w.sb.IsConnected() || w.tcpOpen() > 0 || w.sb.IsListening() || w.sim.Listening(listenPort) {
		c.Fail("open", "after %s: connected %v, %d open connections, listening %v", what, w.sb.IsConnected(), w.tcpOpen(), w.sb.IsListening())
	}
	n := len(w.sim.Dials)
	vrt.PauseChoices()
	w.sleep(300 * time.Second)
	vrt.ResumeChoices()
	if len(w.sim.Dials) != n || w.tcpOpen() > 0 || w.sb.IsConnected() {
		c.Fail("reopened", "after %s: %d further connection attempts, connected %v", what, len(w.sim.Dials)-n, w.sb.IsConnected())
	}
	w.order()
	if e, t := w.n("established"), w.n("terminated"); e != t {
		c.Fail("announced", "after %s: announced %d connections and %d terminations", what, e, t)
	}
}

// shut performs one of the shutdown calls. With only retry delays to wait for,
// the call must end long before they do.
func (w *world) shut(op int) string {
	start := vrt.Now()
	if op == 0 {
		w.sb.Disconnect()
	} else {
		w.sb.Close()
	}
	if took := time.Duration(vrt.Now() - start); w.prompt && took > 500*time.Millisecond {
		w.c.Fail("slow", "%s took %v", shutNames[op], took)
	}
	return shutNames[op]
}

var shutNames = []string{"disconnect", "close"}

// p12Dial: shutdown while connecting, with the attempt succeeding, failing and
// being retried, slow, or dropped by the publisher at once.
func p12Dial(c *mc.C) {
	w := newWorld(c)
	kind := c.Choose(4)
	op := c.Choose(2)
	auto := c.Choose(2) == 1
	w.cfg.AutoReconnect = auto
	w.cfg.MaxRetries = 3
	names := []string{"accepted", "refused", "slow", "dropped"}
	c.Case("%s while dialing, attempts %s, automatic reconnect %v", shutNames[op], names[kind], auto)
	dial := w.sim.OnDial
	w.sim.OnDial = func(addr string, n int) (r vnet.DialResult) {
		r = dial(addr, n)
		if kind == 2 {
			r.Delay = 5 * time.Second
		}
		return
	}
	w.accept = func(n int) bool { return kind != 1 }
	if kind == 3 {
		w.auto.On = func(p *pub, m cmdMsg) bool { p.p.Close(); return true }
	}
	after := 0
	if kind == 1 {
		after = c.Choose(3)
		c.Case("%s while dialing, attempts %s, automatic reconnect %v, after %d retries", shutNames[op], names[kind], auto, after)
	}
	w.prompt = kind != 2
	attempted := false
	var shutEnd, dialEnd int64
	t := spawn("dialer", func() { w.sb.Dial(pubAddr, w.cfg); dialEnd = vrt.Now() })
	u := spawn("closer", func() {
		if after > 0 {
			vrt.Sleep(int64(time.Duration(2*after) * 1100 * time.Millisecond))
		}
		attempted = len(w.sim.Dials) > 0
		w.shut(op)
		shutEnd = vrt.Now()
	})
	if op == 1 {
		u.wait()
	}
	t.wait()
	u.wait()
	vrt.Idle()
	if attempted || op == 1 {
		if late := time.Duration(dialEnd - shutEnd); w.prompt && late > 500*time.Millisecond {
			c.Fail("slow", "dialing went on for %v after %s", late, shutNames[op])
		}
		w.ended(shutNames[op])
	} else {
		w.consistent()
	}
	c.State(kind, op, auto, attempted, len(w.sim.Dials), w.brief())
	c.Outcome(fmt.Sprint(attempted, w.brief()))
	vrt.PauseChoices()
	w.sb.Disconnect()
	vrt.Idle()
	w.ended("disconnect")
	if op == 0 {
		w.accept = nil
		w.auto.On = nil
		w.connect()
	}
	w.closeAll()
}

// p12Pair: two shutdown or other calls at the same time on a live connection,
// with the publisher doing something, too.
func p12Pair(auto bool) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.cfg.AutoReconnect = auto
		w.cfg.MaxRetries = 2
		w.connectQuiet()
		vrt.NoChoice(w.subscribe)
		p := w.last()
		p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
		vrt.NoChoice(vrt.Idle)
		ops := []string{"disconnect", "close", "subscribe", "unsubscribe", "metadata", "nothing"}
		a, b := c.Choose(2), c.Choose(6)
		peer := c.Choose(4)
		c.Case("automatic reconnect %v: %s with %s, publisher action %d", auto, ops[a], ops[b], peer)
		run := func(op int) {
			switch op {
			case 0, 1:
				w.shut(op)
			case 2:
				w.sb.Subscribe("y", nil)
			case 3:
				w.sb.Unsubscribe()
			case 4:
				w.sb.RequestMetadata()
			}
		}
		t, u := spawn("app1", func() { run(a) }), spawn("app2", func() { run(b) })
		switch peer {
		case 1:
			p.p.Close()
		case 2:
			p.send(compactResp(0, full(0, 1, baseT)), resp(respNotify, 0, cat(be32(1), []byte("x"))), blockResp(2, 0, 0, 0, []byte{1}))
		case 3:
			p.send(compactResp(0, full(0, 1, baseT)))
			p.p.Reset()
		}
		t.wait()
		u.wait()
		vrt.Idle()
		w.ended(ops[a])
		c.State(a, b, peer, w.brief())
		c.Outcome(w.brief())
		vrt.PauseChoices()
		if a == 0 && b != 1 {
			w.connect()
			w.subscribe()
		}
		w.closeAll()
	}
}

// p12Reconnect: shutdown at any moment of an automatic reconnect.
func p12Reconnect(c *mc.C) {
	w := newWorld(c)
	w.cfg.AutoReconnect = true
	w.cfg.MaxRetries = 3
	up := c.Choose(2) == 1
	op := c.Choose(2)
	after := c.Choose(4) // retry intervals waited before the shutdown
	again := c.Choose(2) == 1
	c.Case("%s after %d waits of an automatic reconnect, publisher available %v, twice %v", shutNames[op], after, up, again)
	w.prompt = true
	w.connectQuiet()
	w.accept = func(int) bool { return up }
	w.last().p.Close()
	t := spawn("app", func() {
		for i := 0; i < after; i++ {
			vrt.Sleep(int64(time.Duration(w.cfg.RetryInterval) * time.Millisecond))
		}
		w.shut(op)
		if again {
			w.shut(op)
		}
	})
	t.wait()
	vrt.Idle()
	w.ended(shutNames[op])
	c.State(up, op, after, w.brief(), len(w.sim.Dials))
	c.Outcome(w.brief())
	vrt.PauseChoices()
	if op == 0 {
		w.accept = nil
		w.connect()
	}
	w.closeAll()
}

// p12Listen: shutdown while listening, with publishers coming and going.
func p12Listen(c *mc.C) {
	w := newWorld(c)
	op := c.Choose(2)
	kind := c.Choose(5)
	c.Case("%s while listening, publishers %d", shutNames[op], kind)
	vrt.NoChoice(func() {
		if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
			c.Fail("listen", "%v", err)
		}
		vrt.Idle()
		if kind >= 2 {
			w.sim.Connect(listenPort)
			vrt.Idle()
		}
	})
	t := spawn("app", func() { w.shut(op) })
	q := spawn("publisher", func() {
		switch kind {
		case 1:
			w.sim.Connect(listenPort)
		case 2:
			w.last().p.Close()
		case 3:
			w.last().p.Close()
			w.sim.Connect(listenPort)
		case 4:
			w.sim.Connect(listenPort)
		}
	})
	t.wait()
	q.wait()
	vrt.Idle()
	w.ended(shutNames[op])
	c.State(op, kind, w.brief())
	c.Outcome(w.brief())
	vrt.PauseChoices()
	if op == 0 {
		if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
			c.Fail("listen", "listening again failed: %v", err)
		}
		vrt.Idle()
		w.sim.Connect(listenPort)
		vrt.Idle()
		if !w.sb.IsConnected() {
			c.Fail("listen", "no connection after listening again")
		}
	}
	w.closeAll()
}

// p12Blocked: shutdown while a command cannot be written.
func p12Blocked(c *mc.C) {
	w := newWorld(c)
	op := c.Choose(2)
	cmd := c.Choose(4)
	c.Case("%s while a publisher does not read, command %d blocked", shutNames[op], cmd)
	p := w.connectQuiet()
	p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	vrt.NoChoice(vrt.Idle)
	p.p.WriteGate = func() bool { return false }
	t := spawn("sender", func() {
		switch cmd {
		case 0:
			w.sb.Subscribe("x", nil)
		case 1:
			w.sb.RequestMetadata()
		case 2:
			p.send(resp(respNotify, 0, cat(be32(1), []byte("x"))))
		case 3:
			p.send(blockResp(2, 0, 0, 0, []byte{1}))
		}
	})
	u := spawn("closer", func() { w.shut(op) })
	u.wait()
	t.wait()
	vrt.Idle()
	w.ended(shutNames[op])
	c.State(op, cmd)
	vrt.PauseChoices()
	w.closeAll()
}

var callbackKinds = []string{"established", "terminated", "status", "error", "metadata", "updated", "start", "config", "data", "blocks", "notify", "complete"}

// provoke makes the publisher cause a callback.
func (w *world) provoke(kind string) {
	p := w.last()
	switch kind {
	case "established":
	case "terminated":
		p.p.Close()
	case "status":
		p.send(resp(respSucceeded, cmdModes, []byte("provoked")))
	case "error":
		p.send(resp(respFailed, cmdInterval, []byte("provoked")))
	case "metadata":
		p.send(resp(respSucceeded, cmdMetadata, zip(tableXML("T"))))
	case "updated":
		p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false))
	case "start":
		p.send(resp(respStartTime, cmdSubscribe, be64(baseT)))
	case "config":
		p.send(resp(respConfigChg, 0, nil))
	case "data":
		p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), compactResp(0, full(0, 1, baseT)))
	case "blocks":
		p.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), blockResp(2, 0, 0, 0, []byte{1}))
	case "notify":
		p.send(resp(respNotify, 0, cat(be32(1), []byte("provoked"))))
	case "complete":
		p.send(resp(respComplete, cmdSubscribe, []byte("provoked")))
	}
}

// p12Callback: shutdown from inside each callback.
func p12Callback(op int, bound string) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		kind := callbackKinds[c.Choose(len(callbackKinds))]
		listen := c.Choose(2) == 1
		auto := c.Choose(2) == 1
		c.Case("%s inside the %s callback, accepted connection %v, automatic reconnect %v", shutNames[op], kind, listen, auto)
		w.cfg.AutoReconnect = auto && !listen
		w.cfg.MaxRetries = 2
		called, done := false, false
		hook := func(k, _ string) {
			if k == kind && !called {
				called = true
				w.shut(op)
				done = true
			}
		}
		if kind == "established" {
			w.onEvent = hook
		}
		if listen {
			if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
				c.Fail("listen", "%v", err)
			}
			vrt.Idle()
			w.sim.Connect(listenPort)
		} else {
			t := spawn("dialer", func() { w.sb.Dial(pubAddr, w.cfg) })
			if kind != "established" {
				t.wait()
			}
		}
		vrt.Idle()
		if kind != "established" {
			w.onEvent = hook
			w.provoke(kind)
			vrt.Idle()
		}
		// Close lets a moment pass
		vrt.Sleep(int64(time.Second))
		vrt.Idle()
		if !called {
			c.Fail("callback", "the %s callback was not invoked", kind)
		}
		if !done {
			c.Fail(fmt.Sprintf("stuck-%s-in-%s", shutNames[op], kind), "%s inside the %s callback did not return; live threads %v", shutNames[op], kind, vrt.LiveThreads())
		}
		w.onEvent = nil
		w.ended(shutNames[op] + " inside the " + kind + " callback")
		c.State(kind, listen, auto)
		vrt.PauseChoices()
		w.closeAll()
	}
}

// p12Timer: shutdown racing with retry timers that fire early or late.
func p12Timer(c *mc.C) {
	w := newWorld(c)
	w.cfg.AutoReconnect = c.Choose(2) == 1
	w.cfg.MaxRetries = 2
	op := c.Choose(2)
	c.Case("%s racing with the retry timer, automatic reconnect %v", shutNames[op], w.cfg.AutoReconnect)
	w.accept = func(n int) bool { return n == 1 }
	t := spawn("dialer", func() { w.sb.Dial(pubAddr, w.cfg) })
	u := spawn("closer", func() {
		vrt.BlockUntil("attempt", nil, func() bool { return len(w.sim.Dials) > 0 })
		w.shut(op)
	})
	u.wait()
	t.wait()
	vrt.Idle()
	w.ended(shutNames[op])
	c.State(op, w.brief(), len(w.sim.Dials))
	c.Outcome(w.brief())
	vrt.PauseChoices()
	w.closeAll()
}

// ---- P18 ----

var p18Names = []string{"listen", "disconnect", "incoming", "drop", "reset", "data", "notify", "two-incoming", "drop+incoming", "extra-drop", "garbage"}

// p18History runs every history of publishers connecting and dropping.
func p18History(depth int) func(c *mc.C) {
	return func(c *mc.C) {
		w := newWorld(c)
		w.cfg.AutoReconnect = c.Choose(2) == 1
		w.cfg.AutoSubscribe = true
		listening := false
		var act *pub
		var extra *pub
		conns := 0
		value := 0
		hist := ""
		opened := func() {
			act = w.last()
			conns++
		}
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(len(p18Names))
			hist += " " + p18Names[a]
			c.CaseStr(fmt.Sprintf("automatic reconnect %v: history%s", w.cfg.AutoReconnect, hist))
			switch a {
			case 0:
				err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg)
				vrt.Idle()
				if (err == nil) == (listening || act != nil) {
					c.Fail("listen", "listening returned %v while listening %v connected %v", err, listening, act != nil)
				}
				listening = true
			case 1:
				w.sb.Disconnect()
				vrt.Idle()
				listening, act = false, nil
			case 2, 7:
				for i := 0; i < 1+a/7; i++ {
					n := len(w.pubs)
					w.sim.Connect(listenPort)
					if a == 2 {
						vrt.Idle()
					}
					if len(w.pubs) == n {
						continue
					}
					if act == nil {
						opened()
					} else {
						extra = w.last()
					}
				}
				vrt.Idle()
			case 3, 4, 10:
				if act == nil {
					continue
				}
				switch a {
				case 3:
					act.p.Close()
				case 4:
					act.p.Reset()
				case 10:
					act.send(cat(be32(1), []byte{9}))
				}
				vrt.Idle()
				act = nil
			case 5:
				if act == nil {
					continue
				}
				value++
				n := len(w.meas)
				act.send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), compactResp(0, full(0, float32(value), baseT+int64(value))))
				vrt.Idle()
				if len(w.meas) != n+1 || w.meas[n].Value != float64(value) {
					c.Fail("data", "delivered %s, sent value %d", measText(w.meas[n:]), value)
				}
			case 6:
				if act == nil {
					continue
				}
				n := act.count(cmdConfirmNotify)
				act.send(resp(respNotify, 0, cat(be32(5), []byte("n"))))
				vrt.Idle()
				if act.count(cmdConfirmNotify) != n+1 {
					c.Fail("notify", "a notification was not confirmed")
				}
			case 8:
				// the next publisher connects before the drop has been noticed
				if act == nil {
					continue
				}
				act.p.Close()
				act = nil
				w.sim.Connect(listenPort)
				vrt.Idle()
				p := w.last()
				if p.p.LibClosed {
					// taken for an additional connection
					extra = p
					w.sim.Connect(listenPort)
					vrt.Idle()
				}
				opened()
			case 9:
				if extra != nil {
					extra.p.Close()
					vrt.Idle()
					extra = nil
				}
			}
			if extra != nil && !extra.p.LibClosed {
				c.Fail("extra", "an additional publisher connection was not closed")
			}
			if w.sb.IsListening() != listening || w.sim.Listening(listenPort) != listening {
				c.Fail("listening", "reported listening %v, port open %v, should be %v", w.sb.IsListening(), w.sim.Listening(listenPort), listening)
			}
			if w.sb.IsConnected() != (act != nil) {
				c.Fail("connected", "reported connected %v, should be %v", w.sb.IsConnected(), act != nil)
			}
			if act != nil {
				if host, _, _ := net.SplitHostPort(act.p.Conn.RemoteAddr().String()); !strings.Contains(w.sb.ConnectionID(), host) {
					c.Fail("identity", "connection reported as %q, publisher is at %s", w.sb.ConnectionID(), host)
				}
				if act.p.LibClosed || act.count(cmdModes) != 1 || act.count(cmdSubscribe) != 1 || !w.sb.IsSubscribed() || !w.sb.IsValidated() {
					c.Fail("workflow", "publisher connection closed %v, commands %s, subscribed %v validated %v", act.p.LibClosed, act.codes(), w.sb.IsSubscribed(), w.sb.IsValidated())
				}
			}
			if w.n("established") != conns {
				c.Fail("announced", "announced %d connections of %d", w.n("established"), conns)
			}
			if len(w.sim.Dials) > 0 {
				c.Fail("dialed", "the listening subscriber made an outgoing connection")
			}
			w.order()
			c.State(listening, act != nil, conns, extra != nil)
		}
		c.Outcome(fmt.Sprint(listening, act != nil, conns))
		w.closeAll()
		w.order()
	}
}

// p18Race lets publishers connect and drop at the same time, on all schedules.
func p18Race(c *mc.C) {
	w := newWorld(c)
	w.cfg.AutoSubscribe = true
	kind := c.Choose(5)
	names := []string{"two connect", "drop and connect", "connect and drop at once", "connect, data and an additional one", "drop and two connect"}
	c.Case("publishers: %s", names[kind])
	vrt.NoChoice(func() {
		if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
			c.Fail("listen", "%v", err)
		}
		vrt.Idle()
		if kind == 1 || kind == 4 {
			w.sim.Connect(listenPort)
			vrt.Idle()
		}
	})
	switch kind {
	case 0:
		w.sim.Connect(listenPort)
		w.sim.Connect(listenPort)
	case 1:
		w.last().p.Close()
		w.sim.Connect(listenPort)
	case 2:
		w.sim.Connect(listenPort).Close()
	case 3:
		w.sim.Connect(listenPort)
		w.last().send(cacheResp(2, 0, sig(99), cacheA(0, 0), true, false), compactResp(0, full(0, 1, baseT)))
		w.sim.Connect(listenPort)
	case 4:
		w.last().p.Close()
		w.sim.Connect(listenPort)
		w.sim.Connect(listenPort)
	}
	vrt.Idle()
	w.consistent()
	if !w.sb.IsListening() {
		c.Fail("listening", "not listening any more")
	}
	if kind == 0 && w.tcpOpen() != 1 {
		c.Fail("connected", "%d connections open after two publishers connected", w.tcpOpen())
	}
	vrt.PauseChoices()
	// drop whatever is left, then the next publisher must be served
	for _, p := range w.pubs {
		p.p.Close()
	}
	vrt.Idle()
	w.consistent()
	n := len(w.pubs)
	w.sim.Connect(listenPort)
	vrt.Idle()
	if len(w.pubs) != n+1 || !w.sb.IsConnected() || !w.sb.IsSubscribed() || w.last().count(cmdSubscribe) != 1 {
		c.Fail("next", "the next publisher is not served: connected %v subscribed %v; live threads %v", w.sb.IsConnected(), w.sb.IsSubscribed(), vrt.LiveThreads())
	}
	c.State(kind, w.brief(), n)
	c.Outcome(w.brief())
	w.sb.Disconnect()
	vrt.Idle()
	if w.sim.Listening(listenPort) {
		c.Fail("port", "the port is open after disconnecting")
	}
	if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
		c.Fail("listen", "listening again failed: %v", err)
	}
	w.closeAll()
	w.order()
}

func init() {
	register(mc.Check{
		ID:          "P11",
		Rule:        "every history of application operations and publisher events up to the depth bound against a model; every schedule up to the deviation bound for pairs of operations with a publisher event",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "repeated", Body: p11History(40, false, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12}), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "repeated-automatic", Body: p11History(40, true, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14}), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "repeated-listening", Body: p11History(40, true, []int{0, 1, 2, 4, 6, 8, 9, 10, 11}), Lasso: 3 + d, MaxSteps: 5_000_000},
				{Name: "dialing", Body: p11History(6+d, false, []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 12})},
				{Name: "reconnecting", Body: p11History(6+d, true, []int{0, 1, 2, 4, 5, 6, 7, 8, 9})},
				{Name: "data-port", Body: p11History(5+d, true, []int{0, 1, 2, 3, 4, 8, 9, 13, 14})},
				{Name: "listening", Body: p11History(6+d, true, []int{0, 1, 2, 4, 6, 8, 9, 10, 11})},
				{Name: "race", Body: p11Race(false, false), Bound: 2 + d},
				{Name: "reconnect-race", Body: p11Race(true, false), Bound: 2 + d},
				{Name: "races", Body: p11Race(false, true), Bound: 1 + d},
				{Name: "reconnect-races", Body: p11Race(true, true), Bound: 1 + d},
				{Name: "race-statements", Body: p11Race(true, false), Bound: 1 + d, Stmt: true},
			}
		},
	})
	register(mc.Check{
		ID:          "P12",
		Rule:        "every shutdown call at every point of every listed situation, on every schedule up to the deviation bound, including calls from inside every callback",
		Assumptions: []string{"sequentially consistent memory between scheduling points", "a connection attempt of the operating system ends"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "dialing", Body: p12Dial, Bound: 3 + d, Share: 2},
				{Name: "connected", Body: p12Pair(false), Bound: 2 + d},
				{Name: "connected-auto", Body: p12Pair(true), Bound: 2 + d},
				{Name: "reconnecting", Body: p12Reconnect, Bound: 3 + d},
				{Name: "listening", Body: p12Listen, Bound: 3 + d},
				{Name: "blocked", Body: p12Blocked, Bound: 2 + d},
				{Name: "disconnect-in-callback", Body: p12Callback(0, ""), Bound: 1 + d},
				{Name: "close-in-callback", Body: p12Callback(1, ""), Bound: 0},
				{Name: "timers", Body: p12Timer, Bound: 2 + d, EarlyTimers: true},
				{Name: "dialing-statements", Body: p12Dial, Bound: 1 + d, Stmt: true},
				{Name: "connected-statements", Body: p12Pair(false), Bound: 1 + d, Stmt: true},
				{Name: "reconnecting-statements", Body: p12Reconnect, Bound: 1 + d, Stmt: true},
				{Name: "listening-statements", Body: p12Listen, Bound: 2 + d, Stmt: true},
			}
		},
	})
	register(mc.Check{
		ID:          "P18",
		Rule:        "every history of publishers connecting, dropping and sending and of listen/disconnect cycles up to the depth bound; every schedule up to the deviation bound for simultaneous connects and drops",
		Assumptions: []string{"sequentially consistent memory between scheduling points"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "repeated", Body: p18History(40), Lasso: 4 + d, MaxSteps: 5_000_000},
				{Name: "histories", Body: p18History(5 + d)},
				{Name: "races", Body: p18Race, Bound: 3 + d},
				{Name: "races-statements", Body: p18Race, Bound: 2 + d, Stmt: true},
			}
		},
	})
}
