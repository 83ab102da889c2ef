package main

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
	"verif.local/mc/shim/vnet"
	"verif.local/mc/shim/vrt"
)

// ---- P39 ----

// p39Bad are addresses without a host and a port from 1 to 65535.
var p39Bad = []string{"", ":", "publisher", "publisher:", "publisher:0", "publisher:65536", "publisher:72701", "publisher:-1", "publisher:-58371",
	"publisher:x", "publisher:7165x", "publisher: 7165", "publisher:1:2", "::1:7165", "[::1]", "[::1", "::1", "publisher:4294974461", "publisher:18446744073709558781", "publisher:0x1bfd"}

// p39Good are usable addresses.
var p39Good = []struct {
	host string
	port int
}{{"publisher", 7165}, {"publisher.example.com", 65535}, {"10.1.2.3", 1}, {"::1", 7165}, {"2001:db8::17", 40001}, {"", 7165}}

// p39Addresses: every address given to every call in every state.
func p39Addresses(c *mc.C) {
	w := newWorld(c)
	state := c.Choose(4)
	listen := c.Choose(2) == 1
	k := c.Choose(len(p39Bad) + len(p39Good))
	addr := ""
	if k < len(p39Bad) {
		addr = p39Bad[k]
	} else {
		g := p39Good[k-len(p39Bad)]
		addr = net.JoinHostPort(g.host, strconv.Itoa(g.port))
	}
	verb := "dialing"
	if listen {
		verb = "listening on"
	}
	states := []string{"new", "connected", "listening", "disconnected"}
	c.Case("%s %q, subscriber %s", verb, addr, states[state])
	w.cfg.AutoReconnect = true
	w.cfg.MaxRetries = 3
	switch state {
	case 1:
		w.connect()
		w.subscribe()
	case 2:
		w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg)
		vrt.Idle()
	case 3:
		w.connect()
		w.sb.Disconnect()
		vrt.Idle()
	}
	dials := len(w.sim.Dials)
	conn, sub, lis := state == 1, state == 1, state == 2
	same := func(what string) {
		if w.sb.IsConnected() != conn || w.sb.IsSubscribed() != sub || w.sb.IsListening() != lis || len(w.sim.Dials) != dials {
			c.Fail("disturbed", "%s left connected %v subscribed %v listening %v with %d connection attempts", what, w.sb.IsConnected(), w.sb.IsSubscribed(), w.sb.IsListening(), len(w.sim.Dials)-dials)
		}
		w.consistent()
	}
	same("setting up")
	// the call comes with other settings
	other := *w.cfg
	other.AutoRequestMetadata, other.AutoSubscribe, other.CompressPayloadData = true, true, !w.cfg.CompressPayloadData
	call := func(a string, cfg *sttp.Config) error {
		var err error
		if listen {
			err = w.sb.Listen(a, cfg)
		} else {
			err = w.sb.Dial(a, cfg)
		}
		vrt.Idle()
		return err
	}
	err := call(addr, &other)
	c.Outcome(fmt.Sprint(err == nil))
	c.State(state, listen, k, err == nil)
	if k < len(p39Bad) || conn || lis {
		if err == nil {
			c.Fail("accepted", "%s %q succeeded", verb, addr)
		}
		same("a refused call")
		w.sleep(100 * time.Second)
		same("a refused call")
		// the next connection is made with the settings in force
		var modes uint32
		if conn {
			modes = w.last().modes
			w.last().p.Close()
			vrt.Idle()
			w.sleep(100 * time.Second)
			dials, sub = dials+1, false
		} else if lis {
			w.sim.Connect(listenPort)
			vrt.Idle()
			conn = true
		}
		if conn {
			same("a connection after a refused call")
			p := w.last()
			if p.count(cmdMetadata)+p.count(cmdSubscribe) > 0 || modes != 0 && p.modes != modes {
				c.Fail("settings", "after a refused call a connection is made with other settings: commands %s modes %x and %x", p.codes(), modes, p.modes)
			}
		}
		// and the next call is not affected
		w.sb.Disconnect()
		vrt.Idle()
		if err := call(fmt.Sprintf("10.9.8.7:%d", listenPort), w.cfg); err != nil {
			c.Fail("later", "%s a good address after a refused call failed: %v", verb, err)
		}
		conn, sub, lis = !listen, false, listen
		if conn {
			dials++
		}
		same("a call after a refused one")
		w.closeAll()
		return
	}
	if err != nil {
		c.Fail("refused", "%s %q failed: %v", verb, addr, err)
	}
	g := p39Good[k-len(p39Bad)]
	if listen {
		a := w.sim.ListenAddr(g.port)
		if a == nil {
			c.Fail("port", "listening on %q did not open its port", addr)
		}
		if want := net.ParseIP(g.host); want != nil && !want.Equal(a.IP) || g.host == "" && len(a.IP) > 0 && !a.IP.IsUnspecified() {
			c.Fail("interface", "listening on %q opened %v", addr, a)
		}
	} else {
		for i := 0; i < 2; i++ {
			h, p, err := net.SplitHostPort(w.sim.Dials[len(w.sim.Dials)-1].Addr)
			if err != nil || h != g.host || p != strconv.Itoa(g.port) {
				c.Fail("target", "dialing %q opened a connection to %q (reconnecting %v)", addr, w.sim.Dials[len(w.sim.Dials)-1].Addr, i == 1)
			}
			if i == 0 {
				w.last().p.Close()
				w.sleep(100 * time.Second)
				if !w.sb.IsConnected() {
					c.Fail("reconnect", "no automatic reconnect to %q", addr)
				}
			}
		}
	}
	w.closeAll()
}

// p39Transport runs histories of calls on the transport interface, which says
// for each call whether it was accepted.
func p39Transport(depth int) func(c *mc.C) {
	names := []string{"connect", "listen", "incoming", "subscribe", "unsubscribe", "disconnect", "drop", "subscribe-udp", "data-port-taken", "data-port-free", "subscribe-on-validation"}
	return func(c *mc.C) {
		w := newWorld(c)
		ds := transport.NewDataSubscriber()
		ds.ErrorMessageCallback = func(m string) { w.log("error", m) }
		ds.StatusMessageCallback = func(m string) { w.log("status", m) }
		ds.ConnectionEstablishedCallback = func() { w.log("established", "") }
		ds.ConnectionTerminatedCallback = func() { w.log("terminated", "") }
		taken := false
		w.sim.UDPErr = func(int) error {
			if taken {
				return errTaken
			}
			return nil
		}
		var conn, sub, lis, udp bool
		conns, ends := 0, 0
		hist := ""
		refuse := func(err error, bad bool, what string) {
			if (err != nil) != bad {
				c.Fail("answer", "%s with connected %v listening %v answered %v", what, conn, lis, err)
			}
		}
		drop := func() {
			if conn {
				ends++
			}
			conn, sub, udp = false, false, false
		}
		for k := 0; k < depth; k++ {
			c.Step(k)
			a := c.Choose(len(names))
			hist += " " + names[a]
			c.CaseStr("transport interface: history" + hist)
			switch a {
			case 0:
				err := ds.Connect("publisher", 7165)
				refuse(err, conn || lis, "connecting")
				vrt.Idle()
				if !conn && !lis {
					conn = true
					conns++
				}
			case 1:
				err := ds.Listen(listenPort, "")
				refuse(err, conn || lis, "listening")
				vrt.Idle()
				lis = lis || !conn
			case 2:
				if !lis {
					continue
				}
				p := w.sim.Connect(listenPort)
				vrt.Idle()
				if p == nil {
					c.Fail("port", "the port is not open while listening")
				}
				if conn {
					w.pubs = w.pubs[:len(w.pubs)-1]
					if !p.LibClosed {
						c.Fail("extra", "a second publisher connection was not closed")
					}
				} else {
					conn = true
					conns++
				}
			case 3, 7, 10:
				ds.Subscription().UdpDataChannel = a == 7
				ds.Subscription().DataChannelLocalPort = dataPort
				var err error
				if a == 10 {
					err = ds.SubscribeOnValidation()
				} else {
					err = ds.Subscribe()
				}
				if a != 10 || conn {
					refuse(err, !conn || a == 7 && taken, "subscribing")
				}
				vrt.Idle()
				if conn {
					udp = a == 7 && !taken
					sub = a != 7 || !taken
				}
			case 4:
				ds.Unsubscribe()
				vrt.Idle()
				sub, udp = false, false
			case 5:
				ds.Disconnect()
				vrt.Idle()
				drop()
				lis = false
			case 6:
				if !conn {
					continue
				}
				w.last().p.Close()
				vrt.Idle()
				drop()
			case 8, 9:
				taken = a == 8
			}
			if ds.IsConnected() != conn || ds.IsSubscribed() != sub || ds.IsListening() != lis || ds.IsValidated() != conn {
				c.Fail("state", "reported connected %v subscribed %v listening %v validated %v, actual %v %v %v", ds.IsConnected(), ds.IsSubscribed(), ds.IsListening(), ds.IsValidated(), conn, sub, lis)
			}
			if w.sim.Listening(listenPort) != lis || w.sim.UDPOpen(dataPort) != udp {
				c.Fail("port", "port open %v, listening %v; data port open %v, subscribed to data on it %v", w.sim.Listening(listenPort), lis, w.sim.UDPOpen(dataPort), udp)
			}
			want := 0
			if conn {
				want = 1
			}
			if w.tcpOpen() != want {
				c.Fail("sockets", "%d connections open, connected %v", w.tcpOpen(), conn)
			}
			if w.n("established") != conns || w.n("terminated") != ends {
				c.Fail("announced", "announced %d connections and %d terminations of %d and %d", w.n("established"), w.n("terminated"), conns, ends)
			}
			c.State(conn, sub, lis, udp, taken, conns, ends)
		}
		c.Outcome(fmt.Sprint(conn, sub, lis, conns, ends))
		ds.Dispose()
		vrt.Idle()
		if s := w.sim.OpenSockets(); len(s) > 0 {
			c.Fail("open-sockets", "after dispose these sockets are still open: %v", s)
		}
	}
}

// p39Automatic: an automatic subscription whose data port is in use.
func p39Automatic(c *mc.C) {
	w := newWorld(c)
	meta, auto, retry := c.Choose(2) == 1, c.Choose(2) == 1, c.Choose(2) == 1
	early := c.Choose(2) == 1
	c.Case("automatic subscription with the data port in use: metadata first %v, settings before connecting %v, automatic reconnect %v, then again %v", meta, early, auto, retry)
	w.cfg.AutoRequestMetadata = meta
	w.cfg.AutoSubscribe = early
	w.cfg.AutoReconnect = auto
	w.cfg.MaxRetries = 2
	if meta {
		w.auto.Metadata = []byte(`<DataSet/>`)
	}
	taken := true
	w.sim.UDPErr = func(int) error {
		if taken {
			return errTaken
		}
		return nil
	}
	set := sttp.NewSettings()
	set.UdpPort = dataPort
	if early {
		w.sb.Subscribe("x", set)
		vrt.Idle()
		w.connect()
	} else {
		w.connect()
		w.sb.Subscribe("x", set)
		vrt.Idle()
	}
	if w.n("error") == 0 {
		c.Fail("report", "a data port that cannot be opened was not reported")
	}
	if !w.sb.IsConnected() || w.sb.IsSubscribed() {
		c.Fail("state", "with the data port in use: connected %v subscribed %v", w.sb.IsConnected(), w.sb.IsSubscribed())
	}
	w.consistent()
	taken = false
	if retry {
		w.sb.Subscribe("x", set)
		vrt.Idle()
	} else {
		w.last().p.Close()
		vrt.PauseChoices()
		w.sleep(100 * time.Second)
		if !auto {
			w.connect()
		}
		if !early {
			w.sb.Subscribe("x", set)
			vrt.Idle()
		}
	}
	if !w.sb.IsConnected() || !w.sb.IsSubscribed() || !w.sim.UDPOpen(dataPort) {
		c.Fail("later", "with the data port available again: connected %v subscribed %v port open %v", w.sb.IsConnected(), w.sb.IsSubscribed(), w.sim.UDPOpen(dataPort))
	}
	w.consistent()
	c.State(meta, auto, retry, early)
	c.Outcome(w.brief())
	vrt.PauseChoices()
	w.closeAll()
}

// p39Writes: from the n-th write on, the first connection takes no more
// commands while it stays open for reading.
func p39Writes(c *mc.C) {
	w := newWorld(c)
	n := 1 + c.Choose(4)
	meta, sub, auto := c.Choose(2) == 1, c.Choose(2) == 1, c.Choose(2) == 1
	lis := c.Choose(2) == 1
	c.Case("writes fail from number %d: metadata %v, automatic subscription %v, automatic reconnect %v, publisher connects %v", n, meta, sub, auto, lis)
	w.cfg.AutoRequestMetadata, w.cfg.AutoSubscribe, w.cfg.AutoReconnect = meta, sub, auto
	w.cfg.MaxRetries = 2
	w.auto.Metadata = []byte(`<DataSet/>`)
	open := w.sim.OnOpen
	w.sim.OnOpen = func(p *vnet.Peer) {
		open(p)
		if len(w.pubs) == 1 {
			p.WriteErr = func(k int) error {
				if k >= n {
					return &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ETIMEDOUT)}
				}
				return nil
			}
		}
	}
	start := func() {
		if lis {
			if err := w.sb.Listen(fmt.Sprintf(":%d", listenPort), w.cfg); err != nil {
				c.Fail("listen", "listening failed: %v", err)
			}
			w.sim.Connect(listenPort)
		} else {
			w.sb.Dial(pubAddr, w.cfg)
		}
		vrt.Idle()
	}
	start()
	first := w.pubs[0]
	for i := 0; i < 4 && !first.p.LibClosed; i++ {
		w.sb.RequestMetadata()
		vrt.Idle()
		w.consistent()
	}
	if !first.p.LibClosed {
		c.Fail("kept", "a connection that takes no commands was kept; events %v", w.ev)
	}
	if w.n("error") == 0 {
		c.Fail("report", "a command that could not be sent was not reported")
	}
	vrt.PauseChoices()
	w.sleep(100 * time.Second)
	w.consistent()
	if got := w.sb.IsConnected(); got != (auto && !lis) {
		c.Fail("reconnect", "automatic reconnect %v: connected %v after the connection failed", auto, got)
	}
	if !w.sb.IsConnected() {
		if lis {
			w.sim.Connect(listenPort)
			vrt.Idle()
		} else {
			start()
		}
	}
	if !w.sb.IsConnected() || w.tcpOpen() != 1 || len(w.pubs) != 2 {
		c.Fail("later", "connecting again after the connection failed: connected %v, %d connections", w.sb.IsConnected(), len(w.pubs))
	}
	if sub && !w.sb.IsSubscribed() {
		c.Fail("later", "no automatic subscription on the next connection")
	}
	w.consistent()
	c.State(n, meta, sub, auto, lis, w.brief())
	c.Outcome(w.brief())
	w.closeAll()
	w.order()
}

func init() {
	register(mc.Check{
		ID:          "P39",
		Rule:        "every address of the list with every call in every state; every history of operations, publisher events and socket failures up to the depth bound against a model; every schedule up to the deviation bound for failing writes and automatic subscriptions",
		Assumptions: []string{"sequentially consistent memory between scheduling points", "a socket whose close gives an error is closed all the same"},
		Scenarios: func(tier string) []mc.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []mc.Scenario{
				{Name: "addresses", Body: p39Addresses},
				{Name: "automatic", Body: p39Automatic, Bound: 2 + d},
				{Name: "writes", Body: p39Writes, Bound: 2 + d},
				{Name: "repeated", Body: p39Transport(40), Lasso: 4 + d, MaxSteps: 5_000_000},
				{Name: "transport", Body: p39Transport(5 + d)},
				{Name: "broken", Body: p11History(6+d, true, []int{0, 1, 2, 3, 8, 9, 13, 15, 19})},
				{Name: "data-port", Body: p11History(6+d, false, []int{0, 2, 3, 4, 13, 14, 16, 17, 20, 19})},
				{Name: "listening", Body: p11History(6+d, false, []int{0, 1, 4, 10, 11, 18, 19, 21, 22})},
			}
		},
	})
}
