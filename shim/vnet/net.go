// Package vnet replaces package net in instrumented code: sockets are in-memory
// objects owned by the controlled execution. The Sim and Peer types are the
// harness side of the simulated network.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"verif.local/mc/shim/vrt"
)

// Sim is the simulated network of one execution.
type Sim struct {
	// OnDial decides the outcome of the n-th (0 based) outgoing connection.
	OnDial func(addr string, n int) DialResult
	// OnOpen is called for every new connection, before the library uses it.
	OnOpen    func(p *Peer)
	Dials     []DialRecord
	Peers     []*Peer
	listeners map[int]*TCPListener
	udp       map[int]*UDPConn
	nextPort  int
	// Accepted counts connections handed out by Accept.
	Accepted int
	// ListenErr, when set, decides whether listening on a port fails.
	ListenErr func(port int) error
	// UDPErr, when set, decides whether opening a UDP port fails.
	UDPErr func(port int) error
	// CloseErr, when set, is the error of closing a socket, which is closed
	// all the same.
	CloseErr func(kind string) error
	// Names, when set, gives the names of an address.
	Names func(addr string) []string
}

func (s *Sim) closeErr(kind string) error {
	if s.CloseErr == nil {
		return nil
	}
	return s.CloseErr(kind)
}

// FailAccept makes an Accept on a port fail; it reports false if the library
// does not listen on it.
func (s *Sim) FailAccept(port int, err error) bool {
	l := s.listeners[port]
	if l == nil {
		return false
	}
	l.errs = append(l.errs, err)
	vrt.SetState(l, uint64(len(l.errs))<<20)
	return true
}

// FailUDP makes a read on a UDP port fail; it reports false if the library does
// not have it open.
func (s *Sim) FailUDP(port int, err error) bool {
	u := s.udp[port]
	if u == nil {
		return false
	}
	u.errs = append(u.errs, err)
	vrt.SetState(u, uint64(len(u.errs))<<20)
	return true
}

// DialResult is the outcome of an outgoing connection attempt.
type DialResult struct {
	Err   error
	Delay time.Duration
	Gate  func() bool
}

// DialRecord describes one outgoing connection attempt.
type DialRecord struct {
	Addr string
	At   time.Duration
	Err  error
}

var sim *Sim

// NewSim installs a fresh network.
func NewSim() *Sim {
	sim = &Sim{listeners: map[int]*TCPListener{}, udp: map[int]*UDPConn{}, nextPort: 40000}
	return sim
}

// ErrRefused is the error of a refused connection.
var ErrRefused = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}

func errClosed(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed}
}

type dirState struct {
	segs [][]byte
	fin  bool // writer side closed: EOF after segs
	rst  bool
}

// TCPConn is the library side of a simulated connection.
type TCPConn struct {
	in            dirState
	peer          *Peer
	closed        bool
	local, remote *net.TCPAddr
	rdl, wdl      int64
}

// Peer is the harness side of a simulated connection.
type Peer struct {
	ID        int
	Dialed    bool
	Conn      *TCPConn
	buf       []byte
	Total     int
	LibClosed bool
	closed    bool
	// OnData is called after the library has written bytes.
	OnData func()
	// WriteGate, when set, blocks library writes while it returns false.
	WriteGate func() bool
	// WriteErr, when set, may fail a library write.
	WriteErr func(n int) error
	// Writes counts library write calls.
	Writes int
	// LingerWrites keeps writes after the peer's close successful (bytes are
	// discarded), as TCP does before the reset arrives.
	LingerWrites bool
	ClosedAt     time.Duration
}

func newPair(dialed bool, local, remote *net.TCPAddr) *Peer {
	c := &TCPConn{local: local, remote: remote}
	p := &Peer{ID: len(sim.Peers), Dialed: dialed, Conn: c}
	c.peer = p
	sim.Peers = append(sim.Peers, p)
	if sim.OnOpen != nil {
		sim.OnOpen(p)
	}
	return p
}

func (c *TCPConn) note() {
	v := uint64(len(c.in.segs))<<8 | uint64(c.peer.Total)<<20
	if c.closed {
		v |= 1
	}
	if c.in.fin {
		v |= 2
	}
	vrt.SetState(c, v)
}

func expired(dl int64) bool { return dl != 0 && vrt.Now() >= dl }

// Read reads from the connection.
func (c *TCPConn) Read(b []byte) (int, error) {
	vrt.BlockUntil("read", c, func() bool {
		return c.closed || len(c.in.segs) > 0 || c.in.fin || c.in.rst || expired(c.rdl) || len(b) == 0
	})
	defer c.note()
	switch {
	case c.closed:
		return 0, errClosed("read")
	case expired(c.rdl):
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	case len(b) == 0:
		return 0, nil
	case c.in.rst:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case len(c.in.segs) > 0:
		s := c.in.segs[0]
		n := copy(b, s)
		if n == len(s) {
			c.in.segs = c.in.segs[1:]
		} else {
			c.in.segs[0] = s[n:]
		}
		return n, nil
	}
	return 0, io.EOF
}

// Write writes to the connection.
func (c *TCPConn) Write(b []byte) (int, error) {
	p := c.peer
	vrt.BlockUntil("write", c, func() bool {
		return c.closed || p.closed || expired(c.wdl) || p.WriteGate == nil || p.WriteGate()
	})
	if c.closed {
		return 0, errClosed("write")
	}
	if expired(c.wdl) {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	p.Writes++
	if p.WriteErr != nil {
		if err := p.WriteErr(p.Writes); err != nil {
			return 0, err
		}
	}
	if p.closed {
		if p.LingerWrites {
			return len(b), nil
		}
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	p.buf = append(p.buf, b...)
	p.Total += len(b)
	c.note()
	if p.OnData != nil {
		p.OnData()
	}
	return len(b), nil
}

// Close closes the connection.
func (c *TCPConn) Close() error {
	vrt.Point("conn.close", c)
	if c.closed {
		return errClosed("close")
	}
	c.closed = true
	c.peer.LibClosed = true
	c.peer.ClosedAt = time.Duration(vrt.Now())
	c.note()
	return sim.closeErr("tcp")
}

// CloseRead shuts down reading.
func (c *TCPConn) CloseRead() error { c.in.fin = true; return nil }

// CloseWrite shuts down writing.
func (c *TCPConn) CloseWrite() error { c.peer.LibClosed = true; return nil }

// LocalAddr returns the local address.
func (c *TCPConn) LocalAddr() net.Addr { return c.local }

// RemoteAddr returns the remote address.
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := t.UnixNano() - vrt.Epoch
	if d <= 0 {
		d = 1
	}
	vrt.AddTimer(d-vrt.Now(), func() {})
	return d
}

// SetDeadline sets both deadlines.
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// SetReadDeadline sets the read deadline.
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return errClosed("set")
	}
	c.rdl = deadline(t)
	return nil
}

// SetWriteDeadline sets the write deadline.
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return errClosed("set")
	}
	c.wdl = deadline(t)
	return nil
}

// SetNoDelay does nothing.
func (c *TCPConn) SetNoDelay(bool) error { return nil }

// SetKeepAlive does nothing.
func (c *TCPConn) SetKeepAlive(bool) error { return nil }

// SetKeepAlivePeriod does nothing.
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }

// SetLinger does nothing.
func (c *TCPConn) SetLinger(int) error { return nil }

// SetReadBuffer does nothing.
func (c *TCPConn) SetReadBuffer(int) error { return nil }

// SetWriteBuffer does nothing.
func (c *TCPConn) SetWriteBuffer(int) error { return nil }

// ---- harness side ----

// Send delivers one segment to the library.
func (p *Peer) Send(b []byte) {
	if p.closed || p.Conn.closed || len(b) == 0 {
		return
	}
	p.Conn.in.segs = append(p.Conn.in.segs, append([]byte(nil), b...))
	p.Conn.note()
}

// Close closes the harness side; the library reads EOF after pending data.
func (p *Peer) Close() {
	p.closed = true
	p.Conn.in.fin = true
	p.Conn.note()
}

// Reset aborts the connection.
func (p *Peer) Reset() {
	p.closed = true
	p.Conn.in.rst = true
	p.Conn.note()
}

// Closed reports whether the harness closed its side.
func (p *Peer) Closed() bool { return p.closed }

// Pending reports the number of segments not yet read by the library.
func (p *Peer) Pending() int { return len(p.Conn.in.segs) }

// Bytes returns the bytes received from the library and not yet taken.
func (p *Peer) Bytes() []byte { return p.buf }

// Take removes n bytes from the received data.
func (p *Peer) Take(n int) []byte {
	b := p.buf[:n:n]
	p.buf = p.buf[n:]
	return b
}

// Connect opens a connection to a port the library listens on.
func (s *Sim) Connect(port int) *Peer {
	l := s.listeners[port]
	if l == nil {
		return nil
	}
	s.nextPort++
	p := newPair(false, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, &net.TCPAddr{IP: net.IPv4(10, 0, byte(s.nextPort>>8), byte(s.nextPort)), Port: s.nextPort})
	l.backlog = append(l.backlog, p.Conn)
	vrt.SetState(l, uint64(len(l.backlog)))
	return p
}

// Listening reports whether the library listens on a port.
func (s *Sim) Listening(port int) bool { return s.listeners[port] != nil }

// ListenAddr is the address the library listens on with a port.
func (s *Sim) ListenAddr(port int) *net.TCPAddr {
	if l := s.listeners[port]; l != nil {
		return l.addr
	}
	return nil
}

// UDPOpen reports whether the library has a UDP port open.
func (s *Sim) UDPOpen(port int) bool { return s.udp[port] != nil }

// SendUDP delivers a datagram; it reports false if nobody has the port open.
func (s *Sim) SendUDP(port int, b []byte) bool {
	u := s.udp[port]
	if u == nil {
		return false
	}
	u.in = append(u.in, append([]byte(nil), b...))
	vrt.SetState(u, uint64(len(u.in)))
	return true
}

// UDPPending returns the number of unread datagrams on a port.
func (s *Sim) UDPPending(port int) int {
	if u := s.udp[port]; u != nil {
		return len(u.in)
	}
	return 0
}

// OpenSockets lists the sockets the library has open.
func (s *Sim) OpenSockets() []string {
	var out []string
	for _, p := range s.Peers {
		if !p.Conn.closed && !p.Conn.dropped() {
			out = append(out, fmt.Sprintf("tcp#%d", p.ID))
		}
	}
	for port := range s.listeners {
		out = append(out, "listen:"+strconv.Itoa(port))
	}
	for port := range s.udp {
		out = append(out, "udp:"+strconv.Itoa(port))
	}
	return out
}

func (c *TCPConn) dropped() bool {
	// still in a backlog: not (yet) owned by the library
	for _, l := range sim.listeners {
		for _, b := range l.backlog {
			if b == c {
				return true
			}
		}
	}
	return false
}

// ---- dialing ----

func splitPort(addr string) (string, int, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", 0, err
	}
	n, err := strconv.Atoi(p)
	if err != nil || n < 0 || n > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: addr}
	}
	return h, n, nil
}

func parseIP(h string) net.IP {
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return ip
}

func dial(addr string, timeout time.Duration) (net.Conn, error) {
	if sim == nil {
		return nil, errors.New("vnet: no simulation")
	}
	h, port, err := splitPort(addr)
	vrt.Point("dial", nil)
	n := len(sim.Dials)
	res := DialResult{Err: ErrRefused}
	if err != nil {
		res.Err = err
	} else if sim.OnDial != nil {
		res = sim.OnDial(addr, n)
	}
	sim.Dials = append(sim.Dials, DialRecord{Addr: addr, At: time.Duration(vrt.Now()), Err: res.Err})
	if res.Delay > 0 {
		if timeout > 0 && res.Delay > timeout {
			vrt.Sleep(int64(timeout))
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		vrt.Sleep(int64(res.Delay))
	}
	if res.Gate != nil {
		vrt.BlockUntil("dialwait", nil, res.Gate)
	}
	if res.Err != nil {
		return nil, res.Err
	}
	sim.nextPort++
	p := newPair(true, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: sim.nextPort}, &net.TCPAddr{IP: parseIP(h), Port: port})
	return p.Conn, nil
}

// Dial is net.Dial.
func Dial(network, addr string) (net.Conn, error) { return dial(addr, 0) }

// DialTimeout is net.DialTimeout.
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return dial(addr, d) }

// DialTCP is net.DialTCP.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

// Dial is net.Dialer.Dial.
func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return dial(addr, d.Timeout) }

// DialContext is net.Dialer.DialContext.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return dial(addr, d.Timeout)
}

// ---- listening ----

// TCPListener is a simulated listener.
type TCPListener struct {
	addr    *net.TCPAddr
	backlog []*TCPConn
	errs    []error
	closed  bool
	dl      int64
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	h, port, err := splitPort(addr)
	if err != nil {
		return nil, err
	}
	var ip net.IP
	if h != "" {
		ip = parseIP(h)
	}
	l, err := ListenTCP(network, &net.TCPAddr{IP: ip, Port: port})
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenTCP is net.ListenTCP.
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	vrt.Point("listen", nil)
	port := laddr.Port
	if port == 0 {
		sim.nextPort++
		port = sim.nextPort
	}
	if sim.ListenErr != nil {
		if err := sim.ListenErr(port); err != nil {
			return nil, err
		}
	}
	if sim.listeners[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{addr: &net.TCPAddr{IP: laddr.IP, Port: port}}
	sim.listeners[port] = l
	return l, nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen is net.ListenConfig.Listen.
func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

// ListenPacket is net.ListenConfig.ListenPacket.
func (lc *ListenConfig) ListenPacket(ctx context.Context, network, addr string) (net.PacketConn, error) {
	return ListenPacket(network, addr)
}

// Accept waits for a connection.
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP waits for a connection.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	vrt.BlockUntil("accept", l, func() bool { return l.closed || len(l.backlog) > 0 || len(l.errs) > 0 || expired(l.dl) })
	if l.closed {
		return nil, errClosed("accept")
	}
	if len(l.errs) > 0 {
		err := l.errs[0]
		l.errs = l.errs[1:]
		vrt.SetState(l, uint64(len(l.backlog)))
		return nil, err
	}
	if len(l.backlog) == 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	sim.Accepted++
	vrt.SetState(l, uint64(len(l.backlog)))
	return c, nil
}

// Close stops listening.
func (l *TCPListener) Close() error {
	vrt.Point("listener.close", l)
	if l.closed {
		return errClosed("close")
	}
	l.closed = true
	for _, c := range l.backlog {
		c.closed = true
		c.peer.LibClosed = true
	}
	l.backlog = nil
	if sim.listeners[l.addr.Port] == l {
		delete(sim.listeners, l.addr.Port)
	}
	vrt.SetState(l, 1<<40)
	return sim.closeErr("listener")
}

// Addr returns the listening address.
func (l *TCPListener) Addr() net.Addr { return l.addr }

// SetDeadline sets the accept deadline.
func (l *TCPListener) SetDeadline(t time.Time) error { l.dl = deadline(t); return nil }

// ---- UDP ----

// UDPConn is a simulated UDP socket.
type UDPConn struct {
	addr   *net.UDPAddr
	in     [][]byte
	errs   []error
	closed bool
	rdl    int64
}

// ListenUDP is net.ListenUDP.
func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	vrt.Point("listenudp", nil)
	port := 0
	var ip net.IP
	if laddr != nil {
		port, ip = laddr.Port, laddr.IP
	}
	if port == 0 {
		sim.nextPort++
		port = sim.nextPort
	}
	if sim.UDPErr != nil {
		if err := sim.UDPErr(port); err != nil {
			return nil, err
		}
	}
	if sim.udp[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	u := &UDPConn{addr: &net.UDPAddr{IP: ip, Port: port}}
	sim.udp[port] = u
	return u, nil
}

// ListenPacket is net.ListenPacket.
func ListenPacket(network, addr string) (net.PacketConn, error) {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	u, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return u, nil
}

var udpPeer = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5555}

// Read reads one datagram.
func (u *UDPConn) Read(b []byte) (int, error) {
	n, _, err := u.ReadFromUDP(b)
	return n, err
}

// ReadFrom reads one datagram.
func (u *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := u.ReadFromUDP(b)
	if err != nil {
		return n, nil, err
	}
	return n, a, nil
}

// ReadFromUDP reads one datagram.
func (u *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	vrt.BlockUntil("udp.read", u, func() bool { return u.closed || len(u.in) > 0 || len(u.errs) > 0 || expired(u.rdl) })
	if u.closed {
		return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
	}
	if len(u.errs) > 0 {
		err := u.errs[0]
		u.errs = u.errs[1:]
		vrt.SetState(u, uint64(len(u.in)))
		return 0, nil, err
	}
	if len(u.in) == 0 {
		return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
	}
	n := copy(b, u.in[0])
	u.in = u.in[1:]
	vrt.SetState(u, uint64(len(u.in)))
	return n, udpPeer, nil
}

// ReadMsgUDP reads one datagram.
func (u *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = u.ReadFromUDP(b)
	return n, 0, 0, addr, err
}

// Write discards data.
func (u *UDPConn) Write(b []byte) (int, error) { vrt.Point("udp.write", u); return len(b), nil }

// WriteTo discards data.
func (u *UDPConn) WriteTo(b []byte, a net.Addr) (int, error) {
	vrt.Point("udp.write", u)
	return len(b), nil
}

// WriteToUDP discards data.
func (u *UDPConn) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) { return u.WriteTo(b, a) }

// Close closes the socket.
func (u *UDPConn) Close() error {
	vrt.Point("udp.close", u)
	if u.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	u.closed = true
	if sim.udp[u.addr.Port] == u {
		delete(sim.udp, u.addr.Port)
	}
	vrt.SetState(u, 1<<40)
	return sim.closeErr("udp")
}

// LocalAddr returns the local address.
func (u *UDPConn) LocalAddr() net.Addr { return u.addr }

// RemoteAddr returns the remote address.
func (u *UDPConn) RemoteAddr() net.Addr { return nil }

// SetDeadline sets the read deadline.
func (u *UDPConn) SetDeadline(t time.Time) error { return u.SetReadDeadline(t) }

// SetReadDeadline sets the read deadline.
func (u *UDPConn) SetReadDeadline(t time.Time) error { u.rdl = deadline(t); return nil }

// SetWriteDeadline does nothing.
func (u *UDPConn) SetWriteDeadline(t time.Time) error { return nil }

// SetReadBuffer does nothing.
func (u *UDPConn) SetReadBuffer(int) error { return nil }

// SetWriteBuffer does nothing.
func (u *UDPConn) SetWriteBuffer(int) error { return nil }

// ---- name service ----

// LookupAddr resolves to what the scenario gives.
func LookupAddr(addr string) ([]string, error) {
	if sim != nil && sim.Names != nil {
		if n := sim.Names(addr); len(n) > 0 {
			return n, nil
		}
	}
	return nil, &net.DNSError{Err: "no such host", Name: addr, IsNotFound: true}
}

// LookupHost resolves to the loopback address.
func LookupHost(host string) ([]string, error) { return []string{"127.0.0.1"}, nil }

// LookupIP resolves to the loopback address.
func LookupIP(host string) ([]net.IP, error) { return []net.IP{net.IPv4(127, 0, 0, 1)}, nil }
