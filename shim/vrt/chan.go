package vrt

import "reflect"

type chanState struct {
	keep   any
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

type selState struct {
	done bool
	idx  int
	val  any
	ok   bool
	bad  bool // send on a channel closed while waiting
}

type waiter struct {
	sel *selState
	idx int
	val any
}

func state(ch any) *chanState {
	v := reflect.ValueOf(ch)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	if c, ok := r.chans[p]; ok {
		return c
	}
	c := &chanState{keep: ch, cap: v.Cap()}
	// values put into the real channel outside the controlled execution
	r.chans[p] = c
	return c
}

func live(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if !w.sel.done {
			out = append(out, w)
		}
	}
	return out
}

// Case is one communication clause of a select.
type Case struct {
	ch   any
	send bool
	val  any
}

// SendCase builds a send clause.
func SendCase[T any](ch chan<- T, v T) Case { return Case{ch: ch, send: true, val: v} }

// RecvCase builds a receive clause.
func RecvCase[T any](ch <-chan T) Case { return Case{ch: ch} }

// Sel is the result of Select.
type Sel struct {
	Index int
	Val   any
	Ok    bool
}

func (c *chanState) note() {
	v := uint64(len(c.buf))<<8 | uint64(len(c.recvq))<<16 | uint64(len(c.sendq))<<24
	if c.closed {
		v |= 1
	}
	SetState(c, v)
}

func (c *chanState) canRecv() bool {
	c.sendq = live(c.sendq)
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (c *chanState) canSend() bool {
	c.recvq = live(c.recvq)
	return c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap
}

func (c *chanState) doRecv() (any, bool) {
	defer c.note()
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			w.sel.done, w.sel.idx = true, w.idx
			c.buf = append(c.buf, w.val)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.sel.done, w.sel.idx = true, w.idx
		return w.val, true
	}
	return nil, false
}

func (c *chanState) doSend(v any) {
	defer c.note()
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		return
	}
	c.buf = append(c.buf, v)
}

// Select performs a select statement; Index is -1 for the default clause.
func Select(hasDefault bool, cases ...Case) Sel {
	if r == nil || r.o.Pure {
		return realSelect(hasDefault, cases)
	}
	Point("select", nil)
	var ready []int
	for i, cs := range cases {
		c := state(cs.ch)
		if c == nil {
			continue
		}
		if cs.send && c.canSend() || !cs.send && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[ChooseCost(len(ready))]
		c := state(cases[i].ch)
		if cases[i].send {
			c.doSend(cases[i].val)
			return Sel{Index: i}
		}
		v, ok := c.doRecv()
		return Sel{Index: i, Val: v, Ok: ok}
	}
	if hasDefault {
		return Sel{Index: -1}
	}
	sel := &selState{}
	var first any
	for i, cs := range cases {
		c := state(cs.ch)
		if c == nil {
			continue
		}
		if first == nil {
			first = c
		}
		w := &waiter{sel: sel, idx: i, val: cs.val}
		if cs.send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
		c.note()
	}
	BlockUntil("chan", first, func() bool { return sel.done })
	if sel.bad {
		panic("send on closed channel")
	}
	return Sel{Index: sel.idx, Val: sel.val, Ok: sel.ok}
}

func realSelect(hasDefault bool, cases []Case) Sel {
	var rc []reflect.SelectCase
	for _, c := range cases {
		if c.send {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(c.val)})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if hasDefault && i == len(cases) {
		return Sel{Index: -1}
	}
	s := Sel{Index: i, Ok: ok}
	if ok {
		s.Val = v.Interface()
	}
	return s
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) { Select(false, SendCase(ch, v)) }

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { return conv[T](Select(false, RecvCase(ch)).Val) }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := Select(false, RecvCase(ch))
	return conv[T](s.Val), s.Ok
}

// SelVal converts the value received by a select clause.
func SelVal[T any](ch <-chan T, s Sel) T { return conv[T](s.Val) }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if r == nil || r.o.Pure {
		close(ch)
		return
	}
	Point("close", nil)
	CloseNow(ch)
}

// CloseNow closes a channel without a scheduling point (timer context).
func CloseNow[T any](ch chan<- T) {
	c := state(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for _, w := range live(c.recvq) {
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, false
	}
	for _, w := range live(c.sendq) {
		w.sel.done, w.sel.idx, w.sel.bad = true, w.idx, true
	}
	c.recvq, c.sendq = nil, nil
	c.note()
}

// TrySendNow performs a non-blocking send without a scheduling point.
func TrySendNow[T any](ch chan<- T, v T) bool {
	c := state(ch)
	if c == nil || c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

// DrainNow discards buffered values without a scheduling point.
func DrainNow[T any](ch <-chan T) {
	if c := state(ch); c != nil {
		c.buf = nil
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if r == nil || r.o.Pure {
		return len(ch)
	}
	Point("chanlen", nil)
	if c := state(ch); c != nil {
		return len(c.buf)
	}
	return 0
}

// IsClosed reports whether a channel is closed, without a scheduling point.
func IsClosed(ch any) bool {
	c := state(ch)
	return c != nil && c.closed
}

// SendTo returns a function sending to ch.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// SendCaseTo returns a function building a send clause.
func SendCaseTo[T any](ch chan<- T) func(T) Case { return func(v T) Case { return SendCase(ch, v) } }
