// Package vctx replaces package context in instrumented code and harnesses.
package vctx

import (
	"context"
	"time"

	"verif.local/mc/shim/vrt"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
	deadline time.Time
	hasDL    bool
	timer    vrt.TimerHandle
	after    []func()
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { vrt.Point("ctx.err", c); return c.err }
func (c *ctx) Value(k any) any {
	if k == ctxKey {
		return c
	}
	return c.parent.Value(k)
}

type keyType struct{}

var ctxKey = keyType{}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	vrt.StopTimer(c.timer)
	vrt.CloseNow(c.done)
	for _, f := range c.after {
		vrt.SpawnNow("ctx.AfterFunc", f)
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { vrt.Point("ctx.cancel", c); c.cancel(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { vrt.Point("ctx.cancel", c); c.cancel(context.Canceled, e) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline, c.hasDL = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	left := c.deadline.UnixNano() - vrt.Epoch - vrt.Now()
	if c.err == nil {
		if left <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.timer = vrt.AddTimer(left, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { vrt.Point("ctx.cancel", c); c.cancel(context.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Unix(0, vrt.Epoch+vrt.Now()+int64(d)).UTC())
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, vrt.Epoch+vrt.Now()+int64(d)).UTC(), cause)
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(ctxKey).(*ctx); ok {
		return p.cause
	}
	return c.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(c context.Context, f func()) func() bool {
	p, ok := c.Value(ctxKey).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	if p.err != nil {
		vrt.Go(f)
		return func() bool { return false }
	}
	stopped, ran := false, false
	p.after = append(p.after, func() {
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}
