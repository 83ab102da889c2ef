// Package vtime replaces package time in instrumented code: the clock is the
// virtual clock of the controlled execution.
package vtime

import (
	"time"

	"verif.local/mc/shim/vrt"
)

// Now returns the virtual time.
func Now() time.Time {
	if !vrt.Active() {
		return time.Now()
	}
	return time.Unix(0, vrt.Epoch+vrt.Now()).UTC()
}

// Since is time.Since on the virtual clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the virtual clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep pauses the calling thread in virtual time.
func Sleep(d time.Duration) {
	if d <= 0 {
		vrt.Yield()
		return
	}
	vrt.Sleep(int64(d))
}

// Timer is a virtual timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	h vrt.TimerHandle
}

func (t *Timer) start(d time.Duration) {
	t.h = vrt.AddTimer(int64(d), func() {
		if t.f != nil {
			vrt.SpawnNow("timer", t.f)
			return
		}
		vrt.TrySendNow(t.c, time.Unix(0, vrt.Epoch+vrt.Now()).UTC())
	})
}

// NewTimer creates a timer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc runs f in its own thread after d.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After returns a channel that delivers the time after d.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	vrt.Point("timer.stop", t)
	return vrt.StopTimer(t.h)
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	vrt.Point("timer.reset", t)
	was := vrt.StopTimer(t.h)
	t.start(d)
	return was
}

// Ticker is a virtual ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	h vrt.TimerHandle
}

func (t *Ticker) start() {
	t.h = vrt.AddTimer(int64(t.d), func() {
		vrt.TrySendNow(t.c, time.Unix(0, vrt.Epoch+vrt.Now()).UTC())
		t.start()
	})
}

// NewTicker creates a ticker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Stop stops the ticker.
func (t *Ticker) Stop() { vrt.Point("ticker.stop", t); vrt.StopTimer(t.h) }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	vrt.Point("ticker.reset", t)
	vrt.StopTimer(t.h)
	t.d = d
	t.start()
}
