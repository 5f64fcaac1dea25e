//go:build go1.24

package vtime

import (
	"time"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Now is virtual inside a controlled run.
func Now() time.Time {
	if vsched.Active() {
		return vsched.Now()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if vsched.Active() {
		if vsched.Live() {
			vsched.Sleep(d)
		}
		return
	}
	time.Sleep(d)
}

// Timer replaces time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	h    *vsched.TimerHandle
	real *time.Timer
	fun  bool
}

func NewTimer(d time.Duration) *Timer {
	if !vsched.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.h = vsched.NewTimer(d, func() { vsched.Deliver(c, vsched.Now()) })
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{real: time.AfterFunc(d, f), fun: true}
	}
	t := &Timer{fun: true}
	p := vsched.CurProc()
	t.h = vsched.NewTimer(d, func() { vsched.GoProc("timerfunc", p, f) })
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if !vsched.Active() {
		return false
	}
	vsched.Point("timer stop")
	was := t.h.Stop()
	t.drain(&was)
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if !vsched.Active() {
		return false
	}
	vsched.Point("timer reset")
	was := t.h.Stop()
	t.drain(&was)
	t.h.Reset(d)
	return was
}

// drain gives Stop and Reset their Go 1.23 semantics: no stale value remains.
func (t *Timer) drain(was *bool) {
	if t.c != nil && vsched.Drain(t.c) {
		*was = true
	}
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	real *time.Ticker
	h    *vsched.TimerHandle
	d    time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if !vsched.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, d: d}
	t.h = vsched.NewTimer(d, func() {
		vsched.Deliver(c, vsched.Now())
		t.h.Reset(t.d)
	})
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.h.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.d = d
	t.h.Reset(d)
}
