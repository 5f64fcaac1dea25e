//go:build go1.24

// Package vcontext replaces context: inside a controlled run deadlines follow
// virtual time and cancellation goes through scheduled channels.
package vcontext

import (
	"context"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type vctx struct {
	context.Context // the parent
	done            chan struct{}
	err, cause      error
	deadline        time.Time
	kids            []func(err, cause error)
	timer           *vsched.TimerHandle
}

type self struct{}

func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error            { return c.err }
func (c *vctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *vctx) Value(k any) any {
	if k == (self{}) {
		return c
	}
	return c.Context.Value(k)
}

// finish may run outside any goroutine (timers), so it is no scheduling point.
func (c *vctx) finish(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.timer != nil {
		c.timer.Stop()
	}
	vsched.CloseNow(c.done)
	for _, k := range c.kids {
		k(err, cause)
	}
}

func make_(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(self{}).(*vctx); ok {
		if p.err != nil {
			c.finish(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c.finish)
		}
	} else if parent.Err() != nil {
		c.finish(parent.Err(), context.Cause(parent))
	}
	return c
}

func (c *vctx) cancel(cause error) {
	vsched.Point("context cancel")
	c.finish(context.Canceled, cause)
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithCancel(parent)
	}
	c := make_(parent)
	return c, func() { c.cancel(nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if !vsched.Active() {
		return context.WithCancelCause(parent)
	}
	c := make_(parent)
	return c, c.cancel
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return WithDeadlineCause(parent, vsched.Now().Add(d), cause)
}

func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadlineCause(parent, t, cause)
	}
	c := make_(parent)
	if p, ok := parent.Deadline(); !ok || t.Before(p) {
		c.deadline = t
		if c.err == nil {
			c.timer = vsched.NewTimer(t.Sub(vsched.Now()), func() { c.finish(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(nil) }
}

func Cause(c context.Context) error {
	if v, ok := c.Value(self{}).(*vctx); ok {
		return v.cause
	}
	return context.Cause(c)
}

type without struct{ context.Context }

func (without) Done() <-chan struct{}       { return nil }
func (without) Err() error                  { return nil }
func (without) Deadline() (time.Time, bool) { return time.Time{}, false }
func (w without) Value(k any) any {
	if k == (self{}) {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return without{parent} }

func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	if !vsched.Active() {
		return context.AfterFunc(ctx, f)
	}
	c := make_(ctx)
	p := vsched.CurProc()
	ran, stopped := false, false
	run := func(error, error) {
		if !stopped && !ran {
			ran = true
			vsched.GoProc("afterfunc", p, f)
		}
	}
	if c.err != nil {
		run(nil, nil)
	} else {
		c.kids = append(c.kids, run)
	}
	return func() bool {
		was := !ran && !stopped
		stopped = true
		return was
	}
}
