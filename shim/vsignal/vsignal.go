//go:build go1.24

// Package vsignal replaces os/signal: signals are delivered by the harness.
package vsignal

import (
	"context"
	"os"

	"github.com/getsolus/ferryd/src/verifmc/vcontext"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type regs struct {
	byPid map[int][]chan<- os.Signal
}

type key struct{}

func get() *regs {
	r := vsched.Local(key{}, func() any { return &regs{byPid: map[int][]chan<- os.Signal{}} })
	if r == nil {
		return &regs{byPid: map[int][]chan<- os.Signal{}}
	}
	return r.(*regs)
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	r := get()
	r.byPid[vsched.Pid()] = append(r.byPid[vsched.Pid()], c)
}

func Stop(c chan<- os.Signal) {
	r := get()
	var keep []chan<- os.Signal
	for _, o := range r.byPid[vsched.Pid()] {
		if o != c {
			keep = append(keep, o)
		}
	}
	r.byPid[vsched.Pid()] = keep
}

// NotifyContext is cancelled by the first of the signals.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := vcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	if vsched.Active() && ctx.Err() == nil {
		vsched.Go(func() {
			r, d := vsched.RC((<-chan os.Signal)(ch)), vsched.RC(ctx.Done())
			if vsched.Sel(false, r, d) == 0 {
				cancel()
			}
		})
	}
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}

// Registered reports whether a process has asked for signals.
func Registered(pid int) bool { return len(get().byPid[pid]) > 0 }

// Send delivers a signal to a virtual process.
func Send(pid int, sig os.Signal) bool {
	ok := false
	for _, c := range get().byPid[pid] {
		ok = vsched.DeliverS(c, sig) || ok
	}
	return ok
}
