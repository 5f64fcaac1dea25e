//go:build go1.24

// Package vfsnotify replaces fsnotify: events are injected by the harness with
// the semantics of the real watcher (unbuffered channels, one reader loop).
package vfsnotify

import (
	"os"

	real "github.com/radu-munteanu/fsnotify"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type (
	Event = real.Event
	Op    = real.Op
)

const (
	Create = real.Create
	Write  = real.Write
	Remove = real.Remove
	Rename = real.Rename
	Chmod  = real.Chmod
	Update = real.Update
	Close  = real.Close
)

var ErrEventOverflow = real.ErrEventOverflow

// Watcher replaces fsnotify.Watcher.
type Watcher struct {
	Events chan Event
	Errors chan error
	Pid    int
	Dirs   []string
	closed bool
	over   bool
	done   chan struct{}
	feed   []any
}

type key struct{}

// All returns the watchers created in this run.
func All() *[]*Watcher {
	r := vsched.Local(key{}, func() any { return &[]*Watcher{} })
	if r == nil {
		return &[]*Watcher{}
	}
	return r.(*[]*Watcher)
}

func NewWatcher() (*Watcher, error) {
	w := &Watcher{Events: make(chan Event), Errors: make(chan error), done: make(chan struct{}), Pid: vsched.Pid()}
	l := All()
	*l = append(*l, w)
	if vsched.Live() {
		vsched.GoProc("fsnotify", vsched.CurProc(), w.loop)
	}
	return w, nil
}

// loop is the watcher's reader goroutine: it hands queued kernel events to the
// program one by one, blocking until each is received or the watcher is closed.
// Like the real one it leaves out events, other than removals, of files that
// are gone by then.
func (w *Watcher) loop() {
	for {
		vsched.Block("inotify read", func() bool { return len(w.feed) > 0 || w.closed })
		if w.closed {
			break
		}
		x := w.feed[0]
		w.feed = w.feed[1:]
		var c vsched.Case
		switch v := x.(type) {
		case Event:
			if v.Op&(Remove|Rename) == 0 {
				if _, err := os.Lstat(v.Name); os.IsNotExist(err) {
					continue
				}
			}
			c = vsched.SC[Event](w.Events)(v)
		case error:
			c = vsched.SC[error](w.Errors)(v)
		}
		if vsched.Sel(false, c, vsched.RC(w.done)) == 1 {
			break
		}
	}
	vsched.Close(w.Events)
	vsched.Close(w.Errors)
	w.over = true
}

// Feed queues a kernel event or error.
func (w *Watcher) Feed(x any) { w.feed = append(w.feed, x) }

// Pending reports undelivered events.
func (w *Watcher) Pending() int { return len(w.feed) }

func (w *Watcher) Add(dir string) error {
	w.Dirs = append(w.Dirs, dir)
	return nil
}

func (w *Watcher) Remove(dir string) error { return nil }

func (w *Watcher) Close() error {
	if w.closed {
		return nil
	}
	w.closed = true
	if vsched.Live() {
		vsched.Close(w.done)
		vsched.Block("watcher close", func() bool { return w.over })
	}
	return nil
}
