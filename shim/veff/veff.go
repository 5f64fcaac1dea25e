//go:build go1.24

// Package veff is the effect layer: every mutation of the filesystem or the
// database by instrumented code passes through Do, where it can be counted,
// recorded, failed, torn or turned into the crash point.
package veff

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Crash is the panic value that abandons an operation at its crash point.
type Crash struct{ W *World }

var (
	// ErrCrashed is what every effect after the crash point returns.
	ErrCrashed = errors.New("verif: effect after the crash point")
	// ErrInjected is the injected failure.
	ErrInjected = syscall.ENOSPC
)

// World is a scratch base directory whose effects are controlled.
type World struct {
	Root    string
	mu      sync.Mutex
	N       int // effects attempted since Arm
	Torn    int // tearable effects among them: recorded per effect in Tears
	Tears   []int
	CrashAt int
	Tear    int // 0: before the effect; i>0: i-th torn variant
	FailAt  int
	Crashed bool
	Failed  string
	Record  bool
	Log     []string
	Allow   func(path string) bool // extra containment rule (nil: anything below Root)
	Escapes []string
	// Watch sees the counters after each attempted effect.
	Watch func(n int, tears []int)
	// After is called after each performed effect (with the world's lock held).
	After func(op, path, path2 string)
}

var (
	mu     sync.RWMutex
	worlds = map[string]*World{}
	// Outside lists attempted effects outside every world.
	outside []string
	// ReadPoints makes read operations scheduling points.
	ReadPoints = true
	// NoPoint exempts paths from scheduling points and effect counting.
	NoPoint func(path string) bool
)

// Etc stands in for the directory of the CDN lists when it is set.
var Etc string

// Map redirects paths below /etc/ferryd to the stand-in.
func Map(p string) string {
	if Etc != "" && (p == "/etc/ferryd" || strings.HasPrefix(p, "/etc/ferryd/")) {
		return Etc + p[len("/etc/ferryd"):]
	}
	return p
}

// Depth is the number of path components of world roots.
var Depth = 5 // /dev/shm/vmc.X/run/wN

func key(p string) string {
	n := 0
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			n++
			if n == Depth+1 {
				return p[:i]
			}
		}
	}
	if n == Depth {
		return p
	}
	return ""
}

// Register adds a world; its root must have Depth components.
func Register(w *World) {
	if key(w.Root) != w.Root {
		panic("bad world root " + w.Root)
	}
	mu.Lock()
	worlds[w.Root] = w
	mu.Unlock()
}

// Unregister removes a world.
func Unregister(w *World) {
	mu.Lock()
	delete(worlds, w.Root)
	mu.Unlock()
}

// Find returns the world a path belongs to.
func Find(path string) *World {
	a, err := filepath.Abs(path)
	if err != nil {
		return nil
	}
	mu.RLock()
	defer mu.RUnlock()
	return worlds[key(a)]
}

// TakeOutside returns and clears the effects attempted outside all worlds.
func TakeOutside() []string {
	mu.Lock()
	defer mu.Unlock()
	o := outside
	outside = nil
	return o
}

// Arm resets counters and sets the crash and failure points (0: none).
func (w *World) Arm(crashAt, tear, failAt int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.N, w.CrashAt, w.Tear, w.FailAt, w.Crashed, w.Failed = 0, crashAt, tear, failAt, false, ""
	w.Tears = nil
	w.Log = nil
}

// Do performs one effect. variants is the number of torn variants it has.
func Do(op string, path string, path2 string, variants int, apply func() error, torn func(variant int)) error {
	if NoPoint != nil && NoPoint(path) {
		return apply()
	}
	if vsched.Dying() {
		return ErrCrashed
	}
	vsched.Point(op)
	w := Find(path)
	if w == nil || (w.Allow != nil && !w.Allow(path)) {
		return escape(w, op, path)
	}
	if path2 != "" {
		if w2 := Find(path2); w2 == nil || (w2.Allow != nil && !w2.Allow(path2)) {
			return escape(w2, op, path2)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.Crashed {
		return ErrCrashed
	}
	w.N++
	w.Tears = append(w.Tears, variants)
	if w.Watch != nil {
		w.Watch(w.N, w.Tears)
	}
	if w.Record {
		l := op + " " + strings.TrimPrefix(path, w.Root)
		if path2 != "" {
			l += " -> " + strings.TrimPrefix(path2, w.Root)
		}
		w.Log = append(w.Log, l)
	}
	if w.N == w.CrashAt {
		if w.Tear > 0 && torn != nil {
			torn(w.Tear)
		}
		w.Crashed = true
		if vsched.Active() {
			vsched.CrashAll()
		}
		panic(Crash{w})
	}
	if w.N == w.FailAt {
		w.Failed = fmt.Sprintf("%s %s", op, strings.TrimPrefix(path, w.Root))
		return ErrInjected
	}
	err := apply()
	if err == nil && w.After != nil {
		w.After(op, path, path2)
	}
	return err
}

func escape(w *World, op, path string) error {
	mu.Lock()
	defer mu.Unlock()
	l := op + " " + path
	if w != nil {
		w.Escapes = append(w.Escapes, l)
	} else {
		outside = append(outside, l)
	}
	return syscall.EPERM
}

// Read marks a read operation (a scheduling point when enabled).
func Read(op, path string) {
	if ReadPoints && (NoPoint == nil || !NoPoint(path)) {
		vsched.Point(op)
	}
}

// SetDepth sets the number of path components of world roots.
func SetDepth(n int) {
	mu.Lock()
	Depth = n
	mu.Unlock()
}
