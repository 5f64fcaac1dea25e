//go:build go1.24

// Package vsched is a controlled, cooperative scheduler. While a run is active
// exactly one managed goroutine executes at a time and every instrumented
// operation (locks, channels, timers, database and file operations) is a
// scheduling point whose outcome is decided by the explorer.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sort"
	"time"
)

// Killed is the panic value used to unwind goroutines of a finished run or a
// killed virtual process.
type Killed struct{ Why string }

// PointRec records one decision of a run.
type PointRec struct {
	N       int    // number of alternatives
	Cost    []int8 // deviation cost of each alternative
	Choice  int
	What    string
	Labels  []string // label of each alternative
	Choices bool     // environment choice rather than a scheduling one
}

// G is a managed goroutine.
type G struct {
	ID     int
	Name   string
	Pid    int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	what   string
	done   bool
	killed bool
	quiet  int
	proc   *Proc
	urgent bool // comes first by default once it is ready
	next   *G   // comes first by default when this one blocks or ends
}

// Proc is a virtual process.
type Proc struct {
	Pid      int
	Alive    bool
	ExitCode int
	OnDeath  []func()
	Points   int                   // decision points it has passed
	Hold     func(points int) bool // suspends the whole process while true
}

type timer struct {
	when   int64
	seq    int
	fire   func()
	active bool
}

// Opts configures one run.
type Opts struct {
	Choices    []int // decisions to replay; afterwards alternative 0
	MaxSteps   int   // step horizon (0: default)
	MaxTicks   int   // clock advance horizon (0: default)
	NoTimerPre bool  // never let a timer fire while a goroutine is enabled
	AllCost    bool // departing from the first choice costs 1 even without a preemption
	KeepLabels bool
	Now0       int64 // virtual time of the start
	Trace      bool
}

// Result describes one run.
type Result struct {
	Points   []PointRec
	Steps    int
	Runs     int // further executions made by the harness for this schedule
	Ticks    int
	Deadlock string
	Panic    string
	Horizon  bool // a horizon was hit
	Diverged string
	Leftover []string // goroutines still alive when main returned
	Crashed  bool     // ended by CrashAll
	Trace    []string
	Now      int64 // virtual time of the end
}

// S is the state of the active run.
type S struct {
	opts     Opts
	res      *Result
	gs       []*G
	cur      *G
	now      int64
	timers   []*timer
	tseq     int
	finish   chan struct{}
	ended    bool
	chans    map[uintptr]*shadow
	procs    map[int]*Proc
	nextPid  int
	exited   chan *G
	locals   map[any]any
	ignoring int
	frozen   bool
}

var s *S // active run; managed code only reads it while holding the baton

var base = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// Active reports whether a controlled run is in progress.
func Active() bool { return s != nil }

// Live reports whether a controlled run is in progress and the current
// goroutine is neither being unwound nor the run finished.
func Live() bool { return s != nil && !s.ended && (s.cur == nil || !s.cur.killed) }

// Dying reports whether the current goroutine is being unwound by a kill.
func Dying() bool { return s != nil && (s.ended || (s.cur != nil && s.cur.killed)) }

// Cur returns the current goroutine.
func Cur() *G {
	if s == nil {
		return nil
	}
	return s.cur
}

// Pid returns the virtual pid of the current goroutine (0 outside a run).
func Pid() int {
	if s == nil || s.cur == nil {
		return 0
	}
	return s.cur.Pid
}

// Local returns run-scoped storage created on first use.
func Local(key any, mk func() any) any {
	if s == nil {
		return nil
	}
	v, ok := s.locals[key]
	if !ok {
		v = mk()
		s.locals[key] = v
	}
	return v
}

// Run executes main under the scheduler with the given decisions.
func Run(opts Opts, main func()) *Result {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 20000
	}
	if opts.MaxTicks == 0 {
		opts.MaxTicks = 200
	}
	st := &S{opts: opts, res: &Result{}, finish: make(chan struct{}), chans: map[uintptr]*shadow{},
		procs: map[int]*Proc{}, nextPid: 1000, exited: make(chan *G), locals: map[any]any{}}
	st.now = opts.Now0
	s = st
	root := st.newProc()
	g := st.newG("main", root, main)
	st.cur = g
	g.wake <- struct{}{}
	<-st.finish
	// unwind what is left, one goroutine at a time
	for _, g := range st.gs {
		if g.done {
			continue
		}
		if g.ID != 0 && !g.killed {
			st.res.Leftover = append(st.res.Leftover, g.Name+": "+g.what)
		}
		st.reap(g)
	}
	s = nil
	st.res.Now = st.now
	return st.res
}

func (st *S) newProc() *Proc {
	p := &Proc{Pid: st.nextPid, Alive: true}
	st.nextPid++
	st.procs[p.Pid] = p
	return p
}

// reap unwinds a parked goroutine. Must be called while it is parked.
func (st *S) reap(g *G) {
	old := st.cur
	g.killed = true
	st.cur = g
	g.wake <- struct{}{}
	<-st.exited
	st.cur = old
}

func (st *S) newG(name string, p *Proc, f func()) *G {
	g := &G{ID: len(st.gs), Name: name, Pid: p.Pid, proc: p, wake: make(chan struct{}, 1)}
	st.gs = append(st.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if g.killed {
				// being reaped: hand the baton back to the reaper
				st.exited <- g
				return
			}
			if r != nil {
				if _, ok := r.(Killed); !ok {
					if r == errStop {
						// run ended by this goroutine
						close(st.finish)
						return
					}
					st.res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
					st.end()
					close(st.finish)
					return
				}
			}
			if g.ID == 0 {
				st.end()
				close(st.finish)
				return
			}
			if st.ended {
				close(st.finish)
				return
			}
			st.switchAway(g)
		}()
		if g.killed {
			panic(Killed{"reaped"})
		}
		f()
	}()
	return g
}

type stopT struct{}

var errStop = &stopT{}

func (st *S) end() { st.ended = true }

// stop ends the run from the current goroutine.
func (st *S) stop() {
	st.ended = true
	panic(errStop)
}

// switchAway picks the next goroutine after the current one finished.
func (st *S) switchAway(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if r == errStop {
				close(st.finish)
				return
			}
			panic(r)
		}
	}()
	n := st.pick(g, "exit", false)
	st.cur = n
	n.wake <- struct{}{}
}

// Go starts a managed goroutine (an ordinary one outside a run).
func Go(f func()) {
	if !Live() {
		if s != nil {
			return // dying goroutine: do not start anything
		}
		go f()
		return
	}
	GoProc("", s.cur.proc, f)
	Point("go")
}

// GoProc starts a managed goroutine belonging to p (nil: a new process).
func GoProc(name string, p *Proc, f func()) *Proc {
	if p == nil {
		p = s.newProc()
	}
	if name == "" {
		name = fmt.Sprintf("g%d", len(s.gs))
	}
	s.newG(name, p, f)
	return p
}

// Proc accessors
func CurProc() *Proc {
	if s == nil || s.cur == nil {
		return nil
	}
	return s.cur.proc
}

// FindProc returns a virtual process.
func FindProc(pid int) *Proc {
	if s == nil {
		return nil
	}
	return s.procs[pid]
}

// KillProc kills a virtual process: its goroutines vanish without running any
// further effect. Killing the current process unwinds the caller.
func KillProc(p *Proc, code int) {
	st := s
	if p == nil || !p.Alive {
		return
	}
	p.Alive = false
	p.ExitCode = code
	for _, g := range st.gs {
		if g.proc == p && !g.done && g != st.cur {
			st.reap(g)
		}
	}
	for _, f := range p.OnDeath {
		f()
	}
	if st.cur != nil && st.cur.proc == p {
		if st.cur.ID == 0 {
			st.stop()
		}
		st.cur.dieQuietly()
	}
}

func (g *G) dieQuietly() {
	panic(Killed{"process exit"})
}

// CrashAll ends the run as a machine crash would.
func CrashAll() {
	s.res.Crashed = true
	s.stop()
}

// Ignore runs f without scheduling points (for oracles inside a run).
func Ignore(f func()) {
	if s == nil {
		f()
		return
	}
	s.ignoring++
	defer func() { s.ignoring-- }()
	f()
}

// Ignoring reports whether scheduling points are currently disabled.
func Ignoring() bool { return s != nil && s.ignoring > 0 }

// Quiet runs f with decisions at this goroutine's operations left out: it goes
// on until it has to wait (for observers that must not multiply the schedules).
func Quiet(f func()) {
	if s == nil || s.cur == nil {
		f()
		return
	}
	g := s.cur
	g.quiet++
	defer func() { g.quiet-- }()
	f()
}

// Point is a preemption point.
func Point(what string) {
	st := s
	if st == nil || st.ended || st.cur.killed || st.ignoring > 0 {
		return
	}
	st.yield(what, nil)
}

// Block parks the goroutine until ready reports true (evaluated with the baton).
func Block(what string, ready func() bool) {
	st := s
	if st == nil {
		panic("vsched.Block outside a run")
	}
	if st.ended || st.cur.killed {
		if ready() {
			return
		}
		panic(Killed{"blocked while dying"})
	}
	if st.ignoring > 0 {
		if !ready() {
			panic("vsched: blocking operation inside an Ignore section: " + what)
		}
		return
	}
	st.yield(what, ready)
}

func (st *S) yield(what string, ready func() bool) {
	g := st.cur
	if g.quiet > 0 && (ready == nil || ready()) {
		return
	}
	g.ready, g.what = ready, what
	if g.proc != nil {
		g.proc.Points++
	}
	n := st.pick(g, what, true)
	if n != g {
		st.cur = n
		n.wake <- struct{}{}
		<-g.wake
		if g.killed {
			panic(Killed{"reaped"})
		}
		if st.ended {
			panic(Killed{"run ended"})
		}
	}
	g.ready = nil
}

func (g *G) enabled() bool {
	if g.done || g.killed || g.proc != nil && g.proc.Hold != nil && g.proc.Hold(g.proc.Points) {
		return false
	}
	return g.ready == nil || g.ready()
}

func (st *S) nextTimer() *timer {
	var best *timer
	for _, t := range st.timers {
		if t.active && (best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

// pick decides who runs next; fires timers when that alternative is chosen.
func (st *S) pick(g *G, what string, alive bool) *G {
	for {
		st.res.Steps++
		if st.res.Steps > st.opts.MaxSteps {
			st.res.Horizon = true
			st.stop()
		}
		var en []*G
		curEn := false
		first := 0
		for _, x := range st.gs {
			if x.urgent && x != g && x.enabled() {
				en = append(en, x)
				first++
			}
		}
		if alive && g.enabled() {
			en = append(en, g)
			curEn = true
			first++
		}
		for _, x := range st.gs {
			if x != g && !x.urgent && x.enabled() {
				en = append(en, x)
				if x == g.next && !curEn {
					copy(en[first+1:], en[first:])
					en[first] = x
				}
			}
		}
		t := st.nextTimer()
		n := len(en)
		tAlt := -1
		if t != nil && (n == 0 || !st.opts.NoTimerPre) {
			tAlt = n
			n++
		}
		if n == 0 {
			st.res.Deadlock = st.describe()
			st.stop()
		}
		c := 0
		if n > 1 {
			rec := PointRec{N: n, Cost: make([]int8, n), What: what}
			for i := range rec.Cost {
				switch {
				case i == tAlt && len(en) > 0:
					rec.Cost[i] = 1
				case i > 0 && (curEn || st.opts.AllCost):
					rec.Cost[i] = 1
				}
			}
			if st.opts.KeepLabels {
				for _, x := range en {
					rec.Labels = append(rec.Labels, fmt.Sprintf("%s@%s", x.Name, x.what))
				}
				if tAlt >= 0 {
					rec.Labels = append(rec.Labels, "timer")
				}
			}
			c = st.decide(&rec)
		}
		if st.opts.Trace {
			l := "timer"
			if c != tAlt {
				l = fmt.Sprintf("%s: %s", en[c].Name, en[c].what)
			}
			st.res.Trace = append(st.res.Trace, l)
		}
		if c == tAlt {
			st.res.Ticks++
			if st.res.Ticks > st.opts.MaxTicks {
				st.res.Horizon = true
				st.stop()
			}
			t.active = false
			st.dropTimers()
			if t.when > st.now {
				st.now = t.when
			}
			t.fire()
			continue
		}
		return en[c]
	}
}

// Freeze makes all further decisions of the run the default ones, without
// recording them (for the part of a run that only judges).
func Freeze() {
	if s != nil {
		s.frozen = true
	}
}

// Thaw ends Freeze.
func Thaw() {
	if s != nil {
		s.frozen = false
	}
}

// BlockUrgent is Block for a goroutine that by default goes on as soon as it
// is ready.
func BlockUrgent(what string, ready func() bool) {
	if s != nil && s.cur != nil {
		g := s.cur
		g.urgent = true
		defer func() { g.urgent = false }()
	}
	Block(what, ready)
}

// Call runs f in a goroutine of p and waits until it is over or p is gone. By
// default control passes to it and back.
func Call(name string, p *Proc, what string, f func()) (done bool) {
	g := s.cur
	GoProc(name, p, func() {
		defer func() { done = true }()
		f()
	})
	n := s.gs[len(s.gs)-1]
	n.next, g.next = g, n
	Block(what, func() bool { return done || !p.Alive })
	g.next = nil
	return done
}

func (st *S) decide(rec *PointRec) int {
	if st.frozen {
		return 0
	}
	i := len(st.res.Points)
	c := 0
	if i < len(st.opts.Choices) {
		c = st.opts.Choices[i]
		if c < 0 || c >= rec.N {
			st.res.Diverged = fmt.Sprintf("point %d (%s): choice %d of %d", i, rec.What, c, rec.N)
			st.stop()
		}
	}
	rec.Choice = c
	st.res.Points = append(st.res.Points, *rec)
	return c
}

// Choose is an environment choice with n alternatives; alternative 0 is the
// default and every other one costs one deviation.
func Choose(n int, what string) int { return choose(n, what, 1) }

// ChooseFree is an environment choice whose alternatives cost nothing.
func ChooseFree(n int, what string) int { return choose(n, what, 0) }

func choose(n int, what string, cost int8) int {
	st := s
	if st == nil || st.ended || st.cur.killed || n < 2 {
		return 0
	}
	rec := PointRec{N: n, Cost: make([]int8, n), What: what, Choices: true}
	for i := 1; i < n; i++ {
		rec.Cost[i] = cost
	}
	return st.decide(&rec)
}

func (st *S) describe() string {
	var l []string
	for _, g := range st.gs {
		if !g.done {
			l = append(l, fmt.Sprintf("%s blocked at %s", g.Name, g.what))
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func (st *S) dropTimers() {
	k := st.timers[:0]
	for _, t := range st.timers {
		if t.active {
			k = append(k, t)
		}
	}
	st.timers = k
}

// Timer support for the time shim.

// TimerHandle is a pending virtual timer.
type TimerHandle struct {
	t    *timer
	st   *S
	fire func()
}

// NewTimer arms a virtual timer.
func NewTimer(d time.Duration, fire func()) *TimerHandle {
	h := &TimerHandle{st: s, fire: fire}
	h.arm(d)
	return h
}

func (h *TimerHandle) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	st := h.st
	st.tseq++
	h.t = &timer{when: st.now + int64(d), seq: st.tseq, fire: h.fire, active: true}
	st.timers = append(st.timers, h.t)
}

// Stop disarms the timer and reports whether it was armed.
func (h *TimerHandle) Stop() bool {
	was := h.t.active
	h.t.active = false
	if h.st == s && s != nil {
		h.st.dropTimers()
	}
	return was
}

// Reset re-arms the timer and reports whether it was armed.
func (h *TimerHandle) Reset(d time.Duration) bool {
	was := h.Stop()
	if h.st == s && s != nil {
		h.arm(d)
	}
	return was
}

// Now is the virtual time; every reading is distinct.
func Now() time.Time {
	s.now += 1000
	return base.Add(time.Duration(s.now))
}

// Sleep blocks for virtual time.
func Sleep(d time.Duration) {
	fired := false
	NewTimer(d, func() { fired = true })
	Block("sleep", func() bool { return fired })
}
