//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vhttp"
	"github.com/getsolus/ferryd/src/verifmc/vos"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
	"github.com/getsolus/ferryd/src/verifmc/vsignal"
)

func silence(f *os.File) { vos.Stderr.File = f }

// tenure is what one process did in the base directory.
type tenure struct {
	first, last int
	firstOp     string
	lastOp      string
	n           int
}

// ledger records which process performed each effect.
type ledger struct {
	w    *lib.World
	by   map[int]*tenure
	n    int
	note func(pid, n int) // called with the effects of pid so far
}

// follow attributes every effect to its process. Opening the lock file is what
// every contender may do.
func follow(w *lib.World) *ledger {
	l := &ledger{w: w, by: map[int]*tenure{}}
	lock := filepath.Join(w.Base, "ferryd.lock")
	w.Eff.After = func(op, p, p2 string) {
		l.n++
		if op == "create" && p == lock {
			return
		}
		pid := vsched.Pid()
		t := l.by[pid]
		what := op + " " + strings.TrimPrefix(p, w.Root)
		if t == nil {
			t = &tenure{first: l.n, firstOp: what}
			l.by[pid] = t
		}
		t.last, t.lastOp = l.n, what
		t.n++
	}
	return l
}

func (l *ledger) effects(pid int) int {
	if t := l.by[pid]; t != nil {
		return t.n
	}
	return 0
}

// overlaps reports processes that owned the directory at the same time.
func (l *ledger) overlaps(ds []*daemon) (out []string) {
	for i, a := range ds {
		for _, b := range ds[i+1:] {
			x, y := l.by[a.p.Pid], l.by[b.p.Pid]
			if x == nil || y == nil {
				continue
			}
			if x.first < y.last && y.first < x.last {
				out = append(out, fmt.Sprintf("daemon %d worked there from %q to %q, daemon %d from %q to %q", a.p.Pid, x.firstOp, x.lastOp, b.p.Pid, y.firstOp, y.lastOp))
			}
		}
	}
	return
}

// queued is a base directory whose job queue holds work.
func queued(w *lib.World, j *jobs.JobEntry) *lib.Snap {
	w.Restore(emptySnap)
	m, err := w.Open()
	if err != nil {
		panic(err)
	}
	m.Close()
	s, err := jobs.NewStore(w.Base)
	if err != nil {
		panic(err)
	}
	s.PushSequentialJob(j)
	s.Close()
	return w.Take()
}

// ownership is one running C24 scenario.
type ownership struct {
	w   *lib.World
	l   *ledger
	ds  []*daemon
	out []lib.Issue
}

func (x *ownership) bad(key, f string, a ...any) {
	x.out = append(x.out, lib.Issue{Prop: "C24", Key: key, Text: fmt.Sprintf(f, a...)})
}

func (x *ownership) launch() *daemon {
	d := launch(x.w, false)
	x.ds = append(x.ds, d)
	return d
}

// reached waits until the daemon has had n effects, is gone, or has long had
// nothing to do any more.
func (x *ownership) reached(what string, d *daemon, n int) {
	idle := vsched.Now().Add(time.Minute)
	vsched.Block(what, func() bool { return !d.p.Alive || x.l.effects(d.p.Pid) >= n || vsched.Now().After(idle) })
}

// helper runs f concurrently.
func (x *ownership) helper(name string, f func()) {
	vsched.GoProc(name, vsched.CurProc(), f)
}

// alive lists the daemons that still run.
func (x *ownership) alive() (l []*daemon) {
	for _, d := range x.ds {
		if d.p.Alive {
			l = append(l, d)
		}
	}
	return
}

// settle waits until every daemon is gone or serving and nobody is starting.
func (x *ownership) settle() {
	vsched.Block("settled", func() bool {
		a := x.alive()
		return len(a) == 0 || len(a) == 1 && vhttp.Served(sock(x.w)) != nil
	})
}

// finish ends the owner, checks that a newcomer is refused before and accepted
// afterwards, and judges the history.
func (x *ownership) finish() {
	x.settle()
	vsched.Freeze()
	vsched.Quiet(func() {
		if l := x.alive(); len(l) == 1 {
			late := x.launch()
			late.gone()
			if !l[0].p.Alive || vhttp.Served(sock(x.w)) == nil {
				x.bad("a refused daemon disturbs the owner", "after the refused one was gone: owner alive=%v, socket served=%v", l[0].p.Alive, vhttp.Served(sock(x.w)) != nil)
			} else if _, err := client(x.w).GetStatus(); err != nil {
				x.bad("a refused daemon disturbs the owner", "status: %v", err)
			}
			if x.l.by[late.p.Pid] != nil {
				x.bad("a daemon started although another one owns the directory", "first effect %q", x.l.by[late.p.Pid].firstOp)
			}
			vsched.Block("signals", func() bool { return !l[0].p.Alive || vsignal.Registered(l[0].p.Pid) })
			vsignal.Send(l[0].p.Pid, syscall.SIGTERM)
			l[0].gone()
		}
		next := launch(x.w, true)
		x.ds = append(x.ds, next)
		if !next.up() {
			x.bad("no daemon can start after the owner is gone", "it exits with %d", next.p.ExitCode)
		} else {
			if _, err := client(x.w).GetStatus(); err != nil {
				x.bad("no daemon can start after the owner is gone", "status: %v", err)
			}
			// it works: the queued job is run
			for i := 0; ; i++ {
				st, err := client(x.w).GetStatus()
				if err == nil && len(st.CurrentJobs) == 0 {
					break
				}
				if i == 20 {
					x.bad("a daemon started after another one does no work", "%v %v", st, err)
					break
				}
				vsched.Sleep(3 * time.Second)
			}
			vsched.Block("signals", func() bool { return vsignal.Registered(next.p.Pid) })
			next.term()
		}
	})
	for _, t := range x.l.overlaps(x.ds) {
		x.bad("two daemons own the directory at once", "%s", t)
	}
}

func ownerScenarios() (scen []lib.Scenario) {
	var base, busy *lib.Snap
	prep := func(w *lib.World) {
		if base == nil {
			base = queued(w, jobs.NewIndexRepoJob("none"))
			busy = queued(w, jobs.NewCreateRepoJob("a"))
		}
	}
	add := func(name string, bound int, variants int, body func(x *ownership, v int)) {
		scen = append(scen, lib.Scenario{Name: name, Bound: bound, Prepare: prep, Opts: vsched.Opts{AllCost: true, NoTimerPre: true, MaxTicks: 400, MaxSteps: 40000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
			if strings.Contains(name, "stop") {
				reset(w, busy)
			} else {
				reset(w, base)
			}
			x := &ownership{w: w}
			res := vsched.Run(o, func() {
				x.l = follow(w)
				v := vsched.ChooseFree(variants, "variant")
				body(x, v)
				x.finish()
			})
			over(w)
			return res, append(x.out, ended("C24", res)...)
		}})
	}
	q := func(a, b int) int { return lib.Pick(a, b) }
	lockFile := func(w *lib.World, v int) {
		p := filepath.Join(w.Base, "ferryd.lock")
		switch v {
		case 1:
			os.WriteFile(p, nil, 0644)
		case 2:
			os.WriteFile(p, []byte("garbage"), 0644)
		case 3: // a live process that is no daemon
			os.WriteFile(p, []byte("1000"), 0644)
		case 4: // a number that the next daemon will get
			os.WriteFile(p, []byte("1001"), 0644)
		case 5: // nobody
			os.WriteFile(p, []byte("99999999"), 0644)
		case 6: // left over socket
			os.WriteFile(p, []byte("77"), 0644)
			syscall.Mknod(sock(w), syscall.S_IFSOCK|0755, 0)
		}
	}
	add("two daemons start at once", q(2, 3), 7, func(x *ownership, v int) {
		lockFile(x.w, v)
		x.launch()
		x.launch()
		x.settle()
		if len(x.alive()) != 1 {
			x.bad("nobody wins", "two daemons started at once on an unowned directory and both gave up")
		}
	})
	add("three daemons start at once", q(1, 2), 7, func(x *ownership, v int) {
		lockFile(x.w, v)
		x.launch()
		x.launch()
		x.launch()
		x.settle()
		if len(x.alive()) != 1 {
			x.bad("nobody wins", "three daemons started at once on an unowned directory and all gave up")
		}
	})
	// the owner is asked to stop after every number of its effects
	stopAt := func(x *ownership, a *daemon, v int, sig string) {
		x.helper(sig, func() {
			x.reached(sig, a, v)
			if sig == "kill" {
				vsched.KillProc(a.p, 9)
				return
			}
			vsched.Block(sig, func() bool { return !a.p.Alive || vsignal.Registered(a.p.Pid) })
			vsignal.Send(a.p.Pid, syscall.SIGTERM)
		})
	}
	add("a daemon is killed and another starts", q(1, 2), 24, func(x *ownership, v int) {
		a := x.launch()
		stopAt(x, a, v, "kill")
		x.reached("second start", a, v)
		x.launch()
		a.gone()
	})
	add("a daemon is killed, then two start at once", q(1, 1), 12, func(x *ownership, v int) {
		a := x.launch()
		stopAt(x, a, 2*v, "kill")
		a.gone()
		x.launch()
		x.launch()
		x.settle()
		if len(x.alive()) != 1 {
			x.bad("nobody wins", "two daemons started at once after the owner was killed and both gave up")
		}
	})
	add("a daemon stops while another tries to start", q(2, 2), 3, func(x *ownership, v int) {
		a := x.launch()
		a.up()
		if v > 0 {
			vsched.Sleep(3 * time.Second) // a job is being run, or was
		}
		vsched.Block("signals", func() bool { return vsignal.Registered(a.p.Pid) })
		vsignal.Send(a.p.Pid, syscall.SIGTERM)
		if v == 2 {
			vsignal.Send(a.p.Pid, syscall.SIGTERM)
		}
		var retry func(n int)
		retry = func(n int) {
			b := x.launch()
			vsched.Block("retry", func() bool { return !b.p.Alive || vhttp.Served(sock(x.w)) != nil && !a.p.Alive })
			if !b.p.Alive && n < 4 {
				retry(n + 1)
			}
		}
		retry(0)
		a.gone()
	})
	add("a daemon stops while two others start", q(1, 2), 1, func(x *ownership, v int) {
		a := x.launch()
		a.up()
		vsched.Block("signals", func() bool { return vsignal.Registered(a.p.Pid) })
		vsignal.Send(a.p.Pid, syscall.SIGTERM)
		x.launch()
		x.launch()
		a.gone()
	})
	add("a stopping daemon is killed while another starts", q(1, 2), 16, func(x *ownership, v int) {
		a := x.launch()
		a.up()
		vsched.Block("signals", func() bool { return vsignal.Registered(a.p.Pid) })
		n := x.l.effects(a.p.Pid)
		vsignal.Send(a.p.Pid, syscall.SIGTERM)
		stopAt(x, a, n+v, "kill")
		x.reached("second start", a, n+v)
		x.launch()
		a.gone()
	})
	// one of them does not get to run from some moment of its start on, until
	// another one has taken over; of its end, until others have tried
	add("a starting daemon is suspended while the owner is replaced", q(1, 2), 2*16, func(x *ownership, v int) {
		a := x.launch()
		a.up()
		var c *daemon
		b := x.launch()
		b.p.Hold = func(n int) bool {
			return n >= v/2 && (c == nil || c.p.Alive && vhttp.Served(sock(x.w)) == nil)
		}
		vsched.Block("suspended", func() bool { return !b.p.Alive || b.p.Points >= v/2 })
		if v%2 == 0 {
			vsched.KillProc(a.p, 9)
		} else {
			vsched.Block("signals", func() bool { return !a.p.Alive || vsignal.Registered(a.p.Pid) })
			vsignal.Send(a.p.Pid, syscall.SIGTERM)
		}
		a.gone()
		c = x.launch()
	})
	add("a stopping daemon is suspended while others start", q(1, 2), 48, func(x *ownership, v int) {
		a := x.launch()
		a.up()
		vsched.Block("signals", func() bool { return vsignal.Registered(a.p.Pid) })
		at, free := a.p.Points+v, false
		a.p.Hold = func(n int) bool { return n >= at && !free }
		vsignal.Send(a.p.Pid, syscall.SIGTERM)
		vsched.Block("suspended", func() bool { return !a.p.Alive || a.p.Points >= at })
		b, c := x.launch(), x.launch()
		vsched.Block("others tried", func() bool {
			return !b.p.Alive && !c.p.Alive || !(b.p.Alive && c.p.Alive) && vhttp.Served(sock(x.w)) != nil
		})
		free = true
		a.gone()
	})
	add("a daemon that cannot bind, then another", q(1, 2), 3, func(x *ownership, v int) {
		switch v {
		case 0:
			os.WriteFile(sock(x.w), []byte("not a socket"), 0644)
		case 1:
			os.Mkdir(sock(x.w), 0755)
		case 2:
			x.w.Eff.FailAt = 4
		}
		a := x.launch()
		b := x.launch()
		vsched.Block("first attempts over", func() bool {
			return (!a.p.Alive || vhttp.Served(sock(x.w)) != nil) && (!b.p.Alive || vhttp.Served(sock(x.w)) != nil)
		})
		x.w.Eff.FailAt = 0
		os.RemoveAll(sock(x.w))
	})
	return
}
