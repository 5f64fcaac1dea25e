//go:build go1.24

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

var emptySnap = &lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}

// spawn runs functions concurrently and waits for all of them.
func spawn(fs ...func()) {
	n := len(fs)
	for i, f := range fs {
		vsched.GoProc(fmt.Sprintf("t%d", i+1), vsched.CurProc(), func() { f(); n-- })
	}
	vsched.Block("join", func() bool { return n == 0 })
}

func bound(quick, thorough int) int { return lib.Pick(quick, thorough) }

// ended turns abnormal ends of a run into issues.
func ended(prop string, res *vsched.Result) (out []lib.Issue) {
	switch {
	case res.Panic != "":
		t := res.Panic
		if len(t) > 1500 {
			t = t[:1500]
		}
		out = append(out, lib.Issue{Prop: prop, Key: "panic", Text: t})
	case res.Deadlock != "":
		out = append(out, lib.Issue{Prop: prop, Key: "deadlock", Text: res.Deadlock})
	case res.Horizon:
		out = append(out, lib.Issue{Prop: prop, Key: "does not terminate", Text: fmt.Sprintf("after %d steps and %d clock ticks", res.Steps, res.Ticks)})
	}
	return
}

// C15

func queueScenarios() (out []lib.Scenario) {
	for seq := 0; seq < 2; seq++ {
		for _, v := range []struct {
			prod, each, cons int
			pre              int // jobs queued before
		}{{2, 1, 2, 0}, {2, 2, 1, 0}, {1, 2, 2, 1}, {3, 1, 0, 0}, {1, 1, 3, 2}} {
			out = append(out, queueScenario(seq == 0, v.prod, v.each, v.cons, v.pre))
		}
	}
	out = append(out, workersScenario())
	return
}

func queueScenario(seq bool, prod, each, cons, pre int) lib.Scenario {
	b := bound(2, 3)
	if prod+cons > 3 && pre > 0 {
		b = bound(1, 2)
	}
	name := fmt.Sprintf("%d producers of %d, %d consumers, %d queued, sequential=%v", prod, each, cons, pre, seq)
	return lib.Scenario{Name: name, Bound: b, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		vleveldb.Drop(w.Base)
		s, err := jobs.NewStore(w.Base)
		if err != nil {
			return &vsched.Result{}, []lib.Issue{{Prop: "C15", Key: "store cannot be opened", Text: err.Error()}}
		}
		push, claim, retire := s.PushSequentialJob, s.ClaimSequentialJob, s.RetireSequentialJob
		if !seq {
			push, claim, retire = s.PushAsyncJob, s.ClaimAsyncJob, s.RetireAsyncJob
		}
		var out []lib.Issue
		bad := func(k, t string, a ...any) {
			out = append(out, lib.Issue{Prop: "C15", Key: k, Text: fmt.Sprintf(t, a...)})
		}
		init := ""
		for i := 0; i < pre; i++ {
			j := mkJob(seq, 50+i)
			init += ident(j) + "\x00"
			if err := push(j); err != nil {
				bad("push fails", "%v", err)
			}
		}
		var hist []lib.HOp
		clk := int64(0)
		tick := func() int64 { clk++; return clk }
		var fs []func()
		for p := 0; p < prod; p++ {
			fs = append(fs, func() {
				for i := 0; i < each; i++ {
					j := mkJob(seq, p*each+i)
					id := ident(j)
					c := tick()
					err := push(j)
					if err != nil {
						bad("push fails", "%v", err)
						continue
					}
					hist = append(hist, lib.HOp{Call: c, Ret: tick(), What: "push " + id, Apply: func(st string) (string, bool) { return st + id + "\x00", true }})
				}
			})
		}
		for c := 0; c < cons; c++ {
			fs = append(fs, func() {
				for i := 0; i < 2; i++ {
					c := tick()
					j, err := claim()
					r := tick()
					if err != nil && err != jobs.ErrEmptyQueue {
						bad("claim fails", "%v", err)
						return
					}
					if err != nil {
						hist = append(hist, lib.HOp{Call: c, Ret: r, What: "empty", Apply: func(st string) (string, bool) { return st, st == "" }})
						continue
					}
					id := ident(j)
					hist = append(hist, lib.HOp{Call: c, Ret: r, What: "claim " + id, Apply: func(st string) (string, bool) {
						return strings.CutPrefix(st, id+"\x00")
					}})
					if err := retire(j); err != nil {
						bad("retire fails", "%v", err)
					}
				}
			})
		}
		res := vsched.Run(o, func() { spawn(fs...) })
		out = append(out, ended("C15", res)...)
		if len(out) == 0 && res.Diverged == "" {
			// what is left
			for i := 0; ; i++ {
				c := tick()
				j, err := claim()
				r := tick()
				if err != nil {
					hist = append(hist, lib.HOp{Call: c, Ret: r, What: "empty", Apply: func(st string) (string, bool) { return st, st == "" }})
					break
				}
				if i > 20 {
					bad("job handed out again and again", "%s", ident(j))
					break
				}
				id := ident(j)
				hist = append(hist, lib.HOp{Call: c, Ret: r, What: "claim " + id, Apply: func(st string) (string, bool) { return strings.CutPrefix(st, id+"\x00") }})
			}
			if len(lib.Linearizable(init, hist)) == 0 {
				sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
				var l []string
				for _, h := range hist {
					l = append(l, fmt.Sprintf("[%d-%d] %s", h.Call, h.Ret, h.What))
				}
				bad("not a FIFO queue that hands out each job once", "%s", strings.Join(l, "; "))
			}
		}
		s.Close()
		return res, out
	}}
}

// system is a manager, store and processor on a world.
type system struct {
	m *core.Manager
	s *jobs.JobStore
	p *jobs.Processor
}

func start(w *lib.World, workers int) (x *system, err error) {
	vsched.Quiet(func() { x, err = start1(w, workers) })
	return
}

func start1(w *lib.World, workers int) (*system, error) {
	m, err := core.NewManager(w.Base)
	if err != nil {
		return nil, err
	}
	s, err := jobs.NewStore(w.Base)
	if err != nil {
		return nil, err
	}
	return &system{m, s, jobs.NewProcessor(m, s, workers)}, nil
}

func (x *system) close() {
	vsched.Quiet(func() {
		x.s.Close()
		x.m.Close()
	})
}

// idle waits until no job is left, in virtual time.
func (x *system) idle() bool {
	for i := 0; i < 60; i++ {
		left := 1
		vsched.Quiet(func() {
			if l, err := x.s.ActiveJobs(); err == nil {
				left = len(l)
			}
		})
		if left == 0 {
			return true
		}
		vsched.Sleep(3 * time.Second)
	}
	return false
}

func (x *system) history() (l []*libferry.Job) {
	vsched.Quiet(func() {
		c, _ := x.s.CompletedJobs()
		f, _ := x.s.FailedJobs()
		l = append(append(l, c...), f...)
	})
	return
}

// workersScenario runs real workers against concurrent producers.
func workersScenario() lib.Scenario {
	return lib.Scenario{Name: "processor with one sequential and two asynchronous workers, two producers", Bound: bound(2, 2), Opts: vsched.Opts{AllCost: true, MaxTicks: 2000, MaxSteps: 100000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		w.Restore(emptySnap)
		var out []lib.Issue
		bad := func(k, t string, a ...any) {
			out = append(out, lib.Issue{Prop: "C15", Key: k, Text: fmt.Sprintf(t, a...)})
		}
		var want []string
		res := vsched.Run(o, func() {
			x, err := start(w, 2)
			if err != nil {
				bad("system does not start", "%v", err)
				return
			}
			x.p.Begin()
			spawn(func() {
				for i := 0; i < 2; i++ {
					j := jobs.NewIndexRepoJob(fmt.Sprintf("missing%d", i))
					want = append(want, describe(j))
					x.p.PushJob(j)
					x.p.PushJob(mkJob(false, i))
				}
			}, func() {
				for i := 2; i < 3; i++ {
					x.p.PushJob(mkJob(false, i))
					j := jobs.NewIndexRepoJob(fmt.Sprintf("missing%d", i))
					want = append(want, describe(j))
					x.p.PushJob(j)
				}
			})
			if !x.idle() {
				bad("jobs are never finished", "")
				return
			}
			x.p.Close()
			got := map[string]int{}
			async := 0
			for _, j := range x.history() {
				if j.Description == "" || !strings.Contains(j.Description, "missing") {
					async++
				} else {
					got[j.Description]++
				}
			}
			for _, d := range want {
				if got[d] != 1 {
					bad("a sequential job was not run exactly once", "%s: %d", d, got[d])
				}
			}
			if async != 3 {
				bad("asynchronous jobs were not run exactly once", "%d of 3", async)
			}
			x.close()
		})
		vleveldb.CrashClose(w.Base)
		return res, append(out, ended("C15", res)...)
	}}
}

// C17: what workers record

func historyScenarios() []lib.Scenario {
	mk := map[byte]func(n int) *jobs.JobEntry{
		'c': func(n int) *jobs.JobEntry { return jobs.NewCreateRepoJob(fmt.Sprintf("r%d", n)) },
		'd': func(n int) *jobs.JobEntry { return jobs.NewCreateRepoJob("r0") },
		'i': func(n int) *jobs.JobEntry { return jobs.NewIndexRepoJob("none") },
		'u': func(n int) *jobs.JobEntry { return jobs.NewDeltaJob("r0", "x") },
		't': func(n int) *jobs.JobEntry {
			return jobs.NewTransitJob("/nonexistent/" + strings.Repeat("long name ", 20) + ".tram")
		},
		'b': func(n int) *jobs.JobEntry { return jobs.NewBulkAddJob("r0", nil) },
	}
	var scen []lib.Scenario
	for _, seq := range []string{"cdc", "ccd", "icu", "tcb", "ubc", "cic", "ddd"} {
		for _, reset := range []string{"", "completed", "failed"} {
			scen = append(scen, lib.Scenario{Name: "jobs " + seq + " with concurrent reset of " + reset, Bound: bound(1, 2), Opts: vsched.Opts{AllCost: true, MaxTicks: 2000, MaxSteps: 100000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
				w.Restore(emptySnap)
				var out []lib.Issue
				bad := func(k, t string, a ...any) {
					out = append(out, lib.Issue{Prop: "C17", Key: k, Text: fmt.Sprintf(t, a...)})
				}
				res := vsched.Run(o, func() {
					x, err := start(w, 2)
					if err != nil {
						bad("system does not start", "%v", err)
						return
					}
					type exp struct {
						desc string
						err  string
						mute bool // no handler: no description
					}
					var want []exp
					have := map[string]bool{}
					for n, c := range []byte(seq) {
						j := mk[c](n)
						e := exp{desc: describe(j)}
						h, err := jobs.NewJobHandler(j)
						switch {
						case err != nil:
							e.err, e.mute = err.Error(), true
						case c == 'c' || c == 'd':
							if have[j.Params[0]] {
								e.err = "*"
							}
							have[j.Params[0]] = true
						case c == 'i' || c == 't':
							// these fail without any effect, always alike
							vsched.Quiet(func() {
								if err := h.Execute(x.p, x.m); err != nil {
									e.err = err.Error()
								}
							})
						}
						want = append(want, e)
						x.p.PushJob(j)
					}
					x.p.Begin()
					resetDone := reset == ""
					if reset != "" {
						at := vsched.ChooseFree(3, "reset after n jobs")
						vsched.GoProc("reset", vsched.CurProc(), func() {
							vsched.Block("reset", func() bool { return w.Eff.N >= at*8 })
							var err error
							if reset == "completed" {
								err = x.s.ResetCompleted()
							} else {
								err = x.s.ResetFailed()
							}
							if err != nil {
								bad("reset fails", "%v", err)
							}
							resetDone = true
						})
					}
					if !x.idle() {
						bad("jobs are never finished", "")
						return
					}
					x.p.Close()
					vsched.Block("reset done", func() bool { return resetDone })
					c, _ := x.s.CompletedJobs()
					f, _ := x.s.FailedJobs()
					check := func(l []*libferry.Job, failed bool) {
						var exps []exp
						for _, e := range want {
							if (e.err != "") == failed {
								exps = append(exps, e)
							}
						}
						if reset == "completed" && !failed || reset == "failed" && failed {
							if len(l) > len(exps) {
								bad("more outcomes than jobs", "%d of %d", len(l), len(exps))
							}
						} else if len(l) != len(exps) {
							bad("wrong number of recorded outcomes", "failed=%v: %d, want %d", failed, len(l), len(exps))
						}
						used := make([]bool, len(exps))
						for _, j := range l {
							ok := false
							for i, e := range exps {
								if !used[i] && (j.Description == e.desc || e.mute) && j.Failed == failed && (e.err == j.Error || e.err == "*" && j.Error != "") {
									used[i], ok = true, true
									break
								}
							}
							if !ok {
								bad("an outcome is recorded wrongly", "%q failed=%v error=%q, expected one of %+v", j.Description, j.Failed, j.Error, exps)
							}
							t := j.Timing
							if t.Queued.IsZero() || t.Begin.Before(t.Queued) || t.End.Before(t.Begin) {
								bad("times of an outcome are not ordered", "%+v", t)
							}
						}
					}
					check(c, false)
					check(f, true)
					x.close()
				})
				vleveldb.CrashClose(w.Base)
				return res, append(out, ended("C17", res)...)
			}})
		}
	}
	return scen
}

// C18

func shutdownScenarios() (scen []lib.Scenario) {
	for _, v := range []struct {
		name string
		mk   func() []*jobs.JobEntry
	}{
		{"create, failing create, index", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewCreateRepoJob("a"), jobs.NewCreateRepoJob("a"), jobs.NewIndexRepoJob("a")}
		}},
		{"failing jobs only", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewIndexRepoJob("x"), jobs.NewTransitJob("/nonexistent"), jobs.NewDeleteRepoJob("y"), jobs.NewTrimObsoleteJob("z")}
		}},
		{"asynchronous jobs too", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewIndexRepoJob("x"), jobs.NewDeltaJob("q", "r"), jobs.NewDeltaJob("s", "t"), jobs.NewCreateRepoJob("b")}
		}},
		{"no jobs", func() []*jobs.JobEntry { return nil }},
	} {
		scen = append(scen, shutdownScenario(v.name, 2, bound(1, 2), false, v.mk))
	}
	many := func() (l []*jobs.JobEntry) {
		for i := 0; i < 7; i++ {
			l = append(l, jobs.NewDeltaJob(fmt.Sprintf("q%d", i), "r"))
		}
		return append(l, jobs.NewCreateRepoJob("a"), jobs.NewCloneRepoJob("a", "b", true), jobs.NewIndexRepoJob("a"))
	}
	scen = append(scen, shutdownScenario("many asynchronous jobs", 2, bound(0, 1), true, many))
	for _, n := range []int{-1, 0, 1, 3, 5, 8} {
		scen = append(scen, shutdownScenario(fmt.Sprintf("many asynchronous jobs, -j %d", n), n, bound(0, 1), true, many))
	}
	return
}

func shutdownScenario(name string, workers, bound int, prompt bool, mk func() []*jobs.JobEntry) lib.Scenario {
	return lib.Scenario{Name: "shutdown at every point: " + name, Bound: bound, Opts: vsched.Opts{AllCost: true, MaxTicks: 2000, MaxSteps: 60000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		w.Restore(emptySnap)
		var out []lib.Issue
		bad := func(k, t string, a ...any) {
			out = append(out, lib.Issue{Prop: "C18", Key: k, Text: fmt.Sprintf(t, a...)})
		}
		var order []string
		res := vsched.Run(o, func() {
			x, err := start(w, workers)
			if err != nil {
				bad("system does not start", "%v", err)
				return
			}
			nasync := 0
			for _, j := range mk() {
				if _, err := jobs.NewJobHandler(j); err != nil {
					nasync++
				} else {
					order = append(order, describe(j))
				}
				x.p.PushJob(j)
			}
			w.Eff.Arm(0, 0, 0)
			at := vsched.ChooseFree(closePoints, "shutdown after n effects")
			x.p.Begin()
			closed := false
			var asked time.Time
			deviations := 0
			for _, c := range o.Choices {
				if c != 0 {
					deviations++
				}
			}
			if at != 0 {
				deviations--
			}
			vsched.GoProc("closer", vsched.CurProc(), func() {
				end := false
				vsched.NewTimer(60*time.Second, func() { end = true })
				wait := vsched.Block
				if prompt {
					wait = vsched.BlockUrgent // in the middle of a job
				}
				wait("shutdown", func() bool { return w.Eff.N >= at || end })
				asked = vsched.Now()
				x.p.Close()
				closed = true
			})
			vsched.Block("closed", func() bool { return closed })
			n := w.Eff.N
			vsched.Sleep(20 * time.Second)
			if w.Eff.N != n {
				bad("work goes on after shutdown returned", "%d effects", w.Eff.N-n)
			}
			judge := func(when string) (left int) {
				h := x.history()
				sort.Slice(h, func(i, j int) bool { return h[i].Timing.Begin.Before(h[j].Timing.Begin) })
				act, err := x.s.ActiveJobs()
				if err != nil {
					bad("queue cannot be listed", "%v", err)
				}
				for _, a := range act {
					if !a.Timing.Begin.IsZero() {
						bad("a started job is not recorded", "%s: %q", when, a.Description)
					}
				}
				k := 0
				var last time.Time
				for _, j := range h {
					if j.Description == "" {
						continue
					}
					if k >= len(order) || order[k] != j.Description {
						bad("sequential jobs did not run in queue order", "%s: position %d: %q, order %q", when, k, j.Description, order)
					}
					k++
					if j.Timing.Begin.Before(last) {
						bad("sequential jobs overlapped", "%s: %q began before its predecessor ended", when, j.Description)
					}
					last = j.Timing.End
				}
				if len(h)+len(act) != len(order)+nasync {
					bad("jobs lost or duplicated", "%s: %d recorded, %d queued of %d", when, len(h), len(act), len(order)+nasync)
				}
				return len(act)
			}
			judge("after shutdown")
			// a worker that was just about to claim a job may still do so, and
			// each deviation may let one more timer fire before it is told
			late := map[bool]int{}
			for _, j := range x.history() {
				if j.Timing.Begin.After(asked) {
					late[j.Description == ""]++
				}
			}
			if late[false] > 1+deviations {
				bad("jobs are started after the shutdown was requested", "%d sequential jobs", late[false])
			}
			if workers > 0 && late[true] > max(workers, 2)+deviations && workers != 1 {
				bad("jobs are started after the shutdown was requested", "%d asynchronous jobs with %d workers", late[true], workers)
			}
			x.close()
			// the next start runs what is left
			x, err = start(w, workers)
			if err != nil {
				bad("system does not start again", "%v", err)
				return
			}
			x.p.Begin()
			if !x.idle() {
				bad("jobs are never finished after the next start", "")
				return
			}
			x.p.Close()
			judge("after the next start")
			x.close()
		})
		vleveldb.CrashClose(w.Base)
		return res, append(out, ended("C18", res)...)
	}}
}

// closePoints bounds the number of effects before the shutdown is requested;
// the last value is past the end of all jobs.
const closePoints = 48

// C16

func crashScenarios() (scen []lib.Scenario) {
	for _, v := range []struct {
		name string
		mk   func() []*jobs.JobEntry
	}{
		{"create, index, failing index", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewCreateRepoJob("a"), jobs.NewIndexRepoJob("a"), jobs.NewIndexRepoJob("missing")}
		}},
		{"failing jobs and asynchronous jobs", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewIndexRepoJob("x"), jobs.NewDeltaJob("q", "r"), jobs.NewTransitJob("/nonexistent"), jobs.NewDeltaJob("s", "t"), jobs.NewTrimObsoleteJob("z")}
		}},
		{"create, clone, delete", func() []*jobs.JobEntry {
			return []*jobs.JobEntry{jobs.NewCreateRepoJob("a"), jobs.NewCloneRepoJob("a", "b", true), jobs.NewDeleteRepoJob("a"), jobs.NewPullRepoJob("b", "a")}
		}},
		{"failing, many", func() []*jobs.JobEntry {
			var l []*jobs.JobEntry
			for i := 0; i < 6; i++ {
				l = append(l, jobs.NewIndexRepoJob(fmt.Sprintf("m%d", i)))
			}
			return l
		}},
	} {
		scen = append(scen, crashScenario(v.name, v.mk))
	}
	return
}

func crashScenario(name string, mk func() []*jobs.JobEntry) lib.Scenario {
	return lib.Scenario{Name: "crash at every effect: " + name, Bound: bound(0, 1), Opts: vsched.Opts{AllCost: true, MaxTicks: 3000, MaxSteps: 200000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		var out []lib.Issue
		pushedWhileRunning := name[0] == 'f'
		delay := int64(time.Hour) // until the restart
		once := func(k, tear, k2 int) (res *vsched.Result, n int, tears []int, crashes int) {
			bad := func(key, t string, a ...any) {
				out = append(out, lib.Issue{Prop: "C16", Key: key, Text: fmt.Sprintf("crash at effect %d (variant %d), second at %d, restarts after %v: ", k, tear, k2, time.Duration(delay)) + fmt.Sprintf(t, a...)})
			}
			w.Restore(emptySnap)
			var accepted, asked []string
			asyncAcc, asyncAsk := 0, 0
			drained := false
			body := func(first bool, at, tear int) func() {
				return func() {
					x, err := start(w, 2)
					if err != nil {
						bad("system does not start", "%v", err)
						return
					}
					if first {
						w.Eff.Arm(at, tear, 0)
						if pushedWhileRunning {
							x.p.Begin()
						}
						for _, j := range mk() {
							d := describe(j)
							if d == "?" {
								asyncAsk++
							} else {
								asked = append(asked, d)
							}
							x.p.PushJob(j)
							if d == "?" {
								asyncAcc++
							} else {
								accepted = append(accepted, d)
							}
						}
						if !pushedWhileRunning {
							x.p.Begin()
						}
					} else {
						// before anything runs, nothing may be missing
						act, err := x.s.ActiveJobs()
						if err != nil {
							bad("queue cannot be listed", "%v", err)
						}
						have := map[string]int{}
						na := 0
						for _, j := range append(act, x.history()...) {
							if j.Description == "" || strings.HasPrefix(j.Description, "Unsupported") {
								na++
							} else {
								have[j.Description]++
							}
						}
						for _, d := range accepted {
							if have[d] == 0 {
								bad("accepted job lost", "%q", d)
							}
						}
						for _, d := range asked {
							if have[d] > 1 {
								bad("job is queued and recorded", "%q", d)
							}
						}
						if na < asyncAcc || na > asyncAsk {
							bad("accepted asynchronous job lost or duplicated", "%d, accepted %d", na, asyncAcc)
						}
						for _, j := range act {
							if !j.Timing.Begin.IsZero() {
								bad("interrupted job is not queued again", "%q", j.Description)
							}
						}
						w.Eff.Arm(at, tear, 0)
						x.p.Begin()
					}
					if !x.idle() {
						bad("jobs are never finished", "")
						return
					}
					x.p.Close()
					drained = true
					w.Eff.Arm(0, 0, 0)
					h := x.history()
					sort.SliceStable(h, func(i, j int) bool { return h[i].Timing.Begin.Before(h[j].Timing.Begin) })
					got := map[string]int{}
					var seq []string
					for _, j := range h {
						if j.Description != "" {
							got[j.Description]++
							seq = append(seq, j.Description)
						}
					}
					for _, d := range accepted {
						if got[d] != 1 {
							bad("accepted job is not recorded exactly once", "%q: %d", d, got[d])
						}
					}
					i := 0
					for _, d := range asked {
						if i < len(seq) && seq[i] == d {
							i++
						}
					}
					if i != len(seq) {
						bad("jobs ran out of order across the crash", "%q, queued %q", seq, asked)
					}
					x.close()
				}
			}
			opts := o
			if k > 0 && k2 > 0 {
				opts.Choices = nil
			}
			res = vsched.Run(opts, body(true, k, tear))
			n, tears = w.Eff.N, append([]int{}, w.Eff.Tears...)
			round := 1
			for r := res; r.Crashed && round < 4; round++ {
				crashes++
				vleveldb.CrashClose(w.Base)
				w.Eff.Arm(0, 0, 0)
				at := 0
				if round == 1 {
					at = k2
				}
				r = vsched.Run(vsched.Opts{AllCost: true, MaxTicks: 3000, MaxSteps: 200000, Now0: r.Now + delay}, body(false, at, 0))
				if !r.Crashed {
					out = append(out, ended("C16", r)...)
					if !drained {
						bad("jobs are not finished after the restart", "")
					}
				}
			}
			vleveldb.CrashClose(w.Base)
			return
		}
		res, n, tears, _ := count(w, once)
		if res.Diverged != "" || len(out) > 0 {
			return res, append(out, ended("C16", res)...)
		}
		out = append(out, ended("C16", res)...)
		for k := 1; k <= n; k++ {
			for t := 0; t <= tears[k-1]; t++ {
				once(k, t, 0)
				res.Runs++
			}
			if len(o.Choices) == 0 {
				// up again at once
				delay = int64(time.Millisecond)
				for t := 0; t <= tears[k-1]; t++ {
					once(k, t, 0)
					res.Runs++
				}
				delay = int64(time.Hour)
				// a second crash during the recovery
				for k2 := 1; k2 <= lib.Pick(12, 60); k2++ {
					res.Runs++
					if _, _, _, c := once(k, 0, k2); c < 2 {
						break
					}
				}
			}
			if len(out) > 0 {
				break
			}
		}
		return res, out
	}}
}

// count runs without a crash; the effects after arming are counted.
func count(w *lib.World, once func(k, tear, k2 int) (*vsched.Result, int, []int, int)) (*vsched.Result, int, []int, int) {
	N := 0
	var T []int
	w.Eff.After = nil
	// the counters are reset when the jobs are done, so remember the maximum
	w.Eff.Watch = func(n int, tears []int) { N, T = n, append(T[:0], tears...) }
	res, _, _, c := once(0, 0, 0)
	w.Eff.Watch = nil
	return res, N, T, c
}
