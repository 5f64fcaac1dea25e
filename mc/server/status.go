//go:build go1.24

package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// watched is one job whose listing is followed.
type watched struct {
	name     string // unique part of its description
	accepted int    // moment its request was answered; 0: not yet
	fails    bool
	gone     []int // moments at which resets of its kind began
}

// answer is one status request and what it returned.
type answer struct {
	from, to int
	err      error
	st       *libferry.StatusRequest
}

// listing follows jobs through concurrent status requests.
type listing struct {
	w       *lib.World
	clock   int
	jobs    []*watched
	answers []*answer
	resets  []*wipe
	effects int
	busy    int
	out     []lib.Issue
	started time.Time
}

// wipe is one reset request.
type wipe struct {
	from, to int
	failed   bool
}

func (l *listing) bad(key, f string, a ...any) {
	l.out = append(l.out, lib.Issue{Prop: "C26", Key: key, Text: fmt.Sprintf(f, a...)})
}

func (l *listing) tick() int { l.clock++; return l.clock }

// push sends a request for the named job.
func (l *listing) push(name string, fails bool, f func() error) {
	j := &watched{name: name, fails: fails}
	l.jobs = append(l.jobs, j)
	if err := f(); err != nil {
		l.bad("request is refused", "%s: %v", name, err)
		return
	}
	j.accepted = l.tick()
}

func (l *listing) ask() {
	a := &answer{from: l.tick()}
	l.answers = append(l.answers, a)
	a.st, a.err = status(l.w)
	a.to = l.tick()
}

func (l *listing) reset(failed bool) {
	r := &wipe{from: l.tick(), failed: failed, to: math.MaxInt}
	l.resets = append(l.resets, r)
	var err error
	if failed {
		err = client(l.w).ResetFailed()
	} else {
		err = client(l.w).ResetCompleted()
	}
	if err != nil {
		l.bad("reset is refused", "%v", err)
	}
	r.to = l.tick()
}

// helper runs f concurrently.
func (l *listing) helper(name string, f func()) {
	l.busy++
	vsched.GoProc(name, vsched.CurProc(), func() {
		f()
		l.busy--
	})
}

func (l *listing) wait() { vsched.Block("clients done", func() bool { return l.busy == 0 }) }

// at waits until the daemon has written n times to its databases since the start of the scenario.
func (l *listing) at(n int) {
	vsched.BlockUrgent("effects", func() bool { return l.effects >= n || vsched.Now().Sub(l.started) > 20*time.Second })
}

const (
	nowhere = iota
	current
	failed
	completed
)

// where finds a job in an answer.
func (a *answer) where(name string) (places []int) {
	for _, x := range []struct {
		l  libferry.JobSet
		at int
	}{{a.st.CurrentJobs, current}, {a.st.FailedJobs, failed}, {a.st.CompletedJobs, completed}} {
		for _, j := range x.l {
			if strings.Contains(j.Description, "'"+name+"'") {
				places = append(places, x.at)
			}
		}
	}
	return
}

func (a *answer) String() string {
	return fmt.Sprintf("current %q failed %q completed %q", describe(a.st.CurrentJobs), describe(a.st.FailedJobs), describe(a.st.CompletedJobs))
}

// judge checks all answers.
func (l *listing) judge() {
	for _, a := range l.answers {
		if a.err != nil {
			l.bad("status request fails", "%v", a.err)
			return
		}
	}
	for _, j := range l.jobs {
		for _, a := range l.answers {
			p := a.where(j.name)
			if len(p) > 1 {
				l.bad("job is listed more than once", "%s: %v", j.name, a)
				continue
			}
			at := nowhere
			if len(p) == 1 {
				at = p[0]
			}
			wiped, cleared := false, false
			for _, r := range l.resets {
				if r.failed != j.fails {
					continue
				}
				if r.from < a.to {
					wiped = true
				}
				if r.to < a.from {
					for _, b := range l.answers {
						if b.to < r.from {
							if q := b.where(j.name); len(q) == 1 && q[0] != current {
								cleared = true
							}
						}
					}
				}
			}
			if at == nowhere && j.accepted != 0 && j.accepted < a.from && !wiped {
				l.bad("accepted job is not listed", "%s: %v", j.name, a)
			}
			if cleared && at != nowhere {
				l.bad("reset record is still listed", "%s: %v", j.name, a)
			}
			if at == completed && j.fails || at == failed && !j.fails {
				l.bad("job is listed with the wrong outcome", "%s: %v", j.name, a)
			}
			// nothing goes back
			for _, b := range l.answers {
				if a.to >= b.from {
					continue
				}
				q := b.where(j.name)
				if at > current && len(q) == 1 && q[0] == current {
					l.bad("completed job is current again", "%s: first %v, then %v", j.name, a, b)
				}
				if at == nowhere && j.accepted != 0 && j.accepted < a.from && len(q) > 0 {
					l.bad("job that was not listed is listed again", "%s: first %v, then %v", j.name, a, b)
				}
				if at == nowhere && j.accepted != 0 && j.accepted < a.from && len(q) == 1 && q[0] == current {
					l.bad("accepted job is not listed as current", "%s: first %v, then %v", j.name, a, b)
				}
			}
		}
	}
	for _, a := range l.answers {
		for _, set := range []libferry.JobSet{a.st.CurrentJobs, a.st.FailedJobs, a.st.CompletedJobs} {
			seen := map[string]bool{}
			for _, j := range set {
				k := fmt.Sprint(j.Description, j.Timing)
				if seen[k] && j.Description != "Index repository 'a'" {
					l.bad("job is listed more than once", "%s: %v", j.Description, a)
				}
				seen[k] = true
			}
		}
	}
}

func statusScenarios() (scen []lib.Scenario) {
	var base, full *lib.Snap
	prep := func(w *lib.World) {
		if base != nil {
			return
		}
		s, _, err := w.Session(emptySnap, []lib.Op{uni.Mk("a")})
		if err != nil {
			panic(err)
		}
		base = s
		w.Restore(base)
		st, err := jobs.NewStore(w.Base)
		if err != nil {
			panic(err)
		}
		for i := 0; i < jobs.MaxJobsStored; i++ {
			st.PushSequentialJob(jobs.NewIndexRepoJob(fmt.Sprint("old", i)))
			st.PushSequentialJob(jobs.NewIndexRepoJob("a"))
		}
		st.Close()
		res := vsched.Run(vsched.Opts{NoTimerPre: true, MaxTicks: 100000, MaxSteps: 10000000}, func() {
			d := boot(w)
			for i := 0; i < 30; i++ {
				if idle(w) == nil {
					break
				}
			}
			d.term()
		})
		if i := ended("C26", res); len(i) > 0 {
			panic(fmt.Sprint(i))
		}
		over(w)
		full = w.Take()
	}
	add := func(name string, bound int, variants int, start func() *lib.Snap, body func(l *listing, v int)) {
		scen = append(scen, lib.Scenario{Name: name, Bound: bound, Prepare: prep, Opts: vsched.Opts{AllCost: true, NoTimerPre: true, MaxTicks: 400, MaxSteps: 60000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
			reset(w, start())
			l := &listing{w: w}
			res := vsched.Run(o, func() {
				v := vsched.ChooseFree(variants, "variant")
				vsched.Freeze()
				d := boot(w)
				if !d.serving() {
					l.bad("daemon does not start", "")
					return
				}
				vsched.Thaw()
				l.started = vsched.Now()
				w.Eff.After = func(op, p, p2 string) {
					if strings.HasPrefix(op, "db") {
						l.effects++
					}
				}
				body(l, v)
				l.wait()
				vsched.Freeze()
				vsched.Quiet(func() {
					l.ask()
					if err := idle(w); err != nil {
						l.bad("status fails", "%v", err)
					}
					l.ask()
					d.term()
				})
				l.judge()
				end := l.answers[len(l.answers)-1]
				if end.err != nil {
					return
				}
				for _, j := range l.jobs {
					wiped := false
					for _, r := range l.resets {
						wiped = wiped || r.failed == j.fails
					}
					if j.accepted != 0 && !wiped && len(end.where(j.name)) != 1 {
						l.bad("executed job is not listed", "%s: %v", j.name, end)
					}
				}
			})
			over(w)
			return res, append(l.out, ended("C26", res)...)
		}})
	}
	empty := func() *lib.Snap { return base }
	q := func(a, b int) int { return lib.Pick(a, b) }
	mk := func(l *listing, n string) {
		l.push(n, false, func() error { return client(l.w).CreateRepo(n) })
	}
	bad := func(l *listing, n string) {
		l.push(n, true, func() error { return client(l.w).IndexRepo(n) })
	}
	add("status while jobs are enqueued", q(2, 3), 1, empty, func(l *listing, v int) {
		l.helper("producer", func() { mk(l, "r1"); bad(l, "r2") })
		l.helper("producer 2", func() { bad(l, "r3") })
		l.helper("reader", func() { l.ask(); l.ask() })
	})
	add("status while jobs are run", q(1, 2), 14, empty, func(l *listing, v int) {
		bad(l, "r1")
		mk(l, "r2")
		l.helper("reader", func() { l.at(2 + v); l.ask(); l.ask() })
		vsched.Sleep(4 * time.Second)
	})
	add("status while jobs are run and enqueued", q(1, 2), 14, empty, func(l *listing, v int) {
		bad(l, "r1")
		l.helper("producer", func() { l.at(1 + v); mk(l, "r2"); bad(l, "r3") })
		l.helper("reader", func() { l.at(2 + v); l.ask(); l.ask() })
		l.helper("reader 2", func() { l.at(2 + v); l.ask() })
		vsched.Sleep(4 * time.Second)
	})
	add("status while records are reset", q(1, 2), 4, empty, func(l *listing, v int) {
		bad(l, "r1")
		mk(l, "r2")
		bad(l, "r3")
		vsched.Sleep(10 * time.Second)
		l.ask()
		l.helper("reset", func() { l.reset(v&1 == 1) })
		l.helper("reader", func() { l.ask(); l.ask() })
		if v&2 == 2 {
			l.helper("reset 2", func() { l.reset(v&1 == 0) })
		}
	})
	add("status while jobs are run and records reset", q(1, 2), 24, empty, func(l *listing, v int) {
		bad(l, "r1")
		mk(l, "r2")
		l.helper("reset", func() { l.at(3 + v); l.reset(v&1 == 1) })
		l.helper("reader", func() { l.at(3 + v); l.ask(); l.ask() })
		vsched.Sleep(5 * time.Second)
	})
	// both histories full: the oldest record of each makes room
	whole := func() *lib.Snap { return full }
	add("status while full histories rotate", q(1, 2), 12, whole, func(l *listing, v int) {
		l.ask()
		bad(l, "r1")
		mk(l, "r2")
		l.helper("reader", func() { l.at(2 + v); l.ask(); l.ask() })
		vsched.Sleep(4 * time.Second)
		l.wait()
		for _, a := range l.answers {
			if a.err == nil && (len(a.st.FailedJobs) != jobs.MaxJobsStored || len(a.st.CompletedJobs) != jobs.MaxJobsStored) {
				l.bad("a full history is not listed in full", "%d failed, %d completed", len(a.st.FailedJobs), len(a.st.CompletedJobs))
			}
		}
	})
	// every kind of job in the queues
	shapes := jobShapes()
	scen = append(scen, lib.Scenario{Name: "every kind of queued job", Prepare: prep, Opts: opts25, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(shapes)*4, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return oddJob(w, o, base, shapes[i/4], i%4)
		})
	}})
	return
}

// shape is a queued job.
type shape struct {
	kind   jobs.JobType
	params []string
}

func jobShapes() (l []shape) {
	kinds := []jobs.JobType{jobs.BulkAdd, jobs.CopySource, jobs.CloneRepo, jobs.CreateRepo, jobs.DeleteRepo, jobs.Delta, jobs.DeltaIndex, jobs.DeltaRepo, jobs.IndexRepo, jobs.PullRepo, jobs.RemoveSource, jobs.TransitProcess, jobs.TrimObsolete, jobs.TrimPackages, "", "nonsense", "\xff%s"}
	words := []string{"a", "", "true", "-1", "99999999999999999999", "..", "\xff\x00é<&>", "%d%s"}
	for _, k := range kinds {
		l = append(l, shape{k, nil})
		for n := 1; n <= 7; n++ {
			for _, x := range words {
				p := make([]string, n)
				for i := range p {
					p[i] = x
				}
				l = append(l, shape{k, p})
			}
		}
		// one odd parameter among ordinary ones
		for n := 1; n <= 5; n++ {
			for i := 0; i < n; i++ {
				for _, x := range []string{"", "x", "-1", "true", "9"} {
					p := strings.Split("a b 1 true 1", " ")[:n]
					p[i] = x
					l = append(l, shape{k, p})
				}
			}
		}
	}
	return
}

// oddJob asks for the status around the life of one queued job of any shape,
// among ordinary ones.
func oddJob(w *lib.World, o vsched.Opts, base *lib.Snap, s shape, how int) (*vsched.Result, []lib.Issue) {
	reset(w, base)
	var out []lib.Issue
	bad := func(key, f string, a ...any) {
		out = append(out, lib.Issue{Prop: "C26", Key: key, Text: fmt.Sprintf("%s%q queued: ", s.kind, s.params) + fmt.Sprintf(f, a...)})
	}
	st, err := jobs.NewStore(w.Base)
	if err != nil {
		bad("store cannot be opened", "%v", err)
		return &vsched.Result{}, out
	}
	push := st.PushSequentialJob
	if how&1 == 1 {
		push = st.PushAsyncJob
	}
	push(jobs.NewIndexRepoJob("before"))
	push(&jobs.JobEntry{Type: s.kind, Params: s.params, Claimed: how&2 == 2})
	push(jobs.NewIndexRepoJob("after"))
	st.Close()
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			bad("daemon does not start", "")
			return
		}
		for i := 0; i < 4; i++ {
			r, err := status(w)
			if err != nil {
				bad("status request fails", "%v", err)
				return
			}
			if n := len(r.CurrentJobs) + len(r.FailedJobs) + len(r.CompletedJobs); n != 3 {
				bad("not every job is listed once", "%d of 3: %v %v %v", n, describe(r.CurrentJobs), describe(r.FailedJobs), describe(r.CompletedJobs))
			}
			if i == 0 && len(r.CurrentJobs) != 3 {
				bad("waiting jobs are not listed as current", "%v", describe(r.CurrentJobs))
			}
			a := answer{st: r}
			for _, n := range []string{"before", "after"} {
				if len(a.where(n)) != 1 {
					bad("an ordinary job is not listed once", "%s: %v", n, &a)
				}
			}
			if i == 2 {
				if err := idle(w); err != nil {
					bad("jobs do not end", "%v", err)
					return
				}
			} else {
				vsched.Sleep(1200 * time.Millisecond)
			}
			if i == 3 && len(r.CurrentJobs) != 0 {
				bad("executed jobs are listed as current", "%v", describe(r.CurrentJobs))
			}
		}
		d.term()
	})
	over(w)
	return res, append(out, ended("C26", res)...)
}
