//go:build go1.24

package lib

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

// FaultPlan is one operation on one start state whose every effect is crashed
// or failed in turn.
type FaultPlan struct {
	Name    string
	Base    *Snap
	St      *State
	Op      Op
	N       int
	Tears   []int
	Log     []string
	After   *Snap
	AfterSt *State
	Res     Res
}

// Faults enumerates crash and failure points.
type Faults struct {
	R       *Report
	Seeds   []Seed
	Ops     func(seed string, st *State) []Op
	Sources []*Pkg
	Workers int
	// OnlyChanging drops operations that fail without a fault.
	OnlyChanging bool

	worlds []*World
	mu     sync.Mutex
	Plans  []*FaultPlan
}

// Fault is one point.
type Fault struct {
	Crash bool
	K     int
	Tear  int
}

func (f Fault) String() string {
	if f.Crash {
		return fmt.Sprintf("crash at effect %d (torn variant %d)", f.K, f.Tear)
	}
	return fmt.Sprintf("failure of effect %d", f.K)
}

// Prepare builds the start states and records every operation once.
func (x *Faults) Prepare() bool {
	if x.Workers == 0 {
		x.Workers = runtime.NumCPU()
	}
	Prepare(x.Sources)
	for i := 0; i < x.Workers; i++ {
		w := NewWorld(i)
		w.PutSources(x.Sources)
		x.worlds = append(x.worlds, w)
	}
	empty, _, err := x.worlds[0].Session(&Snap{DB: map[string][]KV{}, Nodes: []NodeEnt{{Path: ".", Dir: true}}}, nil)
	if err != nil {
		x.R.Violation("daemon does not start on an empty directory", err.Error(), nil)
		return false
	}
	type st struct {
		s  *Snap
		st *State
	}
	states := make([]st, len(x.Seeds))
	x.each(len(x.Seeds), func(w *World, i int) {
		sn := empty
		if len(x.Seeds[i].Ops) > 0 {
			var err error
			if sn, _, err = w.Session(empty, x.Seeds[i].Ops); err != nil {
				x.R.Incomplete("seed " + x.Seeds[i].Name + ": " + err.Error())
				return
			}
		}
		s, err := w.look(sn)
		if err != nil {
			x.R.Incomplete("seed " + x.Seeds[i].Name + ": " + err.Error())
			return
		}
		states[i] = st{sn, s}
	})
	var all []*FaultPlan
	for i, sd := range x.Seeds {
		if states[i].s == nil {
			continue
		}
		for _, o := range x.Ops(sd.Name, states[i].st) {
			all = append(all, &FaultPlan{Name: sd.Name, Base: states[i].s, St: states[i].st, Op: o})
		}
	}
	keep := make([]bool, len(all))
	x.each(len(all), func(w *World, i int) {
		p := all[i]
		w.Restore(p.Base)
		m, err := w.Open()
		if err != nil {
			return
		}
		w.Eff.Arm(0, 0, 0)
		w.Eff.Record = true
		p.Res = Exec(w, m, p.Op)
		w.Eff.Record = false
		p.N, p.Tears, p.Log = w.Eff.N, w.Eff.Tears, w.Eff.Log
		w.Eff.Arm(0, 0, 0)
		m.Close()
		p.After = w.Take()
		if p.AfterSt, err = w.look(p.After); err != nil {
			return
		}
		keep[i] = p.N > 0 && (!x.OnlyChanging || p.Res.Err == nil)
		x.R.Count(1, 1, 0)
	})
	for i, p := range all {
		if keep[i] {
			x.Plans = append(x.Plans, p)
		}
	}
	x.R.Set("operations", len(x.Plans))
	return true
}

// Look observes a snapshot.
func (w *World) Look(s *Snap) (*State, error) { return w.look(s) }

// look observes a snapshot, published versions included (the scratch state is
// indexed for that).
func (w *World) look(s *Snap) (*State, error) {
	w.Restore(s)
	m, err := w.Open()
	if err != nil {
		return nil, err
	}
	defer m.Close()
	st, _ := Observe(w, m)
	for _, id := range SortedKeys(st.Repos) {
		if Exec(w, m, Op{Kind: "index", Repo: id}).Err == nil {
			pubs, _ := CheckIndex(w, id, st)
			for n, p := range pubs {
				if e := st.Repos[id].Names[n]; e != nil {
					e.Pub = p
				}
			}
		}
	}
	return st, nil
}

func (x *Faults) each(n int, f func(w *World, i int)) {
	var idx atomic.Int64
	var wg sync.WaitGroup
	for _, w := range x.worlds {
		wg.Add(1)
		go func(w *World) {
			defer wg.Done()
			for {
				i := int(idx.Add(1)) - 1
				if i >= n {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// Inject runs op on the world's current contents with a fault; the world is
// closed (or crashed) afterwards.
func (w *World) Inject(op Op, f Fault) (res Res, hit bool, err error) {
	m, err := w.Open()
	if err != nil {
		return
	}
	if f.Crash {
		w.Eff.Arm(f.K, f.Tear, 0)
	} else {
		w.Eff.Arm(0, 0, f.K)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(veff.Crash); !ok {
					panic(r)
				}
				hit = true
			}
		}()
		res = Exec(w, m, op)
	}()
	if !f.Crash {
		hit = w.Eff.Failed != ""
		m.Close()
	} else if hit {
		vleveldb.CrashClose(w.Base)
	} else {
		m.Close()
	}
	w.Eff.Arm(0, 0, 0)
	return
}

// Run enumerates the fault points of every plan and judges each outcome.
func (x *Faults) Run(crash bool, judge func(w *World, p *FaultPlan, f Fault, res Res) []Issue) {
	type task struct {
		p *FaultPlan
		f Fault
	}
	var tasks []task
	for _, p := range x.Plans {
		for k := 1; k <= p.N; k++ {
			if !crash {
				tasks = append(tasks, task{p, Fault{false, k, 0}})
				continue
			}
			for t := 0; t <= p.Tears[k-1]; t++ {
				tasks = append(tasks, task{p, Fault{true, k, t}})
			}
		}
	}
	deadline := x.R.Deadline()
	var skipped atomic.Int64
	x.each(len(tasks), func(w *World, i int) {
		if time.Now().After(deadline) || x.R.Found() >= 8 {
			skipped.Add(1)
			return
		}
		t := tasks[i]
		once := func() []Issue {
			w.Restore(t.p.Base)
			res, hit, err := w.Inject(t.p.Op, t.f)
			if err != nil {
				return []Issue{{"*", "data cannot be opened", err.Error()}}
			}
			if !hit {
				return nil // the operation became shorter: nondeterminism is caught elsewhere
			}
			return judge(w, t.p, t.f, res)
		}
		l := once()
		x.R.Count(1, 1, 1)
		var mine []Issue
		for _, i := range l {
			if x.R.Mine(i) && !x.R.Has(i.Key) {
				mine = append(mine, i)
			}
		}
		if len(mine) == 0 {
			return
		}
		again := map[string]bool{}
		for _, i := range once() {
			again[i.Key] = true
		}
		for _, i := range mine {
			if !again[i.Key] {
				x.R.Incomplete("unconfirmed: " + i.String())
				continue
			}
			point := ""
			if t.f.K <= len(t.p.Log) {
				point = t.p.Log[t.f.K-1]
			}
			x.R.Violation(i.Key, fmt.Sprintf("seed %s, %v, %v (%s): %s", t.p.Name, t.p.Op, t.f, point, i.Text),
				map[string]any{"seed": t.p.Name, "op": t.p.Op, "fault": t.f, "effect": point, "effects": t.p.Log})
		}
	})
	if s := skipped.Load(); s > 0 {
		x.R.Incomplete(fmt.Sprintf("%d fault points not run", s))
	}
	kind := "failure_points"
	if crash {
		kind = "crash_points"
	}
	x.R.Set(kind, len(tasks))
	if len(tasks) > 0 {
		t := tasks[len(tasks)/2]
		x.R.Sample(map[string]any{"seed": t.p.Name, "op": t.p.Op.String(), "fault": t.f.String(), "effects": t.p.Log})
	}
}

// Leftover reports whether an issue is only about files that nothing refers
// to, which an interrupted operation may leave behind.
func Leftover(i Issue) bool {
	switch i.Key {
	case "file that nothing lists", "stray index file", "working file left behind", "directory of an unknown repository", "stray asset file", SymbolKey:
		return true
	}
	return false
}

// Between checks that an interrupted operation did a part of its work and
// nothing else.
func Between(pre, post, got *State) (out []string) {
	for _, id := range SortedKeys(union(union(pre.Repos, post.Repos), union(got.Repos, nil))) {
		a, b, g := pre.Repos[id], post.Repos[id], got.Repos[id]
		if g == nil {
			if a != nil && b != nil {
				out = append(out, fmt.Sprintf("repository %q is gone", id))
			}
			continue
		}
		if a == nil && b == nil {
			out = append(out, fmt.Sprintf("repository %q appeared", id))
			continue
		}
		ia, ib, ig := map[string]bool{}, map[string]bool{}, g.Items()
		if a != nil {
			ia = a.Items()
		}
		if b != nil {
			ib = b.Items()
		}
		for i := range ig {
			if !ia[i] && !ib[i] {
				out = append(out, fmt.Sprintf("%q has %s, neither before nor after", id, i))
			}
		}
		for i := range ia {
			if ib[i] && !ig[i] {
				out = append(out, fmt.Sprintf("%q lost %s", id, i))
			}
		}
		for _, f := range SortedKeys(union(union(a.assets(), b.assets()), union(g.Assets, nil))) {
			v, ok := g.Assets[f]
			x, okx := a.assets()[f]
			y, oky := b.assets()[f]
			if ok == okx && v == x || ok == oky && v == y {
				continue
			}
			// being rewritten: only a prefix or nothing may be seen
			if ok && oky && strings.HasPrefix(y, v) {
				continue
			}
			out = append(out, fmt.Sprintf("%q asset %s is neither old nor new", id, f))
		}
	}
	return
}

func (r *RepoM) assets() map[string]string {
	if r == nil {
		return nil
	}
	return r.Assets
}

// ReadFiles reads a set of files of a directory.
func ReadFiles(dir string, names []string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		if b, err := os.ReadFile(dir + "/" + n); err == nil {
			m[n] = string(b)
		}
	}
	return m
}
