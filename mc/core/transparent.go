//go:build go1.24

package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

// transparent compares every operation sequence run by one manager with the
// same sequence run with the daemon restarted between all operations.
func transparent(r *lib.Report) {
	sources := lib.All
	lib.Prepare(sources)
	n := runtime.NumCPU()
	worlds := make([]*lib.World, n)
	for i := range worlds {
		worlds[i] = lib.NewWorld(i)
		worlds[i].PutSources(sources)
	}
	seeds := []lib.Seed{uni.S0, uni.S1, uni.S2, uni.S3}
	depth := lib.Pick(2, 3)
	empty, _, err := worlds[0].Session(&lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}, nil)
	if err != nil {
		r.Violation("daemon does not start on an empty directory", err.Error(), nil)
		return
	}
	type node struct {
		seed string
		snap *lib.Snap // reached with restarts
		base *lib.Snap // the seed's
		ops  []Op
	}
	var level []*node
	for _, sd := range seeds {
		s := empty
		if len(sd.Ops) > 0 {
			if s, _, err = worlds[0].Session(empty, sd.Ops); err != nil {
				r.Incomplete("seed " + sd.Name)
				continue
			}
		}
		level = append(level, &node{sd.Name, s, s, nil})
	}
	deadline := r.Deadline()
	seen := map[string]bool{}
	var mu sync.Mutex
	for d := 1; d <= depth; d++ {
		type task struct {
			n *node
			o Op
		}
		var tasks []task
		for _, x := range level {
			for _, o := range uni.Broad(nil) {
				tasks = append(tasks, task{x, o})
			}
		}
		var next []*node
		var idx, skipped atomic.Int64
		var wg sync.WaitGroup
		for _, w := range worlds {
			wg.Add(1)
			go func(w *lib.World) {
				defer wg.Done()
				for {
					i := int(idx.Add(1)) - 1
					if i >= len(tasks) {
						return
					}
					if time.Now().After(deadline) || r.Found() > 4 {
						skipped.Add(1)
						continue
					}
					t := tasks[i]
					ops := append(append([]Op{}, t.n.ops...), t.o)
					snap, key, text := compare(w, t.n.base, t.n.snap, ops)
					r.Count(0, int64(2*len(ops)), 2)
					if key != "" {
						if _, key2, _ := compare(w, t.n.base, t.n.snap, ops); key2 == key {
							r.Violation(key, fmt.Sprintf("seed %s, %v: %s", t.n.seed, ops, text), map[string]any{"seed": t.n.seed, "ops": ops})
						} else {
							r.Incomplete("unconfirmed: " + key)
						}
						continue
					}
					mu.Lock()
					if h := snap.Hash(); !seen[h] {
						seen[h] = true
						next = append(next, &node{t.n.seed, snap, t.n.base, ops})
						if len(seen)%41 == 3 {
							r.Sample(map[string]any{"seed": t.n.seed, "ops": fmt.Sprint(ops)})
						}
					}
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		if s := skipped.Load(); s > 0 {
			r.Incomplete(fmt.Sprintf("%d sequences of length %d not run", s, d))
			break
		}
		level = next
	}
	r.Count(int64(len(seen)), 0, 0)
	r.Set("depth", depth)
	sessions(r, worlds, empty)
	history(r, worlds[0], empty)
}

// sessions runs every sequence over small alphabets in one session, whether or
// not it visits states more than once, and compares it with the single steps.
func sessions(r *lib.Report, worlds []*lib.World, empty *lib.Snap) {
	type family struct {
		name  string
		seed  []Op
		ops   []Op
		depth int
	}
	families := []family{
		{"assets", []Op{uni.Mk("a"), uni.Imp("a", lib.N1, lib.O1, lib.OX1, lib.L9), uni.Dist("a", lib.DistB), uni.Comp("a", lib.CompB), uni.Grp("a", lib.GrpB), uni.Idx("a"), uni.Mk("b")},
			[]Op{uni.Idx("a"), uni.Dist("a", lib.DistE), uni.Dist("a", lib.DistB), uni.Dist("a", ""), uni.Comp("a", lib.CompC), uni.Grp("a", ""), uni.Grp("a", lib.GrpC), uni.Trimobs("a"), uni.Pull("b", "a"), uni.Idx("b"), uni.Clone("a", "c", true)}, lib.Pick(4, 5)},
		{"lives", []Op{uni.Mk("a"), uni.Imp("a", lib.N1, lib.L9)},
			[]Op{uni.Mk("a"), uni.Del("a"), uni.Mk("b"), uni.Del("b"), uni.Imp("a", lib.N1), uni.Imp("b", lib.N2), uni.Clone("a", "b", true), uni.Pull("b", "a"), uni.Idx("b")}, lib.Pick(4, 5)},
		{"versions", []Op{uni.Mk("a"), uni.Imp("a", lib.N1, lib.N2), uni.Mk("b")},
			[]Op{uni.Imp("a", lib.N3), uni.Upl("a", lib.N3), uni.Upl("a", lib.N2B), uni.Imp("b", lib.N3V), uni.Trim("a", 1), uni.Rms("a", "nano", 3), uni.Rms("a", "nano", 0), uni.Pull("b", "a"), uni.Cps("a", "b", "nano", 2, true), uni.Delta("a", "nano", true), uni.Rms("b", "nano", 0)}, lib.Pick(4, 5)},
		{"deltas", []Op{uni.Mk("a"), uni.Imp("a", lib.Z1, lib.Z2, lib.N1, lib.N2), uni.Mk("b"), uni.Imp("b", lib.N1, lib.N2)},
			[]Op{uni.Delta("a", "zed", true), uni.Delta("a", "nano", false), uni.Delta("b", "nano", true), uni.RefDelta("b", uni.D12), uni.Rms("a", "nano", 1), uni.Rms("b", "nano", 0), uni.Imp("b", lib.N1), uni.Imp("a", lib.N3), uni.Trim("a", 1), uni.Del("a")}, lib.Pick(4, 5)},
	}
	deadline := r.Deadline()
	for _, f := range families {
		base, _, err := worlds[0].Session(empty, f.seed)
		if err != nil {
			r.Incomplete(err.Error())
			continue
		}
		// single steps, once per state and operation
		type step struct {
			once sync.Once
			to   string
			res  string
		}
		var mu sync.Mutex
		steps := map[string]*step{}
		snaps := map[string]*lib.Snap{}
		root := base.Hash()
		snaps[root] = base
		next := func(w *lib.World, from string, i int) *step {
			k := fmt.Sprint(from, i)
			mu.Lock()
			s := steps[k]
			if s == nil {
				s = &step{}
				steps[k] = s
			}
			sn := snaps[from]
			mu.Unlock()
			s.once.Do(func() {
				after, rs, err := w.Session(sn, f.ops[i:i+1])
				if err != nil {
					s.res = err.Error()
					return
				}
				s.res = fmt.Sprint(rs[0], rs[0].Changed)
				s.to = after.Hash()
				mu.Lock()
				if snaps[s.to] == nil {
					snaps[s.to] = after
				}
				mu.Unlock()
			})
			return s
		}
		n := len(f.ops)
		for d := 3; d <= f.depth; d++ {
			total := 1
			for i := 0; i < d; i++ {
				total *= n
			}
			var skipped atomic.Int64
			wi := make(chan *lib.World, len(worlds))
			for _, w := range worlds {
				wi <- w
			}
			lib.Parallel(total, len(worlds), func(i int) {
				if time.Now().After(deadline) || r.Found() > 4 {
					skipped.Add(1)
					return
				}
				w := <-wi
				defer func() { wi <- w }()
				var ops []Op
				var idx []int
				for x := i; len(ops) < d; x /= n {
					ops = append(ops, f.ops[x%n])
					idx = append(idx, x%n)
				}
				at, want := root, []string{}
				for _, k := range idx {
					s := next(w, at, k)
					if s.to == "" {
						r.Violation("data cannot be opened", fmt.Sprintf("%v: %s", ops, s.res), ops)
						return
					}
					at = s.to
					want = append(want, s.res)
				}
				for try := 0; ; try++ {
					one, rs, err := w.Session(base, ops)
					r.Count(0, int64(d), 1)
					if err != nil {
						r.Violation("data cannot be opened", err.Error(), ops)
						return
					}
					key, text := "", ""
					for j, x := range rs {
						if got := fmt.Sprint(x, x.Changed); got != want[j] {
							key, text = "an operation behaves differently after a restart", fmt.Sprintf("operation %d: with restarts %v, without %v", j+1, want[j], got)
							break
						}
					}
					if key == "" && one.Hash() != at {
						mu.Lock()
						text = snaps[at].Diff(one)
						mu.Unlock()
						key = "restarts lead to a different state"
					}
					if key == "" {
						return
					}
					if try > 0 {
						r.Violation(key, fmt.Sprintf("%s, %v: %s", f.name, ops, text), ops)
						return
					}
				}
			})
			if s := skipped.Load(); s > 0 {
				r.Incomplete(fmt.Sprintf("%d sequences of %s of length %d not run", s, f.name, d))
				break
			}
			r.Set("sequences_"+f.name, total)
		}
		r.Count(int64(len(snaps)), 0, 0)
	}
}

// compare runs ops in one session from base, and their last one in a session
// of its own from prev, the state the others led to with restarts in between.
func compare(w *lib.World, base, prev *lib.Snap, ops []Op) (restarted *lib.Snap, key, text string) {
	last := ops[len(ops)-1]
	// with restarts
	w.Restore(prev)
	m, err := w.Open()
	if err != nil {
		return nil, "data cannot be opened", err.Error()
	}
	r1 := lib.Exec(w, m, last)
	live, _ := lib.Observe(w, m)
	m.Close()
	restarted = w.Take()
	// opening alters nothing and shows the same
	if m, err = w.Open(); err != nil {
		return restarted, "data cannot be reopened", err.Error()
	}
	again, _ := lib.Observe(w, m)
	m.Close()
	if a, b := live.Canon(), again.Canon(); a != b {
		return restarted, "a restart changes what is listed", fmt.Sprintf("before\n%safter\n%s", a, b)
	}
	if after := w.Take(); after.Hash() != restarted.Hash() {
		return restarted, "opening existing data alters it", restarted.Diff(after)
	}
	// without restarts
	one, rs, err := w.Session(base, ops)
	if err != nil {
		return restarted, "data cannot be opened", err.Error()
	}
	if r2 := rs[len(rs)-1]; r1.String() != r2.String() || fmt.Sprint(r1.Changed) != fmt.Sprint(r2.Changed) {
		return restarted, "an operation behaves differently after a restart", fmt.Sprintf("%v: with restarts %v, without %v", last, r1, r2)
	}
	if one.Hash() != restarted.Hash() {
		return restarted, "restarts lead to a different state", restarted.Diff(one)
	}
	return restarted, "", ""
}

// history enumerates sequences of job store operations with and without
// reopening the store in between.
func history(r *lib.Report, w *lib.World, empty *lib.Snap) {
	kinds := []string{"push", "claim", "done", "reset completed", "reset failed"}
	depth := lib.Pick(5, 6)
	var rec func(seq []string)
	n := int64(0)
	rec = func(seq []string) {
		if len(seq) == depth {
			n++
			a := runJobs(w, empty, seq, false)
			b := runJobs(w, empty, seq, true)
			if a != b && !r.Has("a restart changes the job store") {
				r.Violation("a restart changes the job store", fmt.Sprintf("%v: in one session\n%srestarted\n%s", seq, a, b), map[string]any{"sequence": seq})
			}
			return
		}
		for _, k := range kinds {
			rec(append(seq[:len(seq):len(seq)], k))
		}
	}
	rec(nil)
	r.Count(0, 2*n*int64(depth), 2*n)
	r.Set("job_store_sequences", n)
}

func runJobs(w *lib.World, empty *lib.Snap, seq []string, restart bool) string {
	w.Restore(empty)
	s, err := jobs.NewStore(w.Base)
	if err != nil {
		return err.Error()
	}
	defer func() { s.Close() }()
	out := ""
	var claimed *jobs.JobEntry
	pushed := 0
	for _, k := range seq {
		// a claimed job is running: the daemon does not restart under it
		if restart && claimed == nil {
			s.Close()
			if s, err = jobs.NewStore(w.Base); err != nil {
				return err.Error()
			}
		}
		switch k {
		case "push":
			pushed++
			err = s.PushSequentialJob(jobs.NewCreateRepoJob(fmt.Sprintf("r%d", pushed)))
		case "claim":
			if claimed == nil {
				claimed, err = s.ClaimSequentialJob()
				if err == nil {
					out += "claimed " + claimed.Params[0] + "\n"
				}
			}
		case "done":
			if claimed != nil {
				err = s.RetireSequentialJob(claimed)
				claimed = nil
			}
		case "reset completed":
			err = s.ResetCompleted()
		case "reset failed":
			err = s.ResetFailed()
		}
		out += fmt.Sprintf("%s: %v\n", k, err)
		err = nil
		a, e1 := s.ActiveJobs()
		c, e2 := s.CompletedJobs()
		f, e3 := s.FailedJobs()
		out += fmt.Sprintf("%d active %d completed %d failed %v %v %v\n", len(a), len(c), len(f), e1, e2, e3)
		for _, j := range a {
			out += "  " + j.Description + "\n"
		}
	}
	return out
}
