//go:build go1.24

package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Scenario is a concurrent program whose schedules are enumerated.
type Scenario struct {
	Name  string
	Bound int // deviations from the default schedule
	Opts  vsched.Opts
	// Exec resets the world, runs the scenario once under o and judges it.
	Exec func(w *World, o vsched.Opts) (*vsched.Result, []Issue)
	// Prepare runs once per process before the first execution.
	Prepare func(w *World)
}

type partial struct {
	Scenario  string
	Schedules int64
	Runs      int64
	Steps     int64
	MaxPoints int
	Horizons  int64
	Deadlocks int64
	Late      bool
	Notes     []string
	Found     []struct {
		Key, Text string
		Replay    any
	}
	Sample any
}

// Schedules enumerates every schedule of every scenario up to its deviation
// bound, spread over processes (a run is process-global).
func Schedules(r *Report, scen []Scenario) {
	if c := os.Getenv("VMC_CHILD"); c != "" {
		child(r, scen, c)
		os.Exit(0)
	}
	if f := os.Getenv("VMC_REPLAY"); f != "" {
		replay(r, scen, f)
		return
	}
	n := runtime.NumCPU()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	outs := make([][]partial, n)
	var wg sync.WaitGroup
	var failed atomic.Bool
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(TmpRoot(), fmt.Sprintf("c%d", i))
			os.MkdirAll(dir, 0755)
			c := exec.Command(exe, os.Args[1:]...)
			left := int(time.Until(r.Deadline()).Seconds())
			if left < 5 {
				left = 5
			}
			c.Env = append(os.Environ(), "GOGC=400", fmt.Sprintf("VMC_CHILD=%d/%d", i, n), "VMC_TMP="+dir, "VMC_BUDGET="+strconv.Itoa(left), "GOMAXPROCS=2")
			var errb strings.Builder
			c.Stderr = &errb
			err := c.Run()
			b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
			if err != nil || rerr != nil || json.Unmarshal(b, &outs[i]) != nil {
				t := errb.String()
				if len(t) > 3000 {
					t = t[:1500] + "\n...\n" + t[len(t)-1500:]
				}
				fmt.Fprintf(os.Stderr, "schedule explorer %d failed: %v %v\n%s\n", i, err, rerr, t)
				// what it had found stands
				outs[i] = make([]partial, len(scen))
				if b, err := os.ReadFile(filepath.Join(dir, "found.json")); err == nil {
					json.Unmarshal(b, &outs[i][0])
				}
				failed.Store(true)
			}
		}(i)
	}
	wg.Wait()
	if failed.Load() {
		any := false
		for i := range outs {
			for k := range outs[i] {
				any = any || len(outs[i][k].Found) > 0
			}
		}
		if !any {
			os.Exit(3)
		}
	}
	var sums []map[string]any
	for k, s := range scen {
		var t partial
		for i := range outs {
			p := outs[i][k]
			t.Schedules += p.Schedules
			t.Steps += p.Steps
			t.Runs += p.Runs
			t.Horizons += p.Horizons
			t.Deadlocks += p.Deadlocks
			if p.MaxPoints > t.MaxPoints {
				t.MaxPoints = p.MaxPoints
			}
			if p.Late {
				t.Late = true
			}
			for _, f := range p.Found {
				r.Violation(f.Key, f.Text, f.Replay)
			}
			for _, x := range p.Notes {
				r.Incomplete(x)
			}
			if i == 0 && p.Sample != nil {
				r.Sample(p.Sample)
			}
		}
		if t.Late {
			r.Incomplete(fmt.Sprintf("scenario %s: not all schedules with %d deviations were run", s.Name, s.Bound))
		}
		r.Count(t.Schedules+t.Runs, t.Steps, t.Schedules+t.Runs)
		sums = append(sums, map[string]any{"scenario": s.Name, "deviation_bound": s.Bound, "schedules": t.Schedules, "crash_runs": t.Runs, "steps": t.Steps, "max_decisions": t.MaxPoints, "horizon_runs": t.Horizons, "complete": !t.Late})
		if os.Getenv("VMC_VERBOSE") != "" {
			fmt.Printf("scenario %s: bound %d, %d schedules, %d decisions at most, %d horizons, complete=%v\n", s.Name, s.Bound, t.Schedules, t.MaxPoints, t.Horizons, !t.Late)
		}
	}
	if o, ok := r.Extra["scenarios"].([]map[string]any); ok {
		sums = append(o, sums...)
	}
	r.Set("scenarios", sums)
}

func child(r *Report, scen []Scenario, spec string) {
	var me, n int
	fmt.Sscanf(spec, "%d/%d", &me, &n)
	w := NewWorld(0)
	if f := os.Getenv("VMC_PPROF"); f != "" && me == 0 {
		p, _ := os.Create(f)
		pprof.StartCPUProfile(p)
		defer pprof.StopCPUProfile()
	}
	var out []partial
	for _, s := range scen {
		out = append(out, s.explore(r, w, me, n))
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(TmpRoot(), "result.json"), b, 0644); err != nil {
		panic(err)
	}
}

func (s *Scenario) explore(r *Report, w *World, me, n int) (p partial) {
	p.Scenario = s.Name
	if s.Prepare != nil {
		s.Prepare(w)
	}
	type node struct {
		choices []int
		cost    int
	}
	seen := map[string]bool{}
	run := func(nd node) *vsched.Result {
		o := s.Opts
		o.Choices = nd.choices
		res, l := s.Exec(w, o)
		if res.Diverged != "" {
			p.Notes = append(p.Notes, s.Name+": nondeterministic: "+res.Diverged)
			return nil
		}
		for _, i := range l {
			if !r.Mine(i) {
				if os.Getenv("VMC_VERBOSE") != "" && !seen[i.String()] {
					seen[i.String()] = true
					fmt.Fprintf(os.Stderr, "other: %s\n", i)
				}
				continue
			}
			if seen[i.Key] {
				continue
			}
			_, again := s.Exec(w, o)
			ok := false
			for _, j := range again {
				ok = ok || j.Key == i.Key
			}
			if !ok {
				p.Notes = append(p.Notes, s.Name+": unconfirmed: "+i.String())
				continue
			}
			seen[i.Key] = true
			p.Found = append(p.Found, struct {
				Key, Text string
				Replay    any
			}{i.Key, fmt.Sprintf("scenario %s, schedule %v: %s", s.Name, nd.choices, i.Text), map[string]any{"scenario": s.Name, "choices": nd.choices}})
			if b, err := json.Marshal(p); err == nil {
				os.WriteFile(filepath.Join(TmpRoot(), "found.json"), b, 0644)
			}
		}
		return res
	}
	deadline := r.Deadline()
	// frame enumerates the alternatives that deviate from one run after its
	// forced prefix; it is advanced lazily so that long runs cost one record.
	type frame struct {
		nd   node
		pts  []vsched.PointRec
		i, c int
	}
	next := func(f *frame) (node, bool) {
		for ; f.i < len(f.pts); f.i, f.c = f.i+1, 0 {
			pt := &f.pts[f.i]
			for f.c < pt.N {
				c := f.c
				f.c++
				if c == pt.Choice || f.nd.cost+int(pt.Cost[c]) > s.Bound {
					continue
				}
				ch := make([]int, f.i+1)
				copy(ch, f.nd.choices)
				for k := len(f.nd.choices); k < f.i; k++ {
					ch[k] = f.pts[k].Choice
				}
				ch[f.i] = c
				return node{ch, f.nd.cost + int(pt.Cost[c])}, true
			}
		}
		return node{}, false
	}
	note := func(res *vsched.Result) {
		p.Schedules++
		p.Runs += int64(res.Runs)
		p.Steps += int64(res.Steps)
		if len(res.Points) > p.MaxPoints {
			p.MaxPoints = len(res.Points)
		}
		if res.Horizon {
			p.Horizons++
		}
		if res.Deadlock != "" {
			p.Deadlocks++
		}
	}
	root := node{}
	res := run(root)
	if res == nil {
		return
	}
	if me == 0 {
		note(res)
		p.Sample = map[string]any{"scenario": s.Name, "decisions_in_default_schedule": len(res.Points), "steps": res.Steps}
	}
	// the first level is enumerated by everyone; subtrees are dealt out
	stack := []*frame{{nd: root, pts: res.Points}}
	dealt := 0
	for len(stack) > 0 {
		nd, ok := next(stack[len(stack)-1])
		if !ok {
			stack = stack[:len(stack)-1]
			continue
		}
		if len(stack) == 1 {
			dealt++
			if (dealt-1)%n != me {
				continue
			}
		}
		if time.Now().After(deadline) || len(p.Found) >= 6 {
			p.Late = true
			return
		}
		res := run(nd)
		if res == nil {
			continue
		}
		note(res)
		// a run that does not end is a finding by itself: what deviates
		// from it later is not explored
		if res.Horizon && len(p.Found) > 0 {
			continue
		}
		stack = append(stack, &frame{nd: nd, pts: res.Points, i: len(nd.choices)})
	}
	return
}

// replay reruns one recorded schedule and prints its trace.
func replay(r *Report, scen []Scenario, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var f struct {
		Replay struct {
			Scenario string
			Choices  []int
		}
	}
	json.Unmarshal(b, &f)
	for _, s := range scen {
		if s.Name != f.Replay.Scenario {
			continue
		}
		w := NewWorld(0)
		if s.Prepare != nil {
			s.Prepare(w)
		}
		o := s.Opts
		o.Choices, o.Trace = f.Replay.Choices, true
		res, l := s.Exec(w, o)
		for _, t := range res.Trace {
			fmt.Println(t)
		}
		for _, i := range l {
			if r.Mine(i) {
				r.Violation(i.Key, i.Text, f.Replay)
			}
		}
		return
	}
}

// Op intervals for linearizability.

// HOp is one completed operation of a concurrent history.
type HOp struct {
	Who       string
	Call, Ret int64
	What      string
	// Apply returns the state after the operation, or false if its observed
	// result is impossible in that state.
	Apply func(state string) (string, bool)
}

// Linearizable looks for a sequential order of the history that respects real
// time and every result; it returns the final states of all such orders.
func Linearizable(init string, h []HOp) map[string]bool {
	final := map[string]bool{}
	type key struct {
		mask  uint64
		state string
	}
	seen := map[key]bool{}
	var rec func(mask uint64, st string)
	rec = func(mask uint64, st string) {
		if seen[key{mask, st}] {
			return
		}
		seen[key{mask, st}] = true
		if mask == 1<<len(h)-1 {
			final[st] = true
			return
		}
		first := int64(1 << 62)
		for i, o := range h {
			if mask&(1<<i) == 0 && o.Ret < first {
				first = o.Ret
			}
		}
		for i, o := range h {
			if mask&(1<<i) != 0 || o.Call > first {
				continue
			}
			if n, ok := o.Apply(st); ok {
				rec(mask|1<<i, n)
			}
		}
	}
	rec(0, init)
	return final
}
