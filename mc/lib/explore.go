//go:build go1.24

package lib

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// Res is the result of one executed operation.
type Res struct {
	Err     error
	Panic   string
	Changed []string
}

func (r Res) String() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return "ok"
}

// Exec performs an operation on a live manager.
func Exec(w *World, m *core.Manager, o Op) (res Res) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(veff.Crash); ok {
				panic(c)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			res.Panic = fmt.Sprintf("%v\n%s", r, st)
			res.Err = errors.New("panic")
		}
	}()
	switch o.Kind {
	case "create":
		res.Err = m.CreateRepo(o.Repo)
	case "delete":
		res.Err = m.DeleteRepo(o.Repo)
	case "index":
		res.Err = m.Index(o.Repo)
	case "clone":
		res.Err = m.CloneRepo(o.Repo, o.Other, o.Flag)
	case "pull":
		res.Changed, res.Err = m.PullRepo(o.Repo, o.Other)
	case "copysrc":
		res.Err = m.CopySource(o.Repo, o.Other, o.Src, o.N, o.Flag)
	case "rmsrc":
		res.Err = m.RemoveSource(o.Repo, o.Src, o.N)
	case "trim":
		res.Err = m.TrimPackages(o.Repo, o.N)
	case "trimobs":
		res.Err = m.TrimObsolete(o.Repo)
	case "import", "upload":
		var l []string
		for _, f := range o.Files {
			l = append(l, filepath.Join(w.Up, f))
		}
		res.Err = m.AddPackages(o.Repo, l, o.Kind == "upload")
	case "asset":
		d := filepath.Join(w.Base, "assets", o.Repo)
		if st, err := os.Stat(d); err != nil || !st.IsDir() {
			return
		}
		if o.Data == "" {
			os.Remove(filepath.Join(d, o.Src))
		} else {
			os.WriteFile(filepath.Join(d, o.Src), []byte(o.Data), 0644)
			Age(filepath.Join(d, o.Src), o.Data)
		}
	case "delta":
		j := jobs.NewDeltaJob(o.Repo, o.Src)
		h, err := jobs.NewDeltaJobHandler(j, o.Flag)
		if err != nil {
			res.Err = err
			return
		}
		res.Err = h.Execute(nil, m)
	case "adddelta":
		from, to := Lookup[o.Files[0]], Lookup[o.Files[1]]
		dir := filepath.Join(w.Root, "built")
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, DeltaName(to.Name, from.Release, to.Release, to.DistRel, to.Arch))
		if res.Err = core.ProduceDelta(dir, filepath.Join(w.Up, o.Files[0]), filepath.Join(w.Up, o.Files[1]), f); res.Err == nil {
			res.Err = m.AddDelta(o.Repo, f, &core.DeltaInformation{FromID: from.ID(), ToID: to.ID(), FromRelease: from.Release, ToRelease: to.Release})
		}
	case "refdelta":
		res.Err = m.RefDelta(o.Repo, o.Src)
	default:
		panic("unknown op " + o.Kind)
	}
	return
}

// Open starts a manager on a world.
func (w *World) Open() (m *core.Manager, err error) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(veff.Crash); ok {
				panic(c)
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return core.NewManager(w.Base)
}

// Session restores a snapshot, runs operations on one manager and snapshots.
func (w *World) Session(base *Snap, ops []Op) (*Snap, []Res, error) {
	w.Restore(base)
	m, err := w.Open()
	if err != nil {
		return nil, nil, err
	}
	var rs []Res
	for _, o := range ops {
		rs = append(rs, Exec(w, m, o))
	}
	m.Close()
	return w.Take(), rs, nil
}

// Node is an explored state.
type Node struct {
	snap   *Snap
	parent *Node
	op     Op
	st     *State
	depth  int
	seed   string
	// strange: something before broke another property
	strange bool
}

func (n *Node) path() (string, []Op) {
	var l []Op
	x := n
	for ; x.parent != nil; x = x.parent {
		l = append([]Op{x.op}, l...)
	}
	return x.seed, l
}

// Seed is a named start state built by operations.
type Seed struct {
	Name  string
	Ops   []Op
	Depth int // overrides the explorer's depth
}

// Explorer is a breadth first exploration of operation sequences.
type Explorer struct {
	R        *Report
	Seeds    []Seed
	Alphabet func(st *State) []Op
	Depth    int
	Workers  int
	Sources  []*Pkg
	// Observe switches additional per-state work off when false.
	NoProbe bool

	mu    sync.Mutex
	seen  map[string]*State
	shown map[string]bool
	stop  atomic.Bool
	busy  []atomic.Int64
	what  []atomic.Value
}

// Run explores and reports issues that belong to the report's property.
func (x *Explorer) Run() {
	if x.Workers == 0 {
		x.Workers = runtime.NumCPU()
	}
	x.seen = map[string]*State{}
	x.busy = make([]atomic.Int64, x.Workers)
	x.what = make([]atomic.Value, x.Workers)
	Prepare(x.Sources)
	worlds := make([]*World, x.Workers)
	for i := range worlds {
		worlds[i] = NewWorld(i)
		worlds[i].PutSources(x.Sources)
	}
	empty, _, err := worlds[0].Session(&Snap{DB: map[string][]KV{}, Nodes: []NodeEnt{{Path: ".", Dir: true}}}, nil)
	if err != nil {
		x.R.Violation("daemon does not start on an empty directory", err.Error(), nil)
		return
	}
	done := make(chan struct{})
	go x.watchdog(done)
	defer close(done)
	var level []*Node
	maxDepth := map[string]int{}
	for _, sd := range x.Seeds {
		maxDepth[sd.Name] = sd.Depth
		if sd.Depth == 0 {
			maxDepth[sd.Name] = x.Depth
		}
		n := &Node{snap: empty, st: NewState(), seed: "empty"}
		ok := true
		for _, o := range sd.Ops {
			c := x.visit(0, worlds[0], n, o, true)
			if c == nil {
				ok = false
				break
			}
			n = c
		}
		if !ok {
			x.R.Incomplete("seed " + sd.Name + " not usable")
			continue
		}
		root := *n
		root.depth = 0
		root.seed = sd.Name
		level = append(level, &root)
	}
	depth := 0
	deadline := x.R.Deadline()
	for len(level) > 0 && !x.stop.Load() {
		type task struct {
			n *Node
			o Op
		}
		var tasks []task
		for _, n := range level {
			if n.depth >= maxDepth[n.rootSeed()] {
				continue
			}
			for _, o := range x.Alphabet(n.st) {
				tasks = append(tasks, task{n, o})
			}
		}
		if len(tasks) == 0 {
			break
		}
		depth++
		var next []*Node
		var nmu sync.Mutex
		var idx atomic.Int64
		var wg sync.WaitGroup
		var skipped atomic.Int64
		for wi := 0; wi < x.Workers; wi++ {
			wg.Add(1)
			go func(wi int) {
				defer wg.Done()
				for {
					i := int(idx.Add(1)) - 1
					if i >= len(tasks) || x.stop.Load() {
						return
					}
					if time.Now().After(deadline) {
						skipped.Add(1)
						continue
					}
					t := tasks[i]
					c := x.visit(wi, worlds[wi], t.n, t.o, false)
					if c != nil && c.snap != nil {
						c.depth = t.n.depth + 1
						if c.depth >= maxDepth[c.rootSeed()] {
							c.snap = nil
						} else {
							nmu.Lock()
							next = append(next, c)
							nmu.Unlock()
						}
					}
				}
			}(wi)
		}
		wg.Wait()
		if s := skipped.Load(); s > 0 {
			x.R.Incomplete(fmt.Sprintf("time budget: %d operations at depth %d not run", s, depth))
			break
		}
		level = next
	}
	x.R.Set("depth", depth)
	x.R.Count(int64(len(x.seen)), 0, 0)
	for _, o := range veff.TakeOutside() {
		x.issue(Issue{"C27", "effect outside of the scratch world", o}, nil, nil)
	}
}

func (n *Node) rootSeed() string {
	for n.parent != nil && n.seed == "" {
		n = n.parent
	}
	return n.seed
}

func (x *Explorer) watchdog(done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		for i := range x.busy {
			t := x.busy[i].Load()
			if t != 0 && time.Now().UnixNano()-t > int64(60*time.Second) {
				o, _ := x.what[i].Load().([]Op)
				x.R.Violation("operation hangs", fmt.Sprintf("%v does not return", o), map[string]any{"ops": o})
				os.Exit(x.R.Finish())
			}
		}
	}
}

// soft issues do not make the abstract state wrong, exploration goes on.
var soft = map[string]bool{SymbolKey: true}

// eval executes op from node n in a session that starts one step earlier and
// checks the result.
func (x *Explorer) eval(wi int, w *World, n *Node, o Op, known bool) (snap *Snap, res Res, st *State, issues []Issue) {
	defer func() {
		if e := recover(); e != nil && n.strange {
			// a state that broke other properties is not understood
			x.R.Add("states_not_understood", 1)
			snap, st, issues = nil, nil, []Issue{{"", "not understood", fmt.Sprint(e)}}
		} else if e != nil {
			panic(e)
		}
	}()
	base, ops := n.snap, []Op{o}
	if n.parent != nil && n.parent.snap != nil {
		base, ops = n.parent.snap, []Op{n.op, o}
	}
	x.what[wi].Store(ops)
	x.busy[wi].Store(time.Now().UnixNano())
	defer x.busy[wi].Store(0)
	// whatever a manager may remember of its repositories, it now does
	warm := n.st.Fresh
	if len(ops) > 1 {
		warm = n.parent.st.Fresh
	}
	warming := []Op{}
	for _, id := range warm {
		warming = append(warming, Op{Kind: "index", Repo: id})
	}
	snap, rs, err := w.Session(base, append(warming, ops...))
	x.R.Count(0, int64(len(ops)), 1)
	if err != nil {
		return nil, res, nil, []Issue{{"*", "data cannot be opened", err.Error()}}
	}
	res = rs[len(rs)-1]
	h := snap.Hash()
	x.mu.Lock()
	st = x.seen[h]
	x.mu.Unlock()
	if st == nil || !known {
		st, issues = x.observe(w, n, o, res)
	} else if id := o.Indexed(); !x.NoProbe && res.Err == nil && id != "" && st.Repos[id] != nil && !st.Broken(id) && !slices.Contains(st.Fresh, id) {
		issues = append(issues, Issue{"C05", "index not current after an operation that indexes", fmt.Sprintf("%s after %v", id, o)})
	}
	if res.Panic != "" {
		issues = append(issues, Issue{o.Owner(), "panic in " + o.Kind, res.Panic}, Issue{"C22", "panic in " + o.Kind, res.Panic})
	}
	issues = append(issues, Compare(n.st, o, res, st)...)
	issues = append(issues, compareFiles(n.snap, o, res, snap, st.Broken(o.Indexed()))...)
	return
}

// visit executes op from node n. It returns the new node, or nil if the state
// is known or diverged from the specification.
func (x *Explorer) visit(wi int, w *World, n *Node, o Op, always bool) *Node {
	snap, res, st, issues := x.eval(wi, w, n, o, true)
	strange := false
	if len(issues) > 0 {
		hard, mine, over := false, false, false
		for _, i := range issues {
			m := x.R.Mine(i) && !x.R.Has(i.Key)
			mine = mine || m
			hard = hard || !soft[i.Key]
			over = over || m && !soft[i.Key]
		}
		if mine {
			// believe only what happens again
			again := map[string]bool{}
			_, _, _, l := x.eval(wi, w, n, o, false)
			for _, i := range l {
				again[i.Key] = true
			}
			for _, i := range issues {
				if again[i.Key] {
					x.issue(i, n, &o)
				} else if x.R.Mine(i) {
					x.R.Incomplete("unconfirmed: " + i.String())
				}
			}
		} else if hard {
			x.R.Add("transitions_outside_this_property", 1)
			if v := os.Getenv("VMC_VERBOSE"); v != "" && x.first(issues[0].Key) {
				_, l := n.path()
				fmt.Println("other:", l, o, issues[0])
			}
		}
		// what only breaks other properties must not hide what follows
		if over || st == nil || snap == nil || st.Lost {
			return nil
		}
		strange = hard
	}
	c := &Node{snap: snap, parent: n, op: o, st: st, strange: n.strange || strange}
	h := snap.Hash()
	x.mu.Lock()
	defer x.mu.Unlock()
	if _, ok := x.seen[h]; ok {
		if always {
			return c
		}
		return nil
	}
	x.seen[h] = st
	if len(x.seen)%37 == 5 {
		_, l := c.path()
		x.R.Sample(map[string]any{"ops": fmt.Sprint(l), "result": res.String(), "state": st.Canon()})
	}
	return c
}

func (x *Explorer) first(k string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.shown == nil {
		x.shown = map[string]bool{}
	}
	d := !x.shown[k]
	x.shown[k] = true
	return d
}

// observe reopens the state, checks it, and probes every index.
func (x *Explorer) observe(w *World, n *Node, o Op, res Res) (*State, []Issue) {
	m, err := w.Open()
	if err != nil {
		st := NewState()
		st.Lost = true
		return st, []Issue{{"C29", "data cannot be reopened", err.Error()}}
	}
	defer m.Close()
	st, issues := Observe(w, m)
	if res.Err == nil && o.Indexed() != "" && st.Repos[o.Indexed()] != nil {
		_, is := CheckIndex(w, o.Indexed(), st)
		issues = append(issues, is...)
	}
	if o.Kind == "delta" && o.Flag && res.Err == nil && n.st != nil {
		made := false
		for id, p := range st.Pool {
			made = made || p.Delta != nil && n.st.Pool[id] == nil
		}
		if made && st.Repos[o.Repo] != nil && !st.Broken(o.Repo) {
			// what was made is offered
			_, is := CheckIndex(w, o.Repo, st)
			issues = append(issues, is...)
		}
	}
	if x.NoProbe {
		return st, issues
	}
	for _, id := range SortedKeys(st.Repos) {
		f := filepath.Join(w.Base, "repo", id, "eopkg-index.xml")
		before, _ := os.ReadFile(f)
		r := Exec(w, m, Op{Kind: "index", Repo: id})
		if st.Broken(id) {
			if r.Err == nil || r.Panic != "" {
				issues = append(issues, Issue{"C04", "indexing with unusable asset data", id + ": " + r.String()}, Issue{"C22", "indexing with unusable asset data", id + ": " + r.String()})
			}
			continue
		}
		if r.Err != nil {
			issues = append(issues, Issue{"C04", "indexing fails", id + ": " + r.String()}, Issue{"C06", "indexing fails", id + ": " + r.String()})
			continue
		}
		after, _ := os.ReadFile(f)
		if res.Err == nil && o.Indexed() == id && string(before) != string(after) {
			issues = append(issues, Issue{"C05", "index not current after an operation that indexes", fmt.Sprintf("%s after %v", id, o)})
		}
		if string(before) == string(after) {
			st.Fresh = append(st.Fresh, id)
		}
		pubs, is := CheckIndex(w, id, st)
		issues = append(issues, is...)
		for name, p := range pubs {
			if e := st.Repos[id].Names[name]; e != nil {
				e.Pub = p
			}
		}
	}
	issues = append(issues, CheckTrees(w, st)...)
	return st, dedup(issues)
}

func dedup(l []Issue) []Issue {
	seen := map[Issue]bool{}
	var out []Issue
	for _, i := range l {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

// Compare decides whether an operation's effect on contents is acceptable.
func Compare(pre *State, o Op, res Res, post *State) (out []Issue) {
	outs := pre.Apply(o)
	var best *Outcome
	for i := range outs {
		c := &outs[i]
		for id, p := range c.State.Pool {
			if p.Sum == "" {
				if q := post.Pool[id]; q != nil {
					cp := *p
					cp.Sum = q.Sum
					c.State.Pool[id] = &cp
				}
			}
		}
		if c.Err != (res.Err != nil) {
			continue
		}
		if best == nil {
			best = c
		}
		if c.State.Canon() == post.Canon() && pubsFit(c.State, post) == "" {
			if o.Kind == "pull" && res.Err == nil {
				got := append([]string{}, res.Changed...)
				if fmt.Sprint(SortedKeys(set(got))) != fmt.Sprint(c.Changed) && !(len(got) == 0 && len(c.Changed) == 0) || len(set(got)) != len(got) {
					return []Issue{{"C08", "wrong list of changed names", fmt.Sprintf("%v reported %v, changed %v", o, got, c.Changed)}}
				}
			}
			return nil
		}
	}
	if len(outs) == 0 {
		return nil // from an inconsistent state, which is judged by itself
	}
	own := o.Owner()
	if best == nil {
		w := "succeeds"
		if outs[0].Err {
			w = "fails"
		}
		return []Issue{{own, fmt.Sprintf("%s: wrong result", o.Kind), fmt.Sprintf("%v should have %s: %v", o, map[string]string{"succeeds": "succeeded", "fails": "failed"}[w], res)}}
	}
	// what differs?
	want := best.State
	for _, id := range SortedKeys(union(want.Repos, post.Repos)) {
		a, b := want.Repos[id], post.Repos[id]
		ca, cb := "none", "none"
		if a != nil {
			ca = a.Canon()
		}
		if b != nil {
			cb = b.Canon()
		}
		if ca == cb {
			continue
		}
		prop, key := own, o.Kind+": wrong contents"
		if res.Err != nil {
			key = o.Kind + ": refused but contents changed"
		}
		if id != o.Target() {
			out = append(out, Issue{"C12", "operation changed another repository", fmt.Sprintf("%v changed %q: got\n%swant\n%s", o, id, cb, ca)})
			if o.Kind != "clone" && o.Kind != "pull" && o.Kind != "copysrc" {
				continue
			}
		}
		text := fmt.Sprintf("%v: %q got\n%swant\n%s", o, id, cb, ca)
		out = append(out, Issue{prop, key, text})
		if prop != "C31" && a != nil && b != nil && a.held() == b.held() && a.listed() != b.listed() {
			out = append(out, Issue{"C31", o.Kind + ": wrong deltas", text})
		}
	}
	if s := pubsFit(want, post); s != "" && len(out) == 0 {
		out = append(out, Issue{own, o.Kind + ": wrong published version", fmt.Sprintf("%v: %s", o, s)})
	}
	for _, i := range SortedKeys(want.Pool) {
		if q := post.Pool[i]; q != nil && q.Sum != want.Pool[i].Sum {
			out = append(out, Issue{"C02", "file bytes changed", fmt.Sprintf("%v: %s", o, i)})
		}
	}
	if fmt.Sprint(SortedKeys(want.Skips)) != fmt.Sprint(SortedKeys(post.Skips)) {
		out = append(out, Issue{"C31", "wrong set of deltas recorded as failed", fmt.Sprintf("%v: got %v want %v", o, SortedKeys(post.Skips), SortedKeys(want.Skips))})
	}
	if len(out) == 0 {
		a, b := want.Canon(), post.Canon()
		out = append(out, Issue{"C01", "pool contents differ from the repositories'", fmt.Sprintf("%v: got\n%swant\n%s", o, b, a)})
	}
	return
}

func pubsFit(want, post *State) string {
	for id, r := range want.Repos {
		for n, e := range r.Names {
			if e.Pub == "" || post.Repos[id] == nil || post.Repos[id].Names[n] == nil {
				continue
			}
			if p := post.Repos[id].Names[n].Pub; p != "" && p != e.Pub {
				return fmt.Sprintf("%s publishes %s of %s, expected %s", id, p, n, e.Pub)
			}
		}
	}
	return ""
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, i := range l {
		m[i] = true
	}
	return m
}

func union[V any](a, b map[string]V) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// compareFiles checks which files an operation may touch.
func compareFiles(pre *Snap, o Op, res Res, post *Snap, broken bool) (out []Issue) {
	if o.Kind == "asset" {
		return
	}
	a, b := pre.files(), post.files()
	changed := []string{}
	for _, p := range SortedKeys(union(a, b)) {
		x, ok1 := a[p]
		y, ok2 := b[p]
		if ok1 != ok2 || x != y {
			changed = append(changed, p)
		}
	}
	ix := o.Indexed()
	for _, p := range changed {
		parts := strings.Split(p, "/")
		top := parts[0]
		switch {
		case top == "repo" || top == "assets" || top == "deltaBuilds" || top == "deltaStaging":
			if len(parts) < 2 || parts[1] != o.Target() {
				out = append(out, Issue{"C12", "operation touched files of another repository", fmt.Sprintf("%v: %s", o, p)},
					Issue{"C27", "operation touched files of another repository", fmt.Sprintf("%v: %s", o, p)})
			} else if top == "repo" && len(parts) == 3 && strings.HasPrefix(parts[2], "eopkg-index") && o.Kind != "delete" &&
				(res.Err == nil && ix == "" && !(o.Kind == "delta" && o.Flag)) {
				out = append(out, Issue{"C05", "index changed although indexing was skipped", fmt.Sprintf("%v: %s", o, p)})
			}
		case top == "pool" || top == "ferry_db" || top == "ferry_db_jobs":
		default:
			out = append(out, Issue{"C27", "operation touched foreign files", fmt.Sprintf("%v: %s", o, p)})
		}
	}
	if res.Err != nil && res.Panic == "" && o.Kind != "delta" && !broken {
		for _, p := range changed {
			if o.Kind == "pull" && strings.HasPrefix(p, "assets/") {
				continue
			}
			if strings.HasPrefix(p, "ferry_db") {
				continue
			}
			out = append(out, Issue{o.Owner(), o.Kind + ": refused but files changed", fmt.Sprintf("%v: %s", o, p)})
		}
		if fmt.Sprint(pre.DB) != fmt.Sprint(post.DB) {
			out = append(out, Issue{o.Owner(), o.Kind + ": refused but records changed", fmt.Sprintf("%v: %s", o, pre.Diff(post))})
		}
	}
	return
}

func (s *Snap) files() map[string]string {
	m := map[string]string{}
	for _, n := range s.Nodes {
		if !n.Dir {
			m[n.Path] = n.Link + n.Data
		}
	}
	return m
}

// issue confirms and records an issue of this property.
func (x *Explorer) issue(i Issue, n *Node, o *Op) {
	if !x.R.Mine(i) {
		return
	}
	key := i.Key
	if x.R.Has(key) {
		return
	}
	var replay any
	if n != nil {
		seed, l := n.path()
		if o != nil {
			l = append(l, *o)
		}
		for _, s := range x.Seeds {
			if s.Name == seed {
				l = append(append([]Op{}, s.Ops...), l...)
			}
		}
		replay = map[string]any{"ops": l, "history": fmt.Sprint(l)}
		i.Text = fmt.Sprintf("after %v: %s", l, i.Text)
	}
	x.R.Violation(key, i.Text, replay)
	if x.R.Found() >= 5 {
		x.stop.Store(true)
	}
}
