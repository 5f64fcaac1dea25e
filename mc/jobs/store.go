//go:build go1.24

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

// mkJob makes the n-th distinguishable job of a queue.
func mkJob(seq bool, n int) *jobs.JobEntry {
	if !seq {
		return jobs.NewDeltaJob(fmt.Sprintf("repo%d", n), fmt.Sprintf("name%d", n))
	}
	switch n % 4 {
	case 0:
		return jobs.NewIndexRepoJob(fmt.Sprintf("repo%d", n))
	case 1:
		return jobs.NewBulkAddJob(fmt.Sprintf("repo%d", n), []string{"/x/a", "", "/y/b c"})
	case 2:
		return jobs.NewCopySourceJob(fmt.Sprintf("repo%d", n), "t", "s", n, true)
	}
	return jobs.NewTransitJob(fmt.Sprintf("/in/%d.tram", n))
}

// ident is a job's identity: its type and parameters.
func ident(j *jobs.JobEntry) string { return fmt.Sprintf("%s%q", j.Type, j.Params) }

func describe(j *jobs.JobEntry) string {
	h, err := jobs.NewJobHandler(j)
	if err != nil {
		return "?"
	}
	return h.Describe()
}

// setFailure marks a job as failed, as the worker does; false when the job
// entry has no single error field to set.
func setFailure(j *jobs.JobEntry, e error) bool {
	v := reflect.ValueOf(j).Elem()
	n := -1
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Type == reflect.TypeOf((*error)(nil)).Elem() {
			if n >= 0 {
				return false
			}
			n = i
		}
	}
	if n < 0 {
		return false
	}
	*(*error)(unsafe.Pointer(v.Field(n).UnsafeAddr())) = e
	return true
}

// C15: sequences of queue operations against a model

type queueModel struct {
	q   [2][]string // waiting and claimed jobs in queue order
	run [2]map[string]bool
	n   int
}

type qop struct {
	kind string
	seq  int // 0 sequential, 1 asynchronous
	arg  int
}

func (o qop) String() string {
	return fmt.Sprintf("%s/%s/%d", o.kind, []string{"sequential", "async"}[o.seq], o.arg)
}

// runQueue runs a sequence of operations on a fresh store and checks each.
func runQueue(w *lib.World, ops []qop) (key string, out []lib.Issue) {
	bad := func(k, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C15", Key: k, Text: fmt.Sprintf(t, a...)})
	}
	vleveldb.Drop(w.Base)
	s, err := jobs.NewStore(w.Base)
	if err != nil {
		bad("store cannot be opened", "%v", err)
		return
	}
	defer func() { s.Close() }()
	m := queueModel{run: [2]map[string]bool{{}, {}}}
	var live [2][]*jobs.JobEntry // claimed entries in claim order
	past := 0
	for step, o := range ops {
		at := fmt.Sprintf("%v step %d", ops, step)
		switch o.kind {
		case "push":
			j := mkJob(o.seq == 0, m.n)
			m.n++
			m.q[o.seq] = append(m.q[o.seq], ident(j))
			var err error
			if o.seq == 0 {
				err = s.PushSequentialJob(j)
			} else {
				err = s.PushAsyncJob(j)
			}
			if err != nil {
				bad("push fails", "%s: %v", at, err)
			}
		case "claim":
			var j *jobs.JobEntry
			var err error
			if o.seq == 0 {
				j, err = s.ClaimSequentialJob()
			} else {
				j, err = s.ClaimAsyncJob()
			}
			want := ""
			for _, x := range m.q[o.seq] {
				if !m.run[o.seq][x] {
					want = x
					break
				}
			}
			switch {
			case want == "" && (err != jobs.ErrEmptyQueue || j != nil):
				bad("claim from an empty queue", "%s: %v %v", at, j, err)
			case want != "" && err != nil:
				bad("claim fails although a job is queued", "%s: %v, want %s", at, err, want)
			case want != "" && ident(j) != want:
				bad("claim returns another job than the oldest", "%s: %s, want %s", at, ident(j), want)
			}
			if j != nil {
				m.run[o.seq][ident(j)] = true
				live[o.seq] = append(live[o.seq], j)
			}
		case "retire":
			if o.arg >= len(live[o.seq]) {
				return "", nil // not applicable
			}
			j := live[o.seq][o.arg]
			live[o.seq] = append(append([]*jobs.JobEntry{}, live[o.seq][:o.arg]...), live[o.seq][o.arg+1:]...)
			var err error
			if o.seq == 0 {
				err = s.RetireSequentialJob(j)
			} else {
				err = s.RetireAsyncJob(j)
			}
			if err != nil {
				bad("retire fails", "%s: %v", at, err)
			}
			past++
			delete(m.run[o.seq], ident(j))
			var l []string
			for _, x := range m.q[o.seq] {
				if x != ident(j) {
					l = append(l, x)
				}
			}
			m.q[o.seq] = l
		case "reopen":
			s.Close()
			if s, err = jobs.NewStore(w.Base); err != nil {
				bad("store cannot be reopened", "%s: %v", at, err)
				return
			}
			m.run = [2]map[string]bool{{}, {}}
			live = [2][]*jobs.JobEntry{}
		}
	}
	act, err := s.ActiveJobs()
	if err != nil {
		bad("active jobs cannot be listed", "%v: %v", ops, err)
	}
	if len(act) != len(m.q[0])+len(m.q[1]) {
		bad("wrong number of active jobs", "%v: %d, want %d+%d", ops, len(act), len(m.q[0]), len(m.q[1]))
	}
	c, _ := s.CompletedJobs()
	if len(c) != past {
		bad("wrong number of completed jobs", "%v: %d, want %d", ops, len(c), past)
	}
	// the state up to renaming of jobs
	key = fmt.Sprint(past > 0)
	for k := range m.q {
		key += "|"
		for _, x := range m.q[k] {
			p := -1
			for i, j := range live[k] {
				if ident(j) == x {
					p = i
				}
			}
			key += fmt.Sprint(p, " ")
		}
	}
	// what is stored matters too: ids restart when a queue runs empty
	key += fmt.Sprint(len(m.q[0]), len(m.q[1]))
	// draining hands out the rest in order, after the claimed ones are put back
	s.Close()
	if s, err = jobs.NewStore(w.Base); err != nil {
		bad("store cannot be reopened", "%v: %v", ops, err)
		return
	}
	for k := range m.q {
		for i := 0; i <= len(m.q[k]); i++ {
			var j *jobs.JobEntry
			if k == 0 {
				j, err = s.ClaimSequentialJob()
			} else {
				j, err = s.ClaimAsyncJob()
			}
			if i == len(m.q[k]) {
				if j != nil {
					bad("job handed out twice", "%v: %s", ops, ident(j))
				}
				break
			}
			if err != nil || ident(j) != m.q[k][i] {
				bad("wrong order after a restart", "%v: position %d: %v %v, want %s", ops, i, j, err, m.q[k][i])
				break
			}
		}
	}
	return
}

// queueBFS explores all sequences of queue operations.
func queueBFS(r *lib.Report) {
	depth := lib.Pick(8, 12)
	var alpha []qop
	for k := 0; k < 2; k++ {
		alpha = append(alpha, qop{"push", k, 0}, qop{"claim", k, 0}, qop{"retire", k, 0}, qop{"retire", k, 1}, qop{"retire", k, 2})
	}
	alpha = append(alpha, qop{"reopen", 0, 0})
	type node struct{ ops []qop }
	level := []node{{}}
	seen := map[string]bool{}
	trans := int64(0)
	worlds := make(chan *lib.World, 8)
	for i := 0; i < 8; i++ {
		worlds <- lib.NewWorld(100 + i)
	}
	for d := 0; d < depth && len(level) > 0; d++ {
		type res struct {
			n   node
			key string
			iss []lib.Issue
		}
		var todo []node
		for _, n := range level {
			for _, o := range alpha {
				if o.kind == "push" && pending(n.ops, o.seq) >= 3 {
					continue
				}
				todo = append(todo, node{append(append([]qop{}, n.ops...), o)})
			}
		}
		outs := make([]res, len(todo))
		lib.Parallel(len(todo), 8, func(i int) {
			w := <-worlds
			k, iss := runQueue(w, todo[i].ops)
			outs[i] = res{todo[i], k, iss}
			worlds <- w
		})
		level = nil
		for _, x := range outs {
			for _, i := range x.iss {
				if r.Mine(i) {
					r.Violation(i.Key, i.Text, map[string]any{"ops": fmt.Sprint(x.n.ops)})
				}
			}
			if x.key == "" {
				continue
			}
			trans++
			if !seen[x.key] {
				seen[x.key] = true
				level = append(level, x.n)
			}
		}
		if time.Now().After(r.Deadline()) {
			r.Incomplete("queue operations: deadline")
			break
		}
	}
	r.Count(int64(len(seen)), trans, trans)
	r.Set("queue_sequences", map[string]any{"depth": depth, "alphabet": fmt.Sprint(alpha), "states": len(seen), "sequences_run": trans, "fixpoint": len(level) == 0})
}

func pending(ops []qop, seq int) (n int) {
	for _, o := range ops {
		if o.seq == seq && o.kind == "push" {
			n++
		}
		if o.seq == seq && o.kind == "retire" {
			n--
		}
	}
	return
}

// C17: the history rings

type histModel struct {
	ok, bad []string // most recent last
}

func (m *histModel) add(l *[]string, s string) {
	*l = append(*l, s)
	if len(*l) > 100 {
		*l = (*l)[len(*l)-100:]
	}
}

func times(t libferry.TimingInformation) string {
	return fmt.Sprintf("%d/%d/%d", t.Queued.UnixNano(), t.Begin.UnixNano(), t.End.UnixNano())
}

func list(l []*libferry.Job) []string {
	var out []string
	for _, j := range l {
		s := times(j.Timing)
		if j.Failed || j.Error != "" {
			s += fmt.Sprintf(" failed=%v %s", j.Failed, j.Error)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// histStep performs one operation and updates the model.
func histStep(s *jobs.JobStore, m *histModel, op string, n int) (out []lib.Issue) {
	bad := func(k, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C17", Key: k, Text: fmt.Sprintf(t, a...)})
	}
	switch op {
	case "ok", "fail":
		seq := n%2 == 0
		push, claim, retire := s.PushSequentialJob, s.ClaimSequentialJob, s.RetireSequentialJob
		if !seq {
			push, claim, retire = s.PushAsyncJob, s.ClaimAsyncJob, s.RetireAsyncJob
		}
		if err := push(mkJob(seq, n)); err != nil {
			bad("push fails", "%v", err)
			return
		}
		j, err := claim()
		if err != nil {
			bad("claim fails", "%v", err)
			return
		}
		j.Timing.End = time.Now().UTC()
		e := fmt.Sprintf("error %d", n)
		rec := times(j.Timing)
		if op == "fail" {
			if !setFailure(j, fmt.Errorf("%s", e)) {
				return
			}
			m.add(&m.bad, rec+" failed=true "+e)
		} else {
			m.add(&m.ok, rec)
		}
		if err := retire(j); err != nil {
			bad("retire fails", "%v", err)
		}
	case "resetok":
		if err := s.ResetCompleted(); err != nil {
			bad("reset fails", "completed: %v", err)
		}
		m.ok = nil
	case "resetfail":
		if err := s.ResetFailed(); err != nil {
			bad("reset fails", "failed: %v", err)
		}
		m.bad = nil
	}
	return
}

func histCheck(s *jobs.JobStore, m *histModel) (out []lib.Issue) {
	bad := func(k, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C17", Key: k, Text: fmt.Sprintf(t, a...)})
	}
	c, err := s.CompletedJobs()
	if err != nil {
		bad("completed jobs cannot be listed", "%v", err)
	}
	f, err := s.FailedJobs()
	if err != nil {
		bad("failed jobs cannot be listed", "%v", err)
	}
	if g, w := list(c), sorted(m.ok); strings.Join(g, "\n") != strings.Join(w, "\n") {
		bad("completed list is not the most recent outcomes", "%s", diff(g, w))
	}
	if g, w := list(f), sorted(m.bad); strings.Join(g, "\n") != strings.Join(w, "\n") {
		bad("failed list is not the most recent outcomes", "%s", diff(g, w))
	}
	return
}

func diff(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var miss, extra []string
	for x, n := range w {
		if g[x] < n {
			miss = append(miss, x)
		}
	}
	for x, n := range g {
		if w[x] < n {
			extra = append(extra, x)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return fmt.Sprintf("%d listed, %d expected; missing %v; unexpected %v", len(got), len(want), cut(miss), cut(extra))
}

func cut(l []string) []string {
	if len(l) > 3 {
		return append(l[:3:3], "...")
	}
	return l
}

// historyBFS runs every sequence of outcomes and resets from histories of
// every interesting length.
func historyBFS(r *lib.Report) {
	fills := [][2]int{{0, 0}, {1, 0}, {98, 0}, {99, 99}, {100, 1}, {101, 100}, {150, 99}, {199, 0}, {200, 101}, {0, 98}, {0, 200}, {2, 100}}
	ops := []string{"ok", "fail", "resetok", "resetfail", "reopen"}
	depth := lib.Pick(5, 6)
	var seqs [][]string
	var gen func(p []string)
	gen = func(p []string) {
		if len(p) == depth {
			seqs = append(seqs, append([]string{}, p...))
			return
		}
		for _, o := range ops {
			if len(p) > 0 && o == "reopen" && p[len(p)-1] == "reopen" {
				continue
			}
			gen(append(p, o))
		}
	}
	gen(nil)
	worlds := make(chan *lib.World, 8)
	for i := 0; i < 8; i++ {
		worlds <- lib.NewWorld(100 + i)
	}
	states := map[string]bool{}
	for _, fl := range fills {
		w := <-worlds
		vleveldb.Drop(w.Base)
		var base histModel
		s, err := jobs.NewStore(w.Base)
		if err != nil {
			r.Violation("store cannot be opened", err.Error(), nil)
			return
		}
		n := 0
		for fl[0]+fl[1] > n {
			op := "ok"
			if n >= fl[0] {
				op = "fail"
			}
			for _, i := range histStep(s, &base, op, n) {
				r.Violation(i.Key, i.Text, nil)
			}
			n++
		}
		for _, i := range histCheck(s, &base) {
			r.Violation(i.Key, fmt.Sprintf("after %v outcomes: %s", fl, i.Text), map[string]any{"fill": fl})
		}
		s.Close()
		snap := w.Take()
		worlds <- w
		lib.Parallel(len(seqs), 8, func(i int) {
			if r.Found() > 5 || time.Now().After(r.Deadline()) {
				r.Incomplete("history: deadline or findings")
				return
			}
			w := <-worlds
			defer func() { worlds <- w }()
			m := histModel{append([]string{}, base.ok...), append([]string{}, base.bad...)}
			w.RestoreDB(snap)
			s, err := jobs.NewStore(w.Base)
			if err != nil {
				r.Violation("store cannot be opened", err.Error(), nil)
				return
			}
			for k, o := range seqs[i] {
				if o == "reopen" {
					s.Close()
					if s, err = jobs.NewStore(w.Base); err != nil {
						r.Violation("store cannot be opened", err.Error(), nil)
						return
					}
				}
				for _, x := range append(histStep(s, &m, o, n+k), histCheck(s, &m)...) {
					r.Violation(x.Key, fmt.Sprintf("after %v outcomes, %v: %s", fl, seqs[i][:k+1], x.Text), map[string]any{"fill": fl, "ops": seqs[i][:k+1]})
				}
			}
			s.Close()
			r.Count(0, int64(len(seqs[i])), 1)
		})
		// a crash at any effect of an outcome or reset leaves old or new, and recording goes on
		w = <-worlds
		for _, o := range ops[:4] {
			for k := 1; ; k++ {
				m := histModel{append([]string{}, base.ok...), append([]string{}, base.bad...)}
				old := histModel{append([]string{}, base.ok...), append([]string{}, base.bad...)}
				w.RestoreDB(snap)
				s, err := jobs.NewStore(w.Base)
				if err != nil {
					r.Violation("store cannot be opened", err.Error(), nil)
					return
				}
				w.Eff.Arm(k, 0, 0)
				hit := func() (hit bool) {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(veff.Crash); !ok {
								panic(e)
							}
							hit = true
						}
					}()
					histStep(s, &m, o, n)
					return
				}()
				w.Eff.Arm(0, 0, 0)
				vleveldb.CrashClose(w.Base)
				if !hit {
					break
				}
				s, err = jobs.NewStore(w.Base)
				if err != nil {
					r.Violation("store cannot be opened after a crash", err.Error(), nil)
					return
				}
				a, b := histCheck(s, &old), histCheck(s, &m)
				pick := &old
				if len(a) > 0 {
					pick = &m
				}
				if len(a) > 0 && len(b) > 0 {
					r.Violation("after a crash the history is neither old nor new", fmt.Sprintf("%v, %s, effect %d: %s / %s", fl, o, k, a[0].Text, b[0].Text), nil)
				} else {
					for t := 0; t < 3; t++ {
						for _, x := range append(histStep(s, pick, []string{"ok", "fail"}[t%2], n+10+t), histCheck(s, pick)...) {
							r.Violation("after a crash: "+x.Key, fmt.Sprintf("%v, crash in %s at effect %d: %s", fl, o, k, x.Text), nil)
						}
					}
				}
				s.Close()
				r.Add("crash_points", 1)
			}
		}
		worlds <- w
		states[fmt.Sprint(fl)] = true
	}
	r.Count(int64(len(states)*len(seqs)), 0, 0)
	r.Set("history_sequences", map[string]any{"depth": depth, "operations": ops, "start_lengths": fmt.Sprint(fills), "sequences": len(seqs) * len(fills)})
}
