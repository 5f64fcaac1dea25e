//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vhttp"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
	"github.com/getsolus/ferryd/src/verifmc/vnet"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// bench34 is the start state of histories of requests, whose reports are
// compared with what the operations did and said.
type bench34 struct {
	base *lib.Snap
	ops  []Op
	said map[string][]lib.Res
}

func (b *bench34) prepare(w *lib.World) {
	if b.base != nil {
		return
	}
	pk := append(append([]*lib.Pkg{}, lib.Good...), lib.Bad...)
	lib.Prepare(pk)
	w.PutSources(pk)
	s, res, err := w.Session(emptySnap, append(append([]Op{}, uni.S1.Ops...), uni.Mk("c")))
	if err != nil {
		panic(err)
	}
	for _, r := range res {
		if r.Err != nil {
			panic(r.Err)
		}
	}
	b.base = s
	b.said = map[string][]lib.Res{}
}

// reported lists operations with every kind of outcome.
func reported() []Op {
	missing := Op{Kind: "import", Repo: "b", Files: []string{"missing.eopkg"}}
	return []Op{uni.Mk("new"), uni.Mk("a"), uni.Mk(".."), uni.Del("a"), uni.Del("zz"), uni.Idx("b"), uni.Idx("zz"), uni.Trim("a", 1), uni.Trim("b", 0), uni.Trim("zz", 7), uni.Trimobs("a"), uni.Trimobs("b"),
		uni.Clone("a", "new", true), uni.Clone("b", "new", false), uni.Clone("a", "b", true), uni.Clone("zz", "new", false), uni.Pull("a", "b"), uni.Pull("b", "a"), uni.Pull("zz", "a"),
		uni.Cps("a", "b", "libfoo", 10, false), uni.Cps("b", "a", "nano", 1, true), uni.Cps("a", "b", "zz", 3, false), uni.Cps("a", "zz", "nano", -1, false), uni.Rms("a", "libfoo", 9), uni.Rms("b", "zz", 4), uni.Rms("zz", "nano", 1),
		uni.Imp("b", lib.N3), uni.Imp("c", lib.N1, lib.N2, lib.L10), uni.Imp("b", lib.N3, lib.NotZip), missing, uni.Imp("zz", lib.N1)}
}

func ask34(w *lib.World, o Op) error {
	c := client(w)
	switch o.Kind {
	case "create":
		return c.CreateRepo(o.Repo)
	case "delete":
		return c.DeleteRepo(o.Repo)
	case "index":
		return c.IndexRepo(o.Repo)
	case "trim":
		return c.TrimPackages(o.Repo, o.N)
	case "trimobs":
		return c.TrimObsolete(o.Repo)
	case "clone":
		return c.CloneRepo(o.Repo, o.Other, o.Flag)
	case "pull":
		return c.PullRepo(o.Repo, o.Other)
	case "copysrc":
		return c.CopySource(o.Repo, o.Other, o.Src, o.N, o.Flag)
	case "rmsrc":
		return c.RemoveSource(o.Repo, o.Src, o.N)
	case "import":
		return c.ImportPackages(o.Repo, paths(w, o.Files))
	}
	panic(o.Kind)
}

// told lists the words a description of an operation has, in order.
func told(o Op) []string {
	q := func(s string) string { return "'" + s + "'" }
	switch o.Kind {
	case "create":
		return []string{"create", q(o.Repo)}
	case "delete":
		return []string{"delete", q(o.Repo)}
	case "index":
		return []string{"index", q(o.Repo)}
	case "trim":
		return []string{"trim", "packages", strconv.Itoa(o.N), q(o.Repo)}
	case "trimobs":
		return []string{"trim", "obsoletes", q(o.Repo)}
	case "clone":
		return []string{"clone", q(o.Repo), "into", q(o.Other)}
	case "pull":
		return []string{"pull", q(o.Repo), "into", q(o.Other)}
	case "copysrc":
		return []string{"copy", q(o.Src), strconv.Itoa(o.N), q(o.Repo), "to", q(o.Other)}
	case "rmsrc":
		return []string{"remove", q(o.Src), strconv.Itoa(o.N), q(o.Repo)}
	case "import":
		return []string{"add", strconv.Itoa(len(o.Files)), q(o.Repo)}
	}
	panic(o.Kind)
}

// tells reports whether a description has the words in order.
func tells(d string, words []string) bool {
	f := strings.FieldsFunc(strings.ToLower(d), func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == ':' || r == ',' })
	i := 0
	for _, x := range f {
		if i < len(words) && x == words[i] {
			i++
		}
	}
	return i == len(words)
}

func (b *bench34) direct(w *lib.World, ops []Op) []lib.Res {
	k := ""
	for _, o := range ops {
		k += fmt.Sprintf("%+v;", o)
	}
	if r, ok := b.said[k]; ok {
		return r
	}
	_, res, err := w.Session(b.base, ops)
	if err != nil {
		panic(err)
	}
	if len(b.said) > 20000 {
		b.said = map[string][]lib.Res{}
	}
	b.said[k] = res
	return res
}

// sent is one accepted request.
type sent struct {
	op         Op
	from, to   time.Time
	begin, end time.Time
	res        lib.Res
}

type moment struct {
	what string
	at   time.Time
}

func sameRecord(a, b *libferry.Job) bool {
	return a.Description == b.Description && a.Error == b.Error && a.Failed == b.Failed && a.Timing.Queued.Equal(b.Timing.Queued) && a.Timing.Begin.Equal(b.Timing.Begin) && a.Timing.End.Equal(b.Timing.End)
}

// history sends requests, half of the variants while the daemon is stopped in
// between, and judges all reports.
func (b *bench34) history(w *lib.World, o vsched.Opts, ops []Op, how int) (*vsched.Result, []lib.Issue) {
	results := b.direct(w, ops)
	reset(w, b.base)
	var out []lib.Issue
	bad := func(key, f string, a ...any) {
		out = append(out, lib.Issue{Prop: "C34", Key: key, Text: fmt.Sprintf("%v: ", ops) + fmt.Sprintf(f, a...)})
	}
	var reqs []*sent
	var effects []moment
	first := map[int]*libferry.Job{} // the records as they were first shown
	watch := func(on bool) {
		w.Eff.After = nil
		if on {
			w.Eff.After = func(op, p, p2 string) {
				rel, _ := filepath.Rel(w.Base, p)
				for _, t := range []string{"repo/", "pool/", "assets/", "ferry_db"} {
					if strings.HasPrefix(rel, t) && !strings.HasPrefix(rel, "ferry_db_jobs") {
						effects = append(effects, moment{op + " " + rel, vsched.Now()})
					}
				}
			}
		}
	}
	// look judges one answer.
	look := func(when string, ended bool) {
		st, err := status(w)
		now := vsched.Now()
		if err != nil {
			bad("status fails", "%s: %v", when, err)
			return
		}
		if st.TimeStarted.After(now) || st.Uptime() < 0 {
			bad("wrong start time", "%s: %v at %v", when, st.TimeStarted, now)
		}
		if n := len(st.CurrentJobs) + len(st.FailedJobs) + len(st.CompletedJobs); n != len(reqs) {
			bad("not one report per request", "%s: %d for %d: %q %q %q", when, n, len(reqs), describe(st.CurrentJobs), describe(st.FailedJobs), describe(st.CompletedJobs))
			return
		}
		if ended && len(st.CurrentJobs) != 0 {
			bad("ended job is reported as current", "%s: %q", when, describe(st.CurrentJobs))
		}
		for i, q := range reqs {
			var mine []*libferry.Job
			at := nowhere
			for _, x := range []struct {
				l  libferry.JobSet
				at int
			}{{st.CurrentJobs, current}, {st.FailedJobs, failed}, {st.CompletedJobs, completed}} {
				for _, j := range x.l {
					if j.Timing.Queued.After(q.from) && j.Timing.Queued.Before(q.to) {
						mine = append(mine, j)
						at = x.at
					}
				}
			}
			if len(mine) != 1 {
				bad("a request's report does not have the time of the request", "%s: %v: %d reports", when, q.op, len(mine))
				continue
			}
			j := mine[0]
			if !tells(j.Description, told(q.op)) {
				bad("description does not tell what was asked", "%s: %v: %q", when, q.op, j.Description)
			}
			if j.Timing.Queued.Location() != time.UTC {
				bad("time is not in UTC", "%s: %v", when, j.Timing.Queued)
			}
			if at == current {
				if j.Failed || j.Error != "" || !j.Timing.End.IsZero() {
					bad("current job is reported as ended", "%s: %v: %+v", when, q.op, j)
				}
				if !j.Timing.Begin.IsZero() && (j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.Begin.After(now)) {
					bad("times are out of order", "%s: %v: %+v", when, q.op, j.Timing)
				}
				continue
			}
			if j.Failed != (at == failed) {
				bad("record is in the wrong list", "%s: %v: %+v", when, q.op, j)
			}
			if (q.res.Err != nil) != j.Failed {
				bad("report of a wrong outcome", "%s: %v: %+v, the operation says %v", when, q.op, j, q.res)
			} else if q.res.Err != nil && !strings.Contains(j.Error, q.res.Err.Error()) || q.res.Err == nil && j.Error != "" {
				bad("report of a wrong error", "%s: %v: %q, the operation says %v", when, q.op, j.Error, q.res)
			}
			t := j.Timing
			if t.Begin.Before(t.Queued) || t.End.Before(t.Begin) || t.End.After(now) {
				bad("times are out of order", "%s: %v: %+v", when, q.op, t)
			}
			if j.TotalTime() != t.End.Sub(t.Queued) || j.ExecutionTime() != t.End.Sub(t.Begin) || j.QueuedTime() != t.Begin.Sub(t.Queued) {
				bad("wrong durations", "%s: %v: %+v", when, q.op, t)
			}
			q.begin, q.end = t.Begin, t.End
			if f := first[i]; f == nil {
				first[i] = j
			} else if !sameRecord(f, j) {
				bad("a record changes", "%s: %v: first %+v, now %+v", when, q.op, f, j)
			}
		}
	}
	push := func(o Op, r lib.Res) {
		q := &sent{op: o, res: r, from: vsched.Now()}
		if err := ask34(w, o); err != nil {
			return
		}
		q.to = vsched.Now()
		reqs = append(reqs, q)
	}
	// the effects of the jobs lie within their times
	cover := func() {
		for _, e := range effects {
			n := 0
			for _, q := range reqs {
				if q.begin.Before(e.at) && e.at.Before(q.end) {
					n++
				}
			}
			if n != 1 {
				bad("times do not cover the execution", "%s at %v is within %d of the jobs' times", e.what, e.at, n)
				return
			}
		}
	}
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			bad("daemon does not start", "")
			return
		}
		watch(true)
		if how&1 == 0 { // all at once
			for i, o := range ops {
				push(o, results[i])
				look("after a request", false)
			}
		} else { // one by one
			for i, o := range ops {
				push(o, results[i])
				look("after a request", false)
				if err := idle(w); err != nil {
					bad("daemon does not finish", "%v", err)
					return
				}
				look("after its execution", true)
				vsched.Sleep(time.Duration(i+1) * 7 * time.Second)
			}
		}
		if how&2 == 2 { // asked in the middle
			n := len(effects)
			for k := 0; k < 3; k++ {
				vsched.BlockUrgent("effects", func() bool { return len(effects) > n+k*5 || vsched.Now().Sub(reqs[0].from) > time.Minute })
				look("during the execution", false)
			}
		}
		if how&4 == 4 { // a restart before the execution
			d.term()
			watch(false)
			if d = boot(w); !d.serving() {
				bad("daemon does not start", "")
				return
			}
			watch(true)
			look("after a restart before the execution", false)
		}
		if err := idle(w); err != nil {
			bad("daemon does not finish", "%v", err)
			return
		}
		watch(false)
		look("after the execution", true)
		cover()
		from := vsched.Now()
		text, e := ctl(w, "status")
		to := vsched.Now()
		if e != "" {
			bad("ferryctl status fails", "%s", e)
		}
		if st, err := status(w); err == nil {
			for _, x := range shown(st, text, false, from, to) {
				bad("ferryctl: "+x.Key, "%s", x.Text)
			}
		}
		d.term()
		if d = boot(w); !d.serving() {
			bad("daemon does not start", "")
			return
		}
		vsched.Sleep(5 * time.Second)
		look("after a restart", true)
		d.term()
	})
	over(w)
	return res, append(out, ended("C34", res)...)
}

// interrupted kills the daemon after k effects of a job, and judges what the
// next one says about it and about one that waits behind it.
func (b *bench34) interrupted(w *lib.World, o vsched.Opts, op Op, k int) (*vsched.Result, []lib.Issue) {
	reset(w, b.base)
	var out []lib.Issue
	bad := func(key, f string, a ...any) {
		out = append(out, lib.Issue{Prop: "C34", Key: key, Text: fmt.Sprintf("%v killed after %d effects: ", op, k) + fmt.Sprintf(f, a...)})
	}
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			bad("daemon does not start", "")
			return
		}
		from := vsched.Now()
		if ask34(w, op) != nil {
			d.term()
			return
		}
		to := vsched.Now()
		if err := client(w).IndexRepo("waits"); err != nil {
			bad("request is refused", "%v", err)
		}
		n, done := 0, false
		w.Eff.After = func(op, p, p2 string) { n++ }
		vsched.BlockUrgent("effects", func() bool { return n >= k || vsched.Now().Sub(from) > 20*time.Second })
		w.Eff.After = nil
		vsched.KillProc(d.p, 9)
		vleveldb.CrashClose(w.Base)
		look := func(when string, over bool) {
			st, err := status(w)
			if err != nil {
				bad("status fails", "%s: %v", when, err)
				return
			}
			now := vsched.Now()
			if m := len(st.CurrentJobs) + len(st.FailedJobs) + len(st.CompletedJobs); m != 2 {
				bad("not one report per request", "%s: %d for 2", when, m)
				return
			}
			for at, l := range []libferry.JobSet{st.CurrentJobs, st.FailedJobs, st.CompletedJobs} {
				for _, j := range l {
					words := []string{"index", "'waits'"}
					if j.Timing.Queued.Before(to) {
						words = told(op)
						if j.Timing.Queued.Before(from) {
							bad("times are out of order", "%s: %+v", when, j)
						}
					}
					if !tells(j.Description, words) {
						bad("description does not tell what was asked", "%s: %q", when, j.Description)
					}
					switch {
					case at > 0 && (j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) || j.Timing.End.After(now)):
						bad("times are out of order", "%s: %+v", when, j)
					case at == 0 && over:
						bad("ended job is reported as current", "%s: %+v", when, j)
					case at == 0 && !j.Timing.Begin.IsZero():
						bad("waiting job is reported as running", "%s: %+v", when, j)
					case at > 0:
						done = true
					}
				}
			}
		}
		vsched.Freeze()
		if d = boot(w); !d.serving() {
			bad("daemon does not start", "")
			return
		}
		look("at once after the restart", false)
		if err := idle(w); err != nil {
			bad("daemon does not finish", "%v", err)
			return
		}
		look("after the execution", true)
		if !done {
			bad("jobs have no outcome", "")
		}
		d.term()
	})
	over(w)
	return res, append(out, ended("C34", res)...)
}

// many runs more jobs than are shown by default and judges what ferryctl shows.
func (b *bench34) many(w *lib.World, o vsched.Opts, n, fails int) (*vsched.Result, []lib.Issue) {
	reset(w, b.base)
	var out []lib.Issue
	bad := func(key, f string, a ...any) {
		out = append(out, lib.Issue{Prop: "C34", Key: key, Text: fmt.Sprintf("%d jobs of which %d fail: ", n, fails) + fmt.Sprintf(f, a...)})
	}
	st, err := jobs.NewStore(w.Base)
	if err != nil {
		bad("store cannot be opened", "%v", err)
		return &vsched.Result{}, out
	}
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("n%d", i)
		if i < fails {
			st.PushSequentialJob(jobs.NewIndexRepoJob("x" + id))
			names["x"+id] = true
		} else {
			st.PushSequentialJob(jobs.NewCreateRepoJob(id))
			names[id] = false
		}
	}
	st.Close()
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			bad("daemon does not start", "")
			return
		}
		look := func(when string, ended bool) {
			st, err := status(w)
			if err != nil {
				bad("status fails", "%s: %v", when, err)
				return
			}
			seen := map[string]bool{}
			for at, l := range []libferry.JobSet{st.CurrentJobs, st.FailedJobs, st.CompletedJobs} {
				for _, j := range l {
					x := strings.Split(j.Description+"''", "'")[1]
					f, ok := names[x]
					if !ok || seen[x] || at == 1 && !f || at == 2 && f || at == 0 && ended {
						bad("wrong report", "%s: %q in list %d", when, j.Description, at)
					}
					seen[x] = true
				}
			}
			if len(seen) != n {
				bad("jobs are not reported", "%s: %d of %d", when, len(seen), n)
			}
			for _, all := range []bool{false, true} {
				a := []string{"status"}
				if all {
					a = append(a, "-a")
				}
				vsched.Quiet(func() {
					from := vsched.Now()
					text, e := ctl(w, a...)
					if e != "" {
						bad("ferryctl status fails", "%s", e)
					}
					for _, x := range shown(st, text, all, from, vsched.Now()) {
						bad("ferryctl: "+x.Key, "%s: %s", when, x.Text)
					}
				})
			}
		}
		look("before the execution", false)
		for i := 0; i < 200; i++ {
			st, err := status(w)
			if err != nil {
				bad("status fails", "%v", err)
				return
			}
			if len(st.CurrentJobs) == 0 {
				break
			}
			vsched.Sleep(3 * time.Second)
		}
		look("after the execution", true)
		d.term()
	})
	over(w)
	return res, append(out, ended("C34", res)...)
}

// rows cuts a printed table into cells; wrapped cells are joined.
func rows(text, kind string) (l [][]string) {
	for _, x := range strings.Split(text, "\n") {
		c := strings.Split(x, "|")
		if len(c) < 2 {
			continue
		}
		for i := range c {
			c[i] = strings.TrimSpace(c[i])
		}
		if c[0] == "" && len(l) > 0 && len(l[len(l)-1]) == len(c) {
			for i := range c {
				l[len(l)-1][i] = strings.TrimSpace(l[len(l)-1][i] + " " + c[i])
			}
			continue
		}
		l = append(l, c)
	}
	return
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// shown compares what ferryctl printed with the status it was given.
func shown(st *libferry.StatusRequest, text string, all bool, from, to time.Time) (out []lib.Issue) {
	bad := func(key, f string, a ...any) {
		out = append(out, lib.Issue{Prop: "C34", Key: key, Text: fmt.Sprintf(f, a...) + ": " + text})
	}
	stamp := func(t time.Time) string { return t.Format("2006-01-02 15:04:05") }
	parts := map[string]string{}
	cur, head := "", ""
	for _, x := range strings.SplitAfter(text, "\n") {
		for _, h := range []string{"Failed jobs:", "Current/Active jobs:", "Completed jobs:"} {
			if strings.HasPrefix(x, h) {
				cur = h
				if parts[h] != "" {
					bad("a list is shown twice", "%s", h)
				}
			}
		}
		if cur == "" {
			head += x
		} else {
			parts[cur] += x
		}
	}
	if !strings.Contains(head, st.Version) {
		bad("version is not shown", "%q", st.Version)
	}
	up := ""
	for _, x := range strings.Split(head, "\n") {
		if i := strings.Index(strings.ToLower(x), "uptime: "); i >= 0 {
			up = strings.TrimSpace(x[i+len("uptime: "):])
		}
	}
	if d, err := time.ParseDuration(up); err != nil || d < from.Sub(st.TimeStarted) || d > to.Sub(st.TimeStarted) {
		bad("wrong uptime", "%q for a start at %v, between %v and %v", up, st.TimeStarted, from, to)
	}
	for _, x := range []struct {
		h      string
		l      libferry.JobSet
		newest bool
	}{{"Failed jobs:", st.FailedJobs, true}, {"Current/Active jobs:", st.CurrentJobs, false}, {"Completed jobs:", st.CompletedJobs, true}} {
		p := parts[x.h]
		if len(x.l) == 0 {
			if p != "" {
				bad("an empty list is shown", "%s", x.h)
			}
			continue
		}
		if !strings.HasPrefix(p, fmt.Sprintf("%s (%d ", x.h, len(x.l))) {
			bad("wrong number of jobs", "%s %d", x.h, len(x.l))
		}
		want := append(libferry.JobSet{}, x.l...)
		sort.SliceStable(want, func(i, j int) bool {
			if x.newest {
				i, j = j, i
			}
			return want[i].Timing.Queued.Before(want[j].Timing.Queued)
		})
		if !all && len(want) > 10 {
			want = want[:10]
		}
		got := rows(p, x.h)
		if len(got) > 0 && strings.EqualFold(got[0][0], "status") {
			got = got[1:]
		} else {
			bad("table without a header", "%s", x.h)
		}
		if len(got) > 0 && strings.Trim(strings.Join(got[0], ""), "-+") == "" {
			got = got[1:]
		}
		if len(got) != len(want) {
			bad("wrong number of rows", "%s: %d rows, want %d", x.h, len(got), len(want))
			continue
		}
		for i, j := range want {
			g := got[i]
			var w []string
			switch x.h {
			case "Failed jobs:":
				w = []string{"failed", stamp(j.Timing.End), j.Timing.End.Sub(j.Timing.Begin).String(), squeeze(j.Description), squeeze(j.Error)}
			case "Completed jobs:":
				w = []string{"success", stamp(j.Timing.End), j.Timing.End.Sub(j.Timing.Queued).String(), j.Timing.End.Sub(j.Timing.Begin).String(), squeeze(j.Description)}
			default:
				s := "queued"
				if !j.Timing.Begin.IsZero() {
					s = "running"
				}
				w = []string{s, stamp(j.Timing.Queued), "", squeeze(j.Description)}
				if len(g) == 4 {
					d, err := time.ParseDuration(g[2])
					if err != nil || d < from.Sub(j.Timing.Queued) || d > to.Sub(j.Timing.Queued) {
						bad("wrong waiting time", "%v for %+v", g, j)
					}
					w[2] = g[2]
				}
			}
			for k := range g {
				g[k] = squeeze(g[k])
			}
			if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
				bad("wrong row", "%s: %q, want %q", x.h, g, w)
				break
			}
		}
	}
	return
}

// stub serves a status until the run ends.
func stub(w *lib.World, st *libferry.StatusRequest) func() {
	l, err := vnet.Listen("unix", sock(w))
	if err != nil {
		panic(err)
	}
	srv := &vhttp.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		json.NewEncoder(rw).Encode(st)
	})}
	p := vsched.GoProc("stub", nil, func() { srv.Serve(l) })
	vsched.Block("stub up", func() bool { return vhttp.Served(sock(w)) != nil })
	return func() {
		l.Close()
		srv.Close()
		_ = p
	}
}

// display is a case of what a daemon may report.
type display struct {
	name string
	st   func(now time.Time) *libferry.StatusRequest
}

func displays() (l []display) {
	start := func(now time.Time) time.Time { return now.Add(-100 * time.Hour) }
	job := func(kind int, q time.Time, n int) *libferry.Job {
		j := &libferry.Job{Description: fmt.Sprintf("Job '%d' of kind %d", n, kind), Timing: libferry.TimingInformation{Queued: q}}
		switch kind {
		case 0: // queued or running
			if n%3 == 0 {
				j.Timing.Begin = q.Add(time.Duration(n+1) * 1500 * time.Millisecond)
			}
		case 1:
			j.Failed, j.Error = true, fmt.Sprintf("error '%d'", n)
			fallthrough
		default:
			// the order of the ends is not that of the queueing
			j.Timing.Begin = q.Add(time.Duration(n%7) * 61 * time.Second)
			j.Timing.End = j.Timing.Begin.Add(time.Duration((n*5)%11)*time.Hour + time.Duration(n)*time.Microsecond)
		}
		return j
	}
	put := func(st *libferry.StatusRequest, kind int, l libferry.JobSet) {
		switch kind {
		case 0:
			st.CurrentJobs = l
		case 1:
			st.FailedJobs = l
		case 2:
			st.CompletedJobs = l
		}
	}
	add := func(name string, f func(st *libferry.StatusRequest, t0 time.Time)) {
		l = append(l, display{name, func(now time.Time) *libferry.StatusRequest {
			st := &libferry.StatusRequest{TimeStarted: start(now), Version: "9.8.7"}
			f(st, start(now))
			return st
		}})
	}
	for kind := 0; kind < 3; kind++ {
		kind := kind
		// every order of few jobs
		for n := 1; n <= lib.Pick(4, 6); n++ {
			for _, p := range permutations(n) {
				p := p
				add(fmt.Sprintf("kind %d in order %v", kind, p), func(st *libferry.StatusRequest, t0 time.Time) {
					var l libferry.JobSet
					for i, x := range p {
						l = append(l, job(kind, t0.Add(time.Duration(x+1)*time.Minute), i))
					}
					put(st, kind, l)
				})
			}
		}
		// every number of jobs, oldest first, newest first and neither
		for _, n := range sizes() {
			for how := 0; how < 3; how++ {
				n, how := n, how
				add(fmt.Sprintf("%d of kind %d, order %d", n, kind, how), func(st *libferry.StatusRequest, t0 time.Time) {
					var l libferry.JobSet
					for i := 0; i < n; i++ {
						x := []int{i, n - i, i * 37 % 101}[how]
						l = append(l, job(kind, t0.Add(time.Duration(x+1)*time.Second), i))
					}
					put(st, kind, l)
				})
			}
		}
		// spans of time and texts
		for _, d := range []time.Duration{0, 1, time.Microsecond, 999 * time.Millisecond, time.Second, 59999 * time.Millisecond, 90 * time.Minute, 99 * time.Hour} {
			for _, e := range []time.Duration{0, time.Nanosecond, time.Minute, 30 * time.Hour} {
				d, e := d, e
				add(fmt.Sprintf("kind %d after %v for %v", kind, d, e), func(st *libferry.StatusRequest, t0 time.Time) {
					j := job(kind, t0, 1)
					if kind > 0 {
						j.Timing.Begin = t0.Add(d)
						j.Timing.End = t0.Add(d + e)
					} else {
						j.Timing.Queued = t0.Add(d)
					}
					put(st, kind, libferry.JobSet{j})
				})
			}
		}
		for _, s := range []string{"", "x", "é ü €", "100% %s %d", "'' \"\" <a&b> \\ ", strings.Repeat("many words ", 40), strings.Repeat("long", 60), "a  b"} {
			s := s
			add(fmt.Sprintf("kind %d with text %.20q", kind, s), func(st *libferry.StatusRequest, t0 time.Time) {
				j := job(kind, t0, 1)
				j.Description = s
				k := job(kind, t0.Add(time.Second), 2)
				if kind == 1 {
					k.Error = s
				}
				put(st, kind, libferry.JobSet{j, k})
			})
		}
	}
	some := []int{0, 1, 10, 11}
	for _, a := range some {
		for _, b := range some {
			for _, c := range some {
				n := []int{a, b, c}
				add(fmt.Sprintf("all kinds, %v", n), func(st *libferry.StatusRequest, t0 time.Time) {
					for kind, n := range n {
						var l libferry.JobSet
						for i := 0; i < n; i++ {
							l = append(l, job(kind, t0.Add(time.Duration(i*37%101+1)*time.Second), i))
						}
						put(st, kind, l)
					}
				})
			}
		}
	}
	return
}

func sizes() (l []int) {
	for n := 0; n <= 25; n++ {
		l = append(l, n)
	}
	return append(l, 99, 100)
}

func permutations(n int) (l [][]int) {
	if n == 0 {
		return [][]int{nil}
	}
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			l = append(l, q)
		}
	}
	return
}

func reports(r *lib.Report) {
	b := &bench34{}
	ops := reported()
	n := len(ops)
	var scen []lib.Scenario
	scen = append(scen, lib.Scenario{Name: "reports of single requests", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, n*8, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return b.history(w, o, ops[i/8:i/8+1], i%8)
		})
	}})
	at := lib.Pick(12, 60)
	scen = append(scen, lib.Scenario{Name: "reports of interrupted jobs", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, n*at, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return b.interrupted(w, o, ops[i/at], i%at+1)
		})
	}})
	tot := n * n * 2
	if lib.Thorough() {
		tot *= n
	}
	scen = append(scen, lib.Scenario{Name: "reports of histories of requests", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, tot, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			how, i := i%2, i/2
			h := []Op{ops[i%n], ops[i/n%n]}
			if lib.Thorough() {
				h = append(h, ops[i/n/n])
			}
			// only the first part of the variants: asked in the middle, restarted before
			return b.history(w, o, h, []int{1, 6}[how])
		})
	}})
	var counts [][2]int
	for _, n := range []int{9, 10, 11, 12, 25, 60, 101} {
		for _, f := range []int{0, 1, n / 2, n} {
			counts = append(counts, [2]int{n, f})
		}
	}
	// what is not kept does not have to be shown
	var kept [][2]int
	for _, c := range counts {
		if c[1] <= jobs.MaxJobsStored && c[0]-c[1] <= jobs.MaxJobsStored {
			kept = append(kept, c)
		}
	}
	long := opts25
	long.MaxTicks, long.MaxSteps = 100000, 10000000
	scen = append(scen, lib.Scenario{Name: "reports of many jobs", Opts: long, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(kept), func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return b.many(w, o, kept[i][0], kept[i][1])
		})
	}})
	ds := displays()
	r.Set("displayed_statuses", len(ds))
	scen = append(scen, lib.Scenario{Name: "what ferryctl shows", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(ds)*2, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return show(w, o, ds[i/2], i%2 == 1)
		})
	}})
	lib.Schedules(r, scen)
}

func show(w *lib.World, o vsched.Opts, d display, all bool) (*vsched.Result, []lib.Issue) {
	reset(w, emptySnap)
	var out []lib.Issue
	res := vsched.Run(o, func() {
		st := d.st(vsched.Now())
		done := stub(w, st)
		a := []string{"status"}
		if all {
			a = append(a, "-a")
		}
		from := vsched.Now()
		text, e := ctl(w, a...)
		to := vsched.Now()
		if e != "" {
			out = append(out, lib.Issue{Prop: "C34", Key: "ferryctl status fails", Text: d.name + ": " + e})
		}
		for _, x := range shown(st, text, all, from, to) {
			out = append(out, lib.Issue{Prop: "C34", Key: "ferryctl: " + x.Key, Text: d.name + ": " + x.Text})
		}
		done()
	})
	over(w)
	return res, append(out, ended("C34", res)...)
}
