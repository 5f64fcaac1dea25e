//go:build go1.24

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/spf13/pflag"

	"github.com/getsolus/ferryd/src/ferryctl/cmd"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/ferryctlmain"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vhttp"
	"github.com/getsolus/ferryd/src/verifmc/vos"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type Op = lib.Op

// Identifiers of existing repositories with characters that mean something in
// a request, and others that must not be taken for something else.
var (
	oddIDs  = []string{"a b", "a?x", "a%2Fb", "a+b", "a#f", "%41", "a;b", "é", "a&b=c", "x:y", "a\"b", "<a>", "a-b", "a%"}
	badIDs  = []string{"", ".", "..", "a/b", "a/", "/a", "a//b", "../a", "a/../b", "./a", "../../remove/repo/a", "../../reset/failed", "a/../../../remove/repo/a", "../../../../api/v1/remove/repo/a", "..%2F..%2Fremove%2Frepo%2Fa", "a?x=1&y", "a#", "a\x00b", " ", " a", "a ", "zz", "repo", "A"}
	sources = []string{"nano", "libfoo", "", "zz", "../nano", "na no", "nano?x", "é\"<>&\u2028", "nano/"}
	numbers = []int{-1, 0, 1, 2, 9, math.MinInt32, math.MaxInt32}
)

// request is one client request and the operation it stands for.
type request struct {
	name string
	call func(w *lib.World, c *libferry.Client) error
	ctl  []string // arguments of ferryctl instead
	ops  []Op     // nil: nothing may be queued
	must bool     // has to be accepted
}

func (q *request) String() string { return q.name }

// do sends the request and reports whether it was accepted.
func (q *request) do(w *lib.World) error {
	if q.call != nil {
		return q.call(w, client(w))
	}
	_, text := ctl(w, q.ctl...)
	if text != "" {
		return fmt.Errorf("%s", text)
	}
	return nil
}

// ctl runs ferryctl in a process of its own and returns what it printed.
func ctl(w *lib.World, args ...string) (stdout, stderr string) {
	dir := filepath.Join(w.Root, "ctl")
	os.MkdirAll(dir, 0755)
	o, _ := os.Create(filepath.Join(dir, "out"))
	e, _ := os.Create(filepath.Join(dir, "err"))
	so, se, vo, ve := os.Stdout, os.Stderr, vos.Stdout.File, vos.Stderr.File
	os.Stdout, os.Stderr, vos.Stdout.File, vos.Stderr.File = o, e, o, e
	p := vsched.GoProc("ferryctl", nil, func() {
		fresh()
		os.Args = append([]string{"ferryctl", "-s", sock(w)}, args...)
		ferryctlmain.XMain()
		vsched.KillProc(vsched.CurProc(), 0)
	})
	vsched.Block("ferryctl", func() bool { return !p.Alive })
	os.Stdout, os.Stderr, vos.Stdout.File, vos.Stderr.File = so, se, vo, ve
	o.Close()
	e.Close()
	a, _ := os.ReadFile(o.Name())
	b, _ := os.ReadFile(e.Name())
	return string(a), string(b)
}

// fresh gives all flags of ferryctl their default values, as a new process has.
func fresh() {
	clear := func(f *pflag.Flag) {
		f.Value.Set(f.DefValue)
		f.Changed = false
	}
	var each func(c interface {
		PersistentFlags() *pflag.FlagSet
		Flags() *pflag.FlagSet
	})
	each = func(c interface {
		PersistentFlags() *pflag.FlagSet
		Flags() *pflag.FlagSet
	}) {
		c.PersistentFlags().VisitAll(clear)
		c.Flags().VisitAll(clear)
	}
	each(cmd.RootCmd)
	for _, c := range cmd.RootCmd.Commands() {
		each(c)
		for _, d := range c.Commands() {
			each(d)
		}
	}
}

func paths(w *lib.World, files []string) (l []string) {
	for _, f := range files {
		l = append(l, filepath.Join(w.Up, f))
	}
	return
}

// deltas is what a delta request stands for.
func deltaOps(repo string) []Op { return []Op{{Kind: "deltas", Repo: repo}} }

func allRequests() (l []*request) {
	add := func(name string, ops []Op, call func(w *lib.World, c *libferry.Client) error) {
		l = append(l, &request{name: name, ops: ops, call: call})
	}
	one := func(o Op) []Op { return []Op{o} }
	ids := append(append([]string{"a", "b", "new"}, oddIDs...), badIDs...)
	for _, id := range ids {
		id := id
		add(fmt.Sprintf("create %q", id), one(uni.Mk(id)), func(_ *lib.World, c *libferry.Client) error { return c.CreateRepo(id) })
		add(fmt.Sprintf("remove %q", id), one(uni.Del(id)), func(_ *lib.World, c *libferry.Client) error { return c.DeleteRepo(id) })
		add(fmt.Sprintf("index %q", id), one(uni.Idx(id)), func(_ *lib.World, c *libferry.Client) error { return c.IndexRepo(id) })
		add(fmt.Sprintf("trim obsoletes %q", id), one(uni.Trimobs(id)), func(_ *lib.World, c *libferry.Client) error { return c.TrimObsolete(id) })
		add(fmt.Sprintf("delta %q", id), deltaOps(id), func(_ *lib.World, c *libferry.Client) error { return c.DeltaRepo(id) })
		for _, n := range numbers {
			n := n
			add(fmt.Sprintf("trim packages %q %d", id, n), one(uni.Trim(id, n)), func(_ *lib.World, c *libferry.Client) error { return c.TrimPackages(id, n) })
		}
		for _, full := range []bool{false, true} {
			full := full
			for _, p := range [][2]string{{id, "new"}, {"a", id}, {id, id}} {
				p := p
				add(fmt.Sprintf("clone %q %q %v", p[0], p[1], full), one(uni.Clone(p[0], p[1], full)), func(_ *lib.World, c *libferry.Client) error { return c.CloneRepo(p[0], p[1], full) })
			}
		}
		for _, p := range [][2]string{{id, "b"}, {"a", id}, {id, id}} {
			p := p
			add(fmt.Sprintf("pull %q %q", p[0], p[1]), one(uni.Pull(p[0], p[1])), func(_ *lib.World, c *libferry.Client) error { return c.PullRepo(p[0], p[1]) })
			for _, skip := range []bool{false, true} {
				skip := skip
				for _, n := range []int{-1, 9} {
					n := n
					add(fmt.Sprintf("copy source %q %q libfoo %d %v", p[0], p[1], n, skip), one(uni.Cps(p[0], p[1], "libfoo", n, skip)), func(_ *lib.World, c *libferry.Client) error { return c.CopySource(p[0], p[1], "libfoo", n, skip) })
				}
			}
		}
		for _, n := range []int{-1, 2} {
			n := n
			add(fmt.Sprintf("remove source %q nano %d", id, n), one(uni.Rms(id, "nano", n)), func(_ *lib.World, c *libferry.Client) error { return c.RemoveSource(id, "nano", n) })
		}
		for _, f := range [][]string{uni.Files(lib.N3), uni.Files(lib.N3, lib.L10), {"missing.eopkg"}} {
			f := f
			add(fmt.Sprintf("import %q %q", id, f), one(Op{Kind: "import", Repo: id, Files: f}), func(w *lib.World, c *libferry.Client) error { return c.ImportPackages(id, paths(w, f)) })
		}
	}
	for _, s := range sources {
		for _, n := range numbers {
			s, n := s, n
			add(fmt.Sprintf("remove source a %q %d", s, n), one(uni.Rms("a", s, n)), func(_ *lib.World, c *libferry.Client) error { return c.RemoveSource("a", s, n) })
			for _, skip := range []bool{false, true} {
				skip := skip
				add(fmt.Sprintf("copy source a b %q %d %v", s, n, skip), one(uni.Cps("a", "b", s, n, skip)), func(_ *lib.World, c *libferry.Client) error { return c.CopySource("a", "b", s, n, skip) })
			}
		}
	}
	for _, f := range [][]string{uni.Files(lib.N3, lib.N3), uni.Files(lib.U10, lib.O2, lib.OD2), uni.Files(lib.N1), uni.Files(lib.N3, lib.NotZip), {"odd name é&<.eopkg"}, {"../up/" + lib.N3.File}, {""}} {
		f := f
		add(fmt.Sprintf("import b %q", f), one(Op{Kind: "import", Repo: "b", Files: f}), func(w *lib.World, c *libferry.Client) error { return c.ImportPackages("b", paths(w, f)) })
	}
	c := func(ops []Op, args ...string) {
		l = append(l, &request{name: "ferryctl " + strings.Join(args, " "), ctl: args, ops: ops})
	}
	for _, id := range []string{"a", "b", "new", "a?x", "a b", "é", "%41", "a/b", "../../remove/repo/a", ".."} {
		c(one(uni.Mk(id)), "create-repo", id)
		c(one(uni.Del(id)), "remove", "repo", id)
		c(one(uni.Idx(id)), "index", id)
		c(deltaOps(id), "delta", id)
		c(one(uni.Trimobs(id)), "trim", "obsolete", id)
		c(one(uni.Trim(id, 1)), "trim", "packages", id, "1")
		c(one(uni.Clone(id, "new", false)), "clone", id, "new")
		c(one(uni.Clone(id, "new", true)), "clone", "-f", id, "new")
		c(one(uni.Clone("a", id, true)), "clone", "a", id, "--full")
		c(one(uni.Pull(id, "b")), "pull", id, "b")
		c(one(uni.Pull("a", id)), "pull", "a", id)
		c(one(uni.Cps(id, "b", "libfoo", -1, false)), "copy", "source", id, "b", "libfoo")
		c(one(uni.Cps("a", id, "libfoo", 10, true)), "copy", "source", "-x", "a", id, "libfoo", "10")
		c(one(uni.Cps("a", id, "nano", 2, true)), "copy", "--skip-index", "source", "a", id, "nano", "2")
		c(one(uni.Rms(id, "nano", -1)), "remove", "source", id, "nano")
		c(one(uni.Rms(id, "nano", 1)), "remove", "source", id, "nano", "1")
	}
	for _, n := range []string{"2", "2147483647", "007"} {
		v := map[string]int{"2": 2, "2147483647": math.MaxInt32, "007": 7}[n]
		c(one(uni.Trim("a", v)), "trim", "packages", "a", n)
		c(one(uni.Rms("a", "libfoo", v)), "remove", "source", "a", "libfoo", n)
		c(one(uni.Cps("a", "b", "nano", v, false)), "copy", "source", "a", "b", "nano", n)
	}
	for _, n := range []string{"0", "x", "", "2147483648", "99999999999999999999", "1.0", "0x1", " 1"} {
		c(nil, "trim", "packages", "a", n)
		c(nil, "remove", "source", "a", "libfoo", n)
		c(nil, "copy", "source", "a", "b", "nano", n)
	}
	for _, k := range [][]string{{"create-repo"}, {"create-repo", "a", "b"}, {"remove", "repo"}, {"remove", "repo", "a", "b"}, {"index"}, {"index", "a", "b"}, {"delta"}, {"delta", "a", "b"},
		{"trim", "obsolete"}, {"trim", "obsolete", "a", "b"}, {"trim", "packages", "a"}, {"trim", "packages", "a", "1", "2"}, {"clone", "a"}, {"clone", "a", "new", "x"}, {"pull", "a"}, {"pull", "a", "b", "x"},
		{"copy", "source", "a", "b"}, {"copy", "source", "a", "b", "nano", "1", "x"}, {"remove", "source", "a"}, {"remove", "source", "a", "nano", "1", "x"}, {"import"}, {"import", "a"},
		{"remove"}, {"copy"}, {"trim"}, {"reset"}, {"list"}, {"nonsense"}, {"version"}, {"reset", "failed", "x"}, {"reset", "completed", "x"}, {"status", "x"}, {"list", "repos", "x"}, {"list", "pool", "x"}} {
		c(nil, k...)
	}
	// imports of files and directories, marked with @
	c(one(Op{Kind: "import", Repo: "b", Files: uni.Files(lib.N3)}), "import", "b", "@"+lib.N3.File)
	c(one(Op{Kind: "import", Repo: "b", Files: uni.Files(lib.N3, lib.L10)}), "import", "b", "@"+lib.N3.File, "@"+lib.L10.File)
	c(one(Op{Kind: "import", Repo: "b", Files: []string{"tree/" + lib.U10.File, "tree/deep/er/" + lib.N3.File}}), "import", "b", "@tree")
	c(one(Op{Kind: "import", Repo: "b", Files: []string{"tree/deep/er/" + lib.N3.File, lib.L10.File}}), "import", "b", "@tree/deep", "@"+lib.L10.File)
	c(nil, "import", "b", "@"+lib.N3.File, "@missing")
	return
}

// bench25 is the start state and the expected results.
type bench25 struct {
	base  *lib.Snap
	after map[string]*expect
}

type expect struct {
	snap *lib.Snap
	err  bool
}

func (b *bench25) prepare(w *lib.World) {
	if b.base != nil {
		return
	}
	pk := append(append([]*lib.Pkg{}, lib.Good...), lib.Bad...)
	lib.Prepare(pk)
	w.PutSources(pk)
	for _, f := range []string{"tree/" + lib.U10.File, "tree/deep/er/" + lib.N3.File} {
		p := filepath.Join(w.Up, f)
		os.MkdirAll(filepath.Dir(p), 0755)
		data, _ := os.ReadFile(filepath.Join(w.Up, filepath.Base(f)))
		os.WriteFile(p, data, 0644)
	}
	os.WriteFile(filepath.Join(w.Up, "tree/deep/nano-1-2-1-x86_64.delta.eopkg"), []byte("delta"), 0644)
	os.WriteFile(filepath.Join(w.Up, "tree/readme"), []byte("no package"), 0644)
	ops := append([]Op{}, uni.S1.Ops...)
	for _, id := range oddIDs {
		ops = append(ops, uni.Mk(id), uni.Imp(id, lib.N1, lib.N2, lib.L9))
	}
	s, res, err := w.Session(emptySnap, ops)
	if err != nil {
		panic(err)
	}
	for i, r := range res {
		if r.Err != nil {
			panic(fmt.Sprint(ops[i], r))
		}
	}
	b.base = s
	b.after = map[string]*expect{}
}

func (b *bench25) direct(w *lib.World, ops []Op) *expect {
	k := ""
	for _, o := range ops {
		k += fmt.Sprintf("%+v;", o)
	}
	if e := b.after[k]; e != nil {
		return e
	}
	var real []Op
	for _, o := range ops {
		if o.Kind != "deltas" {
			real = append(real, o)
			continue
		}
		w.Restore(b.base)
		m, err := w.Open()
		if err != nil {
			panic(err)
		}
		names, err := m.GetPackageNames(o.Repo)
		m.Close()
		if err != nil {
			real = append(real, uni.Delta(o.Repo, "nano", false)) // fails
		}
		for _, n := range names {
			real = append(real, uni.Delta(o.Repo, n, false))
		}
	}
	s, res, err := w.Session(b.base, real)
	if err != nil {
		panic(err)
	}
	e := &expect{snap: strip(s)}
	for _, r := range res {
		e.err = e.err || r.Err != nil
	}
	b.after[k] = e
	return e
}

// strip leaves out what only belongs to the daemon.
func strip(s *lib.Snap) *lib.Snap {
	n := &lib.Snap{DB: map[string][]lib.KV{"ferry_db": s.DB["ferry_db"]}}
	for _, e := range s.Nodes {
		if e.Path != "ferryd.lock" && e.Path != "ferryd.log" {
			n.Nodes = append(n.Nodes, e)
		}
	}
	return n
}

func (b *bench25) issue(out *[]lib.Issue, key, f string, a ...any) {
	*out = append(*out, lib.Issue{Prop: "C25", Key: key, Text: fmt.Sprintf(f, a...)})
}

var opts25 = vsched.Opts{AllCost: true, NoTimerPre: true, MaxTicks: 4000, MaxSteps: 400000}

func status(w *lib.World) (*libferry.StatusRequest, error) { return client(w).GetStatus() }

// idle waits until the daemon has nothing left to do.
func idle(w *lib.World) error {
	for i := 0; i < 60; i++ {
		st, err := status(w)
		if err != nil {
			return err
		}
		if len(st.CurrentJobs) == 0 {
			return nil
		}
		vsched.Sleep(3 * time.Second)
	}
	return fmt.Errorf("jobs never end")
}

func args(w *lib.World, q *request) *request {
	if q.ctl == nil {
		return q
	}
	n := *q
	n.ctl = nil
	for _, a := range q.ctl {
		if r, ok := strings.CutPrefix(a, "@"); ok {
			a = filepath.Join(w.Up, r)
		}
		n.ctl = append(n.ctl, a)
	}
	return &n
}

// run sends requests to a fresh daemon, lets it finish and judges the outcome.
func (b *bench25) run(w *lib.World, o vsched.Opts, qs []*request) (*vsched.Result, []lib.Issue) {
	var ops []Op
	want := 0
	accepted := 0
	var names []string
	failed := false
	var expects []*expect
	for _, q := range qs {
		names = append(names, q.name)
		expects = append(expects, b.direct(w, q.ops)) // alone
	}
	reset(w, b.base)
	var out []lib.Issue
	what := strings.Join(names, ", then ")
	kind := strings.Fields(qs[len(qs)-1].name)
	key := kind[0]
	if key == "ferryctl" {
		key = "ferryctl " + kind[1]
	}
	fail := func(k, f string, a ...any) { b.issue(&out, key+": "+k, "%s: %s", what, fmt.Sprintf(f, a...)) }
	var outcomes int
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			fail("daemon does not start", "")
			return
		}
		for i, q := range qs {
			err := args(w, q).do(w)
			st, e2 := status(w)
			if e2 != nil {
				fail("status fails after it", "%v", e2)
				return
			}
			n := len(st.CurrentJobs)
			switch {
			case q.ops == nil:
				if n != want {
					fail("something is queued for a request that asks for nothing", "%d jobs: %v", n-want, describe(st.CurrentJobs))
				}
			case err != nil:
				if n != want {
					fail("refused, yet something is queued", "%v; %d jobs: %v", err, n-want, describe(st.CurrentJobs))
				}
				if len(qs) == 1 && !expects[i].err {
					fail("a request for a possible operation is refused", "%v", err)
				}
			default:
				accepted++
				want++
				ops = append(ops, q.ops...)
				if n != want {
					fail("accepted, but not exactly one job is queued", "%d jobs: %v", n-want+1, describe(st.CurrentJobs))
				}
			}
		}
		if err := idle(w); err != nil {
			fail("daemon does not finish", "%v", err)
			return
		}
		st, err := status(w)
		if err != nil {
			fail("status fails afterwards", "%v", err)
			return
		}
		outcomes = len(st.CompletedJobs) + len(st.FailedJobs)
		failed = len(st.FailedJobs) > 0
		d.term()
	})
	if len(out) == 0 && res.Deadlock == "" && res.Panic == "" && !res.Horizon {
		got := strip(w.Take())
		over(w)
		e := b.direct(w, ops)
		if outcomes < accepted || outcomes > accepted && !has(ops, "deltas") {
			fail("not exactly one recorded outcome per accepted request", "%d for %d", outcomes, accepted)
		}
		if has(ops, "deltas") && len(qs) == 1 && failed && !e.err && strip(b.base).Diff(got) == "" {
			fail("its jobs fail and no delta is produced", "")
			return res, append(out, ended("C25", res)...)
		}
		if df := e.snap.Diff(got); df != "" {
			fail("the effect is not that of the requested operation", "accepted %d, differences: %s", accepted, df)
		}
		if len(qs) == 1 && accepted == 1 && failed != e.err {
			fail("the outcome is not that of the requested operation", "job failed: %v, operation failed: %v", failed, e.err)
		}
	} else {
		over(w)
	}
	return res, append(out, ended("C25", res)...)
}

func has(ops []Op, kind string) bool {
	for _, o := range ops {
		if o.Kind == kind {
			return true
		}
	}
	return false
}

func describe(l libferry.JobSet) (d []string) {
	for _, j := range l {
		d = append(d, j.Description)
	}
	return
}

func requests(r *lib.Report) {
	b := &bench25{}
	all := allRequests()
	r.Set("requests", len(all))
	scen := []lib.Scenario{{Name: "single requests", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(all), func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return b.run(w, o, all[i:i+1])
		})
	}}}
	// histories of requests with effect
	short := map[string]bool{}
	for _, n := range []string{`create "new"`, `remove "a"`, `remove "b"`, `index "a"`, `trim obsoletes "a"`, `trim packages "a" 1`, `clone "a" "new" true`, `clone "a" "new" false`,
		`pull "a" "b"`, `copy source "a" "b" libfoo -1 false`, `copy source "b" "a" libfoo 9 true`, `remove source "a" nano 2`, `remove source "b" nano -1`, `create "a/b"`,
		fmt.Sprintf("import %q %q", "a", uni.Files(lib.N3)), fmt.Sprintf("import %q %q", "b", uni.Files(lib.N3, lib.L10)), `pull "new" "b"`, `remove "new"`} {
		short[n] = true
	}
	var some []*request
	for _, q := range all {
		if short[q.name] {
			some = append(some, q)
		}
	}
	if len(some) < len(short) {
		panic("requests missing from the alphabet")
	}
	n := len(some)
	tot := n * n * n
	if lib.Thorough() {
		tot *= n
	}
	scen = append(scen, lib.Scenario{Name: "request histories", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, tot, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			qs := []*request{some[i%n], some[i/n%n], some[i/n/n%n]}
			if lib.Thorough() {
				qs = append(qs, some[i/n/n/n])
			}
			return b.run(w, o, qs)
		})
	}})
	kinds := 11
	scen = append(scen, lib.Scenario{Name: "requests whose queueing fails", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, kinds*6, b.failing)
	}})
	raws := rawRequests()
	r.Set("raw_requests", len(raws))
	scen = append(scen, lib.Scenario{Name: "undecodable and foreign requests", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(raws), func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) { return b.raw(w, o, raws[i]) })
	}})
	scen = append(scen, lib.Scenario{Name: "listings", Opts: opts25, Prepare: b.prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, 6, b.listings)
	}})
	lib.Schedules(r, scen)
}

// item enumerates n cases as the first decision of a run.
func item(w *lib.World, o vsched.Opts, n int, f func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue)) (*vsched.Result, []lib.Issue) {
	i := 0
	if len(o.Choices) > 0 {
		i = o.Choices[0]
		o.Choices = o.Choices[1:]
	}
	res, out := f(w, o, i)
	rec := vsched.PointRec{N: n, Cost: make([]int8, n), Choice: i, What: "case", Choices: true}
	res.Points = append([]vsched.PointRec{rec}, res.Points...)
	return res, out
}

// failing injects a failure into the k-th effect of accepting a request.
func (b *bench25) failing(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
	qs := []func(c *libferry.Client) error{
		func(c *libferry.Client) error { return c.CreateRepo("new") },
		func(c *libferry.Client) error { return c.DeleteRepo("a") },
		func(c *libferry.Client) error { return c.DeltaRepo("a") },
		func(c *libferry.Client) error { return c.IndexRepo("a") },
		func(c *libferry.Client) error { return c.ImportPackages("a", paths(w, uni.Files(lib.N3))) },
		func(c *libferry.Client) error { return c.CloneRepo("a", "new", true) },
		func(c *libferry.Client) error { return c.PullRepo("a", "b") },
		func(c *libferry.Client) error { return c.RemoveSource("a", "nano", 1) },
		func(c *libferry.Client) error { return c.CopySource("a", "b", "nano", 1, false) },
		func(c *libferry.Client) error { return c.TrimPackages("a", 1) },
		func(c *libferry.Client) error { return c.TrimObsolete("a") },
	}
	names := []string{"create", "remove", "delta", "index", "import", "clone", "pull", "remove source", "copy source", "trim packages", "trim obsoletes"}
	q, k, pre := i%len(qs), i/len(qs)%3+1, i/len(qs)/3 == 1
	reset(w, b.base)
	var out []lib.Issue
	fail := func(key, f string, a ...any) { b.issue(&out, names[q]+": "+key, f, a...) }
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			fail("daemon does not start", "")
			return
		}
		want := 0
		if pre {
			if err := client(w).IndexRepo("b"); err != nil {
				fail("request refused", "%v", err)
			}
			want = 1
		}
		w.Eff.Arm(0, 0, k)
		err := qs[q](client(w))
		hit := w.Eff.Failed
		w.Eff.Arm(0, 0, 0)
		st, e2 := status(w)
		if e2 != nil {
			fail("status fails after it", "%v", e2)
			return
		}
		n := len(st.CurrentJobs) - want
		if err == nil && n != 1 {
			fail("accepted although it could not be queued", "failure at %s: %d jobs", hit, n)
		}
		if err != nil && n != 0 {
			fail("refused, yet something is queued", "failure at %s: %v, %d jobs", hit, err, n)
		}
		d.term()
	})
	over(w)
	return res, append(out, ended("C25", res)...)
}

// rawRequest is a request no client makes.
type rawRequest struct {
	method, path, body string
	undecodable        bool
}

func rawRequests() (l []rawRequest) {
	posts := map[string]any{
		"import/a":        &libferry.ImportRequest{Path: []string{"/x", "/y"}},
		"clone/a":         &libferry.CloneRepoRequest{CloneName: "new", CopyAll: true},
		"copy/source/a":   &libferry.CopySourceRequest{Source: "nano", Target: "b", Release: 1},
		"pull/a":          &libferry.PullRepoRequest{Source: "b"},
		"remove/source/a": &libferry.RemoveSourceRequest{Source: "nano", Release: 1},
		"trim/packages/a": &libferry.TrimPackagesRequest{MaxKeep: 1},
	}
	for _, p := range lib.SortedKeys(posts) {
		b, _ := json.Marshal(posts[p])
		for i := 0; i < len(b); i++ {
			l = append(l, rawRequest{"POST", "/api/v1/" + p, string(b[:i]), true})
		}
		for _, x := range []string{"[]", "\"x\"", "5", "true", "not json", "<xml/>", "\x00", "{\"path\":5}", "{\"path\":[5]}", "{\"cloneName\":5}", "{\"copyAll\":\"yes\"}", "{\"source\":{}}", "{\"relno\":\"one\"}", "{\"relno\":1.5}", "{\"target\":[]}", "{\"skipIndex\":1}", "{\"maxPackages\":\"1\"}", "{\"maxPackages\":99999999999999999999}"} {
			v := reflect.New(reflect.TypeOf(posts[p]).Elem()).Interface()
			if json.NewDecoder(strings.NewReader(x)).Decode(v) != nil {
				l = append(l, rawRequest{"POST", "/api/v1/" + p, x, true})
			}
		}
		for _, m := range []string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS"} {
			l = append(l, rawRequest{m, "/api/v1/" + p, string(b), false})
		}
		l = append(l, rawRequest{"POST", "/api/v1/" + p + "/", string(b), false}, rawRequest{"POST", "/api/v1/" + p + "/x", string(b), false},
			rawRequest{"POST", "/api/v1/" + strings.TrimSuffix(p, "a"), string(b), false}, rawRequest{"POST", "/" + p, string(b), false}, rawRequest{"POST", "/api/v2/" + p, string(b), false})
	}
	for _, p := range []string{"create/repo/new", "remove/repo/a", "delta/repo/a", "index/repo/a", "trim/obsoletes/a"} {
		for _, m := range []string{"POST", "PUT", "DELETE", "HEAD", "OPTIONS"} {
			l = append(l, rawRequest{m, "/api/v1/" + p, "", false})
		}
		for _, x := range []string{"/api/v1/" + p + "/", "/api/v1/" + p + "/x", "/api/v1/" + p[:strings.LastIndex(p, "/")+1], "/api/v2/" + p, "/" + p, "/API/v1/" + p} {
			l = append(l, rawRequest{"GET", x, "", false})
		}
	}
	l = append(l, rawRequest{"GET", "/", "", false}, rawRequest{"GET", "/api/v1/reset", "", false}, rawRequest{"GET", "/api/v1/create/repo/..%2f..%2fremove%2frepo%2fa", "", false}, rawRequest{"GET", "/api/v1/create/repo/../../remove/repo/a", "", false})
	return
}

// direct connection of the harness to the server
func send(w *lib.World, d *daemon, q rawRequest) (*http.Response, error) {
	var raw bytes.Buffer
	fmt.Fprintf(&raw, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", q.method, q.path, len(q.body), q.body)
	return vhttp.Served(sock(w)).Exchange(raw.Bytes(), d.p)
}

func (b *bench25) raw(w *lib.World, o vsched.Opts, q rawRequest) (*vsched.Result, []lib.Issue) {
	reset(w, b.base)
	var out []lib.Issue
	fail := func(key, f string, a ...any) {
		b.issue(&out, q.path[:strings.LastIndex(q.path, "/")+1]+": "+key, "%s %s %q: %s", q.method, q.path, q.body, fmt.Sprintf(f, a...))
	}
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			fail("daemon does not start", "")
			return
		}
		resp, err := send(w, d, q)
		if err == nil && q.undecodable {
			text, _ := io.ReadAll(resp.Body)
			if resp.StatusCode < 400 {
				fail("undecodable request is not refused", "%d %s", resp.StatusCode, text)
			}
		}
		st, e2 := status(w)
		if e2 != nil {
			fail("status fails after it", "%v", e2)
			return
		}
		if n := len(st.CurrentJobs); n != 0 {
			fail("a request that is none queues something", "%v", describe(st.CurrentJobs))
		}
		d.term()
	})
	over(w)
	return res, append(out, ended("C25", res)...)
}

// listings compares what clients are told with what the daemon holds.
func (b *bench25) listings(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
	hist := [][]Op{nil, {uni.Del("a")}, {uni.Clone("a", "new", true), uni.Clone("a", "new2", true)}, {uni.Imp("b", lib.SP, lib.EA, lib.LE), uni.Rms("a", "libfoo", 0)}, {uni.Delta("a", "nano", true)}, nil}[i]
	base := b.base
	if i == 5 {
		base = emptySnap
	}
	s, _, err := w.Session(base, hist)
	var out []lib.Issue
	fail := func(key, f string, a ...any) { b.issue(&out, key, "state %d: %s", i, fmt.Sprintf(f, a...)) }
	if err != nil {
		fail("operations cannot be run", "%v", err)
		return &vsched.Result{}, out
	}
	w.Restore(s)
	m, err := w.Open()
	if err != nil {
		fail("state cannot be opened", "%v", err)
		return &vsched.Result{}, out
	}
	var repos, pool []string
	rs, _ := m.GetRepos()
	for _, r := range rs {
		repos = append(repos, r.ID)
	}
	ps, _ := m.GetPoolItems()
	for _, p := range ps {
		pool = append(pool, fmt.Sprintf("%d %s", p.RefCount, p.Name))
	}
	m.Close()
	sort.Strings(repos)
	sort.Strings(pool)
	reset(w, s)
	same := func(what string, got, want []string) {
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			fail(what+" is not what the daemon holds", "%q, want %q", got, want)
		}
	}
	res := vsched.Run(o, func() {
		d := boot(w)
		if !d.serving() {
			fail("daemon does not start", "")
			return
		}
		l, err := client(w).GetRepos()
		if err != nil {
			fail("listing repositories fails", "%v", err)
		}
		same("the repository listing", l, repos)
		items, err := client(w).GetPoolItems()
		if err != nil {
			fail("listing the pool fails", "%v", err)
		}
		var got []string
		for _, p := range items {
			got = append(got, fmt.Sprintf("%d %s", p.RefCount, p.ID))
		}
		same("the pool listing", got, pool)
		text, e := ctl(w, "list", "repos")
		if e != "" {
			fail("ferryctl list repos fails", "%s", e)
		}
		same("ferryctl's repository listing", cut(text, " * "), repos)
		text, e = ctl(w, "list", "pool")
		if e != "" {
			fail("ferryctl list pool fails", "%s", e)
		}
		got = nil
		for _, x := range cut(text, " - RefCount: ") {
			got = append(got, strings.Replace(x, " | ", " ", 1))
		}
		same("ferryctl's pool listing", got, pool)
		// status over a number of jobs
		done, bad := 0, 0
		for k := 0; k < 13; k++ {
			id := fmt.Sprintf("made%d", k)
			var err error
			if k%3 == 2 {
				bad++
				err = client(w).IndexRepo("missing-" + id)
			} else {
				done++
				err = client(w).CreateRepo(id)
			}
			if err != nil {
				fail("a request for a possible operation is refused", "%v", err)
			}
		}
		look := func(cur, com, failed int) {
			st, err := status(w)
			if err != nil {
				fail("status fails", "%v", err)
				return
			}
			if len(st.CurrentJobs) != cur || len(st.CompletedJobs) != com || len(st.FailedJobs) != failed {
				fail("status is not what the daemon holds", "current %d completed %d failed %d, want %d %d %d", len(st.CurrentJobs), len(st.CompletedJobs), len(st.FailedJobs), cur, com, failed)
			}
			text, e := ctl(w, "status", "-a")
			if e != "" {
				fail("ferryctl status fails", "%s", e)
			}
			for n, t := range map[string]int{"Current/Active jobs: (%d tracked)": cur, "Completed jobs: (%d tracked)": com, "Failed jobs: (%d tracked)": failed} {
				head := strings.SplitN(n, "(", 2)[0]
				if t == 0 && strings.Contains(text, head) || t > 0 && !strings.Contains(text, fmt.Sprintf(n, t)) {
					fail("ferryctl status is not what the daemon holds", "%s %d: %s", n, t, text)
				}
			}
			rows := strings.Count(text, "\n  queued") + strings.Count(text, "\n  success") + strings.Count(text, "\n  failed") + strings.Count(text, "\n  running")
			if rows != cur+com+failed {
				fail("ferryctl status leaves out jobs", "%d rows for %d jobs: %s", rows, cur+com+failed, text)
			}
		}
		look(13, 0, 0)
		if err := idle(w); err != nil {
			fail("daemon does not finish", "%v", err)
			return
		}
		look(0, done, bad)
		if _, e := ctl(w, "reset", "failed"); e != "" {
			fail("resetting fails", "%s", e)
		}
		look(0, done, 0)
		if err := client(w).ResetCompleted(); err != nil {
			fail("resetting fails", "%v", err)
		}
		look(0, 0, 0)
		d.term()
	})
	over(w)
	return res, append(out, ended("C25", res)...)
}

func cut(text, prefix string) (l []string) {
	for _, x := range strings.Split(text, "\n") {
		if r, ok := strings.CutPrefix(x, prefix); ok {
			l = append(l, r)
		}
	}
	return
}
