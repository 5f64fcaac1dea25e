//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// ids a client may send as the name of a repository, a source or a package.
var hostileIDs = []string{
	"", ".", "..", "/", "//", "../x", "../../outside", "../../outside/victim", "../repo", "../pool", "/abs", "a/", "./a", "a/.", "a/..", "a/../b", "a/x", "x/a", "x/../../..",
	"a\x00b", "\x00", "a\n", " ", " a", "a ", "*", "?", "[a]", "~", "$HOME", "-", "-rf", "a\\b", "..\\x", "é", "e\u0301", "😀", "\xff", "...", ".hidden", "pool", "repo", "eopkg-index.xml", "a;b", "a|b", "%2e%2e", "%s", strings.Repeat("l", 255), strings.Repeat("l", 256), strings.Repeat("d/", 200),
}

// task is one sequence of jobs on the populated base directory.
type containedTask struct {
	what string
	prep func(b *bench)
	jobs []*jobs.JobEntry
	ops  []lib.Op // deltas, which the queue does not run
	// repositories the jobs name, uploads they consume (relative to the base)
	repos   []string
	uploads []string
}

// single is an id that can name a directory entry.
func single(id string) bool {
	return id != "" && id != "." && id != ".." && !strings.ContainsAny(id, "/\x00")
}

// judge tells which recorded effect left its bounds.
func (b *bench) judge(repos, uploads []string) error {
	if e := b.w.Eff.Escapes; len(e) > 0 {
		return fmt.Errorf("outside the base directory: %v", e)
	}
	if o := veff.TakeOutside(); len(o) > 0 {
		return fmt.Errorf("outside the base directory: %v", o)
	}
	own := map[string]bool{"repo": true, "assets": true, "deltaBuilds": true, "deltaStaging": true}
next:
	for _, e := range b.effects {
		p := b.rel(e.path)
		part := strings.Split(p, "/")
		if part[0] == "pool" || strings.HasPrefix(part[0], "ferry_") {
			continue
		}
		if own[part[0]] && len(part) > 1 {
			for _, r := range repos {
				if single(r) && part[1] == r {
					continue next
				}
			}
		}
		if own[part[0]] && len(part) == 1 && strings.HasPrefix(e.op, "mkdir") {
			continue
		}
		for _, u := range uploads {
			if p == u {
				continue next
			}
		}
		return fmt.Errorf("%s %s, although the operation names %q and consumes %q", e.op, p, repos, uploads)
	}
	return nil
}

func job(t jobs.JobType, p ...string) *jobs.JobEntry { return &jobs.JobEntry{Type: t, Params: p} }

// repoJobs are the jobs that name one repository, pairJobs two.
func repoJobs(id string) []*jobs.JobEntry {
	return []*jobs.JobEntry{
		jobs.NewCreateRepoJob(id), jobs.NewDeleteRepoJob(id), jobs.NewIndexRepoJob(id), jobs.NewTrimObsoleteJob(id), jobs.NewTrimPackagesJob(id, 1),
		jobs.NewDeltaRepoJob(id), jobs.NewRemoveSourceJob(id, "nano", -1),
	}
}

func pairJobs(a, b string) []*jobs.JobEntry {
	return []*jobs.JobEntry{
		jobs.NewCloneRepoJob(a, b, true), jobs.NewCloneRepoJob(a, b, false), jobs.NewPullRepoJob(a, b), jobs.NewCopySourceJob(a, b, "nano", 2, false),
	}
}

func containedTasks(b *bench) (l []containedTask) {
	add := func(t containedTask) { l = append(l, t) }
	nano := filepath.Join(b.w.Up, lib.N3.SrcName())
	for _, h := range hostileIDs {
		// the id as the only repository, alone and after it was created
		for _, j := range append(repoJobs(h), jobs.NewBulkAddJob(h, []string{nano})) {
			name := fmt.Sprintf("%s %q", j.Type, h)
			add(containedTask{what: name, jobs: []*jobs.JobEntry{j}, repos: []string{h}})
			for _, k := range append(repoJobs(h), jobs.NewBulkAddJob(h, []string{nano})) {
				seq := []*jobs.JobEntry{jobs.NewCreateRepoJob(h), jobs.NewBulkAddJob(h, []string{nano}), j, k, jobs.NewDeleteRepoJob(h)}
				add(containedTask{what: fmt.Sprintf("create, import, %s, %s, delete %q", j.Type, k.Type, h), jobs: seq, repos: []string{h}})
			}
		}
		add(containedTask{what: fmt.Sprintf("delta of %q", h), ops: []lib.Op{uni.Delta(h, "nano", true), uni.Delta("a", h, true)}, repos: []string{h, "a"}})
		// in pairs with every other
		for _, o := range append([]string{"a", "b", "empty", "new"}, hostileIDs...) {
			for _, j := range append(pairJobs(h, o), pairJobs(o, h)...) {
				add(containedTask{what: fmt.Sprintf("%s%q", j.Type, j.Params), jobs: []*jobs.JobEntry{j, jobs.NewDeleteRepoJob(j.Params[1])}, repos: []string{h, o}})
			}
		}
		// as the name of a source, a package, a path, a number
		for _, j := range []*jobs.JobEntry{
			jobs.NewRemoveSourceJob("a", h, -1), jobs.NewRemoveSourceJob("a", h, 1), jobs.NewCopySourceJob("a", "b", h, -1, false), jobs.NewCopySourceJob("a", "b", h, 1, true),
			job(jobs.RemoveSource, "a", "nano", h), job(jobs.CopySource, "a", "b", "nano", h, "false"), job(jobs.CopySource, "a", "b", "nano", "2", h), job(jobs.TrimPackages, "a", h), job(jobs.CloneRepo, "a", "c", h),
			jobs.NewBulkAddJob("a", []string{h}), jobs.NewBulkAddJob("a", []string{nano, h}), jobs.NewBulkAddJob("a", []string{filepath.Join(b.w.Up, h)}), jobs.NewBulkAddJob("a", []string{filepath.Join(b.w.Root, "outside", h)}),
		} {
			add(containedTask{what: fmt.Sprintf("%s%q", j.Type, j.Params), jobs: []*jobs.JobEntry{j}, repos: []string{"a", "b", "c"}})
		}
	}
	// neighbours: what one repository does leaves the others alone
	seqs := append(append([]*jobs.JobEntry{}, repoJobs("a")...), jobs.NewBulkAddJob("a", []string{nano}), jobs.NewCopySourceJob("a", "a", "nano", 1, false))
	for _, j := range seqs {
		for _, k := range seqs {
			for _, m := range seqs {
				add(containedTask{what: fmt.Sprintf("%s, %s, %s of a", j.Type, k.Type, m.Type), jobs: []*jobs.JobEntry{j, k, m}, repos: []string{"a"}})
			}
		}
	}
	return
}

// packages whose metadata or members try to leave.
func hostilePackages() (out []struct {
	what   string
	r1, r2 []byte
}) {
	damagedPackages(func(d damaged) {
		switch d.class {
		case "members", "payload":
		case "metadata", "file list":
			if !strings.Contains(d.what, "=") || strings.Contains(d.what, ", ") && !lib.Thorough() && !strings.Contains(d.what, "Name") {
				return
			}
		default:
			return
		}
		out = append(out, struct {
			what   string
			r1, r2 []byte
		}{d.class + ": " + d.what, d.r1, d.r2})
	})
	return
}

func contained(r *lib.Report) {
	g := newRig(r, seedOps, append(append([]*lib.Pkg{}, lib.Good...), lib.Bad...))
	if g == nil {
		return
	}
	for _, b := range g.all {
		b.w.Eff.Allow = func(p string) bool {
			p, _ = filepath.Abs(p)
			return p == b.w.Base || strings.HasPrefix(p, b.w.Base+"/")
		}
	}
	out := func(b *bench) string { return fmt.Sprint(lib.TakeTree(filepath.Join(b.w.Root, "outside"))) }
	prep := func(b *bench) string {
		// something to lose on every side
		for _, f := range []string{"outside/victim/eopkg-index.xml", "outside/nano-1.0-1-1-x86_64.eopkg", "x/eopkg-index.xml"} {
			os.MkdirAll(filepath.Dir(filepath.Join(b.w.Root, f)), 0755)
			os.WriteFile(filepath.Join(b.w.Root, f), []byte("precious"), 0644)
		}
		return out(b)
	}
	n := len(containedTasks(g.all[0]))
	all := map[*bench][]containedTask{}
	for _, b := range g.all {
		all[b] = containedTasks(b)
	}
	g.each(n, func(b *bench, i int) {
		t := all[b][i]
		pre := prep(b)
		if err := b.start(t.what); err != nil {
			r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		before := b.files()
		for _, j := range t.jobs {
			b.job(j) // panics are C22's concern
			r.Count(0, 1, 0)
		}
		for _, o := range t.ops {
			b.exec(o)
		}
		kind := "deltas"
		if len(t.jobs) > 0 {
			kind = string(t.jobs[0].Type)
		}
		if err := b.judge(t.repos, nil); err != nil {
			r.Violation(kind+" leaves its bounds", t.what+": "+err.Error(), t.what)
		}
		// nothing may change without having been seen
		if len(b.effects) == 0 {
			if d := diffFiles(before, b.files()); d != nil {
				r.Violation("changes that were not observed", fmt.Sprintf("%s: %v", t.what, d), t.what)
			}
		}
		if out(b) != pre {
			r.Violation(kind+" changes files outside", t.what, t.what)
		}
		r.Count(1, 0, 1)
	})
	r.Set("job_sequences", n)
	pkgs := hostilePackages()
	g.each(len(pkgs), func(b *bench, i int) {
		t := pkgs[i]
		pre := prep(b)
		if err := b.start(t.what); err != nil {
			r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		f1, f2 := filepath.Join(b.w.Base, "incoming", "mut-1.eopkg"), filepath.Join(b.w.Base, "incoming", "mut-2.eopkg")
		os.WriteFile(f1, t.r1, 0644)
		os.WriteFile(f2, t.r2, 0644)
		mf := filepath.Join(b.w.Base, "incoming", "upload.tram")
		os.WriteFile(mf, []byte(fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = \"a\"\n[[file]]\npath = \"mut-2.eopkg\"\nsha256 = %q\n", lib.Sha256(t.r2))), 0644)
		b.job(jobs.NewBulkAddJob("a", []string{f1}))
		b.job(jobs.NewTransitJob(mf))
		r.Count(0, 2, 0)
		if mutated(b.effects) { // accepted in part at least
			names, _ := b.m.GetPackageNames("a")
			for _, n := range names {
				if n != "nano" && n != "libfoo" && n != "old" {
					b.exec(uni.Delta("a", n, true))
					r.Count(0, 1, 0)
				}
			}
			b.job(jobs.NewCopySourceJob("a", "b", "mut", -1, false))
			b.job(jobs.NewCloneRepoJob("a", "c", true))
			b.job(jobs.NewTrimPackagesJob("a", 1))
			b.job(jobs.NewRemoveSourceJob("a", "mut", -1))
			b.job(jobs.NewPullRepoJob("c", "b"))
			b.job(jobs.NewDeleteRepoJob("c"))
			b.job(jobs.NewTrimObsoleteJob("b"))
			r.Count(0, 7, 0)
		}
		if err := b.judge([]string{"a", "b", "c"}, []string{"incoming/mut-2.eopkg", "incoming/upload.tram"}); err != nil {
			r.Violation("package leaves its bounds", t.what+": "+err.Error(), t.what)
		}
		if out(b) != pre {
			r.Violation("package changes files outside", t.what, t.what)
		}
		r.Count(1, 0, 1)
	})
	r.Set("packages", len(pkgs))
	// manifests: only what they list
	ps, hs := payloads(), headers()
	var ms []manifest
	for i, h := range hs {
		for _, p := range ps {
			ms = append(ms, manifest{h, []payload{p}})
			if i == 0 {
				for _, q := range ps {
					ms = append(ms, manifest{h, []payload{p, q}})
				}
			}
		}
	}
	for _, id := range hostileIDs {
		h := header{fmt.Sprintf("target %q", id), []string{"[manifest]", `version = "1.0"`, "target = " + quoted(id)}, either, id}
		ms = append(ms, manifest{h, []payload{ps[0]}})
		q := ps[0]
		q.what, q.lines = fmt.Sprintf("path %q", id+".eopkg"), section(id+".eopkg", quoted(lib.Sha256(lib.N3.Bytes())))
		ms = append(ms, manifest{hs[0], []payload{q}}, manifest{hs[0], []payload{ps[1], q}})
		q.lines = section(id+"/"+lib.N3.File, quoted(lib.Sha256(lib.N3.Bytes())))
		ms = append(ms, manifest{hs[0], []payload{q}}, manifest{hs[0], []payload{ps[1], q}})
	}
	g.each(len(ms), func(b *bench, i int) {
		m := &ms[i]
		pre := prep(b)
		if err := b.start(m.what()); err != nil {
			r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		mf, _ := m.lay(b)
		b.job(jobs.NewTransitJob(mf))
		uploads := []string{"incoming/up/upload.tram"}
		for _, p := range m.p {
			if p.path != "" {
				uploads = append(uploads, "incoming/up/"+p.path)
			}
		}
		t := strings.TrimSpace(m.h.target)
		if err := b.judge([]string{t}, uploads); err != nil {
			r.Violation("manifest leaves its bounds", m.what()+": "+err.Error(), m.text())
		}
		if out(b) != pre {
			r.Violation("manifest changes files outside", m.what(), m.text())
		}
		r.Count(1, 1, 1)
	})
	r.Set("manifests", len(ms))
	r.Set("hostile_ids", len(hostileIDs))
	r.Sample(map[string]any{"task": all[g.all[0]][n/2].what})
	r.Set("bounds", "every job type with every hostile id in every id parameter (pairs of ids for the jobs that take two), sequences create, import, x, y, delete for every pair of jobs, three further jobs on one repository, packages with every hostile metadata and member value through ten jobs, manifests of the same alphabet as C13")
}
