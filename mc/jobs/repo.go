//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// C32: concurrent operations on one repository

func repoScenarios() (scen []lib.Scenario) {
	list := lib.Op{Kind: "list", Repo: "a"}
	seed := []lib.Op{uni.Mk("a"), uni.Imp("a", lib.N1, lib.L9)}
	for _, v := range []struct {
		name string
		ops  []lib.Op
		b    int
	}{
		{"import of two names", []lib.Op{uni.Imp("a", lib.N2), uni.Imp("a", lib.L10)}, bound(1, 2)},
		{"import of two versions", []lib.Op{uni.Imp("a", lib.N2), uni.Imp("a", lib.N3)}, 2},
		{"import of the same file", []lib.Op{uni.Imp("a", lib.N2), uni.Imp("a", lib.N2)}, bound(1, 2)},
		{"import and indexing", []lib.Op{uni.Imp("a", lib.N2), uni.Idx("a")}, 2},
		{"import and listing", []lib.Op{uni.Imp("a", lib.N2), list}, 2},
		{"indexing twice", []lib.Op{uni.Idx("a"), uni.Idx("a")}, bound(1, 2)},
		{"two imports and indexing", []lib.Op{uni.Imp("a", lib.N2), uni.Imp("a", lib.L10), uni.Idx("a")}, bound(1, 1)},
		{"upload and import", []lib.Op{uni.Upl("a", lib.N3), uni.Imp("a", lib.N2)}, bound(1, 2)},
	} {
		scen = append(scen, repoScenario(v.name, seed, v.ops, v.b))
	}
	return
}

func repoScenario(name string, seed, ops []lib.Op, b int) lib.Scenario {
	var base *lib.Snap
	allowed := map[string]bool{}
	pkgs := append(append([]*lib.Pkg{}, lib.Good...), lib.Bad...)
	prepare := func(w *lib.World) {
		lib.Prepare(pkgs)
		w.PutSources(pkgs)
		var err error
		if base, _, err = w.Session(emptySnap, seed); err != nil {
			panic(err)
		}
		// the sequential outcomes
		var perm func(rest, done []lib.Op)
		perm = func(rest, done []lib.Op) {
			if len(rest) == 0 {
				w.Restore(base)
				m, err := w.Open()
				if err != nil {
					panic(err)
				}
				var rs []string
				for _, o := range done {
					if o.Kind != "list" {
						rs = append(rs, fmt.Sprint(lib.Exec(w, m, o).Err == nil))
					}
				}
				_ = rs
				st, _ := lib.Observe(w, m)
				allowed[st.Canon()+indexText(w, "a")] = true
				m.Close()
				return
			}
			for i := range rest {
				perm(append(append([]lib.Op{}, rest[:i]...), rest[i+1:]...), append(append([]lib.Op{}, done...), rest[i]))
			}
		}
		perm(ops, nil)
	}
	return lib.Scenario{Name: name, Bound: b, Opts: vsched.Opts{MaxSteps: 100000}, Prepare: prepare, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		var out []lib.Issue
		bad := func(k, t string, a ...any) {
			out = append(out, lib.Issue{Prop: "C32", Key: k, Text: fmt.Sprintf(t, a...)})
		}
		w.Restore(base)
		m, err := w.Open()
		if err != nil {
			return &vsched.Result{}, []lib.Issue{{Prop: "C32", Key: "data cannot be opened", Text: err.Error()}}
		}
		w.Eff.After = func(op, p, p2 string) {
			if p2 == "" {
				p2 = p
			}
			if filepath.Base(p2) == "eopkg-index.xml" && strings.HasPrefix(op, "rename") {
				for _, s := range published(w, "a") {
					bad("an index was published that lists a package which is not there", "%s", s)
				}
			}
		}
		var fs []func()
		for _, op := range ops {
			fs = append(fs, func() {
				if op.Kind == "list" {
					for _, s := range listAll(m) {
						bad("listing fails", "%s", s)
					}
					return
				}
				if r := lib.Exec(w, m, op); r.Panic != "" {
					bad("panic", "%v: %s", op, r.Panic)
				} else if r.Err != nil && op.Kind != "upload" {
					bad("operation fails", "%v: %v", op, r.Err)
				}
			})
		}
		res := vsched.Run(o, func() { spawn(fs...) })
		w.Eff.After = nil
		out = append(out, ended("C32", res)...)
		if res.Deadlock == "" && res.Panic == "" && !res.Horizon && res.Diverged == "" {
			st, l := lib.Observe(w, m)
			for _, i := range l {
				bad("afterwards: "+i.Key, "%s", i.Text)
			}
			_, l = lib.CheckIndex(w, "a", st)
			for _, i := range l {
				if i.Key != lib.SymbolKey {
					bad("afterwards: "+i.Key, "%s", i.Text)
				}
			}
			if !allowed[st.Canon()+indexText(w, "a")] {
				bad("the outcome is not that of any sequential order", "%s", st.Canon())
			}
			m.Close()
		}
		vleveldb.CrashClose(w.Base)
		return res, out
	}}
}

func indexText(w *lib.World, id string) string {
	b, _ := os.ReadFile(filepath.Join(w.Base, "repo", id, "eopkg-index.xml"))
	return lib.Sha256(b)
}

// listAll does what the status and list commands do.
func listAll(m *core.Manager) (out []string) {
	if _, err := m.GetRepos(); err != nil {
		out = append(out, "repositories: "+err.Error())
	}
	if _, err := m.GetPoolItems(); err != nil {
		out = append(out, "pool: "+err.Error())
	}
	names, err := m.GetPackageNames("a")
	if err != nil {
		out = append(out, "names: "+err.Error())
	}
	for _, n := range names {
		if _, err := m.GetPackages("a", n); err != nil {
			out = append(out, n+": "+err.Error())
		}
	}
	return
}

// published checks the files that the index of a repository lists.
func published(w *lib.World, id string) (out []string) {
	b, err := os.ReadFile(filepath.Join(w.Base, "repo", id, "eopkg-index.xml"))
	if err != nil {
		return []string{err.Error()}
	}
	root, err := lib.ParseXML(b)
	if err != nil {
		return []string{err.Error()}
	}
	for _, p := range root.Get("Package") {
		uri, size := p.Path("PackageURI"), p.Path("PackageSize")
		f, err := os.ReadFile(filepath.Join(w.Base, "repo", id, uri))
		if err != nil {
			out = append(out, uri+" is missing")
		} else if fmt.Sprint(len(f)) != size || lib.Sha1(f) != p.Path("PackageHash") {
			out = append(out, fmt.Sprintf("%s has %d bytes, listed with %s", uri, len(f), size))
		}
	}
	return
}
