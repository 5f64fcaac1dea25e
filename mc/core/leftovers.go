//go:build go1.24

package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

// leftovers creates and clones repositories under names whose directory holds
// something already: that is refused, and what lies there is left alone.
func leftovers(r *lib.Report) {
	shapes := map[string]func(dir string) error{
		"an empty directory": func(dir string) error { return os.MkdirAll(dir, 0755) },
		"a package": func(dir string) error {
			if err := os.MkdirAll(filepath.Join(dir, "n", "nano"), 0755); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dir, "n", "nano", lib.N1.ID()), []byte("kept"), 0644)
		},
		"an index": func(dir string) error {
			if err := os.MkdirAll(dir, 0755); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dir, "eopkg-index.xml"), []byte("<PISI></PISI>"), 0644)
		},
		"a plain file": func(dir string) error { return os.WriteFile(dir, []byte("kept"), 0644) },
	}
	var names []string
	for s := range shapes {
		names = append(names, s)
	}
	sort.Strings(names)
	ops := func(id string) []Op {
		return []Op{uni.Mk(id), uni.Clone("a", id, true), uni.Clone("a", id, false), uni.Clone("x", id, true)}
	}
	type plan struct {
		seed  lib.Seed
		shape string
		k     int
		id    string
	}
	var l []plan
	for _, s := range []lib.Seed{uni.S0, uni.S1, uni.S4} {
		for _, shape := range names {
			for _, id := range []string{"c", "abc", "a-", "a-b-c"} {
				for k := range ops(id) {
					l = append(l, plan{s, shape, k, id})
				}
			}
		}
	}
	n := 8
	lib.Parallel(n, n, func(k int) {
		w := lib.NewWorld(60 + k)
		w.PutSources(lib.All)
		for i := k; i < len(l); i += n {
			p := l[i]
			onLeftovers(r, w, p.seed, p.shape, shapes[p.shape], p.id, ops(p.id)[p.k])
		}
	})
	r.Set("creations_over_leftovers", len(l))
}

func onLeftovers(r *lib.Report, w *lib.World, seed lib.Seed, shape string, place func(string) error, id string, o Op) {
	bad := func(key, f string, a ...any) {
		r.Violation(key, fmt.Sprintf("%s, %s at repo/%s, %v: ", seed.Name, shape, id, o)+fmt.Sprintf(f, a...), nil)
	}
	w.Restore(&lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}})
	m, err := w.Open()
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	defer func() { m.Close() }()
	for _, so := range seed.Ops {
		if res := lib.Exec(w, m, so); res.Err != nil {
			r.Incomplete(fmt.Sprintf("seed %s: %v: %v", seed.Name, so, res))
			return
		}
	}
	dir := filepath.Join(w.Base, "repo", id)
	if err := place(dir); err != nil {
		r.Incomplete(err.Error())
		return
	}
	tree := func() string {
		s := ""
		filepath.Walk(filepath.Join(w.Base, "repo"), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				s += err.Error()
				return nil
			}
			rel, _ := filepath.Rel(w.Base, p)
			s += fmt.Sprintf("%s %v", rel, fi.IsDir())
			if fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				s += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
			}
			s += "\n"
			return nil
		})
		return s
	}
	st, _ := lib.Observe(w, m)
	before, files := st.Canon(), tree()
	r.Count(1, 1, 0)
	res := lib.Exec(w, m, o)
	if res.Err == nil {
		bad("created over leftovers", "accepted")
		return
	}
	look := func(when string) {
		now, _ := lib.Observe(w, m)
		if now.Canon() != before {
			bad("refused creation changed the repositories", "%s: got\n%swant\n%s", when, now.Canon(), before)
		}
		if t := tree(); t != files {
			bad("refused creation changed files", "%s: got\n%swant\n%s", when, t, files)
		}
	}
	look("at once")
	m.Close()
	if m, err = w.Open(); err != nil {
		bad("daemon does not start", "%v", err)
		return
	}
	look("after a restart")
	if o.Kind != "create" && o.Repo == "x" {
		return
	}
	// once they are gone, the name can be used
	if err := os.RemoveAll(dir); err != nil {
		r.Incomplete(err.Error())
		return
	}
	if o.Kind == "clone" && st.Repos[o.Repo] == nil {
		return
	}
	res = lib.Exec(w, m, o)
	now, issues := lib.Observe(w, m)
	for _, i := range append(issues, lib.Compare(st, o, res, now)...) {
		bad("after the leftovers are gone: "+i.Key, "%s", i.Text)
	}
	r.Count(1, 1, 1)
}
