//go:build go1.24

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

// Packages with the names of buckets.
var (
	pn = lib.P("package-nano", "package-nano", "1", 1)
	rn = lib.P("repo", "repo", "1", 1)
)

const sharedKey = "repositories X and X-package share their records"

// names puts packages into every ordered pair of repositories whose names are
// similar to each other or to those of database buckets, and deletes either.
func names(r *lib.Report) {
	sources := append(append([]*lib.Pkg{}, lib.All...), pn, rn)
	lib.RegisterPkg(pn, rn)
	lib.Prepare(sources)
	ids := []string{"a", "A", "ab", "a-b", "a-", "-a", "a.b", "a b", "a_b", "a-package", "a-package-nano", "a-packages", "package", "packages", "repo", "repo-a", "pool", "bucket", "|bucket|", "|rootBucket|-x", "|", "a|b", "é", "é-b", ".a", "..a", "a..", "0", "a\nb", "a%2Fb", "eopkg-index.xml", strings.Repeat("n", 200)}
	if !lib.Thorough() {
		ids = ids[:27]
	}
	type pair struct{ x, y string }
	var l []pair
	for _, x := range ids {
		for _, y := range ids {
			if x != y {
				l = append(l, pair{x, y})
			}
		}
	}
	n := 8
	lib.Parallel(n, n, func(k int) {
		w := lib.NewWorld(40 + k)
		w.PutSources(sources)
		for i := k; i < len(l); i += n {
			onePair(r, w, l[i].x, l[i].y)
		}
	})
	r.Set("pairs_of_names", len(l))
}

// shared tells whether the record prefix of one repository is one of the other's.
func shared(x, y string) bool {
	return strings.HasPrefix(y+"-", x+"-package-") || strings.HasPrefix(x+"-", y+"-package-")
}

func onePair(r *lib.Report, w *lib.World, x, y string) {
	w.Restore(&lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}})
	m, err := w.Open()
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	defer func() { m.Close() }()
	want := map[string][]string{}
	hist := []string{}
	bad := func(key, f string, a ...any) {
		text := fmt.Sprintf("repositories %q and %q after %v: ", x, y, hist) + fmt.Sprintf(f, a...)
		if shared(x, y) {
			key = sharedKey
		}
		r.Violation(key, text, []string{x, y})
	}
	ids := func(l ...*lib.Pkg) (s []string) {
		for _, p := range l {
			s = append(s, fmt.Sprintf("%s-%d", p.Name, p.Release))
		}
		sort.Strings(s)
		return
	}
	check := func() bool {
		l, err := m.GetRepos()
		if err != nil {
			bad("repositories cannot be listed", "%v", err)
			return false
		}
		got := map[string]bool{}
		for _, e := range l {
			got[e.ID] = true
			if _, ok := want[e.ID]; !ok {
				bad("repository appears from nowhere", "%q", e.ID)
				return false
			}
		}
		for id, w := range want {
			if !got[id] {
				bad("repository disappears", "%q", id)
				return false
			}
			var have []string
			names, err := m.GetPackageNames(id)
			if err != nil {
				bad("packages cannot be listed", "%q: %v", id, err)
				return false
			}
			for _, n := range names {
				es, err := m.GetPackages(id, n)
				if err != nil {
					bad("packages cannot be listed", "%q: %s: %v", id, n, err)
					return false
				}
				for _, e := range es {
					have = append(have, fmt.Sprintf("%s-%d", e.Name, e.GetRelease()))
				}
			}
			sort.Strings(have)
			if fmt.Sprint(have) != fmt.Sprint(w) {
				bad("repository shows packages of another one", "%q has %v, not %v", id, have, w)
				return false
			}
		}
		if _, issues := lib.Observe(w, m); !shared(x, y) {
			for _, i := range issues {
				bad("state: "+i.Key, "%s", i.Text)
				return false
			}
		}
		return true
	}
	do := func(o Op, id string, after []string) bool {
		res := lib.Exec(w, m, o)
		hist = append(hist, o.String())
		r.Count(1, 1, 0)
		if res.Err != nil {
			if o.Kind == "create" { // the name is refused
				hist = hist[:len(hist)-1]
				return check()
			}
			bad("operation is refused", "%v: %v", o, res)
			return false
		}
		if after == nil {
			delete(want, id)
		} else {
			want[id] = after
		}
		return check()
	}
	steps := []func() bool{
		func() bool { return do(uni.Mk(x), x, []string{}) },
		func() bool { return do(uni.Mk(y), y, []string{}) },
		func() bool { return want[x] == nil || do(uni.Imp(x, lib.N1, pn), x, ids(lib.N1, pn)) },
		func() bool { return want[y] == nil || do(uni.Imp(y, lib.N2, rn), y, ids(lib.N2, rn)) },
		func() bool {
			m.Close()
			var err error
			if m, err = w.Open(); err != nil {
				bad("daemon does not start", "%v", err)
				return false
			}
			return check()
		},
		func() bool { return want[x] == nil || do(uni.Rms(x, "nano", 0), x, ids(pn)) },
		func() bool { return want[y] == nil || do(uni.Idx(y), y, ids(lib.N2, rn)) },
		func() bool { return want[x] == nil || do(uni.Del(x), x, nil) },
		func() bool { return want[y] == nil || do(uni.Imp(y, lib.N1), y, ids(lib.N1, lib.N2, rn)) },
		func() bool { return do(uni.Mk(x), x, []string{}) },
	}
	for _, s := range steps {
		if !s() {
			return
		}
	}
	r.Count(0, 0, 1)
}
