//go:build go1.24

// Command crash enumerates every crash point (torn writes included) and every
// failure point of repository operations on the real implementation.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

type Op = lib.Op

func main() {
	prop := os.Args[1]
	r := lib.NewReport(prop)
	if prop == "C33" {
		purges(r)
		r.Assume = []string{"the CDN is a stand-in below the real client library, which does not retry"}
		os.Exit(r.Finish())
	}
	r.Assume = []string{
		"crashes of the process, not of the machine: effects that were performed stay, in order; a write may be torn",
		"a database write is one effect here; what goleveldb does below is C20's subject",
		"xz and zstd are stand-ins that create, write in two steps and remove files like the real tools",
	}
	x := &lib.Faults{R: r, Sources: lib.All, OnlyChanging: true}
	switch prop {
	case "C06":
		x.Seeds, x.Ops = indexSeeds(), indexOps
		if !x.Prepare() {
			break
		}
		x.Run(true, judgeIndex)
		x.Run(false, judgeIndex)
	case "C28":
		x.Seeds, x.Ops = crashSeeds(), crashOps
		if !x.Prepare() {
			break
		}
		x.Run(true, judgeCrash)
	default:
		fmt.Println("no mode for", prop)
		os.Exit(2)
	}
	os.Exit(r.Finish())
}

// C06

func indexSeeds() []lib.Seed {
	stale := lib.Seed{Name: "stale", Ops: append(append([]Op{}, uni.S1.Ops...), uni.Cps("a", "b", "old", 0, true), uni.Dist("b", lib.DistA), uni.Comp("a", lib.CompB))}
	return []lib.Seed{uni.S0, uni.S1, uni.S2, uni.S3, stale}
}

func indexOps(seed string, st *lib.State) []Op {
	if seed == "empty" {
		return []Op{uni.Mk("a")}
	}
	l := []Op{uni.Idx("a"), uni.Idx("b"), uni.Imp("a", lib.N3), uni.Clone("a", "c", true)}
	if lib.Thorough() {
		l = append(l, uni.Broad(st)...)
	}
	return l
}

func judgeIndex(w *lib.World, p *lib.FaultPlan, f lib.Fault, res lib.Res) (out []lib.Issue) {
	bad := func(key, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C06", Key: key, Text: fmt.Sprintf(t, a...)})
	}
	if res.Panic != "" {
		bad("panic after a failing step", "%s", res.Panic)
	}
	for _, id := range lib.SortedKeys(p.AfterSt.Repos) {
		if p.St.Repos[id] == nil {
			continue // a new repository has no complete old version to keep
		}
		dir := filepath.Join(w.Base, "repo", id)
		old, new := p.Base.Under("repo/"+id), p.After.Under("repo/"+id)
		for _, n := range lib.IndexFiles {
			b, err := os.ReadFile(filepath.Join(dir, n))
			o, had := old[n]
			if err != nil {
				if had {
					bad("index file missing", "%s/%s", id, n)
				}
				continue
			}
			if !f.Crash && !strings.Contains(p.Log[f.K-1], "eopkg-index") {
				// the contents may differ from those of the undisturbed run
				if _, err := lib.ParseXML(b); n == lib.IndexFiles[0] && err != nil {
					bad("index file is incomplete", "%s/%s: %v", id, n, err)
				}
				continue
			}
			if nn, ok := new[n]; !(had && string(b) == o) && !(ok && string(b) == nn) {
				bad("index file is neither the old nor the new version", "%s/%s (%d bytes)", id, n, len(b))
			}
		}
	}
	if !f.Crash {
		cleanup := strings.HasPrefix(p.Log[f.K-1], "remove")
		for _, id := range lib.SortedKeys(p.AfterSt.Repos) {
			ents, _ := os.ReadDir(filepath.Join(w.Base, "repo", id))
			for _, e := range ents {
				if strings.HasPrefix(e.Name(), "eopkg-index") && !isIndexFile(e.Name()) && !cleanup {
					bad("temporary index file left after a failure", "%s/%s", id, e.Name())
				}
			}
		}
	}
	// the next indexing repairs everything, of the same and of less contents
	left := w.Take()
	out = append(out, reindex(w, nil)...)
	w.Restore(left)
	return append(out, reindex(w, func(st *lib.State, id string) []Op {
		everything := ""
		for _, n := range lib.SortedKeys(st.Repos[id].Names) {
			everything += "<Package>" + n + "</Package>"
		}
		return []Op{uni.Dist(id, "<PISI><SourceName>S</SourceName><Obsoletes>"+everything+"</Obsoletes></PISI>"), uni.Comp(id, ""), uni.Grp(id, "")}
	})...)
}

// reindex indexes every repository after some operations.
func reindex(w *lib.World, first func(st *lib.State, id string) []Op) (out []lib.Issue) {
	bad := func(key, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C06", Key: key, Text: fmt.Sprintf(t, a...)})
	}
	m, err := w.Open()
	if err != nil {
		bad("data cannot be opened", "%v", err)
		return
	}
	defer m.Close()
	st, _ := lib.Observe(w, m)
	if first != nil {
		for _, id := range lib.SortedKeys(st.Repos) {
			for _, o := range first(st, id) {
				lib.Exec(w, m, o)
			}
		}
		st, _ = lib.Observe(w, m)
	}
	for _, id := range lib.SortedKeys(st.Repos) {
		if r := lib.Exec(w, m, uni.Idx(id)); r.Err != nil {
			bad("next indexing fails", "%s: %v", id, r)
			continue
		}
		_, l := lib.CheckIndex(w, id, st)
		for _, i := range l {
			if !lib.Leftover(i) {
				bad("next indexing: "+i.Key, "%s", i.Text)
			}
		}
		ents, _ := os.ReadDir(filepath.Join(w.Base, "repo", id))
		for _, e := range ents {
			if strings.HasPrefix(e.Name(), "eopkg-index") && !isIndexFile(e.Name()) {
				bad("next indexing leaves a temporary index file", "%s/%s", id, e.Name())
			}
		}
	}
	return
}

func isIndexFile(n string) bool {
	for _, f := range lib.IndexFiles {
		if f == n {
			return true
		}
	}
	return false
}

// C28

func crashSeeds() []lib.Seed {
	if lib.Thorough() {
		return []lib.Seed{uni.S0, uni.S1, uni.S2, uni.S3, uni.S5}
	}
	return []lib.Seed{uni.S0, uni.S1, uni.S2}
}

func crashOps(seed string, st *lib.State) []Op {
	if lib.Thorough() {
		return uni.Broad(st)
	}
	switch seed {
	case "empty":
		return []Op{uni.Mk("a")}
	case "rich":
		return []Op{uni.Imp("b", lib.N2, lib.L10), uni.Pull("a", "b"), uni.Clone("a", "c", false), uni.Cps("a", "b", "old", 0, false), uni.Rms("a", "libfoo", 0), uni.Trim("a", 1), uni.Trimobs("a"),
			uni.Upl("b", lib.N2, lib.L10), uni.Idx("a"), uni.Del("b"), uni.Del("a"), uni.Imp("b", lib.N3), uni.Upl("a", lib.N3, lib.Z1), uni.Delta("a", "nano", true), uni.Cps("b", "a", "nano", 0, false), uni.Clone("b", "c", true)}
	}
	return []Op{uni.Trim("a", 1), uni.Pull("b", "a"), uni.Pull("a", "b"), uni.Rms("a", "nano", 0), uni.Delta("a", "libfoo", false), uni.Upl("a", lib.N3V), uni.Clone("b", "c", true), uni.Rms("b", "nano", 1), uni.Delta("b", "nano", true), uni.Del("a"), uni.Imp("a", lib.N3)}
}

func judgeCrash(w *lib.World, p *lib.FaultPlan, f lib.Fault, res lib.Res) (out []lib.Issue) {
	bad := func(key, t string, a ...any) {
		out = append(out, lib.Issue{Prop: "C28", Key: key, Text: fmt.Sprintf(t, a...)})
	}
	take := func(pre string, l []lib.Issue) {
		for _, i := range l {
			if !lib.Leftover(i) {
				bad(pre+i.Key, "%s", i.Text)
			}
		}
	}
	crashed := w.Take()
	m, err := w.Open()
	if err != nil {
		bad("data cannot be opened", "%v", err)
		return
	}
	st, l := lib.Observe(w, m)
	take("after the crash: ", l)
	for _, s := range lib.Between(p.St, p.AfterSt, st) {
		bad("after the crash: contents are neither old nor new", "%s", s)
	}
	for _, id := range lib.SortedKeys(p.St.Repos) {
		if id == p.Op.Target() {
			continue
		}
		if st.Repos[id] == nil || st.Repos[id].Canon() != p.St.Repos[id].Canon() {
			bad("after the crash: another repository changed", "%s", id)
		}
	}
	// what indexing shows
	for _, id := range lib.SortedKeys(st.Repos) {
		if r := lib.Exec(w, m, uni.Idx(id)); r.Err != nil {
			bad("after the crash: indexing fails", "%s: %v", id, r)
			continue
		}
		_, l := lib.CheckIndex(w, id, st)
		take("indexing after the crash: ", l)
	}
	m.Close()
	// the interrupted operation again
	if rerun[p.Op.Kind] {
		w.Restore(crashed)
		m, err := w.Open()
		if err != nil {
			bad("data cannot be opened", "%v", err)
			return
		}
		r := lib.Exec(w, m, p.Op)
		again, l := lib.Observe(w, m)
		part := false
		for _, f := range p.Op.Files {
			q := lib.Lookup[f]
			e := st.Repos[p.Op.Target()].Names[q.Name]
			part = part || p.Op.Kind == "upload" && e != nil && e.Avail[q.ID()]
		}
		if r.Err != nil && part {
			bad("upload again: refused because its first part is already included", "%v", r)
		} else if r.Err != nil {
			bad(p.Op.Kind+" again: fails", "%v", r)
		} else {
			take(p.Op.Kind+" again: ", l)
			if again.Canon() != p.AfterSt.Canon() {
				bad(p.Op.Kind+" again: differs from the uninterrupted result", "got\n%swant\n%s", again.Canon(), p.AfterSt.Canon())
			}
			if x := p.Op.Indexed(); x != "" {
				_, l := lib.CheckIndex(w, x, again)
				take(p.Op.Kind+" again: ", l)
			}
		}
		m.Close()
	}
	// other operations
	for _, o := range follow(p, st) {
		w.Restore(crashed)
		m, err := w.Open()
		if err != nil {
			bad("data cannot be opened", "%v", err)
			return
		}
		r := lib.Exec(w, m, o)
		after, l := lib.Observe(w, m)
		take(o.Kind+" after a crash in "+p.Op.Kind+": ", l)
		take(o.Kind+" after a crash in "+p.Op.Kind+": ", lib.Compare(st, o, r, after))
		if x := o.Indexed(); x != "" && r.Err == nil {
			_, l := lib.CheckIndex(w, x, after)
			take(o.Kind+" after a crash in "+p.Op.Kind+": ", l)
		}
		m.Close()
	}
	return
}

var rerun = map[string]bool{"import": true, "upload": true, "pull": true, "trim": true, "trimobs": true, "index": true, "copysrc": true, "delta": true}

// follow lists operations that must work after a crash.
func follow(p *lib.FaultPlan, st *lib.State) (l []Op) {
	t := p.Op.Target()
	if st.Repos[t] == nil {
		return []Op{uni.Mk(t), uni.Imp("a", lib.N3)}
	}
	return []Op{uni.Imp(t, lib.N3, lib.O2), uni.Imp(t, lib.N3V, lib.N2V), uni.Del(t), uni.Trim(t, 1), uni.Clone(t, "z", true), uni.Rms(t, "nano", 0), uni.Mk("y")}
}
