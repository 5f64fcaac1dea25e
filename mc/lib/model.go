//go:build go1.24

package lib

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

// The reference model: what repositories contain, in terms of observations.

// DeltaM describes a pooled delta.
type DeltaM struct {
	FromID, ToID   string
	FromRel, ToRel int
}

// PoolM is one pool item.
type PoolM struct {
	ID    string
	Name  string
	Comp  string // path component
	Rel   int
	Src   string
	Sum   string  // SHA-256 of the bytes
	Delta *DeltaM // nil for packages
	Pkg   *Pkg    // nil for deltas
}

// NameM is one package name of a repository.
type NameM struct {
	Avail  map[string]bool
	Deltas map[string]bool
	Pub    string // "" when not observable
}

// RepoM is one repository.
type RepoM struct {
	Names  map[string]*NameM
	Assets map[string]string
}

// State is the abstract state of a daemon.
type State struct {
	Fresh []string // repositories whose index is current
	Repos map[string]*RepoM
	Pool  map[string]*PoolM
	Skips map[string]bool
	Lost  bool // could not be read back
}

func NewState() *State {
	return &State{Repos: map[string]*RepoM{}, Pool: map[string]*PoolM{}, Skips: map[string]bool{}}
}

// Clone copies a state; pool items are immutable and shared.
func (s *State) Clone() *State {
	c := NewState()
	for k, v := range s.Repos {
		c.Repos[k] = v.Clone()
	}
	for k, v := range s.Pool {
		c.Pool[k] = v
	}
	for k := range s.Skips {
		c.Skips[k] = true
	}
	return c
}

func (r *RepoM) Clone() *RepoM {
	c := &RepoM{Names: map[string]*NameM{}, Assets: map[string]string{}}
	for k, v := range r.Assets {
		c.Assets[k] = v
	}
	for k, v := range r.Names {
		n := &NameM{Avail: map[string]bool{}, Deltas: map[string]bool{}, Pub: v.Pub}
		for i := range v.Avail {
			n.Avail[i] = true
		}
		for i := range v.Deltas {
			n.Deltas[i] = true
		}
		c.Names[k] = n
	}
	return c
}

// SortedKeys lists a map's keys in order.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Canon renders contents (not published versions, see Tips).
func (s *State) Canon() string {
	var b strings.Builder
	for _, r := range SortedKeys(s.Repos) {
		fmt.Fprintf(&b, "repo %q\n%s", r, s.Repos[r].Canon())
	}
	for _, p := range SortedKeys(s.Pool) {
		fmt.Fprintf(&b, "pool %s %s\n", p, short(s.Pool[p].Sum))
	}
	fmt.Fprintf(&b, "skips %v\n", SortedKeys(s.Skips))
	return b.String()
}

func short(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

func (r *RepoM) Canon() string {
	var b strings.Builder
	for _, n := range SortedKeys(r.Names) {
		fmt.Fprintf(&b, "  %s %v deltas %v\n", n, SortedKeys(r.Names[n].Avail), SortedKeys(r.Names[n].Deltas))
	}
	for _, a := range SortedKeys(r.Assets) {
		fmt.Fprintf(&b, "  asset %s %s\n", a, short(Sha256([]byte(r.Assets[a]))))
	}
	return b.String()
}

// held and listed render the packages and the deltas.
func (r *RepoM) held() string {
	s := ""
	for _, n := range SortedKeys(r.Names) {
		s += fmt.Sprint(n, SortedKeys(r.Names[n].Avail))
	}
	return s
}

func (r *RepoM) listed() string {
	s := ""
	for _, n := range SortedKeys(r.Names) {
		s += fmt.Sprint(n, SortedKeys(r.Names[n].Deltas))
	}
	return s
}

// Items lists everything a repository holds.
func (r *RepoM) Items() map[string]bool {
	out := map[string]bool{}
	for _, n := range r.Names {
		for i := range n.Avail {
			out[i] = true
		}
		for i := range n.Deltas {
			out[i] = true
		}
	}
	return out
}

// Tips are the acceptable published versions of a name.
func (s *State) Tips(n *NameM) []string {
	best := 0
	var out []string
	for _, i := range SortedKeys(n.Avail) {
		p := s.Pool[i]
		if p == nil {
			continue
		}
		if len(out) == 0 || p.Rel > best {
			best, out = p.Rel, []string{i}
		} else if p.Rel == best {
			out = append(out, i)
		}
	}
	return out
}

// pubs are the possible published versions given what was observed.
func (s *State) pubs(n *NameM) []string {
	if n.Pub != "" {
		return []string{n.Pub}
	}
	return s.Tips(n)
}

// gc drops pool items that no repository holds.
func (s *State) gc() *State {
	used := map[string]bool{}
	for _, r := range s.Repos {
		for i := range r.Items() {
			used[i] = true
		}
	}
	for i := range s.Pool {
		if !used[i] {
			delete(s.Pool, i)
		}
	}
	return s
}

// add puts a package into a repository; its pool item must exist.
func (s *State) add(repo, id string) {
	p := s.Pool[id]
	r := s.Repos[repo]
	n := r.Names[p.Name]
	if n == nil {
		n = &NameM{Avail: map[string]bool{}, Deltas: map[string]bool{}}
		r.Names[p.Name] = n
	}
	n.Avail[id] = true
	n.Pub = ""
}

func (s *State) addDelta(repo, id string) {
	p := s.Pool[id]
	s.Repos[repo].Names[p.Name].Deltas[id] = true
}

// remove drops a package and the deltas that lead to or from it.
func (s *State) remove(repo, id string) {
	p := s.Pool[id]
	r := s.Repos[repo]
	n := r.Names[p.Name]
	delete(n.Avail, id)
	n.Pub = ""
	for d := range n.Deltas {
		x := s.Pool[d].Delta
		if x.FromID == id || x.ToID == id {
			delete(n.Deltas, d)
		}
	}
	if len(n.Avail) == 0 {
		delete(r.Names, p.Name)
	}
}

// Op is one operation on the system.
type Op struct {
	Kind  string   `json:"kind"`
	Repo  string   `json:"repo,omitempty"`
	Other string   `json:"other,omitempty"`
	Src   string   `json:"src,omitempty"`
	N     int      `json:"n,omitempty"`
	Flag  bool     `json:"flag,omitempty"`
	Files []string `json:"files,omitempty"`
	Data  string   `json:"data,omitempty"`
	Prop  string   `json:"-"` // property that owns its content semantics
}

func (o Op) String() string {
	switch o.Kind {
	case "import", "upload":
		return fmt.Sprintf("%s %s %v", o.Kind, o.Repo, o.Files)
	case "copysrc":
		return fmt.Sprintf("copysrc %s->%s %s %d skipIndex=%v", o.Repo, o.Other, o.Src, o.N, o.Flag)
	case "rmsrc":
		return fmt.Sprintf("rmsrc %s %s %d", o.Repo, o.Src, o.N)
	case "trim":
		return fmt.Sprintf("trim %s %d", o.Repo, o.N)
	case "clone":
		return fmt.Sprintf("clone %s->%s full=%v", o.Repo, o.Other, o.Flag)
	case "pull":
		return fmt.Sprintf("pull %s->%s", o.Repo, o.Other)
	case "asset":
		return fmt.Sprintf("asset %s %s %s", o.Repo, o.Src, short(Sha256([]byte(o.Data))))
	case "delta":
		return fmt.Sprintf("delta %s %s index=%v", o.Repo, o.Src, o.Flag)
	case "adddelta":
		return fmt.Sprintf("adddelta %s %v", o.Repo, o.Files)
	case "refdelta":
		return fmt.Sprintf("refdelta %s %s", o.Repo, o.Src)
	}
	return o.Kind + " " + o.Repo
}

// Indexed is the repository whose index a successful operation must renew.
func (o Op) Indexed() string {
	switch o.Kind {
	case "create", "import", "upload", "rmsrc", "trim", "trimobs", "index":
		return o.Repo
	case "clone", "pull":
		return o.Other
	case "copysrc":
		if o.Flag {
			return ""
		}
		return o.Other
	}
	return ""
}

// Target is the repository an operation may change.
func (o Op) Target() string {
	switch o.Kind {
	case "clone", "pull", "copysrc":
		return o.Other
	}
	return o.Repo
}

// Owner is the property that specifies an operation's effect on contents.
func (o Op) Owner() string {
	switch o.Kind {
	case "create", "delete":
		return "C12"
	case "clone":
		return "C07"
	case "pull":
		return "C08"
	case "copysrc", "rmsrc":
		return "C09"
	case "trim":
		return "C10"
	case "trimobs":
		return "C11"
	case "upload":
		return "C14"
	case "delta", "adddelta", "refdelta":
		return "C31"
	case "index":
		return "C04"
	}
	return "C02"
}

// Outcome is one acceptable result of an operation.
type Outcome struct {
	Err     bool
	State   *State
	Changed []string
}

// Lookup finds universe packages by source file name.
var Lookup = func() map[string]*Pkg {
	m := map[string]*Pkg{}
	for _, p := range All {
		m[p.SrcName()] = p
	}
	return m
}()

// Register adds a package to the universe.
func RegisterPkg(ps ...*Pkg) {
	for _, p := range ps {
		Lookup[p.SrcName()] = p
	}
}

// IsGood reports whether a package is well formed.
func IsGood(p *Pkg) bool {
	for _, b := range Bad {
		if b == p {
			return false
		}
	}
	return true
}

func poolItem(p *Pkg) *PoolM {
	return &PoolM{ID: p.ID(), Name: p.Name, Comp: p.PathComponent(), Rel: p.Release, Src: p.Source, Sum: Sha256(p.Bytes()), Pkg: p}
}

func (s *State) fail() []Outcome { return []Outcome{{Err: true, State: s.Clone()}} }

// Broken reports whether a repository's asset files cannot be used.
func (s *State) Broken(repo string) bool {
	r := s.Repos[repo]
	if r == nil {
		return false
	}
	_, _, _, _, err := ExpectAssets(r.Assets)
	return err != nil
}

// Apply lists the acceptable outcomes of an operation.
func (s *State) Apply(o Op) []Outcome {
	outs := s.apply(o)
	for i := range outs {
		if x := o.Indexed(); x != "" && !outs[i].Err && outs[i].State.Broken(x) {
			outs[i].Err = true // the operation takes place, its indexing fails
		}
		if o.Kind == "delta" && o.Flag && !outs[i].Err && len(outs[i].State.Pool) > len(s.Pool) && s.Broken(o.Repo) {
			outs[i].Err = true // likewise if there is something to index
		}
	}
	return outs
}

func (s *State) apply(o Op) []Outcome {
	one := func(n *State, changed ...string) []Outcome {
		return []Outcome{{State: n.gc(), Changed: changed}}
	}
	r := s.Repos[o.Repo]
	switch o.Kind {
	case "create":
		if r != nil {
			return s.fail()
		}
		n := s.Clone()
		n.Repos[o.Repo] = &RepoM{Names: map[string]*NameM{}, Assets: map[string]string{}}
		return one(n)
	case "delete":
		if r == nil {
			return s.fail()
		}
		n := s.Clone()
		delete(n.Repos, o.Repo)
		return one(n)
	case "index":
		if r == nil {
			return s.fail()
		}
		return one(s.Clone())
	case "asset":
		n := s.Clone()
		if r == nil {
			return one(n)
		}
		if o.Data == "" {
			delete(n.Repos[o.Repo].Assets, o.Src)
		} else {
			n.Repos[o.Repo].Assets[o.Src] = o.Data
		}
		return one(n)
	case "import", "upload":
		if r == nil {
			return s.fail()
		}
		n := s.Clone()
		for _, f := range o.Files {
			p := Lookup[f]
			if p == nil || !IsGood(p) {
				return s.fail()
			}
			item := n.Pool[p.ID()]
			if item == nil {
				item = poolItem(p)
			}
			if o.Kind == "upload" {
				// strictly newer than what is published so far
				if e := n.Repos[o.Repo].Names[item.Name]; e != nil {
					for _, t := range n.Tips(e) {
						if item.Rel <= n.Pool[t].Rel {
							return s.fail()
						}
					}
				}
			}
			n.Pool[item.ID] = item
			n.add(o.Repo, item.ID)
		}
		return one(n)
	case "clone":
		if r == nil || s.Repos[o.Other] != nil {
			return s.fail()
		}
		n := s.Clone()
		if o.Flag {
			n.Repos[o.Other] = r.Clone() // with the same published versions
			return one(n)
		}
		outs := []*State{n}
		n.Repos[o.Other] = &RepoM{Names: map[string]*NameM{}, Assets: r.Clone().Assets}
		for _, name := range SortedKeys(r.Names) {
			var next []*State
			for _, st := range outs {
				for _, t := range s.pubs(r.Names[name]) {
					c := st.Clone()
					c.add(o.Other, t)
					c.Repos[o.Other].Names[name].Pub = t
					next = append(next, c)
				}
			}
			outs = next
		}
		return all(outs)
	case "pull":
		t := s.Repos[o.Other]
		if r == nil || t == nil {
			return s.fail()
		}
		n := s.Clone()
		for f, d := range r.Assets {
			n.Repos[o.Other].Assets[f] = d
		}
		var changed []string
		outs := []*State{n}
		for _, name := range SortedKeys(r.Names) {
			src := s.Pool[s.Tips(r.Names[name])[0]]
			take := t.Names[name] == nil
			if !take {
				dst := s.Pool[s.Tips(t.Names[name])[0]]
				if src.Rel < dst.Rel {
					// refused: packages stay; whether asset files were already
					// copied is not specified
					f := s.Clone()
					f2 := s.Clone()
					for k, d := range r.Assets {
						f2.Repos[o.Other].Assets[k] = d
					}
					return []Outcome{{Err: true, State: f}, {Err: true, State: f2}}
				}
				take = src.Rel > dst.Rel
			}
			if take {
				changed = append(changed, name)
				var next []*State
				for _, st := range outs {
					for _, tip := range s.pubs(r.Names[name]) {
						c := st.Clone()
						c.add(o.Other, tip)
						c.Repos[o.Other].Names[name].Pub = tip
						next = append(next, c)
					}
				}
				outs = next
			}
		}
		res := all(outs)
		for i := range res {
			res[i].Changed = changed
		}
		return res
	case "copysrc", "rmsrc":
		if r == nil || o.Kind == "copysrc" && s.Repos[o.Other] == nil {
			return s.fail()
		}
		n := s.Clone()
		hit := false
		for _, name := range SortedKeys(r.Names) {
			for _, id := range SortedKeys(r.Names[name].Avail) {
				p := s.Pool[id]
				if p.Src != o.Src || o.N > 0 && p.Rel != o.N {
					continue
				}
				hit = true
				if o.Kind == "copysrc" {
					n.add(o.Other, id)
				} else {
					n.remove(o.Repo, id)
				}
			}
		}
		if !hit {
			return s.fail()
		}
		return one(n)
	case "trim":
		if r == nil || o.N < 1 {
			return s.fail()
		}
		outs := []*State{s.Clone()}
		for _, name := range SortedKeys(r.Names) {
			var next []*State
			for _, keep := range s.keeps(r.Names[name], o.N) {
				for _, st := range outs {
					c := st.Clone()
					for _, id := range SortedKeys(r.Names[name].Avail) {
						if !keep[id] {
							c.remove(o.Repo, id)
						}
					}
					next = append(next, c)
				}
			}
			outs = next
		}
		return all(outs)
	case "trimobs":
		if r == nil {
			return s.fail()
		}
		_, ok := r.Assets["distribution.xml"]
		if !ok {
			return s.fail()
		}
		_, _, _, obs, err := ExpectAssets(r.Assets)
		if err != nil {
			return s.fail()
		}
		n := s.Clone()
		for _, name := range SortedKeys(r.Names) {
			if IsObsolete(obs, name) {
				for id := range r.Names[name].Avail {
					n.remove(o.Repo, id)
				}
			}
		}
		return one(n)
	case "delta":
		if r == nil {
			return s.fail()
		}
		e := r.Names[o.Src]
		if e == nil {
			// nothing there to make deltas for: an error or nothing
			return []Outcome{{Err: true, State: s.Clone()}, {State: s.Clone()}}
		}
		return s.applyDelta(o, e)
	case "adddelta":
		from, to := Lookup[o.Files[0]], Lookup[o.Files[1]]
		if r == nil || from.Name != to.Name || from.Release >= to.Release || Pointless(from, to) {
			return s.fail()
		}
		e := r.Names[from.Name]
		if e == nil || !e.Avail[from.ID()] || !e.Avail[to.ID()] {
			return s.fail()
		}
		d := DeltaName(to.Name, from.Release, to.Release, to.DistRel, to.Arch)
		n := s.Clone()
		if x := s.Pool[d]; x != nil {
			if x.Delta.FromID != from.ID() || x.Delta.ToID != to.ID() {
				// the name was built from other packages, which may be here too
				outs := s.fail()
				if e.Avail[x.Delta.FromID] && e.Avail[x.Delta.ToID] {
					n.addDelta(o.Repo, d)
					outs = append(outs, one(n)...)
				}
				return outs
			}
		} else {
			n.Pool[d] = deltaItem(d, s.Pool[from.ID()], s.Pool[to.ID()])
		}
		n.addDelta(o.Repo, d)
		return one(n)
	case "refdelta":
		x := s.Pool[o.Src]
		if r == nil || x == nil || x.Delta == nil {
			return s.fail()
		}
		e := r.Names[x.Name]
		if e == nil || !e.Avail[x.Delta.FromID] || !e.Avail[x.Delta.ToID] {
			return s.fail()
		}
		n := s.Clone()
		n.addDelta(o.Repo, o.Src)
		return one(n)
	}
	panic("unknown op " + o.Kind)
}

// keeps lists the acceptable sets that trimming to n may leave: the n highest
// releases, any of those that tie, and the published version.
func (s *State) keeps(e *NameM, n int) []map[string]bool {
	ids := SortedKeys(e.Avail)
	sort.SliceStable(ids, func(i, j int) bool { return s.Pool[ids[i]].Rel > s.Pool[ids[j]].Rel })
	if n > len(ids) {
		n = len(ids)
	}
	lo, hi := n, n // the tie around the limit is ids[lo:hi]
	for lo > 0 && s.Pool[ids[lo-1]].Rel == s.Pool[ids[n-1]].Rel {
		lo--
	}
	for hi < len(ids) && s.Pool[ids[hi]].Rel == s.Pool[ids[n-1]].Rel {
		hi++
	}
	var out []map[string]bool
	seen := map[string]bool{}
	var pick func(k map[string]bool, at, left int)
	pick = func(k map[string]bool, at, left int) {
		if left == 0 {
			for _, p := range s.pubs(e) {
				c := map[string]bool{p: true}
				for id := range k {
					c[id] = true
				}
				if key := fmt.Sprint(SortedKeys(c)); !seen[key] {
					seen[key] = true
					out = append(out, c)
				}
			}
			return
		}
		for i := at; i+left <= hi; i++ {
			c := map[string]bool{ids[i]: true}
			for id := range k {
				c[id] = true
			}
			pick(c, i+1, left-1)
		}
	}
	k := map[string]bool{}
	for _, id := range ids[:lo] {
		k[id] = true
	}
	pick(k, lo, n-lo)
	return out
}

func all(l []*State) []Outcome {
	var out []Outcome
	for _, s := range l {
		out = append(out, Outcome{State: s.gc()})
	}
	return out
}

// DeltaName is the name of the delta between two packages.
func DeltaName(name string, from, to int, distRel, arch string) string {
	if distRel == "" {
		distRel = "1"
	}
	if arch == "" {
		arch = "x86_64"
	}
	return fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", name, from, to, distRel, arch)
}

// Pointless decides whether a delta would carry everything.
func Pointless(old, new *Pkg) bool {
	have := map[string]bool{}
	for _, f := range old.files() {
		if !f.Dir {
			have[f.Hash()] = true
		}
	}
	n := 0
	for _, f := range new.files() {
		if f.Dir || !have[f.Hash()] {
			n++
		}
	}
	return n == len(new.files())
}

// applyDelta: deltas from every older release to the tip are added unless
// already known or recorded as failed. Among equal releases any order goes.
func (s *State) applyDelta(o Op, e *NameM) []Outcome {
	var outs []Outcome
	for _, tip := range s.Tips(e) {
		for _, desc := range []bool{false, true} {
			n := s.Clone()
			t := n.Pool[tip]
			ids := SortedKeys(e.Avail)
			sort.SliceStable(ids, func(i, j int) bool {
				a, b := s.Pool[ids[i]], s.Pool[ids[j]]
				if a.Rel != b.Rel {
					return a.Rel < b.Rel
				}
				return desc && a.ID > b.ID || !desc && a.ID < b.ID
			})
			ok := true
			for _, id := range ids {
				p := n.Pool[id]
				if p.Rel >= t.Rel || p.Pkg.DistRel != t.Pkg.DistRel || p.Pkg.Arch != t.Pkg.Arch {
					continue
				}
				d := DeltaName(p.Name, p.Rel, t.Rel, t.Pkg.DistRel, t.Pkg.Arch)
				if n.Skips[d] || n.Repos[o.Repo].Names[o.Src].Deltas[d] {
					continue
				}
				if x := n.Pool[d]; x != nil {
					if x.Delta.FromID != id || x.Delta.ToID != tip {
						ok = false // the same name was built from other packages
						break
					}
					n.addDelta(o.Repo, d)
					continue
				}
				if Pointless(p.Pkg, t.Pkg) {
					n.Skips[d] = true
					continue
				}
				n.Pool[d] = deltaItem(d, p, t)
				n.addDelta(o.Repo, d)
			}
			outs = append(outs, Outcome{State: n.gc(), Err: !ok})
		}
	}
	return outs
}

func deltaItem(id string, from, to *PoolM) *PoolM {
	return &PoolM{ID: id, Name: to.Name, Comp: to.Pkg.PathComponent(), Rel: to.Rel, Src: to.Pkg.Source,
		Delta: &DeltaM{FromID: from.ID, ToID: to.ID, FromRel: from.Rel, ToRel: to.Rel}}
}

// PoolPath and RepoPath are where an item's file lives below the base.
func (p *PoolM) PoolPath() string            { return filepath.Join("pool", p.Comp, p.ID) }
func (p *PoolM) RepoPath(repo string) string { return filepath.Join("repo", repo, p.Comp, p.ID) }
