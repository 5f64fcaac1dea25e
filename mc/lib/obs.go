//go:build go1.24

package lib

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifmc/vexec"
)

// Issue is a broken property.
type Issue struct {
	Prop string
	Key  string // stable identification of what fails
	Text string
}

func (i Issue) String() string { return fmt.Sprintf("[%s] %s: %s", i.Prop, i.Key, i.Text) }

// IndexFiles are the published index files.
var IndexFiles = []string{
	"eopkg-index.xml", "eopkg-index.xml.sha1sum", "eopkg-index.xml.sha256sum",
	"eopkg-index.xml.xz", "eopkg-index.xml.xz.sha1sum", "eopkg-index.xml.xz.sha256sum",
	"eopkg-index.xml.zst", "eopkg-index.xml.zst.sha1sum", "eopkg-index.xml.zst.sha256sum",
}

var sumToPkg = map[string]*Pkg{}
var deltaNames []string

// Prepare computes the universe's digests; call once before exploring.
func Prepare(pkgs []*Pkg) {
	RegisterPkg(pkgs...)
	seen := map[string]bool{}
	for _, p := range pkgs {
		sumToPkg[Sha256(p.Bytes())] = p
	}
	for _, a := range pkgs {
		for _, b := range pkgs {
			if a.Name == b.Name && a.Release < b.Release && a.Name != "" {
				d := DeltaName(a.Name, a.Release, b.Release, b.DistRel, b.Arch)
				if !seen[d] {
					seen[d] = true
					deltaNames = append(deltaNames, d)
				}
			}
		}
	}
	sort.Strings(deltaNames)
}

// Observe reads the abstract state through the public API and the file system
// and checks the state invariants.
func Observe(w *World, m *core.Manager) (st *State, out []Issue) {
	st = NewState()
	bad := func(prop, key, f string, a ...any) { out = append(out, Issue{prop, key, fmt.Sprintf(f, a...)}) }
	defer func() {
		if r := recover(); r != nil {
			bad("C22", "panic while listing", "%v", r)
		}
	}()
	repos, err := m.GetRepos()
	if err != nil {
		bad("C12", "list repos", "%v", err)
		return
	}
	for _, r := range repos {
		if st.Repos[r.ID] != nil {
			bad("C12", "duplicate repository", "%q", r.ID)
		}
		st.Repos[r.ID] = &RepoM{Names: map[string]*NameM{}, Assets: map[string]string{}}
	}
	items, err := m.GetPoolItems()
	if err != nil {
		bad("C01", "list pool", "%v", err)
		return
	}
	refs := map[string]uint64{}
	for _, e := range items {
		p := &PoolM{ID: e.Name}
		if st.Pool[e.Name] != nil {
			bad("C01", "duplicate pool item", "%q", e.Name)
		}
		refs[e.Name] = e.RefCount
		if e.Meta == nil || len(e.Meta.History) == 0 || e.Meta.Source.Name == "" {
			bad("C02", "pool item without metadata", "%q", e.Name)
			continue
		}
		p.Name, p.Rel, p.Src = e.Meta.Name, e.Meta.GetRelease(), e.Meta.Source.Name
		p.Comp = PathComponent(p.Src)
		if e.Delta != nil {
			p.Delta = &DeltaM{e.Delta.FromID, e.Delta.ToID, e.Delta.FromRelease, e.Delta.ToRelease}
		}
		st.Pool[e.Name] = p
		b, err := os.ReadFile(filepath.Join(w.Base, p.PoolPath()))
		if err != nil {
			bad("C02", "pool file missing", "%s: %v", p.ID, err)
			continue
		}
		p.Sum = Sha256(b)
		p.Pkg = sumToPkg[p.Sum]
		if p.Delta == nil {
			if p.Pkg == nil || p.Pkg.ID() != p.ID {
				bad("C02", "pool file is not a package that was ever imported under that ID", "%s", p.ID)
				p.Pkg = nil
			} else if p.Pkg.Name != p.Name || p.Pkg.Release != p.Rel || p.Pkg.Source != p.Src {
				bad("C02", "pool metadata does not describe the pool file", "%s: %s r%d %s, file is %s r%d %s", p.ID, p.Name, p.Rel, p.Src, p.Pkg.Name, p.Pkg.Release, p.Pkg.Source)
				p.Name, p.Rel, p.Src = p.Pkg.Name, p.Pkg.Release, p.Pkg.Source
			}
		}
		if e.Meta.PackageSize != int64(len(b)) || e.Meta.PackageHash != Sha1(b) || e.Meta.PackageURI != filepath.Join(p.Comp, p.ID) {
			prop := "C02"
			if p.Delta != nil {
				prop = "C31"
			}
			bad(prop, "pool metadata has wrong size, hash or location", "%s: %d %s %s", p.ID, e.Meta.PackageSize, e.Meta.PackageHash, e.Meta.PackageURI)
		}
	}
	count := map[string]uint64{}
	for _, id := range SortedKeys(st.Repos) {
		r := st.Repos[id]
		for _, a := range AssetFiles {
			if b, err := os.ReadFile(filepath.Join(w.Base, "assets", id, a)); err == nil {
				r.Assets[a] = string(b)
			}
		}
		names, err := m.GetPackageNames(id)
		if err != nil {
			bad("C03", "list names", "%s: %v", id, err)
			continue
		}
		for _, n := range names {
			if r.Names[n] != nil {
				bad("C03", "duplicate package name", "%s: %s", id, n)
				continue
			}
			e := &NameM{Avail: map[string]bool{}, Deltas: map[string]bool{}}
			r.Names[n] = e
			pk, err := m.GetPackages(id, n)
			if err != nil {
				bad("C01", "available package not in pool", "%s: %s: %v", id, n, err)
				continue
			}
			if len(pk) == 0 {
				bad("C03", "name without files", "%s: %s", id, n)
			}
			for _, p := range pk {
				i := p.GetID()
				if e.Avail[i] {
					bad("C01", "package listed twice", "%s: %s", id, i)
				}
				e.Avail[i] = true
				count[i]++
				if p.Name != n {
					bad("C03", "package under a foreign name", "%s: %s lists %s of %s", id, n, i, p.Name)
				}
				if p.DeltaPackages != nil {
					bad("C31", "stored metadata contains index deltas", "%s: %s", id, i)
				}
			}
			for _, d := range items {
				if d.Delta == nil {
					continue
				}
				has, err := m.HasDelta(id, n, d.Name)
				if err != nil {
					bad("C31", "HasDelta", "%v", err)
				}
				if has {
					e.Deltas[d.Name] = true
					count[d.Name]++
				}
			}
		}
	}
	for _, i := range SortedKeys(refs) {
		if count[i] == 0 {
			bad("C01", "pool item that no repository contains", "%s (count %d)", i, refs[i])
		} else if refs[i] != count[i] {
			bad("C01", "wrong reference count", "%s: %d, contained in %d repositories", i, refs[i], count[i])
		}
	}
	for i := range count {
		if _, ok := refs[i]; !ok {
			bad("C01", "repository item missing from pool", "%s", i)
		}
	}
	for _, d := range deltaNames {
		if m.GetDeltaFailed(d) {
			st.Skips[d] = true
		}
	}
	for _, id := range SortedKeys(st.Repos) {
		r := st.Repos[id]
		for _, n := range SortedKeys(r.Names) {
			e := r.Names[n]
			for _, d := range SortedKeys(e.Deltas) {
				p := st.Pool[d]
				if p == nil || p.Delta == nil {
					continue
				}
				if !e.Avail[p.Delta.FromID] || !e.Avail[p.Delta.ToID] {
					bad("C31", "delta between packages that are not both available", "%s: %s (%s -> %s)", id, d, p.Delta.FromID, p.Delta.ToID)
					continue
				}
				f, t := st.Pool[p.Delta.FromID], st.Pool[p.Delta.ToID]
				if f != nil && t != nil && (f.Rel != p.Delta.FromRel || t.Rel != p.Delta.ToRel || f.Rel >= t.Rel) {
					bad("C31", "delta with wrong releases", "%s: %+v", d, *p.Delta)
				}
			}
		}
	}
	out = append(out, CheckTrees(w, st)...)
	return
}

// CheckTrees verifies the exact set of files in the pool, repository and work
// trees.
func CheckTrees(w *World, st *State) (out []Issue) {
	bad := func(prop, key, f string, a ...any) { out = append(out, Issue{prop, key, fmt.Sprintf(f, a...)}) }
	expect := map[string]bool{}
	for _, i := range SortedKeys(st.Pool) {
		expect[st.Pool[i].PoolPath()] = true
	}
	for _, id := range SortedKeys(st.Repos) {
		for _, i := range SortedKeys(st.Repos[id].Items()) {
			p := st.Pool[i]
			if p == nil {
				continue
			}
			rp := p.RepoPath(id)
			expect[rp] = true
			a, err1 := os.Stat(filepath.Join(w.Base, rp))
			b, err2 := os.Stat(filepath.Join(w.Base, p.PoolPath()))
			if err1 != nil {
				bad("C02", "listed file missing from the repository tree", "%s: %s", id, i)
				continue
			}
			if err2 == nil && !os.SameFile(a, b) {
				d, _ := os.ReadFile(filepath.Join(w.Base, rp))
				if Sha256(d) != p.Sum {
					bad("C02", "repository file differs from the pool", "%s: %s", id, i)
				} else {
					bad("C02", "file not shared with the pool", "%s: %s", id, i)
				}
			}
		}
		for _, f := range IndexFiles {
			expect[filepath.Join("repo", id, f)] = true
		}
		for f := range st.Repos[id].Assets {
			expect[filepath.Join("assets", id, f)] = true
		}
		if fi, err := os.Stat(filepath.Join(w.Base, "repo", id)); err != nil || !fi.IsDir() {
			bad("C12", "repository directory missing", "%s", id)
		}
	}
	for _, top := range []string{"pool", "repo", "assets", "deltaBuilds", "deltaStaging"} {
		filepath.Walk(filepath.Join(w.Base, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(w.Base, p)
			parts := strings.Split(rel, "/")
			if fi.IsDir() {
				if top != "pool" && len(parts) == 2 && st.Repos[parts[1]] == nil {
					bad("C12", "directory of an unknown repository", "%s", rel)
				}
				return nil
			}
			if fi.Mode()&os.ModeSymlink != 0 {
				bad("C02", "symlink in a managed tree", "%s", rel)
			}
			if expect[rel] {
				return nil
			}
			switch top {
			case "pool", "repo":
				if strings.HasPrefix(filepath.Base(rel), "eopkg-index") {
					bad("C05", "stray index file", "%s", rel)
				} else {
					bad("C02", "file that nothing lists", "%s", rel)
				}
			case "assets":
				bad("C12", "stray asset file", "%s", rel)
			default:
				bad("C23", "working file left behind", "%s", rel)
			}
			return nil
		})
	}
	return
}

// CheckIndex compares the published index of a repository with its contents
// and returns the published versions it shows.
func CheckIndex(w *World, id string, st *State) (pubs map[string]string, out []Issue) {
	bad := func(prop, key, f string, a ...any) {
		out = append(out, Issue{prop, key, id + ": " + fmt.Sprintf(f, a...)})
	}
	pubs = map[string]string{}
	dir := filepath.Join(w.Base, "repo", id)
	out = append(out, CheckDerived(dir, id)...)
	b, err := os.ReadFile(filepath.Join(dir, "eopkg-index.xml"))
	if err != nil {
		bad("C04", "no index", "%v", err)
		return
	}
	root, err := ParseXML(b)
	if err != nil || root.Name != "PISI" {
		bad("C04", "index is not a well-formed document", "%v", err)
		return
	}
	r := st.Repos[id]
	dist, comps, groups, obs, err := ExpectAssets(r.Assets)
	if err != nil {
		return
	}
	canon := func(name string) []string {
		var l []string
		for _, e := range root.Get(name) {
			l = append(l, e.Canon())
		}
		return l
	}
	gotC, gotG := canon("Component"), canon("Group")
	sort.Strings(gotC)
	sort.Strings(gotG)
	if fmt.Sprint(canon("Distribution")) != fmt.Sprint(dist) {
		bad("C04", "distribution data differs", "index %v, asset file %v", canon("Distribution"), dist)
	}
	if fmt.Sprint(gotC) != fmt.Sprint(comps) {
		bad("C04", "component data differs", "index %v, asset file %v", gotC, comps)
	}
	if fmt.Sprint(gotG) != fmt.Sprint(groups) {
		bad("C04", "group data differs", "index %v, asset file %v", gotG, groups)
	}
	for _, c := range root.Child {
		switch c.Name {
		case "Distribution", "Package", "Component", "Group":
		default:
			bad("C04", "unexpected element", "%s", c.Name)
		}
	}
	var order []string
	for _, e := range root.Get("Package") {
		name := e.Path("Name")
		uri := e.Path("PackageURI")
		pid := filepath.Base(uri)
		order = append(order, pid)
		n := r.Names[name]
		if n == nil {
			bad("C04", "entry for a package the repository does not have", "%s", name)
			continue
		}
		if pubs[name] != "" {
			bad("C04", "more than one entry for a name", "%s", name)
		}
		pubs[name] = pid
		if IsObsolete(obs, name) {
			bad("C04", "entry for an obsolete package", "%s", name)
		}
		for _, f := range append([]*Elem{e}, e.Deltas()...) {
			b, err := os.ReadFile(filepath.Join(w.Base, "repo", id, f.Path("PackageURI")))
			if err != nil || f.Path("PackageSize") != fmt.Sprint(len(b)) || f.Path("PackageHash") != Sha1(b) {
				bad("C04", "entry does not lead to the file it describes", "%s: %s, %d bytes, %v", name, f.Path("PackageURI"), len(b), err)
			}
		}
		if !n.Avail[pid] {
			bad("C03", "published version is not available", "%s: %s", name, pid)
			continue
		}
		okTip := false
		for _, t := range st.Tips(n) {
			okTip = okTip || t == pid
		}
		if !okTip {
			bad("C03", "published version is not the highest release", "%s: %s, available %v", name, pid, SortedKeys(n.Avail))
		}
		p := st.Pool[pid]
		if p == nil || p.Pkg == nil {
			continue
		}
		// deltas are checked on their own, the rest literally
		var rest []*Elem
		var got []string
		for _, c := range e.Child {
			if c.Name == "DeltaPackages" {
				for _, d := range c.Get("Delta") {
					got = append(got, d.Canon())
				}
				continue
			}
			rest = append(rest, c)
		}
		e2 := *e
		e2.Child = rest
		want, err := p.Pkg.ExpectPackage(nil)
		if err != nil {
			panic(err)
		}
		c := e2.Canon()
		if c != want && unref(c) == unref(want) {
			bad("C04", SymbolKey, "%s: got %s want %s", pid, diffAt(c, want), diffAt(want, c))
		} else if c != want {
			bad("C04", "entry does not carry the package's metadata", "%s: got %s want %s", pid, diffAt(c, want), diffAt(want, c))
		}
		var wantD []string
		for _, d := range SortedKeys(n.Deltas) {
			x := st.Pool[d]
			if x == nil || x.Delta == nil || x.Delta.ToRel != p.Rel {
				continue
			}
			db, _ := os.ReadFile(filepath.Join(w.Base, x.PoolPath()))
			el := leaf("Delta", "")
			if x.Delta.FromRel != 0 {
				el.Attr["releaseFrom"] = fmt.Sprint(x.Delta.FromRel)
			}
			el.Child = []*Elem{leaf("PackageURI", filepath.Join(x.Comp, x.ID)), leaf("PackageSize", fmt.Sprint(len(db))), leaf("PackageHash", Sha1(db))}
			wantD = append(wantD, el.Canon())
		}
		sort.Strings(got)
		sort.Strings(wantD)
		if fmt.Sprint(got) != fmt.Sprint(wantD) {
			bad("C31", "index offers wrong deltas", "%s: got %v want %v", pid, got, wantD)
			bad("C04", "index offers wrong deltas", "%s: got %v want %v", pid, got, wantD)
		}
	}
	for _, n := range SortedKeys(r.Names) {
		if pubs[n] == "" && !IsObsolete(obs, n) {
			bad("C04", "no entry for a package", "%s", n)
		}
	}
	if !sort.StringsAreSorted(order) {
		bad("C04", "entries not sorted", "%v", order)
	}
	return
}

// SymbolKey identifies the known finding about escaped text inside CDATA.
const SymbolKey = "symbols of descriptive text are published as literal numeric references"

var reRef = regexp.MustCompile(`&#x([0-9A-F]+);`)

// unref resolves numeric references of non-ASCII characters.
func unref(s string) string {
	return reRef.ReplaceAllStringFunc(s, func(m string) string {
		n, err := strconv.ParseInt(m[3:len(m)-1], 16, 32)
		if err != nil || n < 128 {
			return m
		}
		return string(rune(n))
	})
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-60, i+80
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("...%q...", a[lo:hi])
}

// CheckDerived checks that compressed indexes and checksums belong to the
// published index.
func CheckDerived(dir, id string) (out []Issue) {
	bad := func(key, f string, a ...any) { out = append(out, Issue{"C05", key, id + ": " + fmt.Sprintf(f, a...)}) }
	read := func(f string) []byte {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			bad("index file missing", "%s", f)
			return nil
		}
		return b
	}
	ix := read("eopkg-index.xml")
	if ix == nil {
		return
	}
	for _, k := range []string{"", "xz", "zst"} {
		f := "eopkg-index.xml"
		b := ix
		if k != "" {
			f += "." + k
			if b = read(f); b == nil {
				continue
			}
			d, err := Unpack(k, b)
			if err != nil {
				bad("compressed index unreadable", "%s: %v", f, err)
			} else if string(d) != string(ix) {
				bad("compressed index differs from the published index", "%s", f)
			}
		}
		if s := read(f + ".sha1sum"); s != nil && firstField(s) != Sha1(b) {
			bad("checksum does not match its file", "%s.sha1sum", f)
		}
		if s := read(f + ".sha256sum"); s != nil && firstField(s) != Sha256(b) {
			bad("checksum does not match its file", "%s.sha256sum", f)
		}
	}
	return
}

// Unpack undoes a simulated or real compression.
func Unpack(kind string, b []byte) ([]byte, error) {
	if vexec.Real {
		return vexec.RealDecompress(kind, b)
	}
	return vexec.Decompress(kind, b)
}

// Inode identifies a file.
func Inode(p string) uint64 {
	fi, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

func firstField(b []byte) string {
	f := strings.Fields(string(b))
	if len(f) == 0 {
		return ""
	}
	return f[0]
}
