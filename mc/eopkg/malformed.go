//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// damaged is a package file pair whose both releases carry the same defect.
type damaged struct {
	class, what string
	r1, r2      []byte
	single      bool // release 1 is healthy
}

func mutPkg(rel int) *lib.Pkg {
	p := lib.P("mut", "mut", fmt.Sprintf("%d.0", rel), rel)
	p.Files = []lib.TarEntry{{Path: "usr/a", Data: "same"}, {Path: "usr/b", Data: fmt.Sprint("release ", rel)}}
	p.Deps = []string{"nano"}
	p.Extra = map[string]string{"comar/package.py": "pass"}
	return p
}

// fields whose hostile values are combined in pairs.
var fields = [][]string{
	{"Package", "Name"}, {"Package", "Source", "Name"}, {"Source", "Name"}, {"Package", "History", "Update", "Version"}, {"Package", "History", "Update", "@release"},
	{"Package", "DistributionRelease"}, {"Package", "Architecture"}, {"Package", "PackageURI"}, {"Package", "PackageHash"}, {"Package", "PackageSize"},
	{"Package", "DeltaPackages", "Delta", "PackageURI"}, {"Package", "InstalledSize"}, {"Package", "Provides", "COMAR", "@script"},
}

func damagedPackages(yield func(d damaged)) {
	p1, p2 := mutPkg(1), mutPkg(2)
	b2 := p2.Bytes()
	// the second release of a healthy package is damaged somewhere
	edits(b2, func(what string, c []byte) { yield(damaged{"package file", what, p1.Bytes(), c, true}) })
	docs := [2]string{"<PISI>" + strings.SplitN(member1(p1, "metadata.xml"), "<PISI>", 2)[1], "<PISI>" + strings.SplitN(member1(p2, "metadata.xml"), "<PISI>", 2)[1]}
	both := func(class, what, name string, f func(string) string) {
		in := docs
		if name == "files.xml" {
			in = [2]string{p1.FilesXML(), p2.FilesXML()}
		}
		x, y := f(in[0]), f(in[1])
		yield(damaged{class, what, without(p1.Bytes(), name, x), without(p2.Bytes(), name, y), false})
	}
	apply := func(ms ...mutation) func(string) string {
		return func(doc string) string {
			n := parseNode(doc)
			for _, m := range ms {
				m.apply(n)
			}
			return n.String()
		}
	}
	for _, m := range mutations(docs[0]) {
		both("metadata", m.what, "metadata.xml", apply(m))
	}
	var single []mutation
	for i, f := range fields {
		for _, v := range nasty {
			m := setText(f, v)
			single = append(single, m)
			both("metadata", m.what, "metadata.xml", apply(m))
			for j := 0; j < i; j++ {
				for k, u := range nasty {
					if !lib.Thorough() && (k+i+j)%3 != len(v)%3 && i > 1 { // a third, alternating
						continue
					}
					o := setText(fields[j], u)
					both("metadata", m.what+", "+o.what, "metadata.xml", apply(m, o))
				}
			}
		}
	}
	_ = single
	// the document itself
	meta := docs[1]
	edits([]byte(meta), func(what string, c []byte) {
		yield(damaged{"metadata text", what, p1.Bytes(), without(b2, "metadata.xml", string(c)+" "), true})
	})
	for _, m := range mutations(p1.FilesXML()) {
		both("file list", m.what, "files.xml", apply(m))
	}
	edits([]byte(p2.FilesXML()), func(what string, c []byte) {
		yield(damaged{"file list text", what, p1.Bytes(), without(b2, "files.xml", string(c)+" "), true})
	})
	tar := lib.TarBytes(p2.Files)
	edits(tar[:512], func(what string, c []byte) {
		yield(damaged{"tarball header", what, p1.Bytes(), without(b2, "install.tar.xz", string(lib.XzStub(append(c, tar[512:]...)))), true})
	})
	// members that repeat, are missing or have hostile names
	for _, n := range []string{"metadata.xml", "files.xml", "install.tar.xz", "comar/package.py"} {
		yield(damaged{"members", "without " + n, without(p1.Bytes(), n, ""), without(b2, n, ""), false})
		yield(damaged{"members", "garbage in " + n, without(p1.Bytes(), n, "garbage"), without(b2, n, "garbage"), false})
	}
	for _, n := range []string{"../../x", "/abs", "..", ".", "", "a/", "metadata.xml/", "./metadata.xml"} {
		q1, q2 := mutPkg(1), mutPkg(2)
		q1.Extra = map[string]string{n: "hostile"}
		q2.Extra = map[string]string{n: "hostile"}
		yield(damaged{"members", fmt.Sprintf("further member %q", n), q1.Bytes(), q2.Bytes(), false})
	}
	for _, n := range []string{"../../x", "/abs/x", "..", "", "usr/../../x"} {
		q1, q2 := mutPkg(1), mutPkg(2)
		for _, q := range []*lib.Pkg{q1, q2} {
			q.Files = append(q.Files, lib.TarEntry{Path: n, Data: fmt.Sprint("hostile", q.Release)}, lib.TarEntry{Path: "l", Link: n})
		}
		yield(damaged{"payload", fmt.Sprintf("payload path %q", n), q1.Bytes(), q2.Bytes(), false})
	}
}

func member1(p *lib.Pkg, name string) string {
	ms, err := zipMembers(p.Bytes())
	if err != nil {
		panic(err)
	}
	for _, m := range ms {
		if m.name == name {
			return m.data
		}
	}
	return ""
}

// Not issues for packages outside the universe.
func foreign(i lib.Issue) bool {
	return i.Key == "pool file is not a package that was ever imported under that ID" || strings.Contains(i.Key, "delta with wrong releases")
}

// sound judges the state a malformed input has left behind.
func (b *bench) sound() error {
	if e := b.w.Eff.Escapes; len(e) > 0 {
		return fmt.Errorf("effect outside: %v", e)
	}
	if o := veff.TakeOutside(); len(o) > 0 {
		return fmt.Errorf("effect outside: %v", o)
	}
	for _, e := range b.effects {
		top, _, _ := strings.Cut(b.rel(e.path), "/")
		switch top {
		case "pool", "repo", "assets", "deltaBuilds", "deltaStaging", "incoming", "ferry_db", "ferry_db_jobs":
		default:
			return fmt.Errorf("effect outside the pool and repository trees: %s %s", e.op, b.rel(e.path))
		}
	}
	_, l := lib.Observe(b.w, b.m)
	for _, i := range l {
		if !foreign(i) {
			return fmt.Errorf("%s", i)
		}
	}
	return nil
}

// remains is what a refusal has changed; empty directories do not count.
func remains(pre, post map[string]string) (l []string) {
	for _, d := range diffFiles(pre, post) {
		if !(d[0] == '+' && strings.HasSuffix(d, "/")) {
			l = append(l, d)
		}
	}
	return
}

// usable exercises the repositories afterwards.
func (b *bench) usable() error {
	for _, o := range []lib.Op{uni.Imp("a", lib.N3), uni.Imp("b", lib.O1), uni.Rms("a", "nano", 2)} {
		if res := b.exec(o); res.Err != nil {
			return fmt.Errorf("%v: %v", o, res)
		}
	}
	if err := b.reopen(); err != nil {
		return fmt.Errorf("restart: %v", err)
	}
	for id, want := range map[string][]*lib.Pkg{"a": {lib.N3, lib.L9}, "b": {lib.L10, lib.O1}} {
		x, err := os.ReadFile(filepath.Join(b.w.Base, "repo", id, "eopkg-index.xml"))
		if err != nil {
			return err
		}
		e, err := lib.ParseXML(x)
		if err != nil {
			return fmt.Errorf("index of %s: %v", id, err)
		}
		for _, w := range want {
			n := 0
			for _, p := range e.Get("Package") {
				if p.Path("PackageURI") == w.PathComponent()+"/"+w.ID() {
					n++
				}
			}
			if n != 1 {
				return fmt.Errorf("index of %s lists %s %d times", id, w.ID(), n)
			}
		}
	}
	return nil
}

func malformed(r *lib.Report) {
	g := newRig(r, seedOps, append(append([]*lib.Pkg{}, lib.Good...), lib.Bad...))
	if g == nil {
		return
	}
	for _, f := range []func(*rig){manifests, queued, assetFiles, packages} {
		t := time.Now()
		f(g)
		g.flushAll()
		if os.Getenv("VMC_VERBOSE") != "" {
			fmt.Println(time.Since(t))
		}
	}
	r.Set("bounds", "package, metadata, file list, manifest and asset documents of one shape each; every cut, four changes of every byte, every byte zeroed or left out; every element and attribute deleted, repeated, moved, renamed, emptied, nested and set to each of 23 hostile values; pairs of hostile values of 13 metadata fields; all job types with 0 to 5 parameters")
}

// settle judges an input that was refused without a mutation: the machine is
// kept for the next one. Now and then, and at the end, everything is checked.
func (b *bench) settle(g *rig, what string) {
	b.batch = append(b.batch, what)
	b.keep = true
	if len(b.batch) >= 64 {
		b.flush(g)
	}
}

// flush checks that a row of refused inputs has left nothing behind.
func (b *bench) flush(g *rig) {
	if len(b.batch) == 0 {
		return
	}
	l := b.batch
	b.batch, b.keep = nil, false
	if d := remains(b.clean, b.files()); d != nil {
		g.r.Violation("refused inputs leave traces", fmt.Sprint(d), l)
	}
	if err := b.sound(); err != nil {
		g.r.Violation("refused inputs leave the repositories inconsistent", err.Error(), l)
	} else if err := b.usable(); err != nil {
		g.r.Violation("repositories are not usable after refused inputs", err.Error(), l)
	}
	g.r.Count(0, 4, 0)
	b.close()
}

// mutated tells whether an effect changed more than the set of directories.
func mutated(l []effect) bool {
	for _, e := range l {
		if !strings.HasPrefix(strings.ToLower(e.op), "mkdir") {
			return true
		}
	}
	return false
}

func packages(g *rig) {
	var items []damaged
	damagedPackages(func(d damaged) { items = append(items, d) })
	classes := map[string]int{}
	for _, d := range items {
		classes[d.class]++
	}
	g.r.Set("damaged_packages", classes)
	f1, f2 := "mut-1.0-1-1-x86_64.eopkg", "mut-2.0-2-1-x86_64.eopkg"
	g.each(len(items), func(b *bench, i int) {
		d := items[i]
		what := d.class + ": " + d.what
		if err := b.start(what); err != nil {
			g.r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		bad := func(k, f string, a ...any) {
			g.r.Violation(k+" ("+d.class+")", d.what+": "+fmt.Sprintf(f, a...), []string{d.class, d.what})
		}
		kind := "import"
		if i%2 == 1 {
			kind = "upload"
		}
		accepted := 0
		for k, f := range []string{f2, f1} {
			data := d.r2
			if k == 1 {
				data = d.r1
				if d.single && accepted == 0 { // release 1 is healthy
					break
				}
			}
			os.WriteFile(filepath.Join(b.w.Up, f), data, 0644)
			if k == 1 {
				kind = "import"
			}
			n := len(b.effects)
			res := b.exec(lib.Op{Kind: kind, Repo: "a", Files: []string{f}})
			os.Remove(filepath.Join(b.w.Up, f))
			if res.Panic != "" {
				bad("malformed package brings the daemon down", "%s", res.Panic)
				return
			}
			if res.Err == nil {
				accepted++
				g.r.Add("accepted", 1)
				continue
			}
			g.r.Add("refused", 1)
			if mutated(b.effects[n:]) && accepted == 0 {
				if l := remains(b.clean, b.files()); l != nil {
					bad("refused package leaves traces", "%v: %v", res.Err, l)
				}
			}
		}
		if accepted == 0 && !mutated(b.effects) {
			g.r.Count(1, 2, 1)
			b.settle(g, what)
			return
		}
		names, _ := b.m.GetPackageNames("a")
		for _, n := range names {
			if n == "libfoo" || n == "old" {
				continue
			}
			if res := b.exec(uni.Delta("a", n, true)); res.Panic != "" {
				bad("malformed package brings the daemon down when a delta is made", "%s", res.Panic)
				return
			}
		}
		if err := b.sound(); err != nil {
			bad("malformed package leaves the repositories inconsistent", "%v", err)
			return
		}
		if err := b.usable(); err != nil {
			bad("repositories are not usable after a malformed package", "%v", err)
			return
		}
		g.r.Count(1, 8, 1)
	})
	g.flushAll()
	g.r.Sample(map[string]string{"class": items[len(items)/3].class, "what": items[len(items)/3].what})
}

// manifestText is a well-formed upload.
func manifestText(target string, pkgs ...*lib.Pkg) string {
	s := "[manifest]\nversion = \"1.0\"\ntarget = \"" + target + "\"\n"
	for _, p := range pkgs {
		s += "\n[[file]]\npath = \"" + p.File + "\"\nsha256 = \"" + lib.Sha256(p.Bytes()) + "\"\n"
	}
	return s
}

func manifests(g *rig) {
	type item struct {
		what string
		data []byte
	}
	var items []item
	edits([]byte(manifestText("a", lib.N3)), func(what string, c []byte) { items = append(items, item{what, c}) })
	lines := strings.Split(manifestText("a", lib.N3, lib.L10), "\n")
	for i := range lines {
		del := append(append([]string{}, lines[:i]...), lines[i+1:]...)
		items = append(items, item{fmt.Sprintf("without line %d", i), []byte(strings.Join(del, "\n"))})
		for j := range lines {
			dup := append(append(append([]string{}, lines[:j]...), lines[i]), lines[j:]...)
			items = append(items, item{fmt.Sprintf("line %d also before %d", i, j), []byte(strings.Join(dup, "\n"))})
			swap := append([]string{}, lines...)
			swap[i], swap[j] = swap[j], swap[i]
			items = append(items, item{fmt.Sprintf("lines %d and %d exchanged", i, j), []byte(strings.Join(swap, "\n"))})
		}
		if k, _, ok := strings.Cut(lines[i], " = "); ok {
			for _, v := range []string{"1", "1.0", "true", "[]", "[\"1.0\"]", "{}", "\"\"", "\"..\"", "\"../../x.eopkg\"", "\"/abs.eopkg\"", "\".eopkg\"", "\"sub/.eopkg\"", "\"\\u0000.eopkg\"", "1979-05-27T07:32:00Z", "nan"} {
				l := append([]string{}, lines...)
				l[i] = k + " = " + v
				items = append(items, item{fmt.Sprintf("%s = %s in line %d", k, v, i), []byte(strings.Join(l, "\n"))})
			}
		}
	}
	g.r.Set("malformed_manifests", len(items))
	g.each(len(items), func(b *bench, i int) {
		if err := b.start("manifest " + items[i].what); err != nil {
			g.r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		bad := func(k, f string, a ...any) {
			g.r.Violation(k, "manifest with "+items[i].what+": "+fmt.Sprintf(f, a...), string(items[i].data))
		}
		dir := filepath.Join(b.w.Base, "incoming", "up")
		os.MkdirAll(filepath.Join(dir, "sub"), 0755)
		for _, p := range []*lib.Pkg{lib.N3, lib.L10} {
			os.WriteFile(filepath.Join(dir, p.File), p.Bytes(), 0644)
		}
		mf := filepath.Join(dir, "upload.tram")
		os.WriteFile(mf, items[i].data, 0644)
		res := b.job(jobs.NewTransitJob(mf))
		if res.Panic != "" {
			bad("malformed manifest brings the daemon down", "%s", res.Panic)
			return
		}
		if res.Err != nil && !mutated(b.effects) {
			os.RemoveAll(dir)
			g.r.Count(1, 1, 1)
			b.settle(g, "manifest "+items[i].what)
			return
		}
		if res.Err != nil {
			os.RemoveAll(dir)
			if l := remains(b.clean, b.files()); l != nil {
				bad("refused manifest leaves traces", "%v: %v", res.Err, l)
			}
		}
		if err := b.sound(); err != nil {
			bad("malformed manifest leaves the repositories inconsistent", "%v", err)
			return
		}
		if res.Err != nil {
			if err := b.usable(); err != nil {
				bad("repositories are not usable after a malformed manifest", "%v", err)
			}
		}
		g.r.Count(1, 6, 1)
	})
}

func assetFiles(g *rig) {
	type item struct {
		file, what string
		data       []byte
	}
	var items []item
	good := map[string]string{"distribution.xml": lib.DistA, "components.xml": lib.CompA, "groups.xml": lib.GrpA}
	for _, f := range lib.AssetFiles {
		doc := good[f]
		edits([]byte(doc), func(what string, c []byte) { items = append(items, item{f, what, c}) })
		if i := strings.Index(doc, "<PISI>"); i > 0 {
			doc = doc[i:]
		}
		for _, m := range mutations(doc) {
			n := parseNode(doc)
			m.apply(n)
			items = append(items, item{f, m.what, []byte(n.String())})
		}
	}
	g.r.Set("malformed_assets", len(items))
	g.each(len(items), func(b *bench, i int) {
		x := items[i]
		if err := b.start(x.file + " " + x.what); err != nil {
			g.r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		bad := func(k, f string, a ...any) {
			g.r.Violation(k, x.file+" with "+x.what+": "+fmt.Sprintf(f, a...), []string{x.file, x.what})
		}
		path := filepath.Join(b.w.Base, "assets", "a", x.file)
		index := filepath.Join(b.w.Base, "repo", "a")
		os.WriteFile(path, x.data, 0644)
		before := lib.ReadFiles(index, lib.IndexFiles)
		res := b.exec(uni.Idx("a"))
		if res.Panic != "" {
			bad("malformed asset file brings the daemon down", "%s", res.Panic)
			return
		}
		if res.Err != nil {
			if after := lib.ReadFiles(index, lib.IndexFiles); fmt.Sprint(before) != fmt.Sprint(after) {
				bad("failed indexing changes the published index", "%v", res.Err)
			}
		} else if _, err := lib.ParseXML([]byte(lib.ReadFiles(index, lib.IndexFiles)["eopkg-index.xml"])); err != nil {
			bad("malformed asset file makes a malformed index", "%v", err)
		}
		for _, o := range []lib.Op{uni.Trimobs("a"), uni.Imp("a", lib.O2), uni.Clone("a", "c", true), uni.Pull("a", "b"), uni.Del("c")} {
			if res := b.exec(o); res.Panic != "" {
				bad("malformed asset file brings the daemon down", "%v: %s", o, res.Panic)
				return
			}
		}
		if err := b.reopen(); err != nil {
			bad("daemon does not start with a malformed asset file", "%v", err)
			return
		}
		for _, id := range []string{"a", "b"} {
			for f, d := range good {
				os.WriteFile(filepath.Join(b.w.Base, "assets", id, f), []byte(d), 0644)
			}
		}
		if err := b.sound(); err != nil {
			bad("malformed asset file leaves the repositories inconsistent", "%v", err)
			return
		}
		for _, o := range []lib.Op{uni.Idx("a"), uni.Idx("b"), uni.Imp("b", lib.U10)} {
			if res := b.exec(o); res.Err != nil {
				bad("repository is not usable after its asset file was repaired", "%v: %v", o, res)
			}
		}
		g.r.Count(1, 9, 1)
	})
}

// jobTypes and the number of parameters they take.
var jobTypes = []jobs.JobType{jobs.BulkAdd, jobs.CopySource, jobs.CloneRepo, jobs.CreateRepo, jobs.DeleteRepo, jobs.Delta, jobs.DeltaIndex, jobs.DeltaRepo, jobs.IndexRepo, jobs.PullRepo, jobs.RemoveSource, jobs.TransitProcess, jobs.TrimObsolete, jobs.TrimPackages, "", "Unknown"}

// queued runs every job type with every number of parameters.
func queued(g *rig) {
	vals := []string{"a", "", "nosuch", "-1", "99999999999999999999", "x"}
	type item struct {
		*jobs.JobEntry
		wrong string // why it must be refused
	}
	var items []item
	seen := map[string]bool{}
	// parameters that are fine, with up to two of them replaced, left out or added
	valid := map[jobs.JobType][]string{
		jobs.BulkAdd: {"a", filepath.Join(g.all[0].w.Up, lib.N3.SrcName())}, jobs.CopySource: {"a", "b", "nano", "1", "true"}, jobs.CloneRepo: {"a", "n", "full"}, jobs.CreateRepo: {"n"}, jobs.DeleteRepo: {"a"},
		jobs.DeltaRepo: {"a"}, jobs.IndexRepo: {"a"}, jobs.PullRepo: {"a", "empty"}, jobs.RemoveSource: {"a", "nano", "1"}, jobs.TransitProcess: {"/nosuch/x.tram"}, jobs.TrimObsolete: {"a"}, jobs.TrimPackages: {"a", "1"},
	}
	isInt := func(s string) bool { _, err := strconv.ParseInt(s, 10, 32); return err == nil }
	isBool := func(s string) bool { _, err := strconv.ParseBool(s); return err == nil }
	types := map[jobs.JobType]map[int]func(string) bool{
		jobs.CopySource: {3: isInt, 4: isBool}, jobs.RemoveSource: {2: isInt}, jobs.TrimPackages: {1: isInt},
	}
	add := func(t jobs.JobType, p []string) {
		if k := fmt.Sprintf("%s%q", t, p); seen[k] {
			return
		} else {
			seen[k] = true
		}
		it := item{&jobs.JobEntry{Type: t, Params: append([]string{}, p...)}, ""}
		v := valid[t]
		switch {
		case v == nil:
			it.wrong = "unknown type"
		case t == jobs.BulkAdd && len(p) < 2, t != jobs.BulkAdd && len(p) != len(v):
			it.wrong = "wrong number of parameters"
		default:
			for i, f := range types[t] {
				if !f(p[i]) {
					it.wrong = fmt.Sprintf("parameter %d has the wrong type", i)
				}
			}
		}
		items = append(items, it)
	}
	for _, t := range jobTypes {
		v := valid[t]
		var rec func(p []string, at, left int)
		rec = func(p []string, at, left int) {
			add(t, p)
			if left == 0 {
				return
			}
			for i := at; i < len(p); i++ {
				for _, x := range append([]string{"1", "true", "b", "tip"}, vals...) {
					q := append([]string{}, p...)
					q[i] = x
					rec(q, i+1, left-1)
				}
			}
			for n := 0; n < len(p); n++ {
				rec(p[:n:n], n, left-1)
			}
			for _, x := range []string{"", "x", "1", "true"} {
				rec(append(p[:len(p):len(p)], x), len(p)+1, left-1)
				rec(append([]string{x}, p...), len(p)+1, left-1)
			}
		}
		rec(v, 0, 2)
	}
	for _, t := range jobTypes {
		var rec func(p []string)
		rec = func(p []string) {
			add(t, p)
			max := 3
			if t == jobs.CopySource {
				max = 6
			}
			if lib.Thorough() {
				max++
			}
			if len(p) >= max {
				return
			}
			for i, v := range vals {
				if len(p) >= 3 && i >= 3 && !lib.Thorough() { // fewer values further on
					continue
				}
				rec(append(append([]string{}, p...), v))
			}
		}
		rec(nil)
	}
	g.r.Set("malformed_jobs", len(items))
	g.each(len(items), func(b *bench, i int) {
		j := items[i]
		what := fmt.Sprintf("%s%q", j.Type, j.Params)
		if j.wrong == "" && len(j.Params) > 0 && j.Type == jobs.BulkAdd {
			j.Params = append([]string{}, j.Params...)
			for i, f := range j.Params {
				j.Params[i] = strings.Replace(f, g.all[0].w.Up, b.w.Up, 1)
			}
		}
		if err := b.start(what); err != nil {
			g.r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		res := b.job(j.JobEntry)
		if res.Panic != "" {
			g.r.Violation("malformed "+string(j.Type)+" job brings the daemon down", what+": "+res.Panic, what)
			return
		}
		if j.wrong != "" && res.Err == nil {
			g.r.Violation("malformed "+string(j.Type)+" job is run", what+": "+j.wrong, what)
		}
		if !mutated(b.effects) {
			g.r.Count(1, 1, 1)
			b.settle(g, what)
			return
		}
		if err := b.sound(); err != nil {
			g.r.Violation("malformed "+string(j.Type)+" job leaves the repositories inconsistent", what+": "+err.Error(), what)
			return
		}
		if res.Err != nil && j.wrong != "" {
			if l := remains(b.clean, b.files()); l != nil {
				g.r.Violation("refused "+string(j.Type)+" job leaves traces", fmt.Sprintf("%s: %v: %v", what, res.Err, l), what)
			}
			if err := b.usable(); err != nil {
				g.r.Violation("repositories are not usable after a malformed "+string(j.Type)+" job", what+": "+err.Error(), what)
			}
		}
		g.r.Count(1, 1, 1)
	})
}
