//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

// verdict on one part of a manifest; the whole is valid if nothing is bad.
type verdict int

const (
	good   verdict = iota
	either         // not settled by the property: both outcomes are fine
	bad
)

// payload is one [[file]] section with the files it comes with.
type payload struct {
	what  string
	lines []string
	put   map[string]string // files relative to the upload directory
	v     verdict
	pkg   *lib.Pkg // what an acceptance imports
	path  string   // what an acceptance removes
}

func quoted(s string) string {
	return `"` + strings.NewReplacer("\\", `\\`, `"`, `\"`, "\x00", `\u0000`, "\n", `\n`).Replace(s) + `"`
}

func section(path, sha string) []string { return []string{"path = " + quoted(path), "sha256 = " + sha} }

// payloads lists what a manifest may name.
func payloads() (l []payload) {
	put := func(p *lib.Pkg) map[string]string { return map[string]string{p.File: string(p.Bytes())} }
	sha := func(p *lib.Pkg) string { return quoted(lib.Sha256(p.Bytes())) }
	add := func(what string, v verdict, lines []string, files map[string]string, pkg *lib.Pkg, path string) {
		l = append(l, payload{what, lines, files, v, pkg, path})
	}
	N3, L10, D10, EA := lib.N3, lib.L10, lib.D10, lib.EA
	for _, p := range []*lib.Pkg{N3, L10, D10, EA} {
		add("good "+p.ID(), good, section(p.File, sha(p)), put(p), p, p.File)
	}
	// releases that are not newer than the published one in some repositories
	for _, p := range []*lib.Pkg{lib.N1, lib.N2} {
		add("old "+p.ID(), good, section(p.File, sha(p)), put(p), p, p.File)
	}
	wrong := []struct{ what, sha string }{
		{"zeros", quoted(strings.Repeat("0", 64))}, {"empty sha", `""`}, {"half a sha", quoted(lib.Sha256(N3.Bytes())[:32])}, {"longer sha", quoted(lib.Sha256(N3.Bytes()) + "00")},
		{"sha1", quoted(lib.Sha1(N3.Bytes()))}, {"sha of another file", sha(L10)}, {"blank sha", `"  "`}, {"number", "1"}, {"list", "[" + sha(N3) + "]"},
	}
	for _, w := range wrong {
		add(w.what, bad, section(N3.File, w.sha), put(N3), nil, "")
	}
	add("no sha", bad, section(N3.File, "")[:1], put(N3), nil, "")
	add("no path", bad, section(N3.File, sha(N3))[1:], put(N3), nil, "")
	add("nothing", bad, nil, put(N3), nil, "")
	add("empty path", bad, section("", sha(N3)), put(N3), nil, "")
	add("blank path", bad, section(" \t", sha(N3)), put(N3), nil, "")
	add("sha twice", bad, append(section(N3.File, sha(N3)), "sha256 = "+sha(N3)), put(N3), nil, "")
	add("file not there", bad, section(N3.File, sha(N3)), nil, nil, "")
	add("other file there", bad, section(N3.File, sha(N3)), put(L10), nil, "")
	changed := string(N3.Bytes())
	changed = changed[:len(changed)-30] + "x" + changed[len(changed)-29:]
	add("changed file", bad, section(N3.File, sha(N3)), map[string]string{N3.File: changed}, nil, "")
	add("cut file", bad, section(N3.File, sha(N3)), map[string]string{N3.File: changed[:100]}, nil, "")
	add("empty file", bad, section(N3.File, sha(N3)), map[string]string{N3.File: ""}, nil, "")
	add("directory", bad, section("dir.eopkg", sha(N3)), map[string]string{"dir.eopkg/x": "x"}, nil, "")
	add("the upload directory", bad, section(".", sha(N3)), nil, nil, "")
	add("outside", bad, section("../../outside/"+N3.File, sha(N3)), map[string]string{"../../outside/" + N3.File: string(N3.Bytes())}, nil, "")
	add("neighbour", bad, section("../"+N3.File, sha(N3)), map[string]string{"../" + N3.File: string(N3.Bytes())}, nil, "")
	add("out and in again", either, section("../up/"+N3.File, sha(N3)), put(N3), N3, N3.File)
	add("absolute", either, section("/"+N3.File, sha(N3)), put(N3), N3, N3.File)
	add("upper case sha", either, section(N3.File, strings.ToUpper(sha(N3))), put(N3), N3, N3.File)
	add("sub directory", either, section("sub/"+N3.File, sha(N3)), map[string]string{"sub/" + N3.File: string(N3.Bytes())}, N3, "sub/"+N3.File)
	add("changed file in a sub directory", bad, section("sub/"+N3.File, sha(N3)), map[string]string{"sub/" + N3.File: changed}, nil, "")
	add("other file in a sub directory", bad, section("other/"+L10.File, sha(L10)), map[string]string{"other/" + L10.File: string(N3.Bytes())}, nil, "")
	add("another package's contents in a sub directory", bad, section("other/"+EA.File, sha(EA)), map[string]string{"other/" + EA.File: string(D10.Bytes())}, nil, "")
	add("deep down", either, section("sub/sub/"+L10.File, sha(L10)), map[string]string{"sub/sub/" + L10.File: string(L10.Bytes())}, L10, "sub/sub/"+L10.File)
	add("dot", either, section("./"+N3.File, sha(N3)), put(N3), N3, N3.File)
	add("blanks", either, section(" "+N3.File+" ", quoted(" "+lib.Sha256(N3.Bytes())+"\n")), put(N3), N3, N3.File)
	add("further key", either, append(section(N3.File, sha(N3)), `note = "x"`), put(N3), N3, N3.File)
	for _, p := range lib.Bad {
		add("not a package: "+p.ID(), bad, section(p.File, sha(p)), put(p), nil, "")
	}
	add("neighbour through a sub directory", bad, section("sub/../../"+N3.File, sha(N3)), map[string]string{"../" + N3.File: string(N3.Bytes())}, nil, "")
	add("outside through a sub directory", bad, section("up/./sub/../../../../outside/"+N3.File, sha(N3)), map[string]string{"../../outside/" + N3.File: string(N3.Bytes())}, nil, "")
	add("manifest itself", bad, section("upload.tram", sha(N3)), nil, nil, "")
	txt := "nano.txt"
	add("other suffix", either, section(txt, sha(N3)), map[string]string{txt: string(N3.Bytes())}, N3, txt)
	return
}

// spoilt reports whether a listed file differs from the one its sum belongs to.
func (m *manifest) spoilt() bool {
	for _, p := range m.p {
		if p.v == bad && (strings.HasPrefix(p.what, "changed file") || strings.Contains(p.what, " in a sub directory")) {
			return true
		}
	}
	return false
}

// unlisted is the name of a file that no payload has.
const unlisted = "unlisted-1-1-1-x86_64.eopkg"

type header struct {
	what   string
	lines  []string
	v      verdict
	target string
}

func headers() (l []header) {
	type part struct {
		what, line string
		v          verdict
		target     string
	}
	versions := []part{
		{"1.0", `version = "1.0"`, good, ""}, {"none", "", bad, ""}, {"empty", `version = ""`, bad, ""}, {"blank", `version = " "`, bad, ""}, {"blanks", `version = " 1.0 "`, either, ""},
		{"1", `version = "1"`, bad, ""}, {"2.0", `version = "2.0"`, bad, ""}, {"1.0.0", `version = "1.0.0"`, bad, ""}, {"11.0", `version = "11.0"`, bad, ""}, {"number", `version = 1.0`, bad, ""}, {"twice", "version = \"1.0\"\nversion = \"1.0\"", bad, ""},
	}
	targets := []part{
		{"a", `target = "a"`, good, "a"}, {"empty", `target = "empty"`, good, "empty"}, {"none", "", bad, ""}, {"no text", `target = ""`, bad, ""}, {"blank", `target = " "`, bad, ""}, {"blanks", `target = " a "`, either, "a"},
		{"nosuch", `target = "nosuch"`, bad, ""}, {"A", `target = "A"`, bad, ""}, {"a/../a", `target = "a/../a"`, bad, ""}, {".", `target = "."`, bad, ""}, {"..", `target = ".."`, bad, ""}, {"../repo/a", `target = "../repo/a"`, bad, ""}, {"a/", `target = "a/"`, bad, ""},
		{"list", `target = ["a"]`, bad, ""}, {"prefix", `target = "emp"`, bad, ""}, {"b", `target = "b"`, good, "b"},
	}
	for _, v := range versions {
		for _, t := range targets {
			l = append(l, header{fmt.Sprintf("version %s, target %s", v.what, t.what), []string{"[manifest]", v.line, t.line}, max(v.v, t.v), t.target})
		}
	}
	ok := []string{`version = "1.0"`, `target = "a"`}
	l = append(l,
		header{"no header", nil, bad, ""},
		header{"header without its name", ok, bad, ""},
		header{"header of another name", append([]string{"[manifests]"}, ok...), bad, ""},
		header{"header twice", append(append([]string{"[manifest]"}, ok...), append([]string{"[manifest]"}, ok...)...), bad, ""},
		header{"header as list", append([]string{"[[manifest]]"}, ok...), bad, ""},
		header{"unclosed header", append([]string{"[manifest"}, ok...), bad, ""},
		header{"further keys", append(append([]string{"[manifest]"}, ok...), "other = 1"), either, "a"},
	)
	return
}

type manifest struct {
	h header
	p []payload
}

func (m *manifest) what() string {
	s := m.h.what + ":"
	for _, p := range m.p {
		s += " [" + p.what + "]"
	}
	return s
}

func (m *manifest) text() string {
	l := append([]string{}, m.h.lines...)
	for _, p := range m.p {
		l = append(append(l, "", "[[file]]"), p.lines...)
	}
	return strings.Join(l, "\n") + "\n"
}

// verdict of the whole, with the effect of an acceptance.
func (m *manifest) verdict(st *lib.State) (verdict, *lib.State) {
	v := m.h.v
	if len(m.p) == 0 {
		v = bad
	}
	seen := map[string]bool{}
	files := map[string]string{}
	cur := st
	for _, p := range m.p {
		v = max(v, p.v)
		for f, d := range p.put {
			if e, ok := files[f]; ok && e != d {
				return -1, nil // sections contradict each other
			}
			files[f] = d
		}
	}
	if v == bad {
		// a file another section supplies may make this one whole
		for _, p := range m.p {
			if p.what == "file not there" || p.what == "other file there" {
				if _, ok := files[lib.N3.File]; ok {
					return -1, nil
				}
			}
		}
		return bad, nil
	}
	for _, p := range m.p {
		if seen[p.pkg.ID()] {
			v = max(v, either) // the same package again
			continue
		}
		seen[p.pkg.ID()] = true
		out := cur.Apply(uni.Upl(m.h.target, p.pkg))
		if out[0].Err {
			return bad, nil // not newer
		}
		cur = out[0].State
	}
	return v, cur
}

func uploads(r *lib.Report) {
	g := newRig(r, seedOps, append(append(append([]*lib.Pkg{}, lib.Good...), lib.Multi...), lib.Bad...))
	if g == nil {
		return
	}
	var items []manifest
	ps, hs := payloads(), headers()
	var lists func(n int, cur []payload, f func(p []payload))
	lists = func(n int, cur []payload, f func(p []payload)) {
		f(cur)
		if n > 0 {
			for _, p := range ps {
				lists(n-1, append(append([]payload{}, cur...), p), f)
			}
		}
	}
	for i, h := range hs {
		n := 1
		if i < 2 { // good headers: an existing and an empty target
			n = 3 - i
		}
		if lib.Thorough() {
			n = 2
			if h.v == good {
				n = 3
			}
		}
		lists(n, nil, func(p []payload) { items = append(items, manifest{h, p}) })
	}
	// megabytes that are wrong only at the end, in a member and in the directory
	huge := string(lib.Huge.Bytes())
	for _, at := range []int{len(huge) - 30, len(huge) - 60, 1<<20 + 4096, 1 << 20} {
		c := huge[:at] + string(huge[at]^1) + huge[at+1:]
		p := payload{fmt.Sprintf("changed file of megabytes at %d", at), section(lib.Huge.File, quoted(lib.Sha256([]byte(huge)))), map[string]string{lib.Huge.File: c}, bad, nil, ""}
		items = append(items, manifest{hs[0], []payload{p}}, manifest{hs[0], []payload{ps[0], p}})
	}
	// many files: every prefix of all packages, in their order and in reverse
	goods := func(pk []*lib.Pkg) (l []payload) {
		for _, p := range pk {
			l = append(l, payload{"good " + p.ID(), section(p.File, quoted(lib.Sha256(p.Bytes()))), map[string]string{p.File: string(p.Bytes())}, good, p, p.File})
		}
		return
	}
	all := goods(append(append([]*lib.Pkg{}, lib.Good...), lib.Multi...))
	many := []manifest{}
	for n := 4; n <= len(all); n++ {
		one := []*lib.Pkg{}
		names := map[string]bool{}
		for _, p := range all[len(all)-n:] {
			if !names[p.pkg.Name] {
				one = append(one, p.pkg)
			}
			names[p.pkg.Name] = true
		}
		many = append(many, manifest{hs[1], all[:n]}, manifest{hs[0], all[:n]}, manifest{hs[1], goods(one)}, manifest{hs[1], append(goods(one), ps[len(ps)-1])})
	}
	items = append(items, many...)
	r.Set("manifests of many files", len(many))
	r.Set("headers", len(hs))
	r.Set("payloads", len(ps))
	var st *lib.State
	b := <-g.free
	if err := b.start("start state"); err != nil {
		r.Violation("daemon does not start", err.Error(), nil)
		return
	}
	st, _ = lib.Observe(b.w, b.m)
	b.stop()
	g.free <- b
	g.each(len(items), func(b *bench, i int) { g.upload(b, &items[i], st) })
	g.flushAll()
	var whole []manifest
	lists2 := [][]payload{{ps[0]}, {ps[0], ps[1]}, {ps[1], ps[2]}, {ps[2], ps[1], ps[0]}, {ps[3]}}
	for _, l := range lists2 {
		whole = append(whole, manifest{hs[0], l}, manifest{hs[1], l})
	}
	g.interrupted(whole, st)
	r.Sample(map[string]string{"manifest": items[len(items)/2].what(), "text": items[len(items)/2].text()})
	r.Set("bounds", "every manifest of 18 header classes x targets with lists of payload entries up to the stated length, from one populated base directory; every crash point (torn variants included) and every failing effect of ten valid uploads")
}

// lay writes a manifest and what comes with it.
func (m *manifest) lay(b *bench) (string, map[string]string) {
	dir := filepath.Join(b.w.Base, "incoming", "up")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, unlisted), []byte("unlisted"), 0644)
	for _, p := range m.p {
		for f, d := range p.put {
			t := filepath.Join(dir, f)
			os.MkdirAll(filepath.Dir(t), 0755)
			os.WriteFile(t, []byte(d), 0644)
			if strings.HasPrefix(f, "..") {
				continue
			}
			for d := filepath.Dir(f); d != "."; d = filepath.Dir(d) { // what nobody mentions stays
				os.WriteFile(filepath.Join(dir, d, "unlisted"), []byte(d), 0644)
				os.WriteFile(filepath.Join(dir, d, unlisted), []byte(d), 0644)
			}
		}
	}
	os.WriteFile(filepath.Join(dir, "upload.tram"), []byte(m.text()), 0644)
	return filepath.Join(dir, "upload.tram"), uploaded(b)
}

// uploaded are the files outside the daemon's own trees.
func uploaded(b *bench) map[string]string {
	m := map[string]string{}
	for _, n := range lib.TakeTree(filepath.Join(b.w.Base, "incoming")) {
		if !n.Dir {
			m[n.Path] = n.Data
		}
	}
	for _, n := range lib.TakeTree(filepath.Join(b.w.Base, "outside")) {
		if !n.Dir {
			m["outside/"+n.Path] = n.Data
		}
	}
	return m
}

func (b *bench) unlay() {
	os.RemoveAll(filepath.Join(b.w.Base, "incoming"))
	os.Mkdir(filepath.Join(b.w.Base, "incoming"), 0755)
	os.RemoveAll(filepath.Join(b.w.Base, "outside"))
}

func (g *rig) upload(b *bench, m *manifest, st *lib.State) {
	v, want := m.verdict(st)
	if v < 0 {
		g.r.Add("contradictory", 1)
		return
	}
	if err := b.start(m.what()); err != nil {
		g.r.Violation("daemon does not start", err.Error(), nil)
		return
	}
	bad := func(k, f string, a ...any) {
		g.r.Violation(k, m.what()+": "+fmt.Sprintf(f, a...), map[string]string{"manifest": m.text()})
	}
	mf, pre := m.lay(b)
	if t, err := core.NewTransitManifest(mf); err == nil && m.spoilt() {
		g.r.Add("payloads_validated_directly", 1)
		if t.ValidatePayload() == nil {
			bad("altered file passes the validation of the payload", "ValidatePayload reports no error")
		}
	}
	res := b.job(jobs.NewTransitJob(mf))
	post := uploaded(b)
	g.r.Count(1, 1, 1)
	if res.Panic != "" {
		bad("processing a manifest panics", "%s", res.Panic)
		return
	}
	if res.Err != nil {
		g.r.Add("rejected", 1)
		if v == good {
			bad("valid upload rejected", "%v", res.Err)
			return
		}
		if l := diffFiles(pre, post); l != nil {
			bad("rejected upload is not left in place", "%v", l)
		}
		b.unlay()
		if !mutated(b.effects) {
			b.settle(g, m.what())
			return
		}
		if l := remains(b.clean, b.files()); l != nil {
			bad("rejected upload changes the repositories", "%v: %v", res.Err, l)
		}
		got, _ := lib.Observe(b.w, b.m)
		if got.Canon() != st.Canon() {
			bad("rejected upload changes the repositories", "%v", res.Err)
		}
		return
	}
	g.r.Add("accepted", 1)
	if v >= 2 {
		bad("invalid upload accepted", "the manifest is processed without an error")
		return
	}
	for _, p := range m.p {
		delete(pre, "up/"+p.path)
	}
	delete(pre, "up/upload.tram")
	if l := diffFiles(pre, post); l != nil {
		bad("other files removed than the listed ones and the manifest", "%v", l)
	}
	// the manifest is gone: processing it again does nothing
	n := len(b.effects)
	if res := b.job(jobs.NewTransitJob(mf)); res.Panic != "" || res.Err == nil || mutated(b.effects[n:]) {
		bad("manifest that is gone is processed", "%v", res)
	}
	b.unlay()
	got, issues := lib.Observe(b.w, b.m)
	if got.Canon() != want.Canon() {
		bad("accepted upload has another effect", "want\n%sgot\n%s", want.Canon(), got.Canon())
	}
	for _, i := range issues {
		bad("accepted upload leaves an inconsistency", "%v", i)
	}
	_, l := lib.CheckIndex(b.w, m.h.target, got)
	for _, i := range l {
		if i.Key != lib.SymbolKey { // C04 reports that
			bad("accepted upload is not published", "%v", i)
			break
		}
	}
}

// interrupted crashes and fails valid uploads at every effect: a file may only
// have gone when everything is in the repository.
func (g *rig) interrupted(ms []manifest, st *lib.State) {
	type task struct {
		m      *manifest
		crash  bool
		k, t   int
		effect string
	}
	var tasks []task
	for i := range ms {
		m := &ms[i]
		b := g.all[0]
		if err := b.start("recording"); err != nil {
			return
		}
		mf, _ := m.lay(b)
		b.w.Eff.Arm(0, 0, 0)
		b.w.Eff.Record = true
		b.job(jobs.NewTransitJob(mf))
		b.w.Eff.Record = false
		for k := 1; k <= b.w.Eff.N; k++ {
			e := b.w.Eff.Log[k-1]
			tasks = append(tasks, task{m, false, k, 0, e})
			for t := 0; t <= b.w.Eff.Tears[k-1]; t++ {
				tasks = append(tasks, task{m, true, k, t, e})
			}
		}
		b.w.Eff.Arm(0, 0, 0)
		b.stop()
	}
	g.r.Set("interruptions", len(tasks))
	g.each(len(tasks), func(b *bench, i int) {
		t := tasks[i]
		what := fmt.Sprintf("%s: failure of effect %d (%s)", t.m.what(), t.k, t.effect)
		if t.crash {
			what = fmt.Sprintf("%s: crash at effect %d (%s), torn variant %d", t.m.what(), t.k, t.effect, t.t)
		}
		if err := b.start(what); err != nil {
			g.r.Violation("daemon does not start", err.Error(), nil)
			return
		}
		_, want := t.m.verdict(st)
		mf, pre := t.m.lay(b)
		var res lib.Res
		hit := false
		if t.crash {
			b.w.Eff.Arm(t.k, t.t, 0)
		} else {
			b.w.Eff.Arm(0, 0, t.k)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(veff.Crash); !ok {
						panic(r)
					}
					hit = true
				}
			}()
			res = b.job(jobs.NewTransitJob(mf))
		}()
		if t.crash && hit {
			vleveldb.CrashClose(b.w.Base)
			b.w.Eff.Arm(0, 0, 0)
			b.m = nil
			m, err := b.w.Open()
			if err != nil {
				g.r.Violation("daemon does not start after a crash", what+": "+err.Error(), nil)
				return
			}
			b.m = m
		}
		b.w.Eff.Arm(0, 0, 0)
		g.r.Count(1, 1, 1)
		post := uploaded(b)
		gone := diffFiles(pre, post)
		got, _ := lib.Observe(b.w, b.m)
		done := got.Repos[t.m.h.target].Canon() == want.Repos[t.m.h.target].Canon()
		if len(gone) > 0 && !done {
			g.r.Violation("uploaded files lost before they are imported", fmt.Sprintf("%s: %v", what, gone), what)
		}
		if !t.crash && res.Err == nil && !done {
			g.r.Violation("upload reported as processed without being imported", what, what)
		}
		for _, d := range gone {
			ok := d == "-up/upload.tram"
			for _, p := range t.m.p {
				ok = ok || d == "-up/"+p.path
			}
			if !ok {
				g.r.Violation("other files removed than the listed ones and the manifest", what+": "+d, what)
			}
		}
	})
}
