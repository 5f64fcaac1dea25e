//go:build go1.24

package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vexec"
)

// pair is an old and a new package.
type pair struct {
	name     string
	old, new *lib.Pkg
}

// huge is larger than any buffer.
var huge = strings.Repeat("0123456789abcdef", 1<<17+1)

var big = strings.Repeat("0123456789abcdef", 5000)

// slot is one path and what may be there.
type slot struct {
	path  string
	kinds []string
}

func entry(path, kind string) (lib.TarEntry, bool) {
	switch kind {
	case "A":
		return lib.TarEntry{Path: path, Data: "content A"}, true
	case "B":
		return lib.TarEntry{Path: path, Data: "content B, longer", Mode: 0755}, true
	case "A+x":
		return lib.TarEntry{Path: path, Data: "content A", Mode: 0755}, true
	case "empty":
		return lib.TarEntry{Path: path}, true
	case "big":
		return lib.TarEntry{Path: path, Data: big}, true
	case "huge":
		return lib.TarEntry{Path: path, Data: huge}, true
	case "huge'":
		return lib.TarEntry{Path: path, Data: huge[:len(huge)-1] + "x"}, true
	case "dir":
		return lib.TarEntry{Path: path, Dir: true, Mode: 0755}, true
	case "->A":
		return lib.TarEntry{Path: path, Link: "content A"}, true
	case "->B":
		return lib.TarEntry{Path: path, Link: "b"}, true
	}
	return lib.TarEntry{}, false
}

func build(rel int, files []lib.TarEntry) *lib.Pkg {
	p := lib.P("pkg", "pkg", fmt.Sprintf("%d.0", rel), rel)
	if files == nil {
		files = []lib.TarEntry{}
	}
	p.Files = files
	return p
}

// fileSets is every filling of the slots.
func fileSets(slots []slot) (out [][]lib.TarEntry) {
	out = [][]lib.TarEntry{{}}
	for _, s := range slots {
		var next [][]lib.TarEntry
		for _, o := range out {
			for _, k := range s.kinds {
				l := append([]lib.TarEntry{}, o...)
				if e, ok := entry(s.path, k); ok {
					l = append(l, e)
				}
				next = append(next, l)
			}
		}
		out = next
	}
	return
}

// differing is what a delta from old to new has to carry.
func differing(old, new *lib.Pkg) (names map[string]bool, all bool) {
	have := map[string]bool{}
	for _, f := range old.Files {
		if !f.Dir {
			have[f.Hash()] = true
		}
	}
	names = map[string]bool{}
	for _, f := range new.Files {
		if f.Dir || !have[f.Hash()] {
			names[f.Path] = true
		}
	}
	return names, len(names) == len(new.Files)
}

type member struct{ name, data string }

func zipMembers(b []byte) (out []member, err error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name, err)
		}
		d, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name, err)
		}
		out = append(out, member{f.Name, string(d)})
	}
	return
}

func tarEntries(b []byte) (out []string, err error) {
	t := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := t.Next()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(t)
		if err != nil {
			return nil, err
		}
		out = append(out, fmt.Sprintf("%s type=%c mode=%o size=%d uid=%d:%d %s:%s mtime=%d link=%q %s", strings.TrimSuffix(h.Name, "/"), h.Typeflag, h.Mode, h.Size, h.Uid, h.Gid, h.Uname, h.Gname, h.ModTime.Unix(), h.Linkname, lib.Sha1(d)))
	}
}

func isTarball(n string) bool { return strings.HasPrefix(n, "install.tar") }

// checkDelta compares a delta with what it has to be.
func checkDelta(old, new *lib.Pkg, delta []byte) error {
	got, err := zipMembers(delta)
	if err != nil {
		return fmt.Errorf("unreadable: %v", err)
	}
	src, err := zipMembers(new.Bytes())
	if err != nil {
		return err
	}
	want, _ := differing(old, new)
	var a, b []string
	var tarball *member
	for i, m := range got {
		if isTarball(m.name) {
			if tarball != nil || m.name != "install.tar.xz" {
				return fmt.Errorf("unexpected member %s", m.name)
			}
			tarball = &got[i]
			continue
		}
		a = append(a, m.name+"\x00"+m.data)
	}
	for _, m := range src {
		if !isTarball(m.name) {
			b = append(b, m.name+"\x00"+m.data)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\x01") != strings.Join(b, "\x01") {
		return fmt.Errorf("other members differ: %d, want %d", len(a), len(b))
	}
	if tarball == nil {
		if len(want) > 0 {
			return fmt.Errorf("no tarball, want %v", lib.SortedKeys(want))
		}
		return nil
	}
	raw, err := lib.Unpack("xz", []byte(tarball.data))
	if err != nil {
		return fmt.Errorf("tarball: %v", err)
	}
	have, err := tarEntries(raw)
	if err != nil {
		return fmt.Errorf("tarball: %v", err)
	}
	full, err := tarEntries(lib.TarBytes(new.Files))
	if err != nil {
		return err
	}
	var exp []string
	for _, e := range full {
		if n, _, _ := strings.Cut(e, " type="); want[n] {
			exp = append(exp, e)
		}
	}
	if strings.Join(have, "\n") != strings.Join(exp, "\n") {
		return fmt.Errorf("entries are\n%s\ninstead of\n%s", strings.Join(have, "\n"), strings.Join(exp, "\n"))
	}
	return nil
}

// deltaBench is one world's directories for delta work.
type deltaBench struct {
	w                   *lib.World
	work, old, new, out string
}

func newDeltaBench(n int) *deltaBench {
	w := lib.NewWorld(n)
	d := &deltaBench{w: w, work: filepath.Join(w.Base, "work"), out: filepath.Join(w.Base, "out.delta.eopkg")}
	d.old, d.new = filepath.Join(w.Up, "old.eopkg"), filepath.Join(w.Up, "new.eopkg")
	os.MkdirAll(d.work, 0755)
	return d
}

// run makes one delta.
func (d *deltaBench) run(old, new []byte) (err error, panicked string) {
	os.WriteFile(d.old, old, 0644)
	os.WriteFile(d.new, new, 0644)
	os.Remove(d.out)
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
		}
	}()
	err = core.ProduceDelta(d.work, d.old, d.new, d.out)
	return
}

// left lists remaining working files and resets the work directory.
func (d *deltaBench) left() (l []string) {
	for _, n := range lib.TakeTree(d.work) {
		if n.Path != "." {
			l = append(l, n.Path)
		}
	}
	if l != nil {
		os.RemoveAll(d.work)
		os.MkdirAll(d.work, 0755)
	}
	return
}

// judge checks the result of making one delta.
func (d *deltaBench) judge(p pair, err error, panicked string, possible bool) (key, text string) {
	text = fmt.Sprintf("%s: old %v, new %v: ", p.name, describe(p.old), describe(p.new))
	if panicked != "" {
		return "panic while making a delta", text + panicked
	}
	if l := d.left(); l != nil {
		return "working files left behind", text + strings.Join(l, " ")
	}
	b, rerr := os.ReadFile(d.out)
	_, pointless := differing(p.old, p.new)
	switch {
	case !possible:
		if err == nil {
			return "delta between packages that do not fit", text + "made"
		}
		if !errors.Is(err, libeopkg.ErrMismatchedDelta) {
			return "unfitting packages not reported as such", text + err.Error()
		}
	case pointless:
		if err == nil {
			return "pointless delta made", text
		}
		if !errors.Is(err, libeopkg.ErrDeltaPointless) {
			return "pointless delta not reported as such", text + err.Error()
		}
	default:
		if err != nil {
			return "delta refused", text + err.Error()
		}
		if rerr != nil {
			return "delta missing", text + rerr.Error()
		}
		if e := checkDelta(p.old, p.new, b); e != nil {
			return "delta has wrong contents", text + e.Error()
		}
		return "", ""
	}
	if rerr == nil {
		return "refused delta exists", text
	}
	return "", ""
}

func describe(p *lib.Pkg) string {
	var l []string
	for _, f := range p.Files {
		d := f.Data
		if len(d) > 20 {
			d = d[:20]
		}
		l = append(l, fmt.Sprintf("%s=%q%v%s/%o", f.Path, d, f.Dir, f.Link, f.Mode))
	}
	return fmt.Sprintf("%s-%s-%d[%s]", p.Name, p.Version, p.Release, strings.Join(l, " "))
}

func deltaPairs() (out []pair) {
	add := func(name string, slots []slot) {
		sets := fileSets(slots)
		olds := make([]*lib.Pkg, len(sets))
		news := make([]*lib.Pkg, len(sets))
		for i, s := range sets {
			olds[i], news[i] = build(1, s), build(2, s)
			olds[i].Bytes()
			news[i].Bytes()
		}
		for _, o := range olds {
			for _, n := range news {
				out = append(out, pair{name, o, n})
			}
		}
	}
	add("files", []slot{{"usr/a", []string{"", "A", "B"}}, {"usr/b", []string{"", "A", "B"}}, {"usr/c", []string{"", "A", "big"}}})
	add("kinds", []slot{{"usr/d", []string{"", "dir", "A"}}, {"usr/d/x", []string{"", "A", "empty", "A+x"}}, {"usr/l", []string{"", "->A", "->B", "B"}}})
	add("directories", []slot{{"usr", []string{"", "dir"}}, {"usr/e", []string{"", "dir"}}, {"usr/e/f", []string{"", "A", "B"}}, {"usr/eff", []string{"", "A", "B"}}})
	add("more", []slot{{"usr/a", []string{"", "A", "B", "dir"}}, {"usr/b", []string{"", "A", "->A", "empty"}}, {"usr/c", []string{"", "A", "big", "->B"}}, {"usr/ab", []string{"", "A", "B"}}})
	add("megabytes", []slot{{"usr/a", []string{"", "huge", "huge'"}}, {"usr/b", []string{"A", "huge"}}})
	if lib.Thorough() {
		add("most", []slot{{"usr", []string{"", "dir"}}, {"usr/a", []string{"", "A", "B", "dir"}}, {"usr/b", []string{"", "A", "->A", "empty"}}, {"usr/c", []string{"", "B", "->B"}}, {"usr/a/b", []string{"", "A", "B", "A+x"}}, {"ab", []string{"", "A", "B"}}})
	}
	// order in the tarball, long names, further members
	long := "usr/" + strings.Repeat("very-long-directory-name/", 9) + "file"
	o := build(1, []lib.TarEntry{{Path: "z", Data: "content A"}, {Path: "a", Data: "content B"}, {Path: long, Data: "x"}})
	n := build(2, []lib.TarEntry{{Path: long, Data: "y"}, {Path: "usr", Dir: true}, {Path: "z", Data: "content A"}, {Path: "a", Data: "new"}, {Path: long + "2", Link: long}})
	out = append(out, pair{"order and long names", o, n})
	for i, x := range []map[string]string{{"comar/package.py": "def x(): pass\n"}, {"install.tarnished": "not copied"}, {"comar/": "", "extra": big}, {"Install.tar": "kept", "x/install.tar.xz": "kept too"}, {"install.sh": "kept", "install": "kept", "installed.xml": "kept"}} {
		p := build(2, []lib.TarEntry{{Path: "usr/a", Data: "content A"}, {Path: "usr/b", Data: "new"}})
		p.Extra = x
		q := build(1, []lib.TarEntry{{Path: "usr/a", Data: "content A"}})
		q.Extra = map[string]string{"old-only": "must not appear"}
		out = append(out, pair{fmt.Sprintf("further members %d", i), q, p})
	}
	return
}

func deltas(r *lib.Report) {
	k := runtime.NumCPU()
	benches := make(chan *deltaBench, k)
	for i := 0; i < k; i++ {
		benches <- newDeltaBench(i)
	}
	with := func(f func(d *deltaBench)) {
		d := <-benches
		defer func() { benches <- d }()
		f(d)
	}
	var made, refused, faulted atomic.Int64
	note := func(err error) {
		if err == nil {
			made.Add(1)
		} else {
			refused.Add(1)
		}
	}
	ps := deltaPairs()
	lib.Parallel(len(ps), k, func(i int) {
		with(func(d *deltaBench) {
			p := ps[i]
			err, pan := d.run(p.old.Bytes(), p.new.Bytes())
			note(err)
			if key, text := d.judge(p, err, pan, true); key != "" {
				r.Violation(key, text, p.name)
			}
		})
	})

	// every relation of the two packages
	var rel []func(d *deltaBench)
	files := []lib.TarEntry{{Path: "usr/a", Data: "content A"}, {Path: "usr/b", Data: "content B"}}
	changed := []lib.TarEntry{{Path: "usr/a", Data: "content A"}, {Path: "usr/b", Data: "changed"}}
	for _, or := range []int{1, 2, 9, 10, 100} {
		for _, nr := range []int{1, 2, 9, 10, 100} {
			for m := 0; m < 64; m++ {
				o, n := build(or, files), build(nr, changed)
				if m&1 != 0 {
					n.Name = "pkg-devel"
				}
				if m&2 != 0 {
					n.DistRel = "2"
				}
				if m&4 != 0 {
					n.Arch = "i686"
				}
				if m&8 != 0 { // not part of the rule
					n.Source = "other"
				}
				if m&16 != 0 { // a version says nothing
					o.Version, n.Version = "9", "1"
				}
				if m&32 != 0 { // neither do the older entries
					o.History, n.History = 2, 1
				}
				p := pair{fmt.Sprintf("release %d to %d, variant %b", or, nr, m), o, n}
				rel = append(rel, func(d *deltaBench) {
					err, pan := d.run(o.Bytes(), n.Bytes())
					note(err)
					if key, text := d.judge(p, err, pan, or < nr && m&7 == 0); key != "" {
						r.Violation(key, text, p.name)
					}
				})
			}
		}
	}
	lib.Parallel(len(rel), k, func(i int) { with(rel[i]) })

	// unusable inputs on either side
	good := [2]*lib.Pkg{build(1, files), build(2, changed)}
	bad := map[string]func(p lib.Pkg) []byte{
		"empty":        func(p lib.Pkg) []byte { return nil },
		"no archive":   func(p lib.Pkg) []byte { return []byte("not a zip") },
		"no metadata":  func(p lib.Pkg) []byte { p.NoMeta = true; return p.Bytes() },
		"bad metadata": func(p lib.Pkg) []byte { p.Meta = "<PISI><Package>"; return p.Bytes() },
		"no history":   func(p lib.Pkg) []byte { p.Meta = lib.NoHist.Meta; return p.Bytes() },
		"truncated":    func(p lib.Pkg) []byte { b := p.Bytes(); return b[:len(b)-30] },
		"no files.xml": func(p lib.Pkg) []byte { return without(p.Bytes(), "files.xml", "") },
		"bad files.xml": func(p lib.Pkg) []byte {
			return without(p.Bytes(), "files.xml", "<Files><File><Path>usr/a</Path><Mode>zz</Mode></File></Files>")
		},
		"no tarball":  func(p lib.Pkg) []byte { return without(p.Bytes(), "install.tar.xz", "") },
		"bad tarball": func(p lib.Pkg) []byte { return without(p.Bytes(), "install.tar.xz", "garbage") },
		"cut tarball": func(p lib.Pkg) []byte {
			t := lib.TarBytes(p.Files)
			return without(p.Bytes(), "install.tar.xz", string(lib.XzStub(t[:len(t)-1600])))
		},
	}
	for _, name := range lib.SortedKeys(bad) {
		for side := 0; side < 2; side++ {
			in := [2][]byte{good[0].Bytes(), good[1].Bytes()}
			in[side] = bad[name](lib.Pkg{File: good[side].File, Name: "pkg", Source: "pkg", Version: good[side].Version, Release: good[side].Release, Files: good[side].Files})
			with(func(d *deltaBench) {
				err, pan := d.run(in[0], in[1])
				note(err)
				where := fmt.Sprintf("%s in package %d", name, side)
				switch l := d.left(); {
				case pan != "":
					r.Violation("panic while making a delta", where+": "+pan, where)
				case l != nil:
					r.Violation("working files left behind", where+": "+strings.Join(l, " "), where)
				case err == nil && !(side == 0 && strings.Contains(name, "tarball")):
					r.Violation("delta from an unusable package", where, where)
				}
				if _, e := os.Stat(d.out); err != nil && e == nil {
					r.Violation("refused delta exists", where, where)
				}
			})
		}
	}

	// every effect fails in turn
	plans := []pair{
		{"plain", good[0], good[1]},
		{"big", build(1, files), build(2, []lib.TarEntry{{Path: "usr/a", Data: "content A"}, {Path: "big", Data: big}, {Path: "d", Dir: true}})},
		{"nothing new", build(1, files), build(2, files)},
		{"pointless", build(1, files), build(2, []lib.TarEntry{{Path: "usr/n", Data: "n"}})},
	}
	for _, p := range plans {
		with(func(d *deltaBench) {
			_, pointless := differing(p.old, p.new)
			d.w.Eff.Arm(0, 0, 0)
			d.run(p.old.Bytes(), p.new.Bytes())
			n := d.w.Eff.N
			for k := 1; k <= n; k++ {
				d.w.Eff.Arm(0, 0, k)
				err, pan := d.run(p.old.Bytes(), p.new.Bytes())
				failed := d.w.Eff.Failed
				d.w.Eff.Arm(0, 0, 0)
				faulted.Add(1)
				where := fmt.Sprintf("%s, failure of %s", p.name, failed)
				l := d.left()
				b, rerr := os.ReadFile(d.out)
				switch {
				case pan != "":
					r.Violation("panic while making a delta", where+": "+pan, where)
				case l != nil && !strings.HasPrefix(failed, "remove"):
					r.Violation("working files left behind after a failure", where+": "+strings.Join(l, " "), where)
				case err == nil && (pointless || rerr != nil):
					r.Violation("failure reported as success", where, where)
				case err == nil && checkDelta(p.old, p.new, b) != nil:
					r.Violation("damaged delta reported as success", where, where)
				case err != nil && rerr == nil && checkDelta(p.old, p.new, b) != nil:
					r.Violation("damaged delta left in place", where, where)
				}
			}
		})
	}
	// conformance of the stand-in compressor: the same with the real one
	vexec.Real = true
	for i := 0; i < len(ps); i += len(ps)/60 + 1 {
		d := <-benches
		p := ps[i]
		q := *p.new
		b := without(q.Bytes(), "install.tar.xz", realXz(lib.TarBytes(q.Files)))
		err, pan := d.run(p.old.Bytes(), b)
		if key, text := d.judge(p, err, pan, true); key != "" {
			r.Violation(key+" (real xz)", text, p.name)
		}
		r.Add("conformance_runs_with_the_real_compressor", 1)
		benches <- d
	}
	vexec.Real = false
	r.Count(int64(len(ps)+len(rel)), made.Load()+refused.Load(), made.Load()+refused.Load()+faulted.Load())
	r.Set("pairs_of_packages", len(ps))
	r.Set("relations_of_packages", len(rel))
	r.Set("deltas_made", made.Load())
	r.Set("refusals", refused.Load())
	r.Set("failure_points", faulted.Load())
	r.Set("bounds", "every pair of fillings of three families of paths (files, kinds of entries, nested directories); releases from 1, 2, 9, 10, 100 in every order, each difference of name, distribution release, architecture, source, version and history; 11 defects on either side; every failing effect of four runs")
	r.Sample(map[string]string{"old": describe(ps[len(ps)/2].old), "new": describe(ps[len(ps)/2].new)})
}

func realXz(b []byte) string {
	x, err := vexec.RealCompress("xz", b)
	if err != nil {
		panic(err)
	}
	return string(x)
}

// without replaces or drops a member of a zip file.
func without(b []byte, name, data string) []byte {
	ms, err := zipMembers(b)
	if err != nil {
		panic(err)
	}
	var out bytes.Buffer
	z := zip.NewWriter(&out)
	for _, m := range ms {
		if m.name == name {
			if data == "" {
				continue
			}
			m.data = data
		}
		f, _ := z.Create(m.name)
		f.Write([]byte(m.data))
	}
	z.Close()
	return out.Bytes()
}
