//go:build go1.24

package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// effect is a performed mutation below the world's root.
type effect struct{ op, path string }

// bench is a scratch machine with a populated base directory.
type bench struct {
	w       *lib.World
	base    *lib.Snap
	m       *core.Manager
	effects []effect
	since   time.Time
	what    string
	mu      sync.Mutex
	keep    bool // the machine is as start left it
	batch   []string
	clean   map[string]string // files at the start
	proc    *jobs.Processor   // accepts jobs and runs none
	store   *jobs.JobStore
}

// pool of benches and the watchdog over them.
type rig struct {
	r    *lib.Report
	all  []*bench
	free chan *bench
}

func newRig(r *lib.Report, ops []lib.Op, pkgs []*lib.Pkg) *rig {
	lib.Prepare(pkgs)
	g := &rig{r: r, free: make(chan *bench, 64)}
	var base *lib.Snap
	for i := 0; i < runtime.NumCPU(); i++ {
		w := lib.NewWorld(i)
		w.PutSources(pkgs)
		if base == nil {
			empty := &lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}
			s, res, err := w.Session(empty, ops)
			for i, x := range res {
				if x.Err != nil && err == nil {
					err = fmt.Errorf("%v: %v", ops[i], x.Err)
				}
			}
			if err != nil {
				r.Violation("start state cannot be built", err.Error(), nil)
				return nil
			}
			base = s
		}
		b := &bench{w: w, base: base}
		w.Eff.After = func(op, p, p2 string) {
			b.effects = append(b.effects, effect{op, p})
			if p2 != "" {
				b.effects = append(b.effects, effect{op, p2})
			}
		}
		g.all = append(g.all, b)
		g.free <- b
	}
	go g.watch()
	return g
}

func (g *rig) watch() {
	for {
		time.Sleep(2 * time.Second)
		for _, b := range g.all {
			b.mu.Lock()
			late := !b.since.IsZero() && time.Since(b.since) > 60*time.Second
			what := b.what
			b.mu.Unlock()
			if late {
				g.r.Violation("operation hangs", what, what)
				os.Exit(g.r.Finish())
			}
		}
	}
}

// each runs the items on all benches.
func (g *rig) each(n int, f func(b *bench, i int)) {
	lib.Parallel(n, len(g.all), func(i int) {
		if time.Now().After(g.r.Deadline()) {
			g.r.Incomplete("time ran out")
			return
		}
		b := <-g.free
		defer func() { g.free <- b }()
		f(b, i)
		b.stop()
	})
}

// start resets the machine and opens the manager.
func (b *bench) start(what string) error {
	b.mu.Lock()
	b.since, b.what = time.Now(), what
	b.mu.Unlock()
	b.w.Eff.Escapes = nil
	if b.keep && b.m != nil {
		b.keep, b.effects = false, nil
		return nil
	}
	b.close()
	b.w.Restore(b.base)
	if b.clean == nil {
		b.clean = b.files()
	}
	m, err := b.w.Open()
	b.m = m
	b.w.Eff.Arm(0, 0, 0)
	b.effects = nil
	return err
}

func (g *rig) flushAll() {
	lib.Parallel(len(g.all), len(g.all), func(i int) { g.all[i].flush(g) })
}

func (b *bench) close() {
	if b.store != nil {
		b.store.Close()
		b.store, b.proc = nil, nil
	}
	if b.m != nil {
		b.m.Close()
		b.m = nil
	}
}

func (b *bench) stop() {
	if !b.keep {
		b.batch = nil // judged by what followed
		b.close()
	}
	b.mu.Lock()
	b.since = time.Time{}
	b.mu.Unlock()
}

// reopen restarts the manager.
func (b *bench) reopen() (err error) {
	b.close()
	b.m, err = b.w.Open()
	return
}

// guard runs f and turns a panic into a result.
func guard(f func() error) (res lib.Res) {
	defer func() {
		if p := recover(); p != nil {
			if c, ok := p.(veff.Crash); ok {
				panic(c)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1000 {
				st = st[:1000]
			}
			res.Panic = fmt.Sprintf("%v\n%s", p, st)
			res.Err = errors.New("panic")
		}
	}()
	res.Err = f()
	return
}

// job executes a queued job the way a worker does.
func (b *bench) job(j *jobs.JobEntry) lib.Res {
	return guard(func() error {
		h, err := jobs.NewJobHandler(j)
		if err != nil {
			return err
		}
		h.Describe()
		if j.Type == jobs.DeltaRepo && b.proc == nil { // queues further jobs
			if b.store, err = jobs.NewStore(b.w.Base); err != nil {
				return err
			}
			b.proc = jobs.NewProcessor(b.m, b.store, 2)
		}
		err = h.Execute(b.proc, b.m)
		h.Describe()
		return err
	})
}

func (b *bench) exec(o lib.Op) lib.Res { return lib.Exec(b.w, b.m, o) }

// rel is a path relative to the base directory ("../x" outside).
func (b *bench) rel(p string) string {
	r, err := filepath.Rel(b.w.Base, p)
	if err != nil {
		return p
	}
	return r
}

// files are the contents of the base directory (databases are kept elsewhere).
func (b *bench) files() map[string]string {
	m := map[string]string{}
	for _, n := range lib.TakeTree(b.w.Base) {
		k := n.Path
		if n.Dir {
			k += "/"
		}
		m[k] = n.Link + n.Data
	}
	return m
}

func diffFiles(a, b map[string]string) (l []string) {
	for _, k := range lib.SortedKeys(a) {
		if v, ok := b[k]; !ok {
			l = append(l, "-"+k)
		} else if v != a[k] {
			l = append(l, "~"+k)
		}
	}
	for _, k := range lib.SortedKeys(b) {
		if _, ok := a[k]; !ok {
			l = append(l, "+"+k)
		}
	}
	return
}

// node is an XML element that keeps its form.
type node struct {
	name  string
	attrs [][2]string
	text  string
	kids  []*node
}

func parseNode(doc string) *node {
	d := xml.NewDecoder(strings.NewReader(doc))
	root := &node{}
	stack := []*node{root}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			return root.kids[0]
		}
		if err != nil {
			panic(err)
		}
		top := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &node{name: t.Name.Local}
			for _, a := range t.Attr {
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + ":" + k
				}
				n.attrs = append(n.attrs, [2]string{k, a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 1 {
				top.text += string(t)
			}
		}
	}
}

func xmlText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func (n *node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *node) write(b *strings.Builder) {
	b.WriteString("<" + n.name)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + `="` + xmlText(a[1]) + `"`)
	}
	b.WriteString(">")
	if len(n.kids) == 0 {
		b.WriteString(xmlText(n.text))
	}
	for _, k := range n.kids {
		k.write(b)
	}
	b.WriteString("</" + n.name + ">")
}

func (n *node) clone() *node {
	c := &node{name: n.name, text: n.text, attrs: append([][2]string{}, n.attrs...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

// at follows child indexes.
func (n *node) at(path []int) *node {
	for _, i := range path {
		n = n.kids[i]
	}
	return n
}

// find follows names, taking the first of each.
func (n *node) find(names ...string) *node {
next:
	for _, s := range names {
		for _, k := range n.kids {
			if k.name == s {
				n = k
				continue next
			}
		}
		return nil
	}
	return n
}

// mutation is one change of a document.
type mutation struct {
	what  string
	apply func(root *node) // on a fresh copy
}

// nasty are the values every text and attribute takes in turn.
var nasty = []string{"", " ", ".", "..", "/", "../../../../x", "a/b", "/abs", "-1", "0", "99999999999999999999", "nano", "a", "é", "😀", "İ", "lib", "libé", "x\ny", "%s%d", "-package", "eopkg-index.xml", strings.Repeat("long", 80)}

// mutations enumerates the single changes of a document.
func mutations(doc string) (out []mutation) {
	root := parseNode(doc)
	var walk func(n *node, path []int, label string)
	add := func(what string, f func(root *node)) { out = append(out, mutation{what, f}) }
	walk = func(n *node, path []int, label string) {
		path = append([]int{}, path...)
		label += "/" + n.name
		if len(path) > 0 {
			up, i := path[:len(path)-1], path[len(path)-1]
			add("delete "+label, func(r *node) { p := r.at(up); p.kids = append(p.kids[:i], p.kids[i+1:]...) })
			add("duplicate "+label, func(r *node) { p := r.at(up); p.kids = append(p.kids, p.kids[i].clone()) })
			add("first "+label, func(r *node) {
				p := r.at(up)
				k := p.kids[i]
				p.kids = append([]*node{k}, append(append([]*node{}, p.kids[:i]...), p.kids[i+1:]...)...)
			})
		}
		add("rename "+label, func(r *node) { r.at(path).name = "Other" })
		add("empty "+label, func(r *node) { x := r.at(path); x.kids, x.text = nil, "" })
		add("nest "+label, func(r *node) { x := r.at(path); c := x.clone(); x.kids, x.text = append(x.kids, c), "" })
		if len(n.kids) == 0 {
			for _, v := range nasty {
				add(fmt.Sprintf("%s = %.12q", label, v), func(r *node) { r.at(path).text = v })
			}
		} else {
			add("text in "+label, func(r *node) { r.at(path).kids = nil; r.at(path).text = "text" })
		}
		for i, a := range n.attrs {
			add("delete "+label+"@"+a[0], func(r *node) { x := r.at(path); x.attrs = append(x.attrs[:i], x.attrs[i+1:]...) })
			for _, v := range nasty {
				add(fmt.Sprintf("%s@%s = %.12q", label, a[0], v), func(r *node) { r.at(path).attrs[i][1] = v })
			}
		}
		for i, k := range n.kids {
			walk(k, append(path, i), label)
		}
	}
	walk(root, nil, "")
	return
}

// setText changes or adds an element below the document's Package element.
func setText(names []string, v string) mutation {
	return mutation{fmt.Sprintf("%s = %.12q", strings.Join(names, "/"), v), func(r *node) {
		n := r
		for _, s := range names {
			if at, ok := strings.CutPrefix(s, "@"); ok {
				for i := range n.attrs {
					if n.attrs[i][0] == at {
						n.attrs[i][1] = v
						return
					}
				}
				n.attrs = append(n.attrs, [2]string{at, v})
				return
			}
			k := n.find(s)
			if k == nil {
				k = &node{name: s}
				n.kids = append(n.kids, k)
			}
			n = k
		}
		n.kids, n.text = nil, v
	}}
}

// edits are damaged copies of a byte string.
func edits(b []byte, emit func(what string, c []byte)) {
	for i := 0; i <= len(b); i++ {
		emit(fmt.Sprintf("cut to %d bytes", i), append([]byte{}, b[:i]...))
	}
	for i := range b {
		for _, x := range []byte{0x01, 0x20, 0x80, 0xff} {
			c := append([]byte{}, b...)
			c[i] ^= x
			emit(fmt.Sprintf("byte %d changed by %#x", i, x), c)
		}
		c := append([]byte{}, b...)
		c[i] = 0
		emit(fmt.Sprintf("byte %d zeroed", i), c)
		emit(fmt.Sprintf("byte %d left out", i), append(append([]byte{}, b[:i]...), b[i+1:]...))
	}
}

var seedOps = []lib.Op{
	uni.Mk("a"), uni.Imp("a", lib.N1, lib.N2, lib.L9, lib.O1), uni.Dist("a", lib.DistA), uni.Comp("a", lib.CompA), uni.Grp("a", lib.GrpA), uni.Idx("a"),
	uni.Mk("b"), uni.Imp("b", lib.N1, lib.L10), uni.Mk("empty"),
}
