//go:build go1.24

package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

// op is one step of a sequence.
type op struct {
	Kind string // put, update, nested, number, reopen, reserved
	On   Loc    // handle whose Update is used
	Ws   []W
	Fail int // update: 0 succeeds, n>0 fails after n-1 writes, <0 panics after -n-1
}

func (o op) String() string {
	s := o.Kind
	if o.Kind == "update" || o.Kind == "nested" {
		s += " of " + o.On.String()
	}
	for _, w := range o.Ws {
		s += " " + w.String()
	}
	if o.Fail > 0 {
		s += fmt.Sprintf(", failing after %d", o.Fail-1)
	} else if o.Fail < 0 {
		s += fmt.Sprintf(", panicking after %d", -o.Fail-1)
	}
	return s
}

// run executes one step on the database and the model.
func (o op) run(db libdb.Database, m Model) (out []diff) {
	bad := func(k, t string, a ...any) { out = append(out, diff{kind: k, text: fmt.Sprintf(t, a...)}) }
	switch o.Kind {
	case "put":
		if err := o.Ws[0].do(db); err != nil {
			bad("write fails", "%v: %v", o, err)
		}
		o.Ws[0].apply(m)
	case "reserved":
		if err := o.Ws[0].do(db); err == nil {
			bad("reserved key is accepted", "%v", o)
		}
	case "number":
		l := o.Ws[0].B
		h := l.open(db)
		want, ok := m.next(l)
		k := string(h.NextSequence())
		if ok && k != want {
			bad("numbering is wrong", "%v: %x, want %x", o, k, want)
		}
		w := o.Ws[0]
		w.K = k
		if err := w.do(db); err != nil {
			bad("write fails", "%v: %v", o, err)
		}
		w.apply(m)
	case "nested":
		// an update within an update that goes on when the inner one fails
		mine := errors.New("mine")
		h := o.On.open(db)
		err := h.Update(func(tx libdb.Database) error {
			write := func(tx libdb.Database, w W) {
				w.B = w.B[len(o.On):]
				if err := w.do(tx); err != nil {
					bad("write fails", "%v: %v", o, err)
				}
			}
			write(tx, o.Ws[0])
			err := tx.Update(func(tx libdb.Database) error {
				for i, w := range o.Ws[1 : len(o.Ws)-1] {
					if o.Fail == i+1 {
						return mine
					}
					write(tx, w)
				}
				if o.Fail > 0 {
					return mine
				}
				return nil
			})
			if o.Fail > 0 && err != mine {
				bad("a failing update does not return its error", "%v: %v", o, err)
			} else if o.Fail == 0 && err != nil {
				bad("update fails", "%v: %v", o, err)
			}
			write(tx, o.Ws[len(o.Ws)-1])
			return nil
		})
		if err != nil {
			bad("update fails", "%v: %v", o, err)
		}
		for i, w := range o.Ws {
			if o.Fail == 0 || i == 0 || i == len(o.Ws)-1 {
				w.apply(m)
			}
		}
	case "update":
		mine := errors.New("mine")
		h := o.On.open(db)
		err := func() (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			return h.Update(func(tx libdb.Database) error {
				for i, w := range o.Ws {
					if o.Fail == i+1 {
						return mine
					}
					if o.Fail == -i-1 {
						panic("mine")
					}
					w.B = w.B[len(o.On):]
					if err := w.do(tx); err != nil {
						bad("write fails", "%v: %v", o, err)
					}
				}
				if o.Fail > 0 {
					return mine
				}
				if o.Fail < 0 {
					panic("mine")
				}
				return nil
			})
		}()
		switch {
		case o.Fail > 0 && err != mine:
			bad("a failing update does not return its error", "%v: %v", o, err)
		case o.Fail < 0 && (err == nil || err.Error() != "panic: mine"):
			bad("a panic is swallowed", "%v: %v", o, err)
		case o.Fail == 0 && err != nil:
			bad("update fails", "%v: %v", o, err)
		case o.Fail == 0:
			for _, w := range o.Ws {
				w.apply(m)
			}
		}
	}
	return
}

// search enumerates all sequences of ops up to depth, merging equal contents.
func search(r *lib.Report, name string, ops []op, locs []Loc, keys []string, depth int, key func(hist []op, d diff) string) {
	type node struct {
		hist []op
		m    Model
	}
	n := runtime.NumCPU()
	worlds := make(chan *lib.World, n)
	for i := 0; i < n; i++ {
		worlds <- lib.NewWorld(i)
	}
	front := []node{{nil, Model{}}}
	seen := map[string]bool{"": true}
	var mu sync.Mutex
	var states, trans int64
	for d := 1; d <= depth && len(front) > 0; d++ {
		var next []node
		lib.Parallel(len(front), n, func(i int) {
			w := <-worlds
			defer func() { worlds <- w }()
			for _, o := range ops {
				if time.Now().After(r.Deadline()) {
					r.Incomplete(name + ": time is up")
					return
				}
				hist := append(append([]op{}, front[i].hist...), o)
				m, diffs, err := sequence(w, hist, locs, keys)
				mu.Lock()
				trans++
				mu.Unlock()
				if err != nil {
					r.Violation("database cannot be opened", fmt.Sprintf("%v: %v", hist, err), fmt.Sprint(hist))
					continue
				}
				for _, x := range diffs {
					_, again, _ := sequence(w, hist, locs, keys)
					if len(again) > 0 {
						r.Violation(key(hist, x), fmt.Sprintf("after %v: %s", hist, x.text), fmt.Sprint(hist))
					}
				}
				if len(diffs) > 0 {
					continue
				}
				c := m.String()
				mu.Lock()
				if !seen[c] {
					seen[c] = true
					states++
					next = append(next, node{hist, m})
				}
				mu.Unlock()
			}
		})
		front = next
	}
	r.Count(states+1, trans, trans)
	r.Set("search "+name, map[string]any{"operations": len(ops), "depth": depth, "states": states + 1, "sequences": trans})
	if len(front) > 0 {
		r.Sample(map[string]any{"search": name, "sequence": fmt.Sprint(front[len(front)/2].hist), "contents": front[len(front)/2].m.String()})
	}
}

// sequence runs a history on a fresh database; everything is compared at the end
// (every prefix is a history of its own).
func sequence(w *lib.World, hist []op, locs []Loc, keys []string) (Model, []diff, error) {
	path := w.Base + "/db"
	vleveldb.Drop(w.Base)
	db, err := libdb.Open(path)
	if err != nil {
		return nil, nil, err
	}
	m := Model{}
	var out []diff
	for _, o := range hist {
		if o.Kind == "reopen" {
			db.Close()
			if db, err = libdb.Open(path); err != nil {
				return nil, nil, err
			}
			continue
		}
		out = append(out, o.run(db, m)...)
	}
	out = append(out, compare(db, m, locs, keys)...)
	db.Close()
	return m, out, nil
}

func puts(locs []Loc, keys []string, vals ...string) (l []op) {
	for _, b := range locs {
		for _, k := range keys {
			for _, v := range vals {
				l = append(l, op{Kind: "put", Ws: []W{{B: b, K: k, V: v}}})
			}
		}
	}
	return
}

const sepKey = "records of bucket names or keys that contain the separator collide"

func isolation(r *lib.Report) {
	plain := func(_ []op, d diff) string { return d.kind }
	// names that are prefixes, suffixes and parts of each other, nested ones and the root
	locs := []Loc{{}, {"a"}, {"ab"}, {"b"}, {"a", "b"}, {"a", "a"}, {"ab", "b"}, {"b", "a"}}
	keys := []string{"k", "b", "a"}
	ops := puts(locs, keys[:2], "x", "y", "")
	for _, l := range locs {
		ops = append(ops, op{Kind: "number", Ws: []W{{B: l, V: "s"}}})
	}
	ops = append(ops, op{Kind: "reopen"}, op{Kind: "reserved", Ws: []W{{B: Loc{}, K: "|bucket|x", V: "x"}}}, op{Kind: "reserved", Ws: []W{{B: Loc{"a"}, K: "|rootBucket|-x", V: "x"}}})
	search(r, "buckets", ops, locs, keys, lib.Pick(3, 4), plain)
	// many records in prefix-related buckets through updates
	var up []op
	for i, l := range locs {
		o := locs[(i+3)%len(locs)]
		up = append(up, op{Kind: "update", Ws: []W{{B: l, K: "k", V: "u"}, {B: o, K: "b", V: "v"}, {B: l, K: "b"}}},
			op{Kind: "update", On: l, Ws: []W{{B: append(append(Loc{}, l...), "b"), K: "k", V: "n"}, {B: l, K: "k"}}},
			op{Kind: "number", Ws: []W{{B: l, V: "s"}}}, op{Kind: "put", Ws: []W{{B: l, K: seqKey(0)}}}, op{Kind: "put", Ws: []W{{B: l, K: seqKey(255), V: "t"}}})
	}
	deep := append([]Loc{}, locs...)
	for _, l := range locs {
		if len(l) > 0 {
			deep = append(deep, append(append(Loc{}, l...), "b"))
		}
	}
	search(r, "updates and numbering", up, dedupLoc(deep), keys, lib.Pick(3, 4), plain)
	// strange names: empty, the separator of the notation, multi-byte, zero bytes
	odd := []Loc{{""}, {"\x00"}, {"\xff"}, {"\xff\xff"}, {"é"}, {"a/b"}, {"|"}, {" "}}
	search(r, "unusual names", puts(odd, []string{"", "\x00", "\xff", "é"}, "x", ""), odd, []string{"", "\x00", "\xff", "é", "b"}, 2, plain)
	// the separator inside names and keys
	sep := []Loc{{"a"}, {"a-b"}, {"a", "b"}, {"a-b", "c"}, {"a", "b-c"}, {}}
	search(r, "separator", puts(sep, []string{"k", "b-k", "c-k"}, "x", ""), sep, []string{"k", "b-k", "c-k"}, 2, func(hist []op, d diff) string {
		me := strings.Join(append(append([]string{}, d.b...), d.k), "-")
		for _, o := range hist {
			for _, w := range o.Ws {
				if len(w.B) == len(d.b) && w.B.String() != d.b.String() {
					it := strings.Join(append(append([]string{}, w.B...), w.K), "-")
					if it == me || d.kind == "numbering is wrong" && strings.HasPrefix(it, me) {
						return sepKey
					}
				}
			}
		}
		return d.kind
	})
}

func dedupLoc(in []Loc) (out []Loc) {
	seen := map[string]bool{}
	for _, l := range in {
		if !seen[l.String()] {
			seen[l.String()] = true
			out = append(out, l)
		}
	}
	return
}

// large is an update of n writes and deletions.
func large(n int, v string, pad int) (l []W) {
	locs := []Loc{{"a"}, {"ab"}, {"a", "b"}}
	for i := 0; i < n; i++ {
		w := W{B: locs[i%3], K: fmt.Sprintf("k%d", i), V: v, Pad: pad}
		if i%7 == 6 {
			w = W{B: locs[(i-3)%3], K: fmt.Sprintf("k%d", i-3)}
		}
		l = append(l, w)
	}
	return
}

// sizes: updates of every size up to a bound, and some of many bytes, that
// succeed, fail or panic at the end, on an empty and a filled database.
func sizes(r *lib.Report) {
	var tasks [][]op
	add := func(n, pad int) {
		ws := large(n, "x", pad)
		for _, f := range []int{0, n + 1, -n - 1} {
			tasks = append(tasks, []op{{Kind: "update", Ws: ws, Fail: f}, {Kind: "reopen"}},
				[]op{{Kind: "update", Ws: large(n/2+1, "o", 3)}, {Kind: "update", Ws: ws, Fail: f}, {Kind: "update", Ws: large(2, "n", 0)}})
		}
	}
	for n := 1; n <= lib.Pick(300, 600); n++ {
		add(n, 0)
	}
	for _, n := range []int{1000, 1024, 1025, 4096, 5000} {
		add(n, 10)
	}
	for _, b := range []int{1 << 10, 1 << 16, 1 << 20, 5 << 20} {
		add(3, b)
	}
	add(100, 1<<16)
	keys := []string{"after"}
	for i := 0; i < 5000; i++ {
		keys = append(keys, fmt.Sprintf("k%d", i))
	}
	n := runtime.NumCPU()
	worlds := make(chan *lib.World, n)
	for i := 0; i < n; i++ {
		worlds <- lib.NewWorld(i)
	}
	lib.Parallel(len(tasks), n, func(i int) {
		w := <-worlds
		defer func() { worlds <- w }()
		h := tasks[i]
		most := 0
		for _, o := range h {
			most = max(most, len(o.Ws))
		}
		_, diffs, err := sequence(w, h, []Loc{{}, {"a"}, {"ab"}, {"a", "b"}}, keys[:most+2])
		text := fmt.Sprintf("%d writes, the %d. with %d, failing at %d", len(h), len(h), most, h[len(h)-2].Fail)
		if err != nil {
			r.Violation("database cannot be opened", text+": "+err.Error(), text)
		}
		for _, d := range diffs {
			r.Violation(d.kind, text+": "+d.text, text)
		}
	})
	r.Count(int64(len(tasks)), int64(len(tasks)), int64(len(tasks)))
	r.Set("large updates", map[string]any{"sequences": len(tasks), "writes": "every number up to 300 (600 thorough), up to 5000 and up to 6.5 MB"})
}

// atomicity: updates that fail or panic at every position.
func atomicity(r *lib.Report) {
	a, ab, n := Loc{"a"}, Loc{"ab"}, Loc{"a", "b"}
	sets := [][]W{
		{{B: a, K: "k", V: "x"}, {B: ab, K: "k", V: "x"}, {B: n, K: "k", V: "x"}},
		{{B: a, K: "k", V: "y"}, {B: a, K: "k"}, {B: n, K: "l", V: "y"}},
		{{B: a, K: "k"}, {B: a, K: "k", V: "z"}, {B: ab, K: "k"}},
		{{B: n, K: "k", V: "z"}, {B: n, K: "l"}, {B: Loc{}, K: "r", V: "z"}},
		{{B: Loc{}, K: "r"}},
		{},
	}
	var ops []op
	for _, ws := range sets {
		for f := -len(ws) - 1; f <= len(ws)+1; f++ {
			ops = append(ops, op{Kind: "update", Ws: ws, Fail: f})
		}
		in := true
		for _, w := range ws {
			in = in && len(w.B) > 0 && w.B[0] == "a"
		}
		if in {
			ops = append(ops, op{Kind: "update", On: a, Ws: ws}, op{Kind: "update", On: a, Ws: ws, Fail: len(ws) + 1})
		}
	}
	for _, f := range []int{0, 2, 3} {
		ops = append(ops, op{Kind: "update", On: a, Ws: []W{{B: a, K: "l", V: "q"}, {B: n, K: "l", V: "q"}}, Fail: f})
	}
	for f := 0; f <= 3; f++ {
		ops = append(ops, op{Kind: "nested", Ws: []W{{B: a, K: "k", V: "o"}, {B: ab, K: "k", V: "i"}, {B: n, K: "k"}, {B: n, K: "l", V: "o"}}, Fail: f},
			op{Kind: "nested", On: a, Ws: []W{{B: n, K: "k", V: "o"}, {B: a, K: "l", V: "i"}, {B: a, K: "k"}, {B: n, K: "l"}}, Fail: f})
	}
	ops = append(ops, puts([]Loc{a, n}, []string{"k"}, "w", "")...)
	ops = append(ops, op{Kind: "reopen"})
	search(r, "failing updates", ops, []Loc{{}, a, ab, n}, []string{"k", "l", "r"}, lib.Pick(3, 4), func(_ []op, d diff) string { return d.kind })
}
