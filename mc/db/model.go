//go:build go1.24

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/libdb"
)

// Rec is what the harness stores.
type Rec struct {
	V   string
	N   int
	Pad []byte
}

// Loc is a bucket: the names on the way to it.
type Loc []string

func (l Loc) String() string { return "/" + strings.Join(l, "/") }

func (l Loc) open(db libdb.Database) libdb.Database {
	for _, n := range l {
		db = db.Bucket([]byte(n))
	}
	return db
}

// Model is the expected contents: bucket, key, value.
type Model map[string]map[string]string

func (m Model) clone() Model {
	n := Model{}
	for b, kv := range m {
		n[b] = map[string]string{}
		for k, v := range kv {
			n[b][k] = v
		}
	}
	return n
}

func (m Model) put(l Loc, k, v string) {
	b := l.String()
	if m[b] == nil {
		m[b] = map[string]string{}
	}
	m[b][k] = v
}

func (m Model) del(l Loc, k string) {
	b := l.String()
	delete(m[b], k)
	if len(m[b]) == 0 {
		delete(m, b)
	}
}

func (m Model) String() string {
	var l []string
	for b, kv := range m {
		for k, v := range kv {
			l = append(l, fmt.Sprintf("%s[%q]=%s", b, k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func show(r *Rec) string { return fmt.Sprintf("%s%d", r.V, r.N) }

func seqKey(n uint64) string {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	return string(b)
}

// next is the number a bucket hands out next, if its keys are all numbers.
func (m Model) next(l Loc) (string, bool) {
	n, any := uint64(0), false
	for k := range m[l.String()] {
		if len(k) != 8 {
			return "", false
		}
		if x := binary.BigEndian.Uint64([]byte(k)); !any || x >= n {
			n, any = x+1, true
		}
	}
	return seqKey(n), true
}

// W is one write of an update.
type W struct {
	B   Loc
	K   string
	V   string // empty: delete
	Pad int
}

func (w W) String() string {
	if w.V == "" {
		return fmt.Sprintf("delete %v[%q]", w.B, w.K)
	}
	return fmt.Sprintf("put %v[%q]=%s", w.B, w.K, w.V)
}

func (w W) do(db libdb.Database) error {
	b := w.B.open(db)
	if w.V == "" {
		return b.DeleteObject([]byte(w.K))
	}
	return b.PutObject([]byte(w.K), &Rec{V: w.V, N: len(w.K), Pad: make([]byte, w.Pad)})
}

func (w W) apply(m Model) {
	if w.V == "" {
		m.del(w.B, w.K)
	} else {
		m.put(w.B, w.K, fmt.Sprintf("%s%d", w.V, len(w.K)))
	}
}

// diff is a difference between what a bucket shows and the model.
type diff struct {
	kind string
	b    Loc
	k    string
	text string
}

// compare looks at every given bucket in every way there is.
func compare(db libdb.Database, m Model, locs []Loc, keys []string) (out []diff) {
	for _, l := range locs {
		add := func(kind, k, t string, a ...any) {
			out = append(out, diff{kind, l, k, fmt.Sprintf("%v: ", l) + fmt.Sprintf(t, a...)})
		}
		h := l.open(db)
		want := m[l.String()]
		got := map[string]string{}
		var order []string
		err := h.View(func(v libdb.ReadOnlyView) error {
			return v.ForEach(func(k, val []byte) error {
				r := &Rec{}
				if err := v.Decode(val, r); err != nil {
					return err
				}
				if _, ok := got[string(k)]; ok {
					add("listed twice", string(k), "%q", k)
				}
				got[string(k)] = show(r)
				order = append(order, string(k))
				return nil
			})
		})
		if err != nil {
			add("listing fails", "", "%v", err)
		}
		if !sort.StringsAreSorted(order) {
			add("listing is not in key order", "", "%q", order)
		}
		for k, v := range want {
			if got[k] != v {
				add("listing lacks a record", k, "%q: %q, want %q", k, got[k], v)
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				add("listing has a foreign record", k, "%q", k)
			}
		}
		for _, k := range keys {
			r := &Rec{}
			err := h.GetObject([]byte(k), r)
			has, herr := h.HasObject([]byte(k))
			v, ok := want[k]
			if herr != nil || has != ok {
				add("existence is wrong", k, "%q: %v %v, want %v", k, has, herr, ok)
			}
			if ok && (err != nil || show(r) != v) {
				add("reading does not return the last value", k, "%q: %s %v, want %s", k, show(r), err, v)
			} else if !ok && err == nil {
				add("reading returns a record that is not there", k, "%q: %s", k, show(r))
			}
		}
		if n, ok := m.next(l); ok {
			if g := string(h.NextSequence()); g != n {
				add("numbering is wrong", "", "%x, want %x", g, n)
			}
		}
		stop := errors.New("stop")
		c := 0
		err = h.ForEach(func(k, v []byte) error { c++; return stop })
		if len(want) > 0 && len(out) == 0 && (err != stop || c != 1) {
			add("an error does not end the listing", "", "%v after %d", err, c)
		}
	}
	return
}
