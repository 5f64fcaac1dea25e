//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// sop is one operation on the storage below the database.
type sop struct {
	kind string // create, write, remove, rename, meta
	fd   storage.FileDesc
	fd2  storage.FileDesc
	data []byte
}

// image is the state of a storage.
type image struct {
	files map[storage.FileDesc][]byte
	meta  storage.FileDesc
}

func (im *image) apply(o sop, cut int) {
	switch o.kind {
	case "create":
		im.files[o.fd] = nil
	case "write":
		d := o.data
		if cut >= 0 {
			d = d[:cut]
		}
		im.files[o.fd] = append(im.files[o.fd][:len(im.files[o.fd]):len(im.files[o.fd])], d...)
	case "remove":
		delete(im.files, o.fd)
	case "rename":
		im.files[o.fd2] = im.files[o.fd]
		delete(im.files, o.fd)
	case "meta":
		im.meta = o.fd
	}
}

func (im *image) copy() *image {
	n := &image{map[storage.FileDesc][]byte{}, im.meta}
	for k, v := range im.files {
		n.files[k] = v
	}
	return n
}

// rec is a storage in memory that records what is done to it.
type rec struct {
	mu     sync.Mutex
	im     *image
	log    []sop
	locked bool
}

func newRec(im *image) *rec { return &rec{im: im.copy()} }

func (s *rec) do(o sop) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, o)
	s.im.apply(o, -1)
}

func (s *rec) pos() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.log)
}

type unlocker struct{ s *rec }

func (u unlocker) Unlock() {
	u.s.mu.Lock()
	u.s.locked = false
	u.s.mu.Unlock()
}

func (s *rec) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return unlocker{s}, nil
}

func (s *rec) Log(string) {}

func (s *rec) SetMeta(fd storage.FileDesc) error {
	s.do(sop{kind: "meta", fd: fd})
	return nil
}

func (s *rec) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.im.meta.Zero() {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if _, ok := s.im.files[s.im.meta]; !ok {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.im.meta, nil
}

func (s *rec) List(ft storage.FileType) (l []storage.FileDesc, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for fd := range s.im.files {
		if fd.Type&ft != 0 {
			l = append(l, fd)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Num < l[j].Num })
	return
}

type reader struct {
	*strings.Reader
}

func (reader) Close() error { return nil }

func (s *rec) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.im.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return reader{strings.NewReader(string(b))}, nil
}

type writer struct {
	s  *rec
	fd storage.FileDesc
}

func (w writer) Write(b []byte) (int, error) {
	w.s.do(sop{kind: "write", fd: w.fd, data: append([]byte{}, b...)})
	return len(b), nil
}
func (w writer) Close() error { return nil }
func (w writer) Sync() error  { return nil }

func (s *rec) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.do(sop{kind: "create", fd: fd})
	return writer{s, fd}, nil
}

func (s *rec) Remove(fd storage.FileDesc) error {
	s.mu.Lock()
	_, ok := s.im.files[fd]
	s.mu.Unlock()
	if !ok {
		return os.ErrNotExist
	}
	s.do(sop{kind: "remove", fd: fd})
	return nil
}

func (s *rec) Rename(o, n storage.FileDesc) error {
	s.do(sop{kind: "rename", fd: o, fd2: n})
	return nil
}

func (s *rec) Close() error { return nil }

// history is a sequence of updates, each a list of writes; an empty list
// closes and reopens the database.
type history struct {
	name   string
	ups    [][]W
	real   bool // also replay the images on real files
	sparse bool // cut writes at some bytes only
}

var crashLocs = []Loc{{}, {"a"}, {"ab"}, {"a", "b"}}

func alphabet() [][]W {
	a, ab, n := Loc{"a"}, Loc{"ab"}, Loc{"a", "b"}
	return [][]W{
		{{B: a, K: "k", V: "x"}, {B: ab, K: "k", V: "x"}, {B: n, K: "k", V: "x"}},
		{{B: a, K: "k", V: "y"}, {B: n, K: "k"}},
		{{B: a, K: "k"}, {B: ab, K: "k"}, {B: n, K: "k"}},
		{{B: Loc{}, K: "r", V: "z"}, {B: a, K: "l", V: "z"}},
		{{B: ab, K: "l", V: "w", Pad: 40}},
		{},
	}
}

func crashes(r *lib.Report) {
	var hs []history
	al := alphabet()
	var rec func(p [][]W, d int)
	L := lib.Pick(3, 4)
	rec = func(p [][]W, d int) {
		if d == 0 {
			hs = append(hs, history{name: fmt.Sprintf("%d", len(hs)), ups: p, real: len(hs)%lib.Pick(12, 6) == 0})
			return
		}
		for _, u := range al {
			rec(append(p[:len(p):len(p)], u), d-1)
		}
	}
	rec(nil, L)
	// long histories with small buffers: journals are rotated and tables merged
	for v := 0; v < lib.Pick(4, 12); v++ {
		h := history{name: fmt.Sprintf("long %d", v), real: v == 0}
		for i := 0; i < lib.Pick(24, 60); i++ {
			var u []W
			for j := 0; j <= (i+v)%3; j++ {
				w := W{B: crashLocs[(i+j)%4], K: fmt.Sprintf("k%d", (i*(v+1)+j)%7), V: fmt.Sprintf("v%d-", i), Pad: 60 + 40*((i+v)%3)}
				if (i+j+v)%5 == 4 {
					w.V = ""
				}
				u = append(u, w)
			}
			h.ups = append(h.ups, u)
			if v%2 == 1 && i%9 == 8 {
				h.ups = append(h.ups, nil)
			}
		}
		hs = append(hs, h)
	}
	// updates of many writes, which need more than one buffer
	for _, n := range []int{30, 65, 130, lib.Pick(200, 300), lib.Pick(257, 1100)} {
		hs = append(hs, history{name: fmt.Sprintf("update of %d", n), sparse: true, ups: [][]W{large(3, "o", 0), large(n, "x", 0), large(n/2, "y", 8), {}, large(n, "z", 0)}})
	}
	n := runtime.NumCPU()
	worlds := make(chan *lib.World, n)
	for i := 0; i < n; i++ {
		worlds <- lib.NewWorld(i)
	}
	old := *vleveldb.Options
	vleveldb.Options.WriteBuffer = 1024
	vleveldb.Options.CompactionTableSize = 1024
	vleveldb.Options.CompactionTotalSize = 2048
	defer func() { *vleveldb.Options = old }()
	// long ones first so that they overlap with the short ones
	sort.SliceStable(hs, func(i, j int) bool { return len(hs[i].ups) > len(hs[j].ups) })
	var mu sync.Mutex
	var images, second, realn, steps int64
	lib.Parallel(len(hs), n, func(i int) {
		if time.Now().After(r.Deadline()) {
			r.Incomplete("crash images: time is up")
			return
		}
		w := <-worlds
		defer func() { worlds <- w }()
		im, sec, rl, st := one(r, w, hs[i])
		mu.Lock()
		images, second, realn, steps = images+im, second+sec, realn+rl, steps+st
		mu.Unlock()
	})
	r.Count(images+second, steps, images+second)
	r.Set("crash images", map[string]any{"histories": len(hs), "storage_operations": steps, "images": images, "images_of_crashes_during_recovery": second, "images_also_opened_from_real_files": realn})
	r.Sample(map[string]any{"crash history": fmt.Sprint(hs[len(hs)-1].ups)})
}

func one(r *lib.Report, w *lib.World, h history) (images, second, realn, steps int64) {
	path := w.Base + "/db"
	creating := false
	bad := func(k, t string, a ...any) {
		if strings.HasSuffix(k, "the database unusable") && creating {
			k = "a crash while the database is created for the first time leaves it unusable"
		}
		r.Violation(k, fmt.Sprintf("history %s: ", h.name)+fmt.Sprintf(t, a...), fmt.Sprint(h.ups))
	}
	vleveldb.Drop(w.Base)
	s := newRec(&image{files: map[storage.FileDesc][]byte{}})
	vleveldb.Set(path, s)
	db, err := libdb.Open(path)
	if err != nil {
		bad("database cannot be opened", "%v", err)
		return
	}
	models := []Model{{}}
	var from, to []int // log positions around update i (which leads to models[i+1])
	for _, u := range h.ups {
		if len(u) == 0 {
			db.Close()
			if db, err = libdb.Open(path); err != nil {
				bad("database cannot be reopened", "%v", err)
				return
			}
			continue
		}
		m := models[len(models)-1].clone()
		from = append(from, s.pos())
		err := db.Update(func(tx libdb.Database) error {
			for _, x := range u {
				if err := x.do(tx); err != nil {
					return err
				}
				x.apply(m)
			}
			return nil
		})
		if err != nil {
			bad("update fails", "%v", err)
			return
		}
		models = append(models, m)
		to = append(to, s.pos())
	}
	db.Close()
	log := append([]sop{}, s.log...)
	steps = int64(len(log))
	// check opens an image; the contents must be between what was acknowledged
	// and what was started.

	check := func(im *image, k int, what string, deep bool) {
		lo, hi := 0, 0
		for i := range to {
			if to[i] <= k {
				lo = i + 1
			}
			if from[i] <= k {
				hi = i + 1
			}
		}
		look := func(st *rec, extra bool) (string, error) {
			vleveldb.Drop(w.Base)
			vleveldb.Set(path, st)
			db, err := libdb.Open(path)
			if err != nil {
				return "", err
			}
			defer db.Close()
			got := read(db)
			if !extra {
				return got, nil
			}
			// it goes on working
			if err := db.Update(func(tx libdb.Database) error { return W{B: Loc{"ab"}, K: "after", V: "a"}.do(tx) }); err != nil {
				return "", fmt.Errorf("update after recovery: %v", err)
			}
			db.Close()
			if db, err = libdb.Open(path); err != nil {
				return "", fmt.Errorf("second reopening: %v", err)
			}
			defer db.Close()
			want := got + " /ab[\"after\"]=a5"
			l := strings.Fields(want)
			sort.Strings(l)
			want = strings.Join(l, " ")
			if g := read(db); g != want {
				return "", fmt.Errorf("contents after recovery and an update: %s, want %s", g, want)
			}
			return got, nil
		}
		st := newRec(im)
		got, err := look(st, true)
		if err != nil {
			st = newRec(im)
			if _, err2 := look(st, true); err2 != nil {
				bad("a crash leaves the database unusable", "crash at storage operation %d of %d (%s): %v", k, len(log), what, err)
			}
			return
		}
		ok := func(got string) bool {
			for i := lo; i <= hi; i++ {
				if models[i].String() == got {
					return true
				}
			}
			return false
		}
		if !ok(got) {
			key := "a crash leaves a part of an update"
			for i := range models {
				if models[i].String() == got {
					key = "a crash loses an acknowledged update"
				}
			}
			bad(key, "crash at storage operation %d of %d (%s): %s; acknowledged: %s; started: %s", k, len(log), what, got, models[lo], models[hi])
		}
		if deep {
			// crash while recovering
			st := newRec(im)
			if _, err := look(st, false); err != nil {
				return
			}
			rl := st.log
			cur := im.copy()
			for j := 0; j <= len(rl); j++ {
				cuts := []int{-1}
				if j < len(rl) && rl[j].kind == "write" {
					cuts = []int{-1, 0, len(rl[j].data) / 2, len(rl[j].data) - 1}
				}
				for _, c := range cuts {
					x := cur.copy()
					if c >= 0 {
						x.apply(rl[j], c)
					}
					second++
					g, err := look(newRec(x), false)
					if err != nil {
						bad("a crash during recovery leaves the database unusable", "crash at storage operation %d of %d (%s), then at %d of the recovery: %v", k, len(log), what, j, err)
					} else if !ok(g) {
						bad("a crash during recovery loses or splits an update", "crash at storage operation %d of %d (%s), then at %d of the recovery: %s", k, len(log), what, j, g)
					}
				}
				if j < len(rl) {
					cur.apply(rl[j], -1)
				}
			}
		}
		if h.real && (deep || k%5 == 0) {
			realn++
			if g, err := onFiles(w, im); err != nil {
				bad("stand-in and real storage disagree", "%s: real files: %v", what, err)
			} else if g != got {
				r.Incomplete(fmt.Sprintf("the storage stand-in disagrees with real files: %q, %q", g, got))
			}
		}
	}

	cur := &image{files: map[storage.FileDesc][]byte{}}
	tables := int64(0)
	creating = true
	for k := 0; k <= len(log); k++ {
		if k > 0 && log[k-1].kind == "meta" {
			creating = false
		}
		if k > 0 && log[k-1].kind == "create" && log[k-1].fd.Type == storage.TypeTable {
			tables++
		}
		if time.Now().After(r.Deadline()) {
			r.Incomplete("crash images: time is up")
			return
		}
		images++
		check(cur, k, "complete operations", !h.sparse || k%7 == 0 || lib.Thorough())
		if k == len(log) {
			break
		}
		o := log[k]
		if o.kind == "write" {
			step := 1
			if len(h.ups) > 10 && !lib.Thorough() {
				step = 7
			}
			if h.sparse {
				step = len(o.data)/lib.Pick(9, 60) + 1
			}
			for c := 1; c < len(o.data); c += step {
				x := cur.copy()
				x.apply(o, c)
				images++
				check(x, k, fmt.Sprintf("%v written up to byte %d of %d", o.fd, c, len(o.data)), false)
			}
		}
		cur.apply(o, -1)
	}
	r.Add("table_files_written_in_histories", tables)
	return
}

// read lists all buckets.
func read(db libdb.Database) string {
	m := Model{}
	for _, l := range crashLocs {
		l.open(db).ForEach(func(k, v []byte) error {
			r := &Rec{}
			if err := db.Decode(v, r); err != nil {
				m.put(l, string(k), "undecodable")
				return nil
			}
			m.put(l, string(k), show(r))
			return nil
		})
	}
	return m.String()
}

// onFiles writes an image to real files and opens it with the real leveldb.
func onFiles(w *lib.World, im *image) (string, error) {
	dir := filepath.Join(w.Root, "real")
	os.RemoveAll(dir)
	if err := os.Mkdir(dir, 0755); err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	for fd, b := range im.files {
		if err := os.WriteFile(filepath.Join(dir, fd.String()), b, 0644); err != nil {
			return "", err
		}
	}
	if !im.meta.Zero() {
		os.WriteFile(filepath.Join(dir, "CURRENT"), []byte(im.meta.String()+"\n"), 0644)
	}
	db, err := leveldb.OpenFile(dir, nil)
	if err != nil {
		return "", err
	}
	kv := lib.DumpHandle(db)
	db.Close()
	vleveldb.Drop(w.Base)
	path := w.Base + "/db"
	lib.LoadDB(path, kv)
	d, err := libdb.Open(path)
	if err != nil {
		return "", err
	}
	defer d.Close()
	return read(d), nil
}

// readers: nobody sees part of an update, and concurrent updates do not mix.
func readers() (scen []lib.Scenario) {
	a, n := Loc{"a"}, Loc{"a", "b"}
	mk := func(v string) []W {
		return []W{{B: a, K: "1", V: v}, {B: n, K: "1", V: v}, {B: a, K: "2", V: v}, {B: a, K: "3", V: v}}
	}
	many := func(v string, n int) (l []W) {
		for i := 0; i < n; i++ {
			l = append(l, W{B: a, K: fmt.Sprintf("%04d", i), V: v, Pad: 10})
		}
		for i := 1; i <= 3; i++ {
			l = append(l, W{B: a, K: fmt.Sprint(i), V: v})
		}
		return
	}
	del := []W{{B: a, K: "1"}, {B: a, K: "2"}, {B: n, K: "1"}, {B: a, K: "3"}}
	for _, v := range []struct {
		name    string
		seed    []W
		writers [][]W
		readers int
	}{
		{"one update, two readers", nil, [][]W{mk("x")}, 2},
		{"overwriting update, one reader", mk("o"), [][]W{mk("x")}, 1},
		{"deleting update, one reader", mk("o"), [][]W{del}, 1},
		{"two updates of the same records, one reader", nil, [][]W{mk("x"), mk("y")}, 1},
		{"update and deletion, one reader", mk("o"), [][]W{mk("x"), del}, 1},
		{"update of many writes, one reader", mk("o"), [][]W{many("x", 150)}, 1},
	} {
		scen = append(scen, lib.Scenario{Name: v.name, Bound: lib.Pick(3, 4), Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
			var out []lib.Issue
			bad := func(k, t string, a ...any) {
				out = append(out, lib.Issue{Prop: "C20", Key: k, Text: fmt.Sprintf(t, a...)})
			}
			vleveldb.Drop(w.Base)
			db, err := libdb.Open(w.Base + "/db")
			if err != nil {
				return &vsched.Result{}, []lib.Issue{{Prop: "C20", Key: "database cannot be opened", Text: err.Error()}}
			}
			upd := func(ws []W) {
				if err := db.Update(func(tx libdb.Database) error {
					for _, x := range ws {
						if err := x.do(tx); err != nil {
							return err
						}
					}
					return nil
				}); err != nil {
					bad("update fails", "%v", err)
				}
			}
			upd(v.seed)
			list := func() string {
				var l []string
				db.Bucket([]byte("a")).View(func(vw libdb.ReadOnlyView) error {
					return vw.ForEach(func(k, val []byte) error {
						r := &Rec{}
						if err := vw.Decode(val, r); err != nil {
							return err
						}
						l = append(l, string(k)+r.V)
						return nil
					})
				})
				return strings.Join(l, " ")
			}
			text := func(ws []W) string {
				var l []string
				for _, x := range ws {
					if len(x.B) == 1 && x.V != "" {
						l = append(l, x.K+x.V)
					}
				}
				return strings.Join(l, " ")
			}
			allowed := map[string]bool{text(v.seed): true}
			final := map[string]bool{}
			for _, ws := range v.writers {
				allowed[text(ws)] = true
				final[text(ws)] = true
			}
			var fs []func()
			for _, ws := range v.writers {
				fs = append(fs, func() { upd(ws) })
			}
			for i := 0; i < v.readers; i++ {
				fs = append(fs, func() {
					for i := 0; i < 2; i++ {
						if g := list(); !allowed[g] {
							bad("a reader sees part of an update", "%s", g)
						}
					}
				})
			}
			res := vsched.Run(o, func() {
				k := len(fs)
				for i, f := range fs {
					vsched.GoProc(fmt.Sprintf("t%d", i+1), vsched.CurProc(), func() { f(); k-- })
				}
				vsched.Block("join", func() bool { return k == 0 })
			})
			if res.Panic != "" || res.Deadlock != "" || res.Horizon {
				bad("abnormal end", "%s %s", res.Panic, res.Deadlock)
			}
			if res.Diverged == "" && len(out) == 0 {
				if g := list(); !final[g] {
					bad("concurrent updates mix", "%s", g)
				}
			}
			db.Close()
			return res, out
		}})
	}
	return
}
