//go:build go1.24

package lib

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unique"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

// World is a scratch machine: a base directory for the daemon and a directory
// holding source packages.
type World struct {
	Root, Base, Up string
	Eff            *veff.World
}

// TmpRoot is the scratch directory of this process; the runner removes it.
func TmpRoot() string {
	r := os.Getenv("VMC_TMP")
	if r == "" {
		panic("VMC_TMP not set")
	}
	return r
}

// NewWorld creates world n.
func NewWorld(n int) *World {
	root := filepath.Join(TmpRoot(), fmt.Sprintf("w%d", n))
	w := &World{Root: root, Base: filepath.Join(root, "base"), Up: filepath.Join(root, "up"), Eff: &veff.World{Root: root}}
	veff.SetDepth(strings.Count(root, "/"))
	os.RemoveAll(root)
	os.MkdirAll(w.Base, 0755)
	os.MkdirAll(w.Up, 0755)
	veff.Register(w.Eff)
	return w
}

// PutSources writes the universe's package files into the upload directory.
func (w *World) PutSources(pkgs []*Pkg) {
	for _, p := range pkgs {
		f := filepath.Join(w.Up, p.SrcName())
		os.MkdirAll(filepath.Dir(f), 0755)
		os.WriteFile(f, p.Bytes(), 0644)
	}
}

// SrcName is where the source file of a package lives below Up.
func (p *Pkg) SrcName() string {
	if p.Variant != "" {
		return filepath.Join(p.Variant, p.File)
	}
	return p.File
}

// NodeEnt is one file or directory of a snapshot.
type NodeEnt struct {
	Path string
	Dir  bool
	Link string
	Ino  int // identity class within the snapshot
	Data string
}

// Snap is a full state: files and database contents.
type Snap struct {
	Nodes []NodeEnt
	DB    map[string][]KV
}

// KV is one raw database record.
type KV struct{ K, V string }

// Take snapshots the base directory and all databases below it. Databases must
// be closed.
func (w *World) Take() *Snap {
	s := &Snap{DB: map[string][]KV{}}
	s.Nodes = TakeTree(w.Base)
	for _, p := range vleveldb.Under(w.Base) {
		d, _ := filepath.Rel(w.Base, p)
		if kv, ok := DumpDB(p); ok {
			s.DB[d] = kv
		}
	}
	return s
}

// TakeTree snapshots a directory tree.
func TakeTree(root string) []NodeEnt {
	var out []NodeEnt
	inos := map[uint64]int{}
	filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		n := NodeEnt{Path: rel}
		switch {
		case st.IsDir():
			n.Dir = true
		case st.Mode()&os.ModeSymlink != 0:
			n.Link, _ = os.Readlink(p)
		default:
			ino := st.Sys().(*syscall.Stat_t).Ino
			c, ok := inos[ino]
			if !ok {
				c = len(inos) + 1
				inos[ino] = c
			}
			b, _ := os.ReadFile(p)
			n.Data = unique.Make(string(b)).Value()
			n.Ino = c
		}
		out = append(out, n)
		return nil
	})
	return out
}

// RestoreTree makes a directory tree equal to a snapshot.
func RestoreTree(root string, nodes []NodeEnt) {
	os.RemoveAll(root)
	first := map[int]string{}
	for _, n := range nodes {
		p := filepath.Join(root, n.Path)
		switch {
		case n.Dir:
			os.Mkdir(p, 0755)
		case n.Link != "":
			os.Symlink(n.Link, p)
		default:
			if f, ok := first[n.Ino]; ok {
				os.Link(f, p)
				continue
			}
			first[n.Ino] = p
			os.WriteFile(p, []byte(n.Data), 0644)
			if strings.HasPrefix(n.Path, "assets/") {
				Age(p, n.Data)
			}
		}
	}
}

// Age gives an asset file an age by its contents: whatever is newer need not
// have been written later.
func Age(p, data string) {
	t := time.Unix(1600000000+int64(sum256([]byte(data))[0]%3)*86400, 0)
	os.Chtimes(p, t, t)
}

// DumpDB reads all raw records of a closed database.
func DumpDB(path string) ([]KV, bool) {
	st := vleveldb.Peek(path)
	if st == nil {
		return nil, false
	}
	db, err := leveldb.Open(st.Stor, vleveldb.Options)
	if err != nil {
		return []KV{{"ERROR", err.Error()}}, true
	}
	defer db.Close()
	return DumpHandle(db), true
}

// DumpHandle reads all raw records of an open database.
func DumpHandle(db *leveldb.DB) []KV {
	it := db.NewIterator(nil, nil)
	defer it.Release()
	var out []KV
	for it.Next() {
		out = append(out, KV{string(it.Key()), string(it.Value())})
	}
	return out
}

// LoadDB replaces a database's contents.
func LoadDB(path string, kv []KV) {
	m := storage.NewMemStorage()
	db, err := leveldb.Open(m, vleveldb.Options)
	if err != nil {
		panic(err)
	}
	b := &leveldb.Batch{}
	for _, r := range kv {
		b.Put([]byte(r.K), []byte(r.V))
	}
	if err := db.Write(b, nil); err != nil {
		panic(err)
	}
	db.Close()
	vleveldb.Set(path, m)
}

// Restore resets the base directory and databases to a snapshot.
func (w *World) Restore(s *Snap) {
	vleveldb.Drop(w.Base)
	RestoreTree(w.Base, s.Nodes)
	for d, kv := range s.DB {
		LoadDB(filepath.Join(w.Base, d), kv)
	}
}

// Hash identifies a state up to hard link identity classes.
func (s *Snap) Hash() string {
	h := sha256.New()
	for _, n := range s.Nodes {
		fmt.Fprintf(h, "%q %v %q %d %d\n", n.Path, n.Dir, n.Link, n.Ino, len(n.Data))
		h.Write([]byte(n.Data))
	}
	var ks []string
	for k := range s.DB {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, r := range s.DB[k] {
			fmt.Fprintf(h, "%s %q %q\n", k, r.K, r.V)
		}
	}
	return string(h.Sum(nil))
}

// Diff describes the first differences of two snapshots.
func (a *Snap) Diff(b *Snap) string {
	var out []string
	am, bm := map[string]NodeEnt{}, map[string]NodeEnt{}
	for _, n := range a.Nodes {
		am[n.Path] = n
	}
	for _, n := range b.Nodes {
		bm[n.Path] = n
	}
	for _, n := range a.Nodes {
		m, ok := bm[n.Path]
		if !ok {
			out = append(out, "-"+n.Path)
		} else if m.Data != n.Data || m.Dir != n.Dir || m.Link != n.Link {
			out = append(out, "~"+n.Path)
		}
	}
	for _, n := range b.Nodes {
		if _, ok := am[n.Path]; !ok {
			out = append(out, "+"+n.Path)
		}
	}
	for _, d := range []string{"ferry_db", "ferry_db_jobs"} {
		x, y := map[string]string{}, map[string]string{}
		for _, r := range a.DB[d] {
			x[r.K] = r.V
		}
		for _, r := range b.DB[d] {
			y[r.K] = r.V
		}
		for k, v := range x {
			if w, ok := y[k]; !ok {
				out = append(out, "-db:"+k)
			} else if w != v {
				out = append(out, "~db:"+k)
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				out = append(out, "+db:"+k)
			}
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, " ")
}

// Under lists the files of one directory of a snapshot.
func (s *Snap) Under(dir string) map[string]string {
	m := map[string]string{}
	for _, n := range s.Nodes {
		if !n.Dir && filepath.Dir(n.Path) == dir {
			m[filepath.Base(n.Path)] = n.Data
		}
	}
	return m
}

// RestoreDB resets only the databases to a snapshot.
func (w *World) RestoreDB(s *Snap) {
	vleveldb.Drop(w.Base)
	for d, kv := range s.DB {
		LoadDB(filepath.Join(w.Base, d), kv)
	}
}

// Parallel runs f for 0..n-1 on k goroutines.
func Parallel(n, k int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for j := 0; j < k; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
