//go:build go1.24

// Package vleveldb replaces goleveldb in instrumented code: the real goleveldb
// over a memory storage that outlives the handle, keyed by path. Writes are
// effects of the world the path belongs to.
package vleveldb

import (
	"errors"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	real "github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/syndtr/goleveldb/leveldb/util"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type (
	Batch       = real.Batch
	BatchReplay = real.BatchReplay
	Snapshot    = real.Snapshot
	DBStats     = real.DBStats
	Sizes       = real.Sizes
)

var (
	ErrNotFound         = real.ErrNotFound
	ErrReadOnly         = real.ErrReadOnly
	ErrSnapshotReleased = real.ErrSnapshotReleased
	ErrIterReleased     = real.ErrIterReleased
	ErrClosed           = real.ErrClosed
)

var (
	mu     sync.Mutex
	stores = map[string]*Store{}
	// Factory overrides the storage of newly seen paths.
	Factory func(path string) storage.Storage
	// OpenFail makes opening fail for chosen paths.
	OpenFail func(path string) error
)

// Store is the storage behind a path.
type Store struct {
	Stor storage.Storage
	open *DB
}

// Get returns the storage of a path.
func Get(path string) *Store {
	mu.Lock()
	defer mu.Unlock()
	path = filepath.Clean(path)
	st, ok := stores[path]
	if !ok {
		var s storage.Storage
		if Factory != nil {
			s = Factory(path)
		}
		if s == nil {
			s = storage.NewMemStorage()
		}
		st = &Store{Stor: s}
		stores[path] = st
	}
	return st
}

// Set replaces the storage of a path.
func Set(path string, s storage.Storage) {
	mu.Lock()
	defer mu.Unlock()
	stores[filepath.Clean(path)] = &Store{Stor: s}
}

// Drop forgets everything below a directory, closing open handles.
func Drop(dir string) {
	mu.Lock()
	var cl []*DB
	for p, st := range stores {
		if p == dir || len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/' {
			if st.open != nil {
				cl = append(cl, st.open)
			}
			delete(stores, p)
		}
	}
	mu.Unlock()
	for _, d := range cl {
		d.db.Close()
	}
}

// CrashClose closes a handle left open by a crash, as process death would.
func CrashClose(dir string) {
	mu.Lock()
	var cl []*DB
	for p, st := range stores {
		if (p == dir || len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/') && st.open != nil {
			cl = append(cl, st.open)
			st.open = nil
		}
	}
	mu.Unlock()
	for _, d := range cl {
		d.db.Close()
	}
}

// Options are the settings used for every database.
var Options = &opt.Options{WriteBuffer: 32 * 1024, BlockCacheCapacity: -1, OpenFilesCacheCapacity: -1}

// merged keeps the caller's options and adds the buffer sizes used here.
func merged(o *opt.Options) *opt.Options {
	if o == nil {
		return Options
	}
	n := *o
	if n.WriteBuffer == 0 {
		n.WriteBuffer = Options.WriteBuffer
	}
	if n.BlockCacheCapacity == 0 {
		n.BlockCacheCapacity = Options.BlockCacheCapacity
	}
	if n.OpenFilesCacheCapacity == 0 {
		n.OpenFilesCacheCapacity = Options.OpenFilesCacheCapacity
	}
	return &n
}

// DB replaces leveldb.DB.
type DB struct {
	db   *real.DB
	path string
	st   *Store
}

func OpenFile(path string, o *opt.Options) (*DB, error) {
	veff.Read("db open", path)
	if OpenFail != nil {
		if err := OpenFail(path); err != nil {
			return nil, err
		}
	}
	if w := veff.Find(path); w == nil {
		// opening outside every world would create files there
		return nil, veff.Do("db create", path, "", 0, func() error { return nil }, nil)
	}
	st := Get(path)
	d, err := real.Open(st.Stor, merged(o))
	if err != nil {
		return nil, err
	}
	db := &DB{db: d, path: path, st: st}
	mu.Lock()
	st.open = db
	mu.Unlock()
	if p := vsched.CurProc(); p != nil {
		p.OnDeath = append(p.OnDeath, func() { db.db.Close() })
	}
	return db, nil
}

func RecoverFile(path string, o *opt.Options) (*DB, error) {
	return nil, errors.New("verif: RecoverFile not modelled")
}

// Real exposes the handle to harnesses.
func (d *DB) Real() *real.DB { return d.db }

func (d *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	veff.Read("db get", d.path)
	return d.db.Get(key, ro)
}

func (d *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	veff.Read("db has", d.path)
	return d.db.Has(key, ro)
}

func (d *DB) NewIterator(r *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	veff.Read("db iter", d.path)
	return d.db.NewIterator(r, ro)
}

func (d *DB) GetSnapshot() (*Snapshot, error) {
	veff.Read("db snapshot", d.path)
	return d.db.GetSnapshot()
}

func (d *DB) do(op string, f func() error) error {
	return veff.Do(op, d.path, "", 0, f, nil)
}

func (d *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	return d.do("db put", func() error { return d.db.Put(key, value, wo) })
}

func (d *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	return d.do("db delete", func() error { return d.db.Delete(key, wo) })
}

func (d *DB) Write(b *Batch, wo *opt.WriteOptions) error {
	return d.do("db write", func() error { return d.db.Write(b, wo) })
}

func (d *DB) CompactRange(r util.Range) error { return d.db.CompactRange(r) }
func (d *DB) SetReadOnly() error              { return d.db.SetReadOnly() }

// Transaction wraps a leveldb transaction; only its commit is an effect.
type Transaction struct {
	*real.Transaction
	d *DB
}

func (d *DB) OpenTransaction() (*Transaction, error) {
	veff.Read("db transaction", d.path)
	t, err := d.db.OpenTransaction()
	if err != nil {
		return nil, err
	}
	return &Transaction{t, d}, nil
}

func (t *Transaction) Commit() error {
	err := t.d.do("db commit", func() error { return t.Transaction.Commit() })
	if err != nil {
		t.Transaction.Discard()
	}
	return err
}

func (d *DB) Close() error {
	if !vsched.Dying() {
		veff.Read("db close", d.path)
	}
	mu.Lock()
	if d.st.open == d {
		d.st.open = nil
	}
	mu.Unlock()
	return d.db.Close()
}

// Peek returns the storage of a path if one exists.
func Peek(path string) *Store {
	mu.Lock()
	defer mu.Unlock()
	return stores[filepath.Clean(path)]
}

// Under lists the databases below a directory.
func Under(dir string) (l []string) {
	mu.Lock()
	defer mu.Unlock()
	for p := range stores {
		if strings.HasPrefix(p, dir+"/") {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return
}
