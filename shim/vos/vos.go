//go:build go1.24

// Package vos replaces os in instrumented code.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// File wraps os.File; its mutating methods are effects.
type File struct {
	*os.File
	path  string
	wrote bool
}

// everything written carries the same time, so that archives of it are reproducible
var fixedTime = []syscall.Timeval{{Sec: 1600000000}, {Sec: 1600000000}}

var (
	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout}
	Stderr = &File{File: os.Stderr}
)

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func track(f *File) *File {
	if p := vsched.CurProc(); p != nil {
		p.OnDeath = append(p.OnDeath, func() { f.File.Close() })
	}
	return f
}

func NewFile(fd uintptr, name string) *File { return &File{File: os.NewFile(fd, name)} }

func Open(name string) (*File, error) {
	name = veff.Map(name)
	veff.Read("open", name)
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	return track(&File{File: f, path: abs(name)}), nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	name = veff.Map(name)
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return Open(name)
	}
	var f *os.File
	mutates := flag&os.O_TRUNC != 0
	if !mutates && flag&os.O_CREATE != 0 {
		if _, err := os.Lstat(name); err != nil {
			mutates = true
		}
	}
	if !mutates && veff.Find(name) != nil {
		veff.Read("open", name)
		r, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return track(&File{File: r, path: abs(name)}), nil
	}
	err := veff.Do("create", abs(name), "", 0, func() (err error) {
		f, err = os.OpenFile(name, flag, perm)
		return
	}, nil)
	if err != nil {
		return nil, wrap("open", name, err)
	}
	return track(&File{File: f, path: abs(name), wrote: true}), nil
}

func wrap(op, name string, err error) error {
	var pe *fs.PathError
	var le *os.LinkError
	if errors.As(err, &pe) || errors.As(err, &le) {
		return err
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Write(b []byte) (n int, err error) {
	if f.path == "" {
		return f.File.Write(b)
	}
	f.wrote = true
	err = veff.Do("write", f.path, "", tears(len(b)), func() (err error) {
		n, err = f.File.Write(b)
		return
	}, func(v int) { f.File.Write(b[:tearLen(v, len(b))]) })
	if err != nil {
		err = wrap("write", f.path, err)
	}
	return
}

func tears(n int) int {
	switch {
	case n <= 1:
		return 0
	case n == 2:
		return 1
	}
	return 2
}

func tearLen(v, n int) int {
	if v == 1 {
		return n / 2
	}
	return n - 1
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	err = veff.Do("writeat", f.path, "", tears(len(b)), func() (err error) {
		n, err = f.File.WriteAt(b, off)
		return
	}, func(v int) { f.File.WriteAt(b[:tearLen(v, len(b))], off) })
	return
}

// ReadFrom copies in chunks so that a crash can fall between them.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 32*1024)
	var t int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := f.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

// WriteTo hides os.File.WriteTo so that copies go through Write of the target.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f.File})
}

func (f *File) Truncate(size int64) error {
	return veff.Do("truncate", f.path, "", 0, func() error { return f.File.Truncate(size) }, nil)
}

func (f *File) Chmod(m FileMode) error {
	return veff.Do("chmod", f.path, "", 0, func() error { return f.File.Chmod(m) }, nil)
}

func (f *File) Chown(u, g int) error {
	return veff.Do("chown", f.path, "", 0, func() error { return f.File.Chown(u, g) }, nil)
}

func (f *File) Sync() error {
	if f.path != "" {
		veff.Read("fsync", f.path)
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.path != "" && !vsched.Dying() {
		veff.Read("close", f.path)
	}
	if f.wrote {
		syscall.Futimes(int(f.File.Fd()), fixedTime)
		f.wrote = false
	}
	return f.File.Close()
}

func Remove(name string) error {
	if _, err := os.Lstat(name); err != nil {
		// a failing remove is not an effect
		veff.Read("remove", name)
		if _, err = os.Lstat(name); err != nil {
			return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
		}
	}
	err := veff.Do("remove", abs(name), "", 0, func() error { return os.Remove(name) }, nil)
	if err != nil {
		return wrap("remove", name, err)
	}
	return nil
}

// RemoveAll removes a tree entry by entry, each an effect of its own.
func RemoveAll(path string) error {
	st, err := os.Lstat(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	if veff.Find(path) == nil {
		return wrap("removeall", path, veff.Do("removeall", abs(path), "", 0, func() error { return syscall.EPERM }, nil))
	}
	if st.IsDir() {
		ents, err := os.ReadDir(path)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if err := RemoveAll(filepath.Join(path, e.Name())); err != nil {
				return err
			}
		}
	}
	err = Remove(path)
	if os.IsNotExist(err) {
		return nil
	}
	return err
}

func Rename(a, b string) error {
	err := veff.Do("rename", abs(a), abs(b), 0, func() error { return os.Rename(a, b) }, nil)
	if err != nil {
		var le *os.LinkError
		if !errors.As(err, &le) {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
		}
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	err := veff.Do("mkdir", abs(name), "", 0, func() error { return os.Mkdir(name, perm) }, nil)
	if err != nil {
		return wrap("mkdir", name, err)
	}
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	if st, err := os.Stat(path); err == nil {
		if st.IsDir() {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
	}
	clean := filepath.Clean(path)
	if p := filepath.Dir(clean); p != clean {
		if err := MkdirAll(p, perm); err != nil {
			return err
		}
	}
	err := Mkdir(clean, perm)
	if err != nil {
		if st, err2 := os.Stat(clean); err2 == nil && st.IsDir() {
			return nil
		}
	}
	return err
}

func Link(a, b string) error {
	if _, err := os.Lstat(b); err == nil {
		veff.Read("link", b)
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	err := veff.Do("link", abs(b), "", 0, func() error { return os.Link(a, b) }, nil)
	var le *os.LinkError
	if err != nil && !errors.As(err, &le) {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return err
}

func Symlink(a, b string) error {
	return veff.Do("symlink", abs(b), "", 0, func() error { return os.Symlink(a, b) }, nil)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Truncate(name string, size int64) error {
	return veff.Do("truncate", abs(name), "", 0, func() error { return os.Truncate(name, size) }, nil)
}

func Chmod(name string, m FileMode) error {
	return veff.Do("chmod", abs(name), "", 0, func() error { return os.Chmod(name, m) }, nil)
}

func Chown(name string, u, g int) error {
	return veff.Do("chown", abs(name), "", 0, func() error { return nil }, nil)
}

func Lchown(name string, u, g int) error { return Chown(name, u, g) }

func Chtimes(name string, a, m time.Time) error {
	return veff.Do("chtimes", abs(name), "", 0, func() error { return os.Chtimes(name, a, m) }, nil)
}

func Stat(name string) (FileInfo, error) {
	name = veff.Map(name)
	veff.Read("stat", name)
	return os.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	name = veff.Map(name)
	veff.Read("stat", name)
	return os.Lstat(name)
}

func ReadFile(name string) ([]byte, error) {
	name = veff.Map(name)
	veff.Read("readfile", name)
	return os.ReadFile(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	name = veff.Map(name)
	veff.Read("readdir", name)
	return os.ReadDir(name)
}

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = os.TempDir()
	}
	pre, post, _ := strings.Cut(pattern, "*")
	for i := 1; ; i++ {
		n := filepath.Join(dir, fmt.Sprintf("%svtmp%d%s", pre, i, post))
		if _, err := os.Lstat(n); err != nil {
			return n
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tmpName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if !os.IsExist(err) {
			return f, err
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tmpName(dir, pattern)
	return n, Mkdir(n, 0700)
}

// ExitPanic is the panic value of Exit outside a controlled run.
type ExitPanic struct{ Code int }

func Exit(code int) {
	if vsched.Active() {
		if vsched.Dying() {
			panic(vsched.Killed{Why: "exit while dying"})
		}
		vsched.Point("exit")
		vsched.KillProc(vsched.CurProc(), code)
	}
	panic(ExitPanic{code})
}

func Getpid() int {
	if vsched.Active() {
		return vsched.Pid()
	}
	return os.Getpid()
}

// Process replaces os.Process.
type Process struct {
	Pid  int
	real *os.Process
}

func FindProcess(pid int) (*Process, error) {
	if vsched.Active() {
		return &Process{Pid: pid}, nil
	}
	p, err := os.FindProcess(pid)
	if err != nil {
		return nil, err
	}
	return &Process{Pid: pid, real: p}, nil
}

func (p *Process) Signal(sig Signal) error {
	if p.real != nil {
		if sig == syscall.Signal(0) {
			return p.real.Signal(sig)
		}
		return syscall.EPERM
	}
	vsched.Point("kill")
	t := vsched.FindProc(p.Pid)
	if t == nil || !t.Alive {
		return os.ErrProcessDone
	}
	return nil
}

func (p *Process) Release() error { return nil }
func (p *Process) Kill() error    { return syscall.EPERM }
