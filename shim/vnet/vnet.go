//go:build go1.24

// Package vnet replaces net: unix listeners are virtual sockets bound to a
// path, with the path semantics of real ones (the name survives process death).
package vnet

import (
	"net"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

type bound struct{ m map[string]*VListener }
type key struct{}

var outside = &bound{m: map[string]*VListener{}}

func table() *bound {
	r := vsched.Local(key{}, func() any { return &bound{m: map[string]*VListener{}} })
	if r == nil {
		return outside
	}
	return r.(*bound)
}

// VListener is a bound virtual socket.
type VListener struct {
	Path   string
	Pid    int
	Closed bool
	unlink bool
}

func (l *VListener) Accept() (net.Conn, error) {
	vsched.Block("accept", func() bool { return l.Closed })
	return nil, net.ErrClosed
}

func (l *VListener) Close() error {
	if l.Closed {
		return net.ErrClosed
	}
	if vsched.Dying() {
		return nil
	}
	if l.unlink {
		veff.Do("unlink socket", l.Path, "", 0, func() error { os.Remove(l.Path); return nil }, nil)
	}
	l.Closed = true
	if table().m[l.Path] == l {
		delete(table().m, l.Path)
	}
	return nil
}

func (l *VListener) SetUnlinkOnClose(b bool) { l.unlink = b }
func (l *VListener) Addr() net.Addr          { return &net.UnixAddr{Name: l.Path, Net: "unix"} }

// Lookup returns the live listener of a path.
func Lookup(path string) *VListener {
	path, _ = filepath.Abs(path)
	return table().m[path]
}

func opErr(op, path string, e error) error {
	return &net.OpError{Op: op, Net: "unix", Addr: &net.UnixAddr{Name: path, Net: "unix"}, Err: os.NewSyscallError(op, e)}
}

func Listen(network, path string) (net.Listener, error) {
	if network != "unix" {
		return nil, opErr("listen", path, syscall.EPERM)
	}
	path, _ = filepath.Abs(path)
	if _, err := os.Lstat(path); err == nil {
		veff.Read("bind", path)
		return nil, opErr("bind", path, syscall.EADDRINUSE)
	}
	l := &VListener{Path: path, Pid: vsched.Pid(), unlink: true}
	err := veff.Do("bind", path, "", 0, func() error {
		if err := syscall.Mknod(path, syscall.S_IFSOCK|0755, 0); err != nil {
			return err
		}
		table().m[path] = l
		return nil
	}, nil)
	if err != nil {
		return nil, opErr("bind", path, err)
	}
	t := table()
	if p := vsched.CurProc(); p != nil {
		p.OnDeath = append(p.OnDeath, func() {
			l.Closed = true
			if t.m[path] == l {
				delete(t.m, path)
			}
		})
	}
	return l, nil
}

// VConn is a connected virtual socket; it carries no data.
type VConn struct {
	net.Conn
	L *VListener
}

func (c *VConn) Close() error         { return nil }
func (c *VConn) RemoteAddr() net.Addr { return c.L.Addr() }
func (c *VConn) LocalAddr() net.Addr  { return &net.UnixAddr{Net: "unix"} }

func Dial(network, path string) (net.Conn, error) {
	if network != "unix" {
		return nil, opErr("dial", path, syscall.ECONNREFUSED)
	}
	path, _ = filepath.Abs(path)
	veff.Read("connect", path)
	if l := table().m[path]; l != nil {
		return &VConn{L: l}, nil
	}
	if _, err := os.Lstat(path); err != nil {
		return nil, opErr("connect", path, syscall.ENOENT)
	}
	return nil, opErr("connect", path, syscall.ECONNREFUSED)
}

func DialTimeout(network, path string, _ time.Duration) (net.Conn, error) { return Dial(network, path) }
