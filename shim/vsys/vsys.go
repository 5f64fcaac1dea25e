//go:build go1.24

// Package vsys replaces syscall in instrumented code.
package vsys

import (
	"syscall"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Flock is the real call (locks belong to open file descriptions, so virtual
// processes of one run contend as real ones do), made non-blocking so that the
// scheduler decides who waits.
func Flock(fd int, how int) error {
	if !vsched.Active() {
		return syscall.Flock(fd, how)
	}
	vsched.Point("flock")
	if how&syscall.LOCK_NB != 0 || how&syscall.LOCK_UN != 0 {
		return syscall.Flock(fd, how)
	}
	var err error
	vsched.Block("flock", func() bool {
		err = syscall.Flock(fd, how|syscall.LOCK_NB)
		return err != syscall.EWOULDBLOCK
	})
	return err
}

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	return syscall.Mmap(fd, offset, length, prot, flags)
}

func Munmap(b []byte) error { return syscall.Munmap(b) }

func Getpid() int {
	if vsched.Active() {
		return vsched.Pid()
	}
	return syscall.Getpid()
}

// Kill only answers liveness questions.
func Kill(pid int, sig syscall.Signal) error {
	if sig != 0 {
		return syscall.EPERM
	}
	if vsched.Active() {
		p := vsched.FindProc(pid)
		if p == nil || !p.Alive {
			return syscall.ESRCH
		}
		return nil
	}
	return syscall.Kill(pid, 0)
}
