// Code generated by tools/genshim; DO NOT EDIT.

//go:build go1.24

package vexec

import real "os/exec"

var ErrDot = real.ErrDot
var ErrNotFound = real.ErrNotFound
var ErrWaitDelay = real.ErrWaitDelay

type Error = real.Error
type ExitError = real.ExitError

var LookPath = real.LookPath
