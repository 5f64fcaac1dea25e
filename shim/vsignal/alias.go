// Code generated by tools/genshim; DO NOT EDIT.

//go:build go1.24

package vsignal

import real "os/signal"

var Ignore = real.Ignore
var Ignored = real.Ignored
var Reset = real.Reset
