//go:build go1.24

// Package vrand makes pseudo random numbers deterministic inside a run.
package vrand

import (
	real "math/rand"

	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

func z() bool { return vsched.Active() }

func Int63n(n int64) int64 {
	if z() {
		return 0
	}
	return real.Int63n(n)
}
func Int31n(n int32) int32 {
	if z() {
		return 0
	}
	return real.Int31n(n)
}
func Intn(n int) int {
	if z() {
		return 0
	}
	return real.Intn(n)
}
func Int63() int64 {
	if z() {
		return 0
	}
	return real.Int63()
}
func Int() int {
	if z() {
		return 0
	}
	return real.Int()
}
func Float64() float64 {
	if z() {
		return 0
	}
	return real.Float64()
}
