// Code generated by tools/genshim; DO NOT EDIT.

//go:build go1.24

package vrand

import real "math/rand"

var ExpFloat64 = real.ExpFloat64
var Float32 = real.Float32
var Int31 = real.Int31
var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64
var Perm = real.Perm

type Rand = real.Rand

var Read = real.Read
var Seed = real.Seed
var Shuffle = real.Shuffle

type Source = real.Source
type Source64 = real.Source64

var Uint32 = real.Uint32
var Uint64 = real.Uint64

type Zipf = real.Zipf
