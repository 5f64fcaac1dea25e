// Code generated by tools/genshim; DO NOT EDIT.

//go:build go1.24

package vioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
