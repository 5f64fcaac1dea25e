//go:build go1.24 && !withcopies

package main

import "github.com/getsolus/ferryd/src/verifmc/h/lib"

// copies needs core's file helpers; it is left out of trees that do not export them.
func copies(r *lib.Report) { r.Set("file_helpers", "not exported by this tree") }
