//go:build go1.24

// Command eopkg enumerates inputs of the package, manifest, asset and job
// readers, of the delta producer and of the index text escaper.
package main

import (
	"fmt"
	"os"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
)

func main() {
	prop := os.Args[1]
	r := lib.NewReport(prop)
	switch prop {
	case "C21":
		r.Assume = []string{"the classes of characters are those of the Unicode tables of the Go release in use"}
		escaping(r)
	case "C13":
		r.Assume = []string{"files of the upload directory do not change while a manifest is processed; symbolic links there are out of scope"}
		uploads(r)
	case "C22":
		r.Assume = []string{
			"xz, unxz, zstd and unzstd are stand-ins that reject data they did not produce",
			"a hang is an operation that runs longer than 30 s",
		}
		malformed(r)
	case "C23":
		r.Assume = []string{"the compressors are stand-ins with the same observable contract (bound to the real tools by the conformance part of C05)"}
		deltas(r)
	case "C27":
		r.Assume = []string{
			"effects are the mutating calls of os, io/ioutil and syscall, the database and the compressors, recorded before they act",
			"no symbolic links inside the base directory",
		}
		contained(r)
	default:
		fmt.Println("no mode for", prop)
		os.Exit(2)
	}
	os.Exit(r.Finish())
}
