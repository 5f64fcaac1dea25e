//go:build go1.24

// Command db explores the database wrapper: operation sequences over nested
// buckets, crash images of its storage, and schedules of readers and writers.
package main

import (
	"fmt"
	"os"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
)

func main() {
	prop := os.Args[1]
	r := lib.NewReport(prop)
	switch prop {
	case "C19":
		r.Assume = []string{
			"numbering is judged only in buckets whose keys were all numbered",
			"reads inside an update are judged against the committed records only",
		}
		isolation(r)
	case "C20":
		r.Assume = []string{
			"crash of the process: every completed storage write survives, the interrupted one may be cut at any byte",
			"leveldb's background compaction is left free; each history's recorded storage order is cut at every point",
		}
		if os.Getenv("VMC_CHILD") == "" {
			atomicity(r)
			sizes(r)
			crashes(r)
		}
		lib.Schedules(r, readers())
	default:
		fmt.Println("no mode for", prop)
		os.Exit(2)
	}
	os.Exit(r.Finish())
}
