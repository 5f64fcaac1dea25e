//go:build go1.24

// Command jobs explores the job store and the job processor: operation
// sequences, thread schedules and crash points.
package main

import (
	"fmt"
	"os"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
)

func main() {
	prop := os.Args[1]
	r := lib.NewReport(prop)
	r.Assume = []string{
		"leveldb runs on its in-memory storage and its own operations are atomic; its crash behaviour is C20's subject",
		"instrumented operations (locks, channels, timers, database, files) are the scheduling points; plain memory accesses between them are not",
		"time is virtual; a timer may fire at any scheduling point once armed",
	}
	switch prop {
	case "C15":
		if os.Getenv("VMC_CHILD") == "" {
			queueBFS(r)
			longQueues(r)
			parameters(r)
		}
		lib.Schedules(r, queueScenarios())
	case "C16":
		lib.Schedules(r, crashScenarios())
	case "C17":
		if os.Getenv("VMC_CHILD") == "" {
			historyBFS(r)
		}
		lib.Schedules(r, historyScenarios())
	case "C18":
		lib.Schedules(r, shutdownScenarios())
	case "C32":
		lib.Schedules(r, repoScenarios())
	default:
		fmt.Println("no mode for", prop)
		os.Exit(2)
	}
	os.Exit(r.Finish())
}
