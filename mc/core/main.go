//go:build go1.24

// Command core explores sequences of repository operations on the real
// implementation, breadth first, comparing every step with the reference model.
package main

import (
	"fmt"
	"os"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: core PROPERTY")
		os.Exit(2)
	}
	prop := os.Args[1]
	r := lib.NewReport(prop)
	if prop == "C29" {
		transparent(r)
		r.Assume = []string{"restarts happen between operations; restarts that interrupt one are C16 and C28"}
		os.Exit(r.Finish())
	}
	p, ok := profiles()[prop]
	if !ok {
		fmt.Println("no profile for", prop)
		os.Exit(2)
	}
	x := &lib.Explorer{R: r, Seeds: p.seeds, Alphabet: uni.Sized(p.alphabet), Depth: lib.Pick(p.quick, p.thorough), Sources: lib.All}
	x.Run()
	if prop == "C01" || prop == "C02" {
		failures(r)
	}
	if prop == "C02" {
		copies(r)
	}
	if prop == "C12" {
		names(r)
		leftovers(r)
	}
	if prop == "C05" {
		tools(r)
	}
	r.Set("alphabet", p.text)
	r.Assume = []string{
		"xz, unxz, zstd and unzstd are stand-ins with the same observable contract (bound to the real tools by the conformance part of C05)",
		"leveldb runs on its in-memory storage; its own crash behaviour is C20's subject",
		"operations of this exploration run one at a time, as the daemon's sequential worker runs them",
	}
	os.Exit(r.Finish())
}

// failures fails every effect of a set of operations in turn: counts and files
// stay consistent, and the next operations work.
func failures(r *lib.Report) {
	f := &lib.Faults{R: r, OnlyChanging: true, Seeds: []lib.Seed{uni.S1, uni.S2}, Ops: func(seed string, st *lib.State) []Op {
		if lib.Thorough() {
			return uni.Broad(st)
		}
		if seed == "rich" {
			return []Op{uni.Imp("b", lib.N2, lib.L10), uni.Pull("a", "b"), uni.Clone("a", "c", false), uni.Cps("a", "b", "old", 0, true), uni.Rms("a", "libfoo", 0), uni.Trim("a", 1), uni.Del("b"), uni.Upl("b", lib.N3)}
		}
		return []Op{uni.Trim("a", 1), uni.Clone("b", "c", true), uni.Rms("b", "nano", 1), uni.Delta("b", "nano", true), uni.Del("a")}
	}, Sources: lib.All}
	if !f.Prepare() {
		return
	}
	f.Run(false, func(w *lib.World, p *lib.FaultPlan, x lib.Fault, res lib.Res) (out []lib.Issue) {
		m, err := w.Open()
		if err != nil {
			return []lib.Issue{{Prop: "*", Key: "data cannot be opened after a failed operation", Text: err.Error()}}
		}
		defer m.Close()
		st, l := lib.Observe(w, m)
		for _, i := range l {
			if !lib.Leftover(i) && i.Key != "file not shared with the pool" { // a link that fails is a copy
				i.Key = "after a failure in " + p.Op.Kind + ": " + i.Key
				out = append(out, i)
			}
		}
		for _, s := range lib.Between(p.St, p.AfterSt, st) {
			out = append(out, lib.Issue{Prop: "C02", Key: "after a failure in " + p.Op.Kind + ": contents neither old nor new", Text: s})
		}
		return
	})
}
