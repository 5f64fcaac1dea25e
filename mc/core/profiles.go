//go:build go1.24

package main

import (
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
)

type Op = lib.Op

type profile struct {
	seeds           []lib.Seed
	quick, thorough int
	alphabet        func(st *lib.State) []Op
	text            string
}

// indexing is the alphabet of everything that shows in an index.
func indexing(st *lib.State) []Op {
	l := []Op{uni.Imp("a", lib.N2), uni.Imp("a", lib.EA, lib.LE, lib.DP), uni.Imp("a", lib.N3, lib.SP), uni.Imp("a", lib.L9), uni.Imp("a", lib.L10, lib.D10), uni.Imp("a", lib.O1, lib.OD1, lib.OX1), uni.Imp("a", lib.OT, lib.OC), uni.Imp("a", lib.N2B),
		uni.Upl("a", lib.U10), uni.Pull("b", "a"), uni.Pull("a", "b"), uni.Clone("a", "c", false), uni.Clone("a", "c", true), uni.Trim("a", 1), uni.Trimobs("a"), uni.Rms("a", "nano", 0), uni.Rms("a", "nano", 3), uni.Rms("a", "old", 0),
		uni.Cps("b", "a", "libfoo", 0, false), uni.Cps("b", "a", "nano", 0, true), uni.Delta("a", "nano", true), uni.Delta("a", "libfoo", false), uni.Delta("a", "nano", false), uni.Mk("c"), uni.Del("b")}
	return append(l, uni.Each([]string{"a"}, func(r string) []Op {
		return []Op{uni.Dist(r, lib.DistA), uni.Dist(r, lib.DistB), uni.Dist(r, lib.DistC), uni.Dist(r, lib.DistE), uni.Dist(r, ""), uni.Comp(r, lib.CompA), uni.Comp(r, lib.CompB), uni.Comp(r, lib.CompC), uni.Comp(r, ""), uni.Grp(r, lib.GrpA), uni.Grp(r, lib.GrpB), uni.Grp(r, lib.GrpC), uni.Grp(r, ""), uni.Idx(r)}
	})...)
}

func cloning(st *lib.State) []Op {
	var l []Op
	for _, f := range []bool{true, false} {
		l = append(l, uni.Clone("a", "b", f), uni.Clone("a", "c", f), uni.Clone("b", "c", f), uni.Clone("b", "d", f), uni.Clone("x", "c", f), uni.Clone("a", "a", f), uni.Clone("c", "b", f), uni.Clone("c", "e", f), uni.Clone("a", "ab", f))
	}
	return append(l, uni.Imp("a", lib.N2, lib.L10), uni.Imp("b", lib.N2B), uni.Imp("a", lib.N3), uni.Imp("c", lib.N2V, lib.O2), uni.Del("b"), uni.Del("c"), uni.Del("a"), uni.Delta("a", "nano", true), uni.Delta("a", "libfoo", false),
		uni.Trim("a", 1), uni.Trim("c", 1), uni.Rms("b", "nano", 0), uni.Rms("c", "libfoo", 0), uni.Dist("a", lib.DistB), uni.Comp("a", lib.CompB), uni.Dist("a", ""), uni.Grp("b", lib.GrpB), uni.Pull("c", "a"))
}

func pulling(st *lib.State) []Op {
	var l []Op
	n := []string{"a", "b", "c"}
	for _, x := range n {
		for _, y := range n {
			l = append(l, uni.Pull(x, y))
		}
		l = append(l, uni.Mk(x), uni.Imp(x, lib.N1), uni.Imp(x, lib.N2), uni.Imp(x, lib.N3), uni.Imp(x, lib.L9), uni.Imp(x, lib.L10, lib.U10))
	}
	return append(l, uni.Pull("a", "x"), uni.Pull("x", "a"), uni.Imp("a", lib.N2B), uni.Imp("b", lib.N2B), uni.Imp("b", lib.N2V), uni.Imp("a", lib.N2V), uni.Imp("c", lib.O1, lib.OD1), uni.Rms("a", "nano", 0), uni.Rms("b", "nano", 3), uni.Rms("b", "nano", 0),
		uni.Trim("b", 1), uni.Delta("a", "nano", true), uni.Delta("b", "libfoo", true), uni.Dist("a", lib.DistB), uni.Dist("b", lib.DistE), uni.Dist("a", ""), uni.Comp("b", lib.CompA), uni.Comp("a", lib.CompB), uni.Comp("b", lib.CompC), uni.Grp("a", lib.GrpB), uni.Clone("a", "c", false), uni.Del("b"), uni.Trimobs("a"))
}

func sourcing(st *lib.State) []Op {
	var l []Op
	for _, src := range []string{"nano", "libfoo", "old", "Zed", "zed", "libfoo-dbginfo", "nosuch", "nanofork", ""} {
		for _, n := range []int{0, 1, 2, 10, -1} {
			if n != 0 && n != 2 && (src == "zed" || src == "" || src == "nosuch" || src == "nanofork") {
				continue
			}
			l = append(l, uni.Cps("a", "b", src, n, n == 2), uni.Rms("a", src, n))
			if n <= 1 {
				l = append(l, uni.Rms("b", src, n), uni.Cps("b", "a", src, n, true))
			}
		}
	}
	return append(l, uni.Cps("a", "a", "nano", 0, false), uni.Cps("a", "x", "nano", 0, false), uni.Cps("x", "a", "nano", 0, false), uni.Rms("x", "nano", 0), uni.Cps("a", "b", "nano", 9, false), uni.Cps("a", "b", "libfoo", 9, false), uni.Rms("a", "libfoo", 9), uni.Cps("a", "b", "nano", 5, false),
		uni.Imp("b", lib.N2V), uni.Imp("a", lib.Z1), uni.Imp("a", lib.N3), uni.Delta("a", "nano", true), uni.Trim("a", 1))
}

func trimming(st *lib.State) []Op {
	var l []Op
	for _, r := range []string{"a", "b", "x"} {
		for _, n := range []int{-1, 0, 1, 2, 3, 4, 100} {
			l = append(l, uni.Trim(r, n))
		}
	}
	return append(l, uni.Imp("a", lib.N1), uni.Imp("a", lib.N2), uni.Imp("a", lib.N3), uni.Imp("a", lib.N2B), uni.Imp("a", lib.N2, lib.N2B, lib.N2C), uni.Imp("a", lib.L9), uni.Imp("a", lib.L10), uni.Imp("b", lib.N1, lib.N2), uni.Imp("b", lib.O1), uni.Imp("b", lib.SP, lib.Z1, lib.Z2), uni.Imp("a", lib.N2V),
		uni.Rms("a", "nano", 3), uni.Rms("a", "nano", 2), uni.Delta("a", "nano", true), uni.Delta("a", "libfoo", true), uni.Clone("a", "c", true), uni.Trim("c", 1), uni.Pull("a", "b"), uni.Cps("a", "b", "nano", 0, true), uni.Trimobs("a"))
}

func obsoleting(st *lib.State) []Op {
	l := uni.Each([]string{"a", "b"}, func(r string) []Op {
		return []Op{uni.Trimobs(r), uni.Dist(r, lib.DistA), uni.Dist(r, lib.DistB), uni.Dist(r, lib.DistC), uni.Dist(r, lib.DistE), uni.Dist(r, ""), uni.Dist(r, "<PISI><broken"), uni.Imp(r, lib.O1, lib.OD1), uni.Imp(r, lib.O2), uni.Imp(r, lib.OD2), uni.Imp(r, lib.OX1, lib.OX2, lib.OT, lib.OC),
			uni.Imp(r, lib.L9, lib.L10), uni.Imp(r, lib.D10), uni.Imp(r, lib.U10), uni.Trim(r, 1), uni.Rms(r, "old", 2), uni.Rms(r, "old", 0)}
	})
	return append(l, uni.Trimobs("x"), uni.Clone("a", "c", true), uni.Trimobs("c"), uni.Pull("a", "b"), uni.Pull("b", "a"), uni.Delta("a", "old", true), uni.Delta("a", "libfoo", true), uni.Cps("a", "b", "old", 0, true))
}

func uploading(st *lib.State) []Op {
	var l []Op
	for _, p := range lib.Good {
		l = append(l, uni.Upl("a", p))
	}
	for _, p := range []*lib.Pkg{lib.N1, lib.N2, lib.N2B, lib.N3, lib.N2V, lib.L9, lib.L10, lib.Z2} {
		l = append(l, uni.Imp("a", p))
	}
	for _, p := range lib.Bad {
		l = append(l, uni.Upl("a", lib.N3, p))
	}
	return append(l, uni.Upl("a", lib.N1, lib.N2), uni.Upl("a", lib.N2, lib.N1), uni.Upl("a", lib.N3, lib.L9), uni.Upl("a", lib.L10, lib.N3), uni.Upl("a", lib.N2, lib.N2B), uni.Upl("a", lib.N3, lib.N3), uni.Upl("a", lib.Z1, lib.N1), uni.Upl("a", lib.N3, lib.L10, lib.D10), uni.Upl("a", lib.OT, lib.N3, lib.N2C), uni.Upl("a", lib.OT, lib.N2C, lib.N3), uni.Upl("a", lib.DP, lib.OT, lib.N3, lib.N3), uni.Upl("b", lib.OT, lib.N3, lib.LE, lib.N2C), uni.Upl("b", lib.N2C, lib.OT, lib.N2, lib.N3),
		uni.Upl("b", lib.N2), uni.Upl("b", lib.N3), uni.Upl("b", lib.L10), uni.Upl("b", lib.O1), uni.Upl("x", lib.N1), uni.Rms("a", "nano", 0), uni.Rms("a", "nano", 3), uni.Rms("a", "nano", 2), uni.Trim("a", 1), uni.Pull("b", "a"), uni.Clone("a", "c", false), uni.Del("a"), uni.Mk("a"))
}

func deltas(st *lib.State) []Op {
	var l []Op
	for _, n := range []string{"nano", "libfoo", "zed", "old", "kit", "nosuch"} {
		l = append(l, uni.Delta("a", n, true), uni.Delta("b", n, false))
	}
	for _, r := range []string{"a", "b"} {
		l = append(l, uni.AddDelta(r, lib.N1, lib.N2), uni.AddDelta(r, lib.N1, lib.N2B), uni.AddDelta(r, lib.N1S, lib.N2), uni.AddDelta(r, lib.N2, lib.N3), uni.AddDelta(r, lib.L9, lib.L10), uni.RefDelta(r, uni.D12), uni.RefDelta(r, uni.D910))
	}
	l = append(l, uni.AddDelta("x", lib.N1, lib.N2), uni.AddDelta("a", lib.N2, lib.N1), uni.AddDelta("a", lib.Z1, lib.Z2), uni.AddDelta("a", lib.N1, lib.N3), uni.RefDelta("x", uni.D12), uni.RefDelta("a", lib.N2.ID()), uni.RefDelta("a", uni.D13), uni.Rms("b", "nanofork", 0), uni.Rms("b", "nano", 1))
	return append(l, uni.Delta("a", "nano", false), uni.Delta("b", "kit", true), uni.Imp("b", lib.Kit[1:4]...), uni.Rms("a", "kit", 5), uni.Rms("a", "kit", 1), uni.Delta("x", "nano", true), uni.Imp("a", lib.N3), uni.Imp("a", lib.N2), uni.Imp("b", lib.N1, lib.N2), uni.Imp("b", lib.N3), uni.Imp("a", lib.N2B), uni.Imp("b", lib.N2V), uni.Imp("a", lib.N3V), uni.Imp("b", lib.N3V, lib.N1), uni.Imp("a", lib.L10), uni.Imp("b", lib.Z1, lib.Z2),
		uni.Clone("a", "b", true), uni.Clone("a", "c", true), uni.Clone("a", "c", false), uni.Clone("b", "c", true), uni.Pull("a", "b"), uni.Pull("b", "a"), uni.Cps("a", "b", "nano", 0, false), uni.Cps("a", "b", "libfoo", 0, true),
		uni.Imp("a", lib.N1S), uni.Rms("a", "nanofork", 0), uni.Rms("a", "nano", 1), uni.Rms("a", "nano", 2), uni.Rms("a", "nano", 3), uni.Rms("b", "nano", 2), uni.Rms("a", "nano", 0), uni.Trim("a", 1), uni.Trim("b", 1), uni.Trim("a", 2), uni.Trimobs("a"), uni.Dist("a", lib.DistB), uni.Del("a"), uni.Del("b"), uni.Mk("b"), uni.Idx("a"))
}

// names that are prefixes of each other
func lifecycle(st *lib.State) []Op {
	l := uni.Each([]string{"a", "ab", "a-b", "a.b", "A"}, func(r string) []Op {
		return []Op{uni.Mk(r), uni.Del(r), uni.Imp(r, lib.N1), uni.Imp(r, lib.N2, lib.O1), uni.Rms(r, "nano", 0), uni.Dist(r, lib.DistA)}
	})
	return append(l, uni.Clone("a", "ab", true), uni.Clone("ab", "a-b", true), uni.Clone("a-b", "a", false), uni.Clone("a", "a.b", true), uni.Pull("a", "ab"), uni.Pull("ab", "a"), uni.Pull("a-b", "a"), uni.Trim("a", 1), uni.Trim("ab", 1), uni.Trimobs("a"), uni.Trimobs("ab"), uni.Delta("ab", "nano", true), uni.Delta("a", "nano", true),
		uni.Cps("ab", "a", "nano", 0, true), uni.Cps("a", "a-b", "nano", 0, false), uni.Idx("ab"), uni.Upl("a-b", lib.N3), uni.Del("x"), uni.Mk("b"))
}

func profiles() map[string]profile {
	every := []lib.Seed{uni.S0, uni.S1, uni.S2, uni.S3, uni.S5, uni.S6, uni.S7, uni.S9, uni.S8}
	b := func(seeds ...lib.Seed) profile {
		return profile{seeds, 2, 3, uni.Broad, "every kind of operation with few arguments each"}
	}
	return map[string]profile{
		"C01": b(every...),
		"C02": b(every...),
		"C03": b(every...),
		"C04": {[]lib.Seed{uni.S1, uni.S11, uni.S2, uni.S3, uni.S5, uni.S6, uni.S7, uni.S8}, 2, 3, indexing, "operations that index one repository, and changes of its asset files"},
		"C05": b(append(every, uni.S11)...),
		"C07": {every, 2, 3, cloning, "clones in both modes between all pairs, including missing and existing targets, and changes of either side"},
		"C08": {every, 2, 3, pulling, "pulls between all pairs, imports that put either side ahead, removals, asset changes"},
		"C09": {[]lib.Seed{uni.S1, uni.S2, uni.S3, uni.S5, uni.S6, uni.S8}, 2, 3, sourcing, "copy and removal by every source name and release of the universe, near misses included"},
		"C10": {[]lib.Seed{uni.S2, uni.S3, uni.S5, uni.S6, uni.S8}, 2, 3, trimming, "trims with limits -1..100 on every repository, imports of tied and out of order releases, removals"},
		"C11": {[]lib.Seed{uni.S1, uni.S3, uni.S5, uni.S6, uni.S8}, 2, 3, obsoleting, "obsolete trims under four distribution files or none, imports of every obsolete and similarly named package"},
		"C12": {[]lib.Seed{uni.S0, uni.S4, uni.S1}, 2, 3, lifecycle, "creation, deletion and every other operation on repositories whose names are prefixes of each other"},
		"C14": {[]lib.Seed{uni.S0, uni.S1, uni.S3, uni.S5, uni.S6, uni.S8}, 2, 3, uploading, "uploads and imports of every package of the universe and of pairs of them"},
		"C31": {[]lib.Seed{uni.S7, uni.S12, uni.S10, uni.S9, uni.S1, uni.S2, uni.S3, uni.S5, uni.S6, uni.S8}, 2, 3, deltas, "delta production, inclusion, removal and everything that adds or removes the packages they connect"},
	}
}
