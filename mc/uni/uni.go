//go:build go1.24

// Package uni names the operations and start states the harnesses share.
package uni

import (
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
)

type Op = lib.Op

func Files(ps ...*lib.Pkg) (l []string) {
	for _, p := range ps {
		l = append(l, p.SrcName())
	}
	return
}

func Imp(repo string, ps ...*lib.Pkg) Op { return Op{Kind: "import", Repo: repo, Files: Files(ps...)} }
func Upl(repo string, ps ...*lib.Pkg) Op { return Op{Kind: "upload", Repo: repo, Files: Files(ps...)} }
func Mk(repo string) Op                  { return Op{Kind: "create", Repo: repo} }
func Del(repo string) Op                 { return Op{Kind: "delete", Repo: repo} }
func Idx(repo string) Op                 { return Op{Kind: "index", Repo: repo} }
func Dist(repo, data string) Op {
	return Op{Kind: "asset", Repo: repo, Src: "distribution.xml", Data: data}
}
func Comp(repo, data string) Op {
	return Op{Kind: "asset", Repo: repo, Src: "components.xml", Data: data}
}
func Grp(repo, data string) Op            { return Op{Kind: "asset", Repo: repo, Src: "groups.xml", Data: data} }
func Clone(a, b string, full bool) Op     { return Op{Kind: "clone", Repo: a, Other: b, Flag: full} }
func Pull(a, b string) Op                 { return Op{Kind: "pull", Repo: a, Other: b} }
func Trim(a string, n int) Op             { return Op{Kind: "trim", Repo: a, N: n} }
func Trimobs(a string) Op                 { return Op{Kind: "trimobs", Repo: a} }
func Rms(a, src string, n int) Op         { return Op{Kind: "rmsrc", Repo: a, Src: src, N: n} }
func Delta(a, name string, index bool) Op { return Op{Kind: "delta", Repo: a, Src: name, Flag: index} }
func AddDelta(a string, from, to *lib.Pkg) Op {
	return Op{Kind: "adddelta", Repo: a, Files: Files(from, to)}
}
func RefDelta(a, id string) Op { return Op{Kind: "refdelta", Repo: a, Src: id} }
func Cps(a, b, src string, n int, skip bool) Op {
	return Op{Kind: "copysrc", Repo: a, Other: b, Src: src, N: n, Flag: skip}
}

// IDs of deltas.
var (
	D12  = lib.DeltaName("nano", 1, 2, "", "")
	D13  = lib.DeltaName("nano", 1, 3, "", "")
	D910 = lib.DeltaName("libfoo", 9, 10, "", "")
)

// Start states.
var (
	S0 = lib.Seed{Name: "empty"}
	// one rich and one partial repository with assets
	S1 = lib.Seed{Name: "rich", Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.N2, lib.L9, lib.L10, lib.D10, lib.O1, lib.OD1, lib.OX1),
		Dist("a", lib.DistA), Comp("a", lib.CompA), Grp("a", lib.GrpA), Idx("a"), Mk("b"), Imp("b", lib.N1, lib.L9)}}
	// deltas shared by a repository and its clone
	S2 = lib.Seed{Name: "deltas", Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.N2, lib.L9, lib.L10, lib.Z1, lib.Z2), Delta("a", "nano", true), Delta("a", "libfoo", true),
		Delta("a", "zed", true), Clone("a", "b", true), Imp("b", lib.N3)}}
	// the second repository is ahead, and releases tie
	S3 = lib.Seed{Name: "ahead", Ops: []Op{Mk("a"), Imp("a", lib.N2B, lib.N2, lib.L10, lib.U10, lib.O1, lib.O2, lib.OD1, lib.OD2, lib.OT, lib.OC), Dist("a", lib.DistA), Comp("a", lib.CompC),
		Mk("b"), Imp("b", lib.N3, lib.L9, lib.SP, lib.LE, lib.EA), Dist("b", lib.DistB), Comp("b", lib.CompB), Idx("a"), Idx("b")}}
	// names that are prefixes of each other
	S4 = lib.Seed{Name: "prefixes", Ops: []Op{Mk("a"), Imp("a", lib.N1), Mk("ab"), Imp("ab", lib.N1, lib.N2), Mk("a-b"), Imp("a-b", lib.N2, lib.O1), Mk("a.b"), Idx("a.b")}}
	// several versions of everything in one repository
	S5 = lib.Seed{Name: "versions", Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.N2, lib.N2B, lib.N3, lib.L9, lib.L10, lib.D10, lib.U10, lib.O1, lib.O2, lib.OD1, lib.OD2, lib.OX1, lib.OX2),
		Dist("a", lib.DistA), Mk("b"), Imp("b", lib.N3, lib.O2, lib.OD1)}}
	// many versions that were imported in no particular order
	S6 = lib.Seed{Name: "many", Ops: []Op{Mk("a"), Imp("a", lib.M9, lib.X9, lib.MD[1]), Imp("a", lib.M11, lib.X11, lib.MD[3], lib.M2, lib.X2, lib.MD[0]), Imp("a", lib.M10, lib.X10, lib.MD[2], lib.M9S),
		Dist("a", lib.DistD), Mk("b"), Imp("b", lib.M10, lib.X9, lib.MD[0], lib.N1)}}
	// the same packages in two repositories, without deltas
	S7 = lib.Seed{Name: "twins", Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.N2, lib.L9, lib.L10, lib.Z1, lib.Z2), Mk("b"), Imp("b", lib.N1, lib.N2, lib.L9, lib.L10, lib.Z1, lib.Z2)}}
	// releases that tie on either side of a delta, which both repositories could have
	S9 = lib.Seed{Name: "tied deltas", Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.N1S, lib.N2, lib.N2B, lib.L9, lib.L10), Delta("a", "nano", true), Delta("a", "libfoo", true), Mk("b"), Imp("b", lib.N1, lib.N1S, lib.N2, lib.N2B, lib.L9, lib.L10)}}
	// deltas of all kinds to make: two that are pooled, one that cannot be
	// made, one that is pointless
	S10 = lib.Seed{Name: "kits", Ops: []Op{Mk("a"), Imp("a", lib.Kit...), Mk("b"), Imp("b", lib.Kit[0], lib.Kit[4]), Delta("b", "kit", true), Idx("a")}}
	// the same, after the pointless one was tried
	S12 = lib.Seed{Name: "kits with a failure", Depth: 1, Ops: append(S10.Ops[:len(S10.Ops):len(S10.Ops)], Imp("b", lib.Kit[2]), Delta("b", "kit", true))}
	// a package of megabytes
	S11 = lib.Seed{Name: "huge", Depth: 1, Ops: []Op{Mk("a"), Imp("a", lib.N1, lib.Huge), Mk("b"), Cps("a", "b", "huge", 0, true)}}
	// many packages
	S8 = lib.Seed{Name: "large", Depth: 1, Ops: []Op{Mk("a"), Imp("a", append(append([]*lib.Pkg{lib.N1}, lib.Bulk...), lib.Many...)...), Dist("a", lib.DistD), Mk("b"), Imp("b", append(append([]*lib.Pkg{}, lib.Bulk[:36]...), lib.Many[:9]...)...)}}
)

// Has reports whether any repository holds a name.
func Has(st *lib.State, name string) bool {
	for _, r := range st.Repos {
		if r.Names[name] != nil {
			return true
		}
	}
	return false
}

// Versions is an alphabet for states with many versions of a package.
func Versions(st *lib.State) []Op {
	l := []Op{Trim("a", 1), Trim("a", 2), Trim("a", 3), Trimobs("a"), Rms("a", "multi", 0), Rms("a", "multi", 11), Rms("a", "multi", 10), Rms("a", "multi", 9), Rms("a", "multi", 2), Rms("a", "multi-fork", 0), Rms("a", "multi-fork", 9),
		Cps("a", "b", "multi", 0, false), Cps("a", "b", "multi", 9, true), Cps("a", "b", "multi", 11, false), Cps("a", "b", "multi-fork", 0, false), Pull("a", "b"), Pull("b", "a"), Clone("a", "c", true), Clone("a", "c", false), Rms("b", "multi", 10), Rms("b", "multi", 0), Trim("b", 1),
		Delta("a", "multi", true), Delta("a", "mix", false), Delta("b", "multi", true), Imp("a", lib.M12), Imp("b", lib.M9), Imp("b", lib.M11, lib.MD[3]), Imp("b", lib.M9S), Upl("a", lib.M12), Upl("b", lib.M9), Upl("b", lib.M11, lib.X10), Upl("b", lib.M12, lib.X2), Dist("a", lib.DistB), Del("a"), Del("b")}
	return l
}

// Large is an alphabet for states with many packages.
func Large(st *lib.State) []Op {
	return []Op{Trim("a", 1), Trim("a", 3), Trim("a", 19), Trim("a", 20), Trimobs("a"), Rms("a", "bulk", 0), Rms("a", "bulk", 1), Rms("a", "many", 0), Rms("a", "many", 2147483646), Rms("a", "many", 65537), Rms("b", "many", 65537), Rms("b", "bulk", 0),
		Cps("a", "b", "bulk", 0, false), Cps("a", "b", "many", 0, false), Cps("a", "b", "many", 65536, true), Cps("a", "b", "many", 70000, false), Pull("a", "b"), Pull("b", "a"), Clone("a", "c", true), Clone("a", "c", false), Del("a"), Del("b"),
		Delta("b", "many", true), Delta("a", "many", true), Imp("b", lib.Many[9:]...), Imp("b", lib.Bulk...), Upl("b", lib.Many[11]), Upl("b", lib.Many[16]), Upl("b", lib.Bulk[36:]...), Idx("a"), Idx("b")}
}

// Sized picks the alphabet of a state by what it holds.
func Sized(rest func(st *lib.State) []Op) func(st *lib.State) []Op {
	return func(st *lib.State) []Op {
		switch {
		case Has(st, "many"):
			return Large(st)
		case Has(st, "multi"):
			return Versions(st)
		}
		return rest(st)
	}
}

// Each applies f to every repository of the pair.
func Each(names []string, f func(r string) []Op) (l []Op) {
	for _, n := range names {
		l = append(l, f(n)...)
	}
	return
}

// Broad is an alphabet over all operations with few arguments each.
func Broad(st *lib.State) []Op {
	l := []Op{
		Mk("a"), Mk("b"), Del("a"), Del("b"),
		Imp("a", lib.N2), Imp("a", lib.N3, lib.L9), Imp("b", lib.N1, lib.N2), Imp("b", lib.L10, lib.D10, lib.O1), Imp("a", lib.N2B), Imp("b", lib.N2V), Imp("a", lib.Z1, lib.Z2),
		Imp("a", lib.L9, lib.NoMeta), Imp("a", lib.N1, lib.N1),
		Upl("a", lib.N3), Upl("b", lib.N2, lib.L10),
		Dist("a", lib.DistA), Dist("b", lib.DistB),
		Clone("a", "b", true), Clone("a", "b", false), Clone("b", "c", true),
		Pull("a", "b"), Pull("b", "a"), Pull("a", "a"),
		Cps("a", "b", "libfoo", 0, false), Cps("b", "a", "nano", 2, true),
		Rms("a", "nano", 2), Rms("a", "libfoo", 0), Rms("b", "nano", 0),
		Trim("a", 1), Trim("b", 1), Trim("a", 2), Trimobs("a"), Trimobs("b"),
		Delta("a", "nano", false), Delta("b", "nano", true), Delta("a", "libfoo", true), Delta("a", "zed", true),
		AddDelta("a", lib.N1, lib.N2), AddDelta("b", lib.N1, lib.N2), AddDelta("b", lib.N1, lib.N2B), RefDelta("b", D12), RefDelta("a", D910),
		Idx("a"),
	}
	return l
}
