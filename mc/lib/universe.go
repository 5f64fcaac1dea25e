//go:build go1.24

package lib

import (
	"fmt"
	"strings"
)

// The package universe shared by the harnesses.
var (
	N1  = P("nano", "nano", "1.0", 1)
	N2  = P("nano", "nano", "2.0", 2)
	N3  = P("nano", "nano", "3.0", 3)
	N2B = P("nano", "nano", "2.0b", 2) // same release as N2, different file
	N2C = P("nano", "nano", "1.9c", 2)
	// N2V has the ID of N2 but is another build: other release, other source
	N2V = variant(P("nano", "nano", "2.0", 2), "variant", func(p *Pkg) { p.Release = 5; p.Source = "nanofork" })
	// N3V has the ID of N3, the same metadata and other contents
	N3V = variant(P("nano", "nano", "3.0", 3), "variant", func(p *Pkg) {})

	// L9 has been numbered higher once
	L9  = older(P("libfoo", "libfoo", "9.1", 9), 50, 8)
	L10 = P("libfoo", "libfoo", "10.0", 10)
	D10 = P("libfoo-dbginfo", "libfoo", "10.0", 10)
	U10 = P("libfoo-utils", "libfoo", "10.0", 10)

	O1  = P("old", "old", "1", 1)
	O2  = P("old", "old", "2", 2)
	OD1 = P("old-dbginfo", "old", "1", 1)
	OD2 = P("old-dbginfo", "old", "2", 2)
	OX1 = P("oldest", "old", "1", 1) // name merely starts with an obsolete one
	OX2 = P("oldest", "old", "2", 2)

	Z1 = wholly(P("zed", "Zed", "1", 1)) // upper case source, pointless deltas
	Z2 = wholly(P("zed", "Zed", "2", 2))

	N1S = P("nano", "nanofork", "1.0s", 1) // same name and release as N1, another source

	SP = special(P("spécial", "ab", "1.0", 7))

	// sources with long characters where the location is cut
	EA = P("éa", "éa", "1", 1)
	LE = P("libé", "Libé", "1", 1)
	// metadata that claims what only the daemon decides
	DP = injected(P("claims", "claims", "2", 2), "<DeltaPackages><Delta releaseFrom=\"1\"><PackageURI>n/none</PackageURI><PackageSize>1</PackageSize><PackageHash>00</PackageHash></Delta></DeltaPackages><PackageSize>1</PackageSize><PackageHash>00</PackageHash><PackageURI>../../claims</PackageURI>")

	// names around the obsolete ones
	OT = P("old-dbginfo-tools", "old", "1", 1)
	OC = P("Old", "old", "1", 1)

	NoMeta  = &Pkg{File: "nometa-1-1-1-x86_64.eopkg", Name: "nometa", Source: "nometa", NoMeta: true}
	BadMeta = &Pkg{File: "badmeta-1-1-1-x86_64.eopkg", Name: "badmeta", Source: "badmeta", Meta: "<PISI><Source><Name>x</Name>"}
	NoHist  = &Pkg{File: "nohist-1-1-1-x86_64.eopkg", Name: "nohist", Source: "nohist",
		Meta: "<PISI><Source><Name>nohist</Name></Source><Package><Name>nohist</Name><Source><Name>nohist</Name></Source></Package></PISI>"}
	NotZip = &Pkg{File: "notzip-1-1-1-x86_64.eopkg", Name: "notzip", bytes: []byte("this is not an archive")}
	Empty  = &Pkg{File: "empty-1-1-1-x86_64.eopkg", Name: "empty", bytes: []byte{}}
)

// Several versions whose file names do not sort like their releases, in three
// families, with a build of another source that ties with one of them.
var (
	M2, M9, M10, M11 = P("multi", "multi", "1", 2), P("multi", "multi", "1", 9), P("multi", "multi", "1", 10), P("multi", "multi", "1", 11)
	X2, X9, X10, X11 = P("mix", "multi", "3", 2), P("mix", "multi", "1", 9), P("mix", "multi", "2", 10), P("mix", "multi", "1.5", 11)
	MD               = family(4, func(i int) *Pkg { return P("multi-dbginfo", "multi", "1", []int{2, 9, 10, 11}[i]) })
	M9S              = P("multi", "multi-fork", "1.9", 9)
	M12              = P("multi", "multi", "0.9", 12)
	Multi            = append([]*Pkg{M2, M9, M10, M11, X2, X9, X10, X11, M9S, M12}, MD...)

	// Kit are versions of which one was built for another distribution
	// release and one shares nothing with the last.
	Kit = []*Pkg{P("kit", "kit", "1", 1), other(P("kit", "kit", "2", 2)), wholly(P("kit", "kit", "3", 3)), P("kit", "kit", "4", 4), P("kit", "kit", "5", 5)}

	// Huge is larger than any buffer.
	Huge = huge(P("huge", "huge", "1", 1))

	// Many are the releases of one package, Bulk the packages of one source.
	Many = family(20, func(i int) *Pkg {
		return P("many", "many", fmt.Sprint(1+i%7), []int{3, 17, 1, 256, 9, 11, 65537, 2, 99, 100, 4, 65536, 18, 127, 128, 5, 2147483646, 70000, 1000, 255}[i])
	})
	Bulk = family(72, func(i int) *Pkg {
		n := fmt.Sprintf("bulk%d", i)
		if i%3 == 1 {
			n = fmt.Sprintf("bulk%d-dbginfo", i-1)
		}
		return P(n, "bulk", "1", 1+i%2)
	})
)

func family(n int, f func(i int) *Pkg) (l []*Pkg) {
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return
}

// All are the packages of the universe.
var All = append(append(append([]*Pkg{}, Good...), Bad...), append(append(append(append([]*Pkg{}, Multi...), Many...), Bulk...), append(Kit, Huge)...)...)

// Good are the well-formed packages, Bad the others.
var (
	Good = []*Pkg{N1, N2, N3, N2B, N2V, N3V, L9, L10, D10, U10, O1, O2, OD1, OD2, OX1, OX2, Z1, Z2, N1S, SP, EA, LE, DP, OT, OC, N2C}
	Bad  = []*Pkg{NoMeta, BadMeta, NoHist, NotZip, Empty}
)

func injected(p *Pkg, x string) *Pkg {
	p.Inject = x
	return p
}

func variant(p *Pkg, name string, f func(*Pkg)) *Pkg {
	p.Variant = name
	f(p)
	return p
}

func huge(p *Pkg) *Pkg {
	b := make([]byte, 2<<20)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 11)
	}
	p.Extra = map[string]string{"comar/data": string(b)}
	p.Summary = strings.Repeat("an index of megabytes ", 60000)
	return p
}

func older(p *Pkg, rel ...int) *Pkg {
	p.Older = rel
	return p
}

func other(p *Pkg) *Pkg {
	p.DistRel = "2"
	p.File = fmt.Sprintf("%s-%s-%d-2-x86_64.eopkg", p.Name, p.Version, p.Release)
	return p
}

func wholly(p *Pkg) *Pkg {
	p.Files = []TarEntry{{Path: "usr/bin/zed", Data: "zed " + p.Version, Mode: 0755}, {Path: "usr/share/zed", Data: "data " + p.Version}}
	return p
}

func special(p *Pkg) *Pkg {
	s := ""
	for i := 0; i < 700; i++ {
		s += fmt.Sprintf("é%d„“<&>€", i%10)
	}
	p.Summary = s
	p.Deps = []string{"old", "nano"}
	p.History = 3
	return p
}

func init() {
	// builds that only their contents tell apart
	for _, x := range [][2]*Pkg{{N2, N2V}, {N3, N3V}} {
		x[0].Peer, x[1].Peer = x[1], x[0]
	}
}

// Asset files.
const (
	DistA = `<?xml version="1.0"?>
<PISI><SourceName>Solus</SourceName><Description xml:lang="en">Solus Répository &amp; more</Description><Description xml:lang="fr">Dépôt</Description><Version>1</Version><Type>main</Type><BinaryName>Solus</BinaryName>
<Obsoletes><Package>old</Package><Package>never-was</Package></Obsoletes></PISI>`
	DistB = `<PISI><SourceName>Solus</SourceName><Description xml:lang="en">Other</Description><Version>2</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>libfoo</Package></Obsoletes></PISI>`
	// DistC lists a dbginfo name explicitly and nothing else
	DistC = `<PISI><SourceName>Solus</SourceName><Description xml:lang="en">C</Description><Version>3</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>libfoo-dbginfo</Package></Obsoletes></PISI>`
	// DistD makes families with many members obsolete
	DistD = `<PISI><SourceName>Solus</SourceName><Description xml:lang="en">D</Description><Version>4</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>bulk0</Package><Package>bulk6</Package><Package>multi</Package><Package>bulk2</Package><Package>bulk60</Package><Package>bulk71</Package></Obsoletes></PISI>`
	CompA = `<PISI><Components><Component><Name>system.base</Name><LocalName>Base</LocalName><LocalName xml:lang="fr">Bâse</LocalName><Summary>sum</Summary><Description>desc</Description><Group>system</Group><Maintainer><Name>M</Name><Email>m@x</Email></Maintainer></Component><Component><Name>desktop</Name><LocalName>Desk</LocalName><Summary>s</Summary><Description>d</Description><Group>g</Group><Maintainer><Name>M</Name><Email>m@x</Email></Maintainer></Component></Components></PISI>`
	CompB = `<PISI><Components><Component><Name>other</Name><LocalName>Other</LocalName><Summary>s2</Summary><Description>d2</Description><Group>g2</Group><Maintainer><Name>N</Name><Email>n@x</Email></Maintainer></Component></Components></PISI>`
	GrpA  = `<PISI><Groups><Group><Name>system</Name><LocalName>Système</LocalName><Icon>sys</Icon></Group><Group><Name>apps</Name><LocalName>Apps</LocalName><LocalName xml:lang="de">Programme</LocalName><Icon>app</Icon></Group></Groups></PISI>`
	// of the size of DistB, CompB and GrpB
	DistE = `<PISI><SourceName>Solus</SourceName><Description xml:lang="en">Other</Description><Version>2</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>oldest</Package></Obsoletes></PISI>`
	CompC = `<PISI><Components><Component><Name>outer</Name><LocalName>Outer</LocalName><Summary>s2</Summary><Description>d2</Description><Group>g2</Group><Maintainer><Name>N</Name><Email>n@x</Email></Maintainer></Component></Components></PISI>`
	GrpC  = `<PISI><Groups><Group><Name>zap</Name><LocalName>Zap</LocalName><Icon>z</Icon></Group></Groups></PISI>`
	GrpB  = `<PISI><Groups><Group><Name>zoo</Name><LocalName>Zoo</LocalName><Icon>z</Icon></Group></Groups></PISI>`
)

// AssetFiles are the names of the asset files.
var AssetFiles = []string{"distribution.xml", "components.xml", "groups.xml"}
