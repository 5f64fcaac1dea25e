//go:build go1.24

// Package lib is shared by the model checking harnesses: package universe,
// filesystem snapshots, reference model, observation and exploration.
package lib

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/vexec"
)

// TarEntry is one member of an install tarball.
type TarEntry struct {
	Path string
	Dir  bool
	Link string
	Data string
	Mode int64
}

// Pkg describes a package of the universe.
type Pkg struct {
	File    string // file name = ID
	Name    string
	Source  string
	Version string
	Release int
	DistRel string
	Arch    string
	Summary string
	Obs     string
	Deps    []string
	Files   []TarEntry
	Extra   map[string]string // further zip members
	Meta    string            // raw metadata.xml override
	NoMeta  bool
	Inject  string // what only the daemon may say about a package
	History int    // further history entries
	Older   []int  // releases of further history entries
	Variant string
	Peer    *Pkg // of the same size
	bytes   []byte
}

func sum1(b []byte) string   { h := sha1.Sum(b); return hex.EncodeToString(h[:]) }
func sum256(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

// Sha1 and Sha256 are hex digests.
func Sha1(b []byte) string   { return sum1(b) }
func Sha256(b []byte) string { return sum256(b) }

// PathComponent is the expected pool sub-directory.
func (p *Pkg) PathComponent() string { return PathComponent(p.Source) }

// PathComponent is the documented layout: libX/libXname or first letter.
func PathComponent(source string) string {
	n := strings.ToLower(source)
	k := 1
	if strings.HasPrefix(n, "lib") && len(n) > 3 {
		k = 4
	}
	return filepath.Join(string([]rune(n)[:k]), n)
}

func (p *Pkg) ID() string { return p.File }

func (p *Pkg) metadataXML() string {
	if p.Meta != "" {
		return p.Meta
	}
	x := p.PackageXML()
	if i := strings.LastIndex(x, "<Source>"); p.Inject != "" && i > 0 {
		x = x[:i] + p.Inject + x[i:]
	}
	return "<PISI>\n" + p.sourceXML() + x + "</PISI>"
}

func (p *Pkg) sourceXML() string {
	return fmt.Sprintf("<Source><Name>%s</Name><Homepage>https://example.org/%s</Homepage><Packager><Name>Jöhn Doe</Name><Email>j@example.org</Email></Packager></Source>\n", esc(p.Source), esc(p.Source))
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// PackageXML is the <Package> element of the metadata.
func (p *Pkg) PackageXML() string {
	var b strings.Builder
	sum := p.Summary
	if sum == "" {
		sum = "The " + p.Name + " package"
	}
	fmt.Fprintf(&b, "<Package><Name>%s</Name>\n<Summary>\n  %s\n</Summary><Summary xml:lang=\"fr\">Résumé de %s</Summary>", esc(p.Name), esc(sum), esc(p.Name))
	fmt.Fprintf(&b, "<Description xml:lang=\"en\">Describes %s &lt;%s&gt; &amp; more</Description>", esc(p.Name), p.Version)
	b.WriteString("<IsA>app</IsA><PartOf>system.base</PartOf><License>GPL-2.0</License><License>MIT</License>")
	if len(p.Deps) > 0 {
		b.WriteString("<RuntimeDependencies>")
		for i, d := range p.Deps {
			fmt.Fprintf(&b, "<Dependency releaseFrom=\"%d\">%s</Dependency>", i+3, d)
		}
		b.WriteString("</RuntimeDependencies>")
	}
	fmt.Fprintf(&b, "<Conflicts><Package>anti-%s</Package></Conflicts><Replaces><Package>old-%s</Package></Replaces>", p.Name, p.Name)
	fmt.Fprintf(&b, "<Provides><COMAR script=\"pakhandler.py\">System.PackageHandler</COMAR><PkgConfig>%s</PkgConfig></Provides>", p.Name)
	fmt.Fprintf(&b, "<History><Update release=\"%d\" type=\"security\"><Date>2020-01-02</Date><Version>%s</Version><Comment>Build é</Comment><Name>Jöhn</Name><Email>j@example.org</Email></Update>", p.Release, p.Version)
	for i := 0; i < p.History; i++ {
		fmt.Fprintf(&b, "<Update release=\"%d\"><Date>2019-01-02</Date><Version>0.%d</Version><Comment>older</Comment><Name>J</Name><Email>j@example.org</Email></Update>", p.Release-1-i, i)
	}
	for i, r := range p.Older {
		fmt.Fprintf(&b, "<Update release=\"%d\"><Date>2018-01-02</Date><Version>0.0.%d</Version><Comment>oldest</Comment><Name>J</Name><Email>j@example.org</Email></Update>", r, i)
	}
	dr := p.DistRel
	if dr == "" {
		dr = "1"
	}
	ar := p.Arch
	if ar == "" {
		ar = "x86_64"
	}
	fmt.Fprintf(&b, "</History><BuildHost>host</BuildHost><Distribution>Solus</Distribution><DistributionRelease>%s</DistributionRelease><Architecture>%s</Architecture><InstalledSize>%d</InstalledSize><PackageFormat>1.2</PackageFormat>%s</Package>\n", dr, ar, 1000+p.Release, p.sourceXML())
	return b.String()
}

// FilesXML is files.xml.
func (p *Pkg) FilesXML() string {
	var b strings.Builder
	b.WriteString("<Files>")
	for _, f := range p.files() {
		b.WriteString("<File><Path>" + esc(f.Path) + "</Path><Type>data</Type>")
		m := f.Mode
		if m == 0 {
			m = 0644
		}
		fmt.Fprintf(&b, "<Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0%o</Mode>", len(f.Data), m)
		if !f.Dir {
			fmt.Fprintf(&b, "<Hash>%s</Hash>", f.Hash())
		}
		b.WriteString("</File>")
	}
	b.WriteString("</Files>")
	return b.String()
}

// Hash is the content hash of an entry.
func (f TarEntry) Hash() string {
	if f.Link != "" {
		return sum1([]byte(f.Link))
	}
	return sum1([]byte(f.Data))
}

func (p *Pkg) files() []TarEntry {
	if p.Files != nil {
		return p.Files
	}
	return []TarEntry{
		{Path: "usr/bin/" + p.Name, Data: "binary of " + p.File + p.Variant, Mode: 0755},
		{Path: "usr/share/" + p.Name + "/common", Data: "common data of " + p.Name},
	}
}

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// TarBytes builds the install tarball.
func TarBytes(files []TarEntry) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, f := range files {
		h := &tar.Header{Name: f.Path, Mode: f.Mode, ModTime: epoch, Format: tar.FormatGNU}
		if h.Mode == 0 {
			h.Mode = 0644
		}
		switch {
		case f.Dir:
			h.Typeflag = tar.TypeDir
			h.Name += "/"
		case f.Link != "":
			h.Typeflag = tar.TypeSymlink
			h.Linkname = f.Link
		default:
			h.Typeflag = tar.TypeReg
			h.Size = int64(len(f.Data))
		}
		tw.WriteHeader(h)
		if h.Typeflag == tar.TypeReg {
			tw.Write([]byte(f.Data))
		}
	}
	tw.Close()
	return b.Bytes()
}

// XzStub is the simulated compression of data.
func XzStub(data []byte) []byte {
	return []byte(vexec.Magic("xz") + string(data) + "\nEND")
}

// Bytes builds the .eopkg file (memoised).
func (p *Pkg) Bytes() []byte {
	if p.bytes == nil {
		pad := 0
		if p.Peer != nil {
			if pad = len(p.Peer.build(0)) - len(p.build(0)); pad < 0 {
				pad = 0
			}
		}
		p.bytes = p.build(pad)
	}
	return p.bytes
}

func (p *Pkg) build(pad int) []byte {
	if p.bytes != nil {
		return p.bytes
	}
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	add := func(name, data string, m uint16) {
		w, _ := zw.CreateHeader(&zip.FileHeader{Name: name, Method: m, Modified: epoch})
		w.Write([]byte(data))
	}
	if !p.NoMeta {
		add("metadata.xml", p.metadataXML(), zip.Deflate)
	}
	add("files.xml", p.FilesXML(), zip.Deflate)
	var ks []string
	for k := range p.Extra {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(k, p.Extra[k], zip.Store)
	}
	add("install.tar.xz", string(XzStub(TarBytes(p.files()))), zip.Store)
	zw.SetComment(strings.Repeat("-", pad))
	zw.Close()
	return b.Bytes()
}

// P makes a package with the conventional file name.
func P(name, source, version string, release int) *Pkg {
	return &Pkg{File: fmt.Sprintf("%s-%s-%d-1-x86_64.eopkg", name, version, release), Name: name, Source: source, Version: version, Release: release}
}
