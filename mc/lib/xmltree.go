//go:build go1.24

package lib

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
)

// Elem is an XML element in canonical form.
type Elem struct {
	Name  string
	Attr  map[string]string
	Text  string
	Child []*Elem
}

// ParseXML reads a complete document.
func ParseXML(b []byte) (*Elem, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*Elem
	var root *Elem
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			e := &Elem{Name: t.Name.Local, Attr: map[string]string{}}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				e.Attr[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Child = append(p.Child, e)
			} else if root == nil {
				root = e
			} else {
				return nil, fmt.Errorf("content after the document")
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(t)
			} else if strings.TrimSpace(string(t)) != "" {
				return nil, fmt.Errorf("text outside the document")
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, fmt.Errorf("incomplete document")
	}
	return root, nil
}

// Get returns the children of that name.
func (e *Elem) Get(name string) []*Elem {
	var out []*Elem
	for _, c := range e.Child {
		if c.Name == name {
			out = append(out, c)
		}
	}
	return out
}

// Path returns the text of a nested child.
func (e *Elem) Path(names ...string) string {
	for _, n := range names {
		l := e.Get(n)
		if len(l) == 0 {
			return ""
		}
		e = l[0]
	}
	return strings.TrimSpace(e.Text)
}

// Canon is a canonical rendering: the order of differently named siblings does
// not matter, that of equally named ones does. Elements that carry nothing are
// left out.
func (e *Elem) Canon() string {
	var b strings.Builder
	e.canon(&b)
	return b.String()
}

func (e *Elem) canon(b *strings.Builder) {
	var kids []*Elem
	for _, c := range e.Child {
		if !c.void() {
			kids = append(kids, c)
		}
	}
	b.WriteString("<" + e.Name)
	var as []string
	for k, v := range e.Attr {
		as = append(as, fmt.Sprintf(" %s=%q", k, v))
	}
	sort.Strings(as)
	b.WriteString(strings.Join(as, "") + ">")
	if len(kids) == 0 {
		b.WriteString(strings.TrimSpace(e.Text))
	}
	sort.SliceStable(kids, func(i, j int) bool { return kids[i].Name < kids[j].Name })
	for _, c := range kids {
		c.canon(b)
	}
	b.WriteString("</>")
}

func (e *Elem) void() bool {
	if len(e.Attr) > 0 || strings.TrimSpace(e.Text) != "" {
		return false
	}
	for _, c := range e.Child {
		if !c.void() {
			return false
		}
	}
	return true
}

// firstLang gives the first of some localised siblings the default language.
func (e *Elem) firstLang(names ...string) {
	for _, n := range names {
		l := e.Get(n)
		if len(l) > 0 && l[0].Attr["lang"] == "" {
			l[0].Attr["lang"] = "en"
		}
	}
}

func leaf(name, text string) *Elem { return &Elem{Name: name, Attr: map[string]string{}, Text: text} }

// DeltaRef is an expected delta entry of the index.
type DeltaRef struct {
	From int
	URI  string
	Size int64
	Hash string
}

// ExpectPackage is the canonical index entry of a package.
func (p *Pkg) ExpectPackage(deltas []DeltaRef) (string, error) {
	e, err := ParseXML([]byte(p.PackageXML()))
	if err != nil {
		return "", err
	}
	e.firstLang("Summary", "Description")
	e.Child = append(e.Child,
		leaf("PackageSize", fmt.Sprint(len(p.Bytes()))),
		leaf("PackageHash", Sha1(p.Bytes())),
		leaf("PackageURI", p.PathComponent()+"/"+p.ID()))
	if len(deltas) > 0 {
		ds := leaf("DeltaPackages", "")
		for _, d := range deltas {
			x := leaf("Delta", "")
			if d.From != 0 {
				x.Attr["releaseFrom"] = fmt.Sprint(d.From)
			}
			x.Child = []*Elem{leaf("PackageURI", d.URI), leaf("PackageSize", fmt.Sprint(d.Size)), leaf("PackageHash", d.Hash)}
			ds.Child = append(ds.Child, x)
		}
		e.Child = append(e.Child, ds)
	}
	return e.Canon(), nil
}

// ExpectAssets is what the index must contain for a repository's asset files.
func ExpectAssets(assets map[string]string) (dist []string, comps []string, groups []string, obsolete map[string]bool, err error) {
	obsolete = map[string]bool{}
	if a, ok := assets["distribution.xml"]; ok {
		e, err := ParseXML([]byte(a))
		if err != nil {
			return nil, nil, nil, nil, err
		}
		e.Name = "Distribution"
		for _, o := range e.Get("Obsoletes") {
			for _, p := range o.Get("Package") {
				obsolete[p.Text] = true
			}
		}
		dist = append(dist, e.Canon())
	}
	list := func(file, outer, inner string, langs ...string) []string {
		a, ok := assets[file]
		if !ok {
			return nil
		}
		e, err2 := ParseXML([]byte(a))
		if err2 != nil {
			err = err2
			return nil
		}
		var out []string
		for _, o := range e.Get(outer) {
			for _, c := range o.Get(inner) {
				c.firstLang(langs...)
				out = append(out, c.Canon())
			}
		}
		sort.Strings(out)
		return out
	}
	comps = list("components.xml", "Components", "Component", "LocalName", "Summary", "Description")
	groups = list("groups.xml", "Groups", "Group", "LocalName")
	return
}

// IsObsolete applies the distribution file's rule.
func IsObsolete(obs map[string]bool, name string) bool {
	return obs[name] || strings.HasSuffix(name, "-dbginfo") && obs[strings.TrimSuffix(name, "-dbginfo")]
}

// Deltas are the deltas an index entry offers.
func (e *Elem) Deltas() (l []*Elem) {
	for _, d := range e.Get("DeltaPackages") {
		l = append(l, d.Get("Delta")...)
	}
	return
}
