//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vexec"
)

// tools binds the stand-ins to the real compressors: every way ferryd runs
// them, from every initial state of input and output, must have the same
// outcome. Then every seed is indexed with the real tools.
func tools(r *lib.Report) {
	text := []byte(strings.Repeat("some text that compresses\n", 50))
	w := lib.NewWorld(99)
	w.PutSources(lib.All)
	type tool struct {
		name, kind string
		decomp     bool
		run        func(string, bool) error
	}
	for _, t := range []tool{{"xz", "xz", false, libeopkg.XzFile}, {"unxz", "xz", true, libeopkg.UnxzFile}, {"zstd", "zst", false, libeopkg.ZstdFile}, {"unzstd", "zst", true, libeopkg.UnzstdFile}} {
		for _, in := range []string{"present", "missing", "empty", "linked", "wrong"} {
			for _, out := range []string{"absent", "present", "linked"} {
				for _, keep := range []bool{false, true} {
					var got [2]string
					for k, real := range []bool{false, true} {
						dir, err := os.MkdirTemp(w.Base, "tools")
						if err != nil {
							panic(err)
						}
						vexec.Real = real
						plain, packed := filepath.Join(dir, "f"), filepath.Join(dir, "f."+t.kind)
						src, dst := plain, packed
						if t.decomp {
							src, dst = packed, plain
						}
						body := text
						if in == "empty" {
							body = nil
						}
						if t.decomp && in != "wrong" {
							body = pack(t.kind, body, real)
						}
						if in != "missing" {
							os.WriteFile(src, body, 0644)
							if in == "linked" {
								os.Link(src, filepath.Join(dir, "inlink"))
							}
						}
						if out != "absent" {
							os.WriteFile(dst, []byte("left over"), 0644)
							if out == "linked" {
								os.Link(dst, filepath.Join(dir, "outlink"))
							}
						}
						err = t.run(src, keep)
						got[k] = fmt.Sprintf("failed=%v %s", err != nil, look(dir, t.kind))
						vexec.Real = false
						os.RemoveAll(dir)
					}
					r.Add("conformance_cases", 1)
					if got[0] != got[1] {
						r.Violation("stand-in differs from the real "+t.name, fmt.Sprintf("input %s, output %s, keep %v: stand-in %s, real %s", in, out, keep, got[0], got[1]), nil)
					}
				}
			}
		}
	}
	// a whole indexing with the real tools
	vexec.Real = true
	defer func() { vexec.Real = false }()
	for _, s := range []lib.Seed{uni.S1, uni.S2, uni.S3, uni.S5} {
		snap, _, err := w.Session(&lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}, nil)
		if err == nil {
			// packages of the universe are packed for the stand-in, which the real
			// tools cannot read: only operations that index are run for real here
			vexec.Real = false
			snap, _, err = w.Session(snap, s.Ops)
			vexec.Real = true
		}
		if err != nil {
			r.Incomplete("real tools: " + err.Error())
			continue
		}
		w.Restore(snap)
		m, err := w.Open()
		if err != nil {
			r.Incomplete("real tools: " + err.Error())
			continue
		}
		repos, _ := m.GetRepos()
		for _, x := range repos {
			for round := 0; round < 2; round++ {
				if res := lib.Exec(w, m, uni.Idx(x.ID)); res.Err != nil {
					r.Violation("indexing fails with the real tools", fmt.Sprintf("%s: %s: %v", s.Name, x.ID, res), nil)
					continue
				}
				for _, i := range lib.CheckDerived(filepath.Join(w.Base, "repo", x.ID), x.ID) {
					r.Violation("real tools: "+i.Key, s.Name+": "+i.Text, nil)
				}
				r.Add("real_indexings", 1)
			}
		}
		m.Close()
	}
}

func pack(kind string, b []byte, real bool) []byte {
	if !real {
		return append(append([]byte(vexec.Magic(kind)), b...), "\nEND"...)
	}
	out, err := vexec.RealCompress(kind, b)
	if err != nil {
		panic(err)
	}
	return out
}

// look describes a directory, with compressed contents undone.
func look(dir, kind string) string {
	var s []string
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		what := "plain"
		if p, err := vexec.Decompress(kind, b); err == nil {
			b, what = p, "packed"
		} else if bytes.HasPrefix(b, []byte("\xfd7zXZ")) || bytes.HasPrefix(b, []byte("\x28\xb5\x2f\xfd")) {
			if p, err := vexec.RealDecompress(kind, b); err == nil {
				b, what = p, "packed"
			}
		}
		st, _ := os.Stat(filepath.Join(dir, e.Name()))
		s = append(s, fmt.Sprintf("%s:%s:%d:%x:%d", e.Name(), what, len(b), sum(b), st.Sys().(*syscall.Stat_t).Nlink))
	}
	return strings.Join(s, " ")
}

func sum(b []byte) (h uint32) {
	for _, c := range b {
		h = h*31 + uint32(c)
	}
	return
}
