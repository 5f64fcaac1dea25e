//go:build go1.24 && withcopies

package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// copies runs the helpers that put files in their places from every initial
// state of source and target, failing and crashing at every effect: success
// means that the target has the source's contents, and nothing else changes.
func copies(r *lib.Report) {
	w := lib.NewWorld(98)
	look := func(p string) string {
		st, err := os.Lstat(p)
		if err != nil {
			return "absent"
		}
		if st.IsDir() {
			return "directory"
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("file %q", b)
	}
	helpers := []struct {
		name   string
		direct bool // the target is replaced in one step
		run    func(a, b string) error
	}{
		{"CopyFile", true, core.CopyFile},
		{"LinkOrCopyFile", false, func(a, b string) error { return core.LinkOrCopyFile(a, b, false) }},
		{"LinkOrCopyFile (forced copy)", true, func(a, b string) error { return core.LinkOrCopyFile(a, b, true) }},
	}
	const none = 1 << 20
	for _, h := range helpers {
		for _, src := range []string{"absent", "file", "empty", "directory"} {
			for _, dst := range []string{"absent", "file", "linked", "same", "directory"} {
				for _, part := range []bool{false, true} {
					if dst == "same" && src != "file" && src != "empty" {
						continue
					}
					// kind 0: undisturbed, 1: effect at fails, 2: crash there
					try := func(kind, at, tear int) (n int, tears []int) {
						dir, err := os.MkdirTemp(w.Base, "copies")
						if err != nil {
							panic(err)
						}
						defer os.RemoveAll(dir)
						a, b, other := filepath.Join(dir, "a"), filepath.Join(dir, "b"), filepath.Join(dir, "other")
						switch src {
						case "file":
							os.WriteFile(a, []byte("the contents"), 0644)
						case "empty":
							os.WriteFile(a, nil, 0644)
						case "directory":
							os.Mkdir(a, 0755)
						}
						switch dst {
						case "file", "linked":
							os.WriteFile(b, []byte("something else"), 0644)
							if dst == "linked" {
								os.Link(b, other)
							}
						case "same":
							os.Link(a, b)
						case "directory":
							os.Mkdir(b, 0755)
						}
						if part {
							os.WriteFile(b+".part", []byte("left over from before, and rather long"), 0644)
						}
						a0, b0, o0 := look(a), look(b), look(other)
						crash, fail := 0, 0
						switch kind {
						case 1:
							fail = at
						case 2:
							crash = at
						}
						w.Eff.Arm(crash, tear, fail)
						crashed := false
						func() {
							defer func() {
								if p := recover(); p != nil {
									if _, ok := p.(veff.Crash); !ok {
										panic(p)
									}
									crashed = true
								}
							}()
							err = h.run(a, b)
						}()
						n, tears = w.Eff.N, w.Eff.Tears
						w.Eff.Arm(0, 0, 0)
						r.Add("file_helper_cases", 1)
						r.Count(1, 1, 1)
						a1, b1, o1 := look(a), look(b), look(other)
						what := fmt.Sprintf("%s, source %s, target %s, left over part %v, kind %d at effect %d: error %v, source %s, target %s", h.name, src, dst, part, kind, at, err, a1, b1)
						bad := func(k string) { r.Violation("file helper: "+k, what, nil) }
						if a1 != a0 {
							bad("source changed")
						}
						if o1 != o0 {
							bad("a file that shared the replaced one was changed")
						}
						if crashed {
							if b1 != b0 && b1 != a0 && (h.direct || b1 != "absent") {
								bad("incomplete file in its place after a crash")
							}
							return
						}
						if err == nil && b1 != a0 {
							bad("reports success without the contents")
						}
						if err != nil && b1 != b0 && b1 != a0 && (h.direct || b1 != "absent") {
							bad("incomplete file in its place after a failure")
						}
						if kind == 0 && err != nil && (src == "file" || src == "empty") && dst != "directory" {
							bad("fails for no reason")
						}
						return
					}
					n, tears := try(0, none, 0)
					for at := 1; at <= n; at++ {
						try(1, at, 0)
						for t := 0; t <= tears[at-1]; t++ {
							try(2, at, t)
						}
					}
				}
			}
		}
	}
}
