//go:build go1.24

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vcloudflare"
	"github.com/getsolus/ferryd/src/verifmc/veff"
)

// C33: what is asked of the CDN, for every configuration, list, answer and
// operation, and for every failing step of publishing.

type purge struct {
	zone, auth string
	files      []string
	everything bool
	index      map[string]string // the index files of all repositories at that time
}

// cdn answers requests and keeps them.
type cdn struct {
	w      *lib.World
	answer string
	got    []purge
	odd    string
}

var answers = []string{"done", "refused", "refused silently", "server error", "forbidden", "not json", "no answer"}

func (c *cdn) RoundTrip(r *http.Request) (*http.Response, error) {
	p := purge{auth: r.Header.Get("Authorization"), index: indexFiles(c.w)}
	parts := strings.Split(r.URL.Path, "/")
	for i, s := range parts {
		if s == "zones" && i+2 < len(parts) && parts[i+2] == "purge_cache" {
			p.zone = parts[i+1]
		}
	}
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
	}
	body := map[string]any{}
	if p.zone == "" || json.Unmarshal(b, &body) != nil {
		c.odd = r.Method + " " + r.URL.Path + " " + string(b)
	}
	for k, v := range body {
		switch {
		case k == "files":
			l, _ := v.([]any)
			for _, f := range l {
				p.files = append(p.files, fmt.Sprint(f))
			}
		case k == "purge_everything" && v == true:
			p.everything = true
		case v != nil && fmt.Sprint(v) != "[]" && v != false:
			c.odd = string(b)
		}
	}
	c.got = append(c.got, p)
	reply := func(code int, text string) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(text)), Request: r}, nil
	}
	switch c.answer {
	case "done":
		return reply(200, `{"success":true,"errors":[],"messages":[],"result":{"id":"x"}}`)
	case "refused":
		return reply(200, `{"success":false,"errors":[{"code":1016,"message":"unable to purge"}],"messages":[],"result":null}`)
	case "refused silently":
		return reply(200, `{"success":false,"errors":[],"messages":[],"result":null}`)
	case "server error":
		return reply(503, `{"success":false,"errors":[{"code":1,"message":"later"}]}`)
	case "forbidden":
		return reply(403, `{"success":false,"errors":[{"code":9109,"message":"invalid token"}]}`)
	case "not json":
		return reply(200, `<html>`)
	}
	return nil, errors.New("connection refused")
}

// indexFiles reads the published index files of all repositories.
func indexFiles(w *lib.World) map[string]string {
	l := map[string]string{}
	repos, _ := os.ReadDir(filepath.Join(w.Base, "repo"))
	for _, e := range repos {
		for _, n := range lib.IndexFiles {
			if b, err := os.ReadFile(filepath.Join(w.Base, "repo", e.Name(), n)); err == nil {
				l[e.Name()+"/"+n] = string(b)
			}
		}
	}
	return l
}

// published identifies the index of every repository.
func published(w *lib.World) map[string]string {
	l := map[string]string{}
	repos, _ := os.ReadDir(filepath.Join(w.Base, "repo"))
	for _, e := range repos {
		if st, err := os.Stat(filepath.Join(w.Base, "repo", e.Name(), "eopkg-index.xml")); err == nil {
			l[e.Name()] = fmt.Sprint(st.Sys().(*syscall.Stat_t).Ino, st.ModTime().UnixNano())
		}
	}
	return l
}

type setting struct{ token, zone string } // "-": not set

func (s setting) apply() {
	for n, v := range map[string]string{"CLOUDFLARE_API_TOKEN": s.token, "CLOUDFLARE_ZONE_ID": s.zone} {
		if v == "-" {
			os.Unsetenv(n)
		} else {
			os.Setenv(n, v)
		}
	}
}

func (s setting) on() bool { return s.token != "-" && s.token != "" && s.zone != "-" && s.zone != "" }

func cdnOps(seed string, st *lib.State) []Op {
	l := []Op{uni.Idx("a"), uni.Idx("b"), uni.Mk("c"), uni.Clone("a", "c", true), uni.Del("b"), uni.Imp("b", lib.N2, lib.L10), uni.Pull("a", "b"), uni.Cps("a", "b", "nano", 2, false), uni.Cps("a", "b", "nano", 2, true),
		uni.Rms("a", "nano", 0), uni.Trim("a", 1), uni.Trimobs("a"), uni.Upl("b", lib.N3), uni.Imp("b", lib.NoMeta)}
	if seed == "rich" {
		l = append(l, uni.Delta("a", "nano", true), uni.Delta("a", "nano", false))
	}
	return l
}

func cdnLists() map[string]string {
	long := ""
	for i := 0; i < 45; i++ {
		long += fmt.Sprintf("https://cdn/x/%d\n", i)
	}
	return map[string]string{"none": "-", "empty": "", "blank lines": "\n\n\n", "one": "https://cdn/x/eopkg-index.xml", "one line": "https://cdn/x/eopkg-index.xml\n",
		"odd": "\n\nhttps://cdn/x/a b?c=d&e=<f>\nhttps://cdn/y/é\n\n#https://cdn/z\n", "twice": "https://cdn/x/1\nhttps://cdn/x/1\nhttps://cdn/x/2", "long": long}
}

func wanted(list string) (l []string) {
	for _, s := range strings.Split(list, "\n") {
		if s != "" && list != "-" {
			l = append(l, s)
		}
	}
	return
}

func setOf(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return lib.SortedKeys(m)
}

func purges(r *lib.Report) {
	sources := lib.All
	lib.Prepare(sources)
	w := lib.NewWorld(60)
	w.PutSources(sources)
	etc := filepath.Join(w.Root, "etc")
	veff.Etc = etc
	defer func() { veff.Etc = "" }()
	defer setting{"-", "-"}.apply()
	setting{"-", "-"}.apply()
	c := &cdn{w: w}
	vcloudflare.Transport = c
	defer func() { vcloudflare.Transport = nil }()
	empty, _, err := w.Session(&lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}, nil)
	if err != nil {
		r.Violation("daemon does not start on an empty directory", err.Error(), nil)
		return
	}
	lists := cdnLists()
	writeLists := func(list string) {
		os.RemoveAll(etc)
		os.MkdirAll(etc, 0755)
		for _, id := range []string{"a", "b", "c"} {
			if list != "-" {
				// every repository has files of its own
				os.WriteFile(filepath.Join(etc, id), []byte(strings.ReplaceAll(list, "cdn", "cdn-"+id)), 0644)
			}
		}
		for _, id := range []string{"A", "ab", "aa", "b-", "nano", "c.list"} {
			os.WriteFile(filepath.Join(etc, id), []byte("https://other/"+id+"\n"), 0644)
		}
	}
	seeds := []lib.Seed{uni.S1, uni.S2}
	if lib.Thorough() {
		seeds = append(seeds, uni.S3, uni.S5)
	}
	for _, sd := range seeds {
		base, _, err := w.Session(empty, sd.Ops)
		if err != nil {
			r.Incomplete(err.Error())
			return
		}
		st, err := w.Look(base)
		if err != nil {
			r.Incomplete(err.Error())
			return
		}
		for _, o := range cdnOps(sd.Name, st) {
			// undisturbed
			setting{"-", "-"}.apply()
			os.RemoveAll(etc)
			run := func(failAt int) (res lib.Res, pubs []string, n int) {
				w.Restore(base)
				m, err := w.Open()
				if err != nil {
					r.Incomplete(err.Error())
					return
				}
				before := published(w)
				c.got, c.odd = nil, ""
				w.Eff.Arm(0, 0, failAt)
				res = lib.Exec(w, m, o)
				n = w.Eff.N
				w.Eff.Arm(0, 0, 0)
				m.Close()
				for id, v := range published(w) {
					if before[id] != v {
						pubs = append(pubs, id)
					}
				}
				sort.Strings(pubs)
				return
			}
			plain, plainPubs, effects := run(0)
			snap := w.Take()
			judge := func(list, answer string, s setting, res lib.Res, pubs []string, faulty bool) {
				ctx := fmt.Sprintf("[%s] %v, list %q, token %q, zone %q, answer %q", sd.Name, o, list, s.token, s.zone, answer)
				bad := func(key, f string, a ...any) {
					r.Violation(key, ctx+": "+fmt.Sprintf(f, a...), []string{sd.Name, o.String(), list, answer})
				}
				r.Count(1, 1, 1)
				if res.Panic != "" {
					bad("the answer of the CDN ends the daemon", "%s", res.Panic)
					return
				}
				if c.odd != "" {
					bad("unexpected request", "%s", c.odd)
				}
				want := []string{}
				if s.on() && plain.Err == nil {
					for _, id := range plainPubs {
						for _, u := range wanted(lists[list]) {
							want = append(want, strings.ReplaceAll(u, "cdn", "cdn-"+id))
						}
					}
				}
				want = setOf(want)
				final := indexFiles(w)
				var got []string
				for _, p := range c.got {
					got = append(got, p.files...)
					if p.everything {
						bad("everything is purged", "")
					}
					if p.zone != s.zone || p.auth != "Bearer "+s.token {
						bad("wrong zone or credentials", "zone %q, %q", p.zone, p.auth)
					}
					for _, id := range pubs {
						for _, n := range lib.IndexFiles {
							if k := id + "/" + n; p.index[k] != final[k] {
								bad("purged before the new index is in place", "%s", k)
							}
						}
					}
				}
				got = setOf(got)
				if !s.on() && len(c.got) > 0 {
					bad("CDN is contacted without being configured", "%v", c.got)
				}
				if faulty && res.Err != nil {
					want = got // not published, or maybe only the cleanup failed
				} else if faulty {
					// fine when it got there
				} else {
					if plain.Err != nil && res.Err == nil {
						bad("failing operation succeeds", "")
					}
					if plain.Err == nil {
						fails := answer != "done" && len(want) > 0 && s.on()
						if fails && res.Err == nil {
							bad("failing purge is not reported", "")
						}
						if !fails && res.Err != nil && !(s.on() && answer != "done" || len(want) == 0 && len(c.got) > 0) {
							bad("operation fails", "%v", res)
						}
						if answer != "done" && res.Err != nil {
							// whatever was listed first may be all that was tried
							if len(want) > 0 && len(got) == 0 {
								bad("nothing is purged", "%v", want)
							}
							for _, u := range got {
								if i := sort.SearchStrings(want, u); i == len(want) || want[i] != u {
									bad("purges what is not listed", "%s", u)
								}
							}
							want = got
						}
						if d := snap.Diff(w.Take()); d != "" {
							bad("the CDN changes what is published", "%s", d)
						}
					}
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					bad("wrong files are purged", "purged %q, want %q", got, want)
				}
			}
			type cfg struct {
				list, answer string
				s            setting
			}
			on := setting{"tok-1", "zone-1"}
			var l []cfg
			for _, list := range lib.SortedKeys(lists) {
				for _, a := range answers {
					l = append(l, cfg{list, a, on})
				}
				for _, t := range []string{"-", "", "tok-1"} {
					for _, z := range []string{"-", "", "zone-1"} {
						if s := (setting{t, z}); !s.on() {
							l = append(l, cfg{list, "done", s})
						}
					}
				}
			}
			for _, x := range l {
				writeLists(lists[x.list])
				c.answer = x.answer
				x.s.apply()
				res, pubs, _ := run(0)
				judge(x.list, x.answer, x.s, res, pubs, false)
			}
			// every step of the operation fails once
			if plain.Err == nil && len(plainPubs) > 0 {
				writeLists(lists["twice"])
				c.answer = "done"
				on.apply()
				for k := 1; k <= effects; k++ {
					res, pubs, _ := run(k)
					judge("twice", fmt.Sprintf("done, step %d fails", k), on, res, pubs, true)
				}
			}
		}
	}
	r.Set("answers", len(answers))
	r.Set("lists", len(lists))
}
