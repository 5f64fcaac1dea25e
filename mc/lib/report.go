//go:build go1.24

package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	log "github.com/sirupsen/logrus"
)

func init() { log.SetOutput(io.Discard) }

// Report collects what a check covered and found.
type Report struct {
	mu          sync.Mutex
	Prop        string
	Tier        string
	Start       time.Time
	States      int64
	Transitions int64
	Traces      int64
	Samples     []any
	Extra       map[string]any
	Assume      []string
	Exhaustive  bool
	found       []finding
	keys        map[string]bool
	Replays     []any
}

type finding struct {
	Key, Text string
	Replay    any
}

// NewReport starts a report from the command line environment.
func NewReport(prop string) *Report {
	return &Report{Prop: prop, Tier: Tier(), Start: time.Now(), Extra: map[string]any{}, Exhaustive: true, keys: map[string]bool{}}
}

// Tier is quick or thorough.
func Tier() string {
	if t := os.Getenv("VMC_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

// Thorough selects by tier.
func Thorough() bool { return Tier() == "thorough" }

// Pick selects a bound by tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Budget is the time left for exploring before the internal deadline.
func (r *Report) Deadline() time.Time {
	q, t := 330, 3000
	if v, err := strconv.Atoi(os.Getenv("VMC_BUDGET")); err == nil {
		q, t = v, v
	}
	if Thorough() {
		return r.Start.Add(time.Duration(t) * time.Second)
	}
	return r.Start.Add(time.Duration(q) * time.Second)
}

// Mine reports whether an issue belongs to this report's property.
func (r *Report) Mine(i Issue) bool { return i.Prop == r.Prop || i.Prop == "*" }

// Violation records a confirmed violation; key identifies what fails.
func (r *Report) Violation(key, text string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.keys[key] {
		return
	}
	r.keys[key] = true
	r.found = append(r.found, finding{key, text, replay})
	if os.Getenv("VMC_FIRST") != "" && os.Getenv("VMC_CHILD") == "" { // the first one will do
		if _, ok := known(r.Prop)[key]; !ok {
			fmt.Printf("VIOLATION property=%s replay=none\n  %s: %s\n", r.Prop, key, oneLine(text))
			os.Exit(1)
		}
	}
}

// Found returns the number of distinct findings.
func (r *Report) Found() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.found)
}

// Has reports whether a key was recorded.
func (r *Report) Has(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.keys[key]
}

// Sample keeps a few cases for the evidence.
func (r *Report) Sample(s any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 8 {
		r.Samples = append(r.Samples, s)
	}
}

// Incomplete notes that a bound was not exhausted.
func (r *Report) Incomplete(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Exhaustive = false
	l, _ := r.Extra["incomplete"].([]string)
	for _, x := range l {
		if x == why {
			return
		}
	}
	r.Extra["incomplete"] = append(l, why)
}

// Add counts an extra coverage number.
func (r *Report) Add(key string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	o, _ := r.Extra[key].(int64)
	r.Extra[key] = o + n
}

// Set records a coverage fact.
func (r *Report) Set(key string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Extra[key] = v
}

// Count adds to the main counters.
func (r *Report) Count(states, transitions, traces int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.States += states
	r.Transitions += transitions
	r.Traces += traces
}

// known reads the findings file: "known: property=<id> key=<key> <text>".
func known(prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(os.Getenv("VMC_VERIF"), "KNOWN_FINDINGS"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" key=[")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, "] ")
		if ok {
			m[key] = text
		}
	}
	return m
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (r *Report) Finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	verif := os.Getenv("VMC_VERIF")
	kn := known(r.Prop)
	sort.Slice(r.found, func(i, j int) bool { return r.found[i].Key < r.found[j].Key })
	bad := 0
	used := map[string]bool{}
	for n, f := range r.found {
		if _, ok := kn[f.Key]; ok {
			used[f.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, f.Key, oneLine(kn[f.Key]))
			continue
		}
		bad++
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, n))
		b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "key": f.Key, "text": f.Text, "replay": f.Replay}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
		fmt.Printf("  %s: %s\n", f.Key, oneLine(f.Text))
	}
	for k := range kn {
		if !used[k] {
			fmt.Printf("note: known finding [%s] was not met in this run\n", k)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if r.Samples == nil {
		r.Samples = []any{}
	}
	cov["states"] = r.States
	cov["transitions"] = r.Transitions
	cov["traces_validated_against_impl"] = r.Traces
	cov["samples"] = r.Samples
	cov["exhaustive"] = r.Exhaustive
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": bad,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: %d states, %d transitions, %d traces, exhaustive=%v, %.1fs, violations=%d\n", r.Prop, r.Tier, r.States, r.Transitions, r.Traces, r.Exhaustive, time.Since(r.Start).Seconds(), bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
