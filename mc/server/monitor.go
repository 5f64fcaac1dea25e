//go:build go1.24

package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	real "github.com/radu-munteanu/fsnotify"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/h/uni"
	"github.com/getsolus/ferryd/src/verifmc/vfsnotify"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
	"github.com/getsolus/ferryd/src/verifmc/vsignal"
)

// drop is a directory that uploads go to, with a model of the events which the
// kernel and the fsnotify library produce for what is done there.
type drop struct {
	dir, aside string
	open       map[string]*os.File // by current name
	emit       func(vfsnotify.Event)
	done       func(name string) // the content of a file became complete
}

func (d *drop) ev(name string, op vfsnotify.Op) {
	p := d.dir
	if name != "" {
		p += "/" + name
	}
	d.emit(vfsnotify.Event{Name: p, Op: op})
}

func (d *drop) path(n string) string { return filepath.Join(d.dir, n) }

func there(p string) bool { _, err := os.Lstat(p); return err == nil }

func regular(p string) bool { st, err := os.Stat(p); return err == nil && st.Mode().IsRegular() }

// step is one action of an uploader.
type step struct {
	name string
	do   func(d *drop)
}

func (s step) String() string { return s.name }

func begin(n string) step {
	return step{"begin " + n, func(d *drop) {
		if d.open[n] != nil {
			return
		}
		if st, err := os.Lstat(d.path(n)); err == nil && st.IsDir() {
			return
		}
		old := there(d.path(n))
		var size int64
		if old {
			st, _ := os.Stat(d.path(n))
			size = st.Size()
		}
		f, err := os.Create(d.path(n))
		if err != nil {
			return
		}
		d.open[n] = f
		if !old {
			d.ev(n, vfsnotify.Create)
		} else if size > 0 {
			d.ev(n, vfsnotify.Write)
		}
		f.WriteString("half")
		d.ev(n, vfsnotify.Write)
	}}
}

func finish(n string) step {
	return step{"finish " + n, func(d *drop) {
		f := d.open[n]
		if f == nil {
			return
		}
		delete(d.open, n)
		f.WriteString(" and half")
		d.ev(n, vfsnotify.Write)
		f.Close()
		d.ev(n, vfsnotify.Update|vfsnotify.Close)
		d.done(n)
	}}
}

func write(n string) step {
	return step{"write " + n, func(d *drop) {
		if d.open[n] != nil {
			return
		}
		begin(n).do(d)
		finish(n).do(d)
	}}
}

func touch(n string) step {
	return step{"touch " + n, func(d *drop) {
		if d.open[n] != nil || there(d.path(n)) {
			return
		}
		os.WriteFile(d.path(n), nil, 0644)
		d.ev(n, vfsnotify.Create)
		d.ev(n, vfsnotify.Update|vfsnotify.Close)
		d.done(n)
	}}
}

func readFile(n string) step {
	return step{"read " + n, func(d *drop) {
		if !regular(d.path(n)) {
			return
		}
		os.ReadFile(d.path(n))
		d.ev(n, vfsnotify.Close)
	}}
}

func chmod(n string) step {
	return step{"chmod " + n, func(d *drop) {
		if os.Chmod(d.path(n), 0600) == nil {
			d.ev(n, vfsnotify.Chmod)
		}
	}}
}

func unlink(n string) step {
	return step{"remove " + n, func(d *drop) {
		if d.open[n] != nil { // its further events carry a name that is gone
			return
		}
		if os.Remove(d.path(n)) == nil {
			d.ev(n, vfsnotify.Remove)
		}
	}}
}

func rename(a, b string) step {
	return step{"rename " + a + " " + b, func(d *drop) {
		if !there(d.path(a)) || d.open[b] != nil || os.Rename(d.path(a), d.path(b)) != nil {
			return
		}
		if f := d.open[a]; f != nil {
			delete(d.open, a)
			d.open[b] = f
		}
		d.ev(a, vfsnotify.Rename)
		d.ev(b, vfsnotify.Create|vfsnotify.Update)
		d.done(b)
	}}
}

func moveIn(n string, dir bool) step {
	name := "move in "
	if dir {
		name = "move in directory "
	}
	return step{name + n, func(d *drop) {
		src := filepath.Join(d.aside, "x")
		os.RemoveAll(src)
		if dir {
			os.Mkdir(src, 0755)
		} else {
			os.WriteFile(src, []byte("whole"), 0644)
		}
		if d.open[n] != nil || os.Rename(src, d.path(n)) != nil {
			return
		}
		d.ev(n, vfsnotify.Create|vfsnotify.Update)
		d.done(n) // if what is there in the end is a file
	}}
}

// a socket is neither a directory nor a file
func moveInSocket(n string) step {
	return step{"move in socket " + n, func(d *drop) {
		src := filepath.Join(d.aside, "x")
		os.RemoveAll(src)
		if syscall.Mknod(src, syscall.S_IFSOCK|0644, 0) != nil || d.open[n] != nil || os.Rename(src, d.path(n)) != nil {
			return
		}
		d.ev(n, vfsnotify.Create|vfsnotify.Update)
	}}
}

func moveOut(n string) step {
	return step{"move out " + n, func(d *drop) {
		if d.open[n] != nil || !there(d.path(n)) {
			return
		}
		dst := filepath.Join(d.aside, "y")
		os.RemoveAll(dst)
		if os.Rename(d.path(n), dst) == nil {
			d.ev(n, vfsnotify.Rename)
		}
	}}
}

func mkdir(n string) step {
	return step{"mkdir " + n, func(d *drop) {
		if os.Mkdir(d.path(n), 0755) == nil {
			d.ev(n, vfsnotify.Create)
		}
	}}
}

func listDir() step {
	return step{"list", func(d *drop) {
		os.ReadDir(d.dir)
		d.ev("", vfsnotify.Close)
	}}
}

func inside(dir, n string) step {
	return step{"write " + dir + "/" + n, func(d *drop) {
		os.WriteFile(filepath.Join(d.path(dir), n), []byte("x"), 0644)
	}}
}

func (d *drop) close() {
	for _, f := range d.open {
		f.Close()
	}
}

// steps is the alphabet of the histories.
func steps() []step {
	return []step{
		write("a.tram"), write("b.tram"), begin("a.tram"), finish("a.tram"), touch("c d.tram"), moveIn("a.tram", false), moveIn("b.tram", false),
		rename("a.tram", "b.tram"), rename("a.part", "a.tram"), rename("a.tram", "a.part"), unlink("a.tram"), readFile("a.tram"), chmod("a.tram"), moveOut("a.tram"),
		write("a.part"), begin("a.part"), finish("a.part"), write("a.tram.part"), write("a.TRAM"), write("tram"), touch(".tram"), write("p.eopkg"), write("é.tram"),
		mkdir("d.tram"), inside("d.tram", "a.tram"), inside("sub", "a.tram"), moveIn("d.tram", true), moveIn("a.tram", true), listDir(), moveInSocket("s.tram"),
	}
}

// errors the library reports
var watchErrors = []error{vfsnotify.ErrEventOverflow, errors.New("notify: short read in readEvents()"), syscall.EINTR}

// kernelEvents compares the model of the events with those the real library
// delivers for the same actions on real files.
func kernelEvents(r *lib.Report) {
	al := steps()
	depth := lib.Pick(2, 3)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(al)
	}
	root := filepath.Join(lib.TmpRoot(), "kernel")
	defer os.RemoveAll(root)
	var bad []string
	work := make(chan int)
	res := make(chan string)
	for k := 0; k < 16; k++ {
		go func(k int) {
			for i := range work {
				d := filepath.Join(root, fmt.Sprint(k))
				os.RemoveAll(d)
				res <- conform(d, al, i, depth)
			}
		}(k)
	}
	go func() {
		for i := 0; i < n; i++ {
			work <- i
		}
		close(work)
	}()
	for i := 0; i < n; i++ {
		if t := <-res; t != "" {
			bad = append(bad, t)
		}
	}
	sort.Strings(bad)
	r.Set("event_model_histories_compared_with_the_kernel", n)
	if len(bad) > 0 {
		fmt.Fprintln(os.Stderr, "the event model does not match the real watcher:", bad[0])
		os.Exit(3)
	}
}

func newDrop(dir, aside string) *drop {
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	os.MkdirAll(aside, 0755)
	return &drop{dir: dir, aside: aside, open: map[string]*os.File{}, emit: func(vfsnotify.Event) {}, done: func(string) {}}
}

// conform runs one history; the answer is empty if model and library agree.
func conform(root string, al []step, i, depth int) string {
	d := newDrop(filepath.Join(root, "in"), filepath.Join(root, "aside"))
	defer d.close()
	w, err := real.NewWatcher()
	if err != nil {
		return "no watcher: " + err.Error()
	}
	defer w.Close()
	if err := w.Add(d.dir); err != nil {
		return err.Error()
	}
	var hist []string
	for k := 0; k < depth; k++ {
		s := al[i%len(al)]
		i /= len(al)
		hist = append(hist, s.name)
		var want, got []real.Event
		d.emit = func(e vfsnotify.Event) { want = append(want, e) }
		s.do(d)
		// a mark behind the events of this step
		mark := filepath.Join(d.dir, fmt.Sprintf("mark%d", k))
		os.Mkdir(mark, 0755)
	read:
		for {
			select {
			case e := <-w.Events:
				if e.Name == mark {
					break read
				}
				got = append(got, e)
			case err := <-w.Errors:
				return fmt.Sprint(hist, err)
			case <-time.After(10 * time.Second):
				return fmt.Sprint(hist, " no mark")
			}
		}
		if a, b := events(want), events(got); a != b {
			return fmt.Sprintf("%q: model %s, library %s", hist, a, b)
		}
	}
	return ""
}

// events renders events; repeated writes may be merged by the kernel.
func events(l []real.Event) string {
	var t []string
	for _, e := range l {
		x := fmt.Sprintf("%s:%s", filepath.Base(e.Name), e.Op)
		if n := len(t); n > 0 && t[n-1] == x && e.Op == real.Write {
			continue
		}
		t = append(t, x)
	}
	return strings.Join(t, " ")
}

// uploads is a running scenario.
type uploads struct {
	w      *lib.World
	d      *drop
	watch  *vfsnotify.Watcher
	proc   *vsched.Proc
	batch  []string // completions whose events may not have been handled
	expect []string // manifests that must be queued, in order
	out    []lib.Issue
	hist   []string
}

func (u *uploads) bad(key, f string, a ...any) {
	u.out = append(u.out, lib.Issue{Prop: "C30", Key: key, Text: fmt.Sprintf("%v: ", u.hist) + fmt.Sprintf(f, a...)})
}

func (u *uploads) start(dm *daemon) bool {
	if !dm.serving() {
		u.bad("daemon does not start", "")
		return false
	}
	u.proc = dm.p
	for _, x := range *vfsnotify.All() {
		if x.Pid == dm.p.Pid {
			u.watch = x
		}
	}
	dir := filepath.Join(u.w.Base, "incoming")
	if u.watch == nil || len(u.watch.Dirs) == 0 {
		u.bad("nothing is watched", "")
		return false
	}
	watched := map[string]bool{}
	for _, x := range u.watch.Dirs {
		watched[filepath.Clean(x)] = true
	}
	if !watched[dir] {
		u.bad("the upload directory is not watched", "%v", u.watch.Dirs)
		return false
	}
	u.d = newDrop(dir, filepath.Join(u.w.Root, "aside"))
	u.d.emit = func(e vfsnotify.Event) {
		if watched[filepath.Dir(e.Name)] || watched[e.Name] {
			u.watch.Feed(e)
		}
	}
	u.d.done = func(n string) {
		if strings.HasSuffix(n, ".tram") {
			u.batch = append(u.batch, n)
		}
	}
	return true
}

// drain waits until all events have been handled.
func (u *uploads) drain() {
	vsched.Block("events handled", func() bool { return u.watch.Pending() == 0 || !u.proc.Alive })
	vsched.Sleep(time.Millisecond) // until everybody waits
	u.settled()
}

// settled moves completions that must have been queued to the expected ones.
// A file that is gone, or no file any more, cannot be processed.
func (u *uploads) settled() {
	for _, n := range u.batch {
		if regular(u.d.path(n)) {
			u.expect = append(u.expect, n)
		}
	}
	u.batch = nil
}

func manifestOf(desc string) (string, bool) {
	r, ok := strings.CutPrefix(desc, "Process manifest '")
	if !ok {
		return desc, false
	}
	return filepath.Base(strings.TrimSuffix(r, "'")), strings.HasSuffix(r, ".tram'")
}

// queued lists the manifests that have been queued, in order.
func (u *uploads) queued() (l []string) {
	st, err := status(u.w)
	if err != nil {
		u.bad("status fails", "%v", err)
		return
	}
	for _, j := range st.CurrentJobs {
		n, ok := manifestOf(j.Description)
		if !ok {
			u.bad("something else is queued", "%q", j.Description)
		}
		l = append(l, n)
	}
	if len(st.CompletedJobs)+len(st.FailedJobs) > 0 {
		u.bad("jobs are over before they can be", "%v %v", describe(st.CompletedJobs), describe(st.FailedJobs))
	}
	return
}

func (u *uploads) compare() {
	got := u.queued()
	if fmt.Sprint(got) == fmt.Sprint(u.expect) {
		return
	}
	g, e := map[string]int{}, map[string]int{}
	for _, n := range got {
		g[n]++
	}
	for _, n := range u.expect {
		e[n]++
	}
	key := "manifests are queued in another order"
	for n := range g {
		if g[n] > e[n] {
			key = "something is queued that is no completed manifest upload"
			if e[n] > 0 {
				key = "a completed upload is queued more than once"
			}
		}
	}
	for n := range e {
		if g[n] < e[n] {
			key = "a completed upload is not queued"
		}
	}
	u.bad(key, "queued %q, want %q", got, u.expect)
}

func monitorScenarios() (scen []lib.Scenario) {
	var base *lib.Snap
	prep := func(w *lib.World) {
		if base != nil {
			return
		}
		s, _, err := w.Session(emptySnap, []lib.Op{uni.Mk("a")})
		if err != nil {
			panic(err)
		}
		base = s
	}
	al := steps()
	one := func(w *lib.World, o vsched.Opts, body func(u *uploads)) (*vsched.Result, []lib.Issue) {
		reset(w, base)
		os.RemoveAll(filepath.Join(w.Root, "aside"))
		u := &uploads{w: w}
		res := vsched.Run(o, func() {
			vsched.Freeze()
			dm := boot(w)
			if !u.start(dm) {
				return
			}
			vsched.Thaw()
			body(u)
		})
		if u.d != nil {
			u.d.close()
		}
		over(w)
		return res, append(u.out, ended("C30", res)...)
	}
	// histories of steps, with the events handled after any of them
	for _, depth := range []int{1, 2, lib.Pick(3, 4)} {
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(al)
		}
		masks := 1 << (depth - 1)
		scen = append(scen, lib.Scenario{Name: fmt.Sprintf("histories of %d", depth), Prepare: prep, Opts: opts25, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
			return item(w, o, n*masks, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
				return one(w, o, func(u *uploads) {
					mask := i % masks
					i /= masks
					for k := 0; k < depth; k++ {
						s := al[i%len(al)]
						i /= len(al)
						u.hist = append(u.hist, s.name)
						s.do(u.d)
						if mask>>k&1 == 1 {
							u.drain()
							u.hist = append(u.hist, "handled")
						}
					}
					u.drain()
					u.compare()
				})
			})
		}})
	}
	// errors between uploads do not stop the monitor
	pre := []step{write("a.tram"), begin("a.tram"), listDir(), mkdir("d.tram")}
	post := []step{write("b.tram"), moveIn("b.tram", false), finish("a.tram"), rename("a.tram", "c.tram"), write("x.part")}
	scen = append(scen, lib.Scenario{Name: "errors of the watcher", Prepare: prep, Opts: opts25, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		return item(w, o, len(pre)*len(post)*len(watchErrors)*3*4, func(w *lib.World, o vsched.Opts, i int) (*vsched.Result, []lib.Issue) {
			return one(w, o, func(u *uploads) {
				next := func(n int) int { v := i % n; i /= n; return v }
				a, b, e, times, mask := pre[next(len(pre))], post[next(len(post))], watchErrors[next(len(watchErrors))], next(3)+1, next(4)
				u.hist = []string{a.name, fmt.Sprint(times, " times ", e), b.name}
				a.do(u.d)
				if mask&1 == 1 {
					u.drain()
				}
				for k := 0; k < times; k++ {
					u.watch.Feed(e)
				}
				if mask&2 == 2 {
					u.drain()
				}
				b.do(u.d)
				u.drain()
				u.compare()
			})
		})
	}})
	// uploads while the daemon shuts down
	few := []step{write("a.tram"), write("b.tram"), moveIn("c.tram", false), rename("a.tram", "d.tram"), write("x.part"), unlink("a.tram")}
	stop := func(name string, bound, depth int) {
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(few)
		}
		sc := lib.Scenario{Name: name, Bound: bound, Prepare: prep, Opts: vsched.Opts{AllCost: true, NoTimerPre: true, MaxTicks: 400, MaxSteps: 60000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
			var u *uploads
			all := map[string]bool{}
			var order []string
			res, out := one(w, o, func(x *uploads) {
				u = x
				i := vsched.ChooseFree(n, "history")
				over := vsched.ChooseFree(2, "error") == 1
				emit := u.d.emit
				var done []string
				u.d.done = func(n string) {
					if strings.HasSuffix(n, ".tram") {
						done = append(done, n)
						all[n] = true
					}
				}
				running := true
				vsched.GoProc("uploader", vsched.CurProc(), func() {
					u.d.emit = func(e vfsnotify.Event) {
						emit(e)
						vsched.Point("upload")
					}
					for k := 0; k < depth; k++ {
						s := few[i%len(few)]
						i /= len(few)
						u.hist = append(u.hist, s.name)
						s.do(u.d)
						if over && k == 0 {
							u.watch.Feed(watchErrors[0])
						}
						vsched.Point("upload")
					}
					running = false
				})
				vsched.Block("signals", func() bool { return vsignal.Registered(u.proc.Pid) })
				vsignal.Send(u.proc.Pid, syscall.SIGTERM)
				vsched.Block("gone", func() bool { return !u.proc.Alive && !running })
				order = done
			})
			if u == nil || res.Deadlock != "" || res.Panic != "" || res.Horizon {
				return res, out
			}
			// what was queued, from the store the daemon left behind
			before := len(u.out)
			st, err := jobs.NewStore(w.Base)
			if err != nil {
				u.bad("the queue cannot be read after the shutdown", "%v", err)
				return res, append(out, u.out[before:]...)
			}
			active, err := st.ActiveJobs()
			failed, err2 := st.FailedJobs()
			completed, err3 := st.CompletedJobs()
			err = errors.Join(err, err2, err3)
			st.Close()
			if err != nil || len(failed)+len(completed) > 0 {
				u.bad("the queue cannot be read after the shutdown", "%v, %d past jobs", err, len(failed)+len(completed))
			}
			k := 0
			for _, j := range active {
				n, ok := manifestOf(j.Description)
				if !ok || !all[n] {
					u.bad("something is queued that is no completed manifest upload", "%q", j.Description)
					continue
				}
				// completions, in order, some of which were gone when handled
				for k < len(order) && order[k] != n {
					if order[k] != "a.tram" {
						u.bad("a completed upload is left out", "%d completions %q, queued %d", len(order), order, len(active))
					}
					k++
				}
				if k == len(order) {
					u.bad("manifests are queued more than once or in another order", "%d completions %q, queued %v", len(order), order, len(active))
					break
				}
				k++
			}
			return res, append(out, u.out[before:]...)
		}}
		scen = append(scen, sc)
	}
	stop("uploads during shutdown", lib.Pick(1, 2), 2)
	stop("many uploads during shutdown", lib.Pick(1, 2), 3)
	// uploads that are worked off meanwhile
	type good struct {
		p   *lib.Pkg
		man string
	}
	goods := []good{{lib.N3, "m1.tram"}, {lib.L10, "m2.tram"}}
	put := func(n, content string) step {
		return step{"put " + n, func(d *drop) {
			f, _ := os.Create(d.path(n))
			d.ev(n, vfsnotify.Create)
			f.WriteString(content[:len(content)/2])
			d.ev(n, vfsnotify.Write)
			f.WriteString(content[len(content)/2:])
			d.ev(n, vfsnotify.Write)
			f.Close()
			d.ev(n, vfsnotify.Update|vfsnotify.Close)
			d.done(n)
		}}
	}
	var orders [][]int
	var mix func(a, b []int, cur []int)
	mix = func(a, b []int, cur []int) {
		if len(a)+len(b) == 0 {
			orders = append(orders, append([]int{}, cur...))
			return
		}
		if len(a) > 0 {
			mix(a[1:], b, append(cur, a[0]))
		}
		if len(b) > 0 {
			mix(a, b[1:], append(cur, b[0]))
		}
	}
	mix([]int{0, 1}, []int{2, 3}, nil)
	var want [2]*lib.Snap
	prepWhole := func(w *lib.World) {
		prep(w)
		if want[0] != nil {
			return
		}
		pk := []*lib.Pkg{lib.N3, lib.L10}
		lib.Prepare(pk)
		w.PutSources(pk)
		for i, l := range [][]lib.Op{{uni.Imp("a", lib.N3), uni.Imp("a", lib.L10)}, {uni.Imp("a", lib.L10), uni.Imp("a", lib.N3)}} {
			s, res, err := w.Session(base, l)
			if err != nil || res[0].Err != nil || res[1].Err != nil {
				panic(fmt.Sprint(err, res))
			}
			want[i] = strip(s)
		}
	}
	scen = append(scen, lib.Scenario{Name: "uploads worked off meanwhile", Bound: lib.Pick(1, 1), Prepare: prepWhole, Opts: vsched.Opts{AllCost: true, NoTimerPre: true, MaxTicks: 400, MaxSteps: 60000}, Exec: func(w *lib.World, o vsched.Opts) (*vsched.Result, []lib.Issue) {
		var u *uploads
		first := 0
		res, out := one(w, o, func(x *uploads) {
			u = x
			ord := orders[vsched.ChooseFree(len(orders), "order")]
			pause := vsched.ChooseFree(8, "pauses")
			again := vsched.ChooseFree(2, "again") == 1
			var l []step
			for _, g := range goods {
				l = append(l, put(g.p.File, string(g.p.Bytes())), put(g.man, fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = \"a\"\n[[file]]\npath = %q\nsha256 = %q\n", g.p.File, lib.Sha256(g.p.Bytes()))))
			}
			emit := u.d.emit
			u.d.emit = func(e vfsnotify.Event) {
				emit(e)
				vsched.Point("upload")
			}
			w.Eff.After = func(op, p, p2 string) {
				if op == "remove" && filepath.Dir(p) == u.d.dir {
					emit(vfsnotify.Event{Name: p, Op: vfsnotify.Remove})
				}
			}
			done := 0
			n := 2
			for i, k := range ord {
				l[k].do(u.d)
				u.hist = append(u.hist, l[k].name)
				if k == 3 && done == 0 {
					first = 1
				}
				if k&1 == 1 {
					done++
				}
				if pause>>i&1 == 1 {
					vsched.Sleep(3 * time.Second)
					u.hist = append(u.hist, "pause")
				}
			}
			if again { // the same upload once more
				vsched.Freeze()
				idle(w)
				vsched.Thaw()
				l[0].do(u.d)
				l[1].do(u.d)
				n++
			}
			vsched.Freeze()
			vsched.Quiet(func() {
				u.watch.Feed(vfsnotify.Event{Name: u.d.dir, Op: vfsnotify.Close})
				vsched.Block("events handled", func() bool { return u.watch.Pending() == 0 })
				vsched.Sleep(time.Second)
				if err := idle(w); err != nil {
					u.bad("status fails", "%v", err)
				}
				st, err := status(w)
				if err != nil {
					u.bad("status fails", "%v", err)
					return
				}
				if len(st.CompletedJobs) != 2 || len(st.FailedJobs) != n-2 {
					u.bad("not every completed upload is processed once", "%d completions: %d processed, %d failed", n, len(st.CompletedJobs), len(st.FailedJobs))
				}
				u.hist = append(u.hist, fmt.Sprint("again=", again))
				vsignal.Send(u.proc.Pid, syscall.SIGTERM)
				vsched.Block("gone", func() bool { return !u.proc.Alive })
			})
			os.RemoveAll(u.d.path("sub"))
			if again {
				os.Remove(u.d.path(lib.N3.File))
				os.Remove(u.d.path("m1.tram"))
			}
		})
		if u != nil && len(out) == 0 && len(want[first].Diff(strip(w.Take()))) > 0 {
			out = append(out, lib.Issue{Prop: "C30", Key: "processed uploads leave another state than importing their packages", Text: fmt.Sprint(u.hist, want[first].Diff(strip(w.Take())))})
		}
		return res, out
	}})
	return
}
