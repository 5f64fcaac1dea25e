//go:build go1.24

// Command server explores whole daemons: processes that contend for a base
// directory, requests from clients, status listings and the upload monitor.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	log "github.com/sirupsen/logrus"
	"github.com/spf13/pflag"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifmc/ferrydmain"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vhttp"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
	"github.com/getsolus/ferryd/src/verifmc/vsignal"
)

var emptySnap = &lib.Snap{DB: map[string][]lib.KV{}, Nodes: []lib.NodeEnt{{Path: ".", Dir: true}}}

func main() {
	prop := os.Args[1]
	r := lib.NewReport(prop)
	os.Unsetenv("LISTEN_FDS")
	veff.NoPoint = func(p string) bool { return strings.HasSuffix(p, "/ferryd.log") }
	if os.Getenv("VMC_VERBOSE") == "" {
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		silence(null)
	}
	r.Assume = []string{
		"a daemon is a virtual process running the real main function; its locks are real flock calls, its sockets, signals, clock and HTTP transport are stand-ins with the documented semantics",
		"instrumented operations (locks, channels, timers, database, files, sockets) are the scheduling points; plain memory accesses between them are not",
		"time is virtual; crashes are crashes of the process",
	}
	switch prop {
	case "C24":
		lib.Schedules(r, ownerScenarios())
	case "C25":
		requests(r)
	case "C26":
		lib.Schedules(r, statusScenarios())
	case "C30":
		if os.Getenv("VMC_CHILD") == "" && os.Getenv("VMC_REPLAY") == "" {
			kernelEvents(r)
		}
		lib.Schedules(r, monitorScenarios())
	case "C34":
		reports(r)
	default:
		fmt.Println("no mode for", prop)
		os.Exit(2)
	}
	os.Exit(r.Finish())
}

// daemon is a virtual ferryd process.
type daemon struct {
	w *lib.World
	p *vsched.Proc
}

func sock(w *lib.World) string { return filepath.Join(w.Root, "ferryd.sock") }

// launch starts a daemon process; quiet leaves out decisions in its main
// goroutine (start-up and serving, not workers, requests or shutdown).
func launch(w *lib.World, quiet bool) *daemon {
	d := &daemon{w: w}
	d.p = vsched.GoProc("ferryd", nil, func() {
		pflag.CommandLine = pflag.NewFlagSet("ferryd", pflag.ContinueOnError)
		os.Args = []string{"ferryd", "-d", w.Base, "-s", sock(w), "-j", "2"}
		if quiet {
			vsched.Quiet(ferrydmain.XMain)
		} else {
			ferrydmain.XMain()
		}
		vsched.KillProc(vsched.CurProc(), 0)
	})
	return d
}

func (d *daemon) serving() bool { return d.p.Alive && vhttp.Served(sock(d.w)) != nil }

// up waits until the daemon serves or is gone.
func (d *daemon) up() bool {
	vsched.Block("daemon up", func() bool { return !d.p.Alive || vhttp.Served(sock(d.w)) != nil })
	return d.p.Alive
}

// boot launches a daemon quietly and waits for it to serve.
func boot(w *lib.World) *daemon {
	d := launch(w, true)
	vsched.Quiet(func() { d.up() })
	return d
}

// term asks for shutdown and waits for the end of the process.
func (d *daemon) term() {
	vsignal.Send(d.p.Pid, syscall.SIGTERM)
	d.gone()
}

func (d *daemon) gone() { vsched.Block("daemon gone", func() bool { return !d.p.Alive }) }

func client(w *lib.World) *libferry.Client { return libferry.NewClient(sock(w)) }

// reset makes the world equal to a snapshot with nothing running.
func reset(w *lib.World, s *lib.Snap) {
	os.Remove(sock(w))
	w.Restore(s)
	w.Eff.Arm(0, 0, 0)
	w.Eff.After, w.Eff.Watch = nil, nil
	vhttp.HandlerPanics = nil
}

// over cleans up behind a run.
func over(w *lib.World) {
	vleveldb.CrashClose(w.Base)
	w.Eff.After, w.Eff.Watch = nil, nil
	log.SetOutput(io.Discard)
}

// ended turns abnormal ends of a run into issues.
func ended(prop string, res *vsched.Result) (out []lib.Issue) {
	switch {
	case res.Panic != "":
		t := res.Panic
		if len(t) > 1500 {
			t = t[:1500]
		}
		out = append(out, lib.Issue{Prop: prop, Key: "panic", Text: t})
	case res.Deadlock != "":
		out = append(out, lib.Issue{Prop: prop, Key: "deadlock", Text: res.Deadlock})
	case res.Horizon:
		out = append(out, lib.Issue{Prop: prop, Key: "does not terminate", Text: fmt.Sprintf("after %d steps and %d clock ticks", res.Steps, res.Ticks)})
	}
	for _, p := range vhttp.HandlerPanics {
		out = append(out, lib.Issue{Prop: prop, Key: "request handler panics", Text: p})
	}
	return
}
