//go:build go1.24

// Package vexec replaces os/exec: the compressors are either run for real or
// simulated in process with the same file semantics, each step an effect.
package vexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/veff"
	"github.com/getsolus/ferryd/src/verifmc/vos"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Real makes the tools run for real.
var Real bool

// Runs counts tool runs.
var Runs int

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer

	ExtraFiles   []*vos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Cancel       func() error
	WaitDelay    time.Duration
	Err          error

	err    error
	begun  bool
	waited bool
	in     *pipe // from StdinPipe: the command runs once it is closed
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Environ() []string { return append(os.Environ(), c.Env...) }

func (c *Cmd) Start() error {
	if c.begun {
		return errors.New("exec: already started")
	}
	c.begun = true
	if c.in != nil {
		return nil
	}
	c.err = c.run()
	if _, ok := c.err.(*exec.Error); ok {
		return c.err
	}
	return nil
}

func (c *Cmd) Wait() error {
	if !c.begun {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	if c.in != nil && !c.in.ran {
		c.in.Close()
	}
	return c.err
}

// pipe carries a command's input or output; the command runs in one go.
type pipe struct {
	bytes.Buffer
	ran   bool
	close func()
}

func (p *pipe) Close() error {
	if p.close != nil && !p.ran {
		p.ran = true
		p.close()
	}
	return nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.in = &pipe{}
	c.Stdin = &c.in.Buffer
	c.in.close = func() { c.err = c.run() }
	return c.in, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	p := &pipe{}
	c.Stdout = p
	return p, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	p := &pipe{}
	c.Stderr = p
	return p, nil
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) run() error {
	if vsched.Dying() {
		return veff.ErrCrashed
	}
	Runs++
	if Real {
		r := exec.Command(c.Args[0], c.Args[1:]...)
		r.Dir, r.Env, r.Stdin, r.Stdout = c.Dir, c.Env, c.Stdin, c.Stdout
		return r.Run()
	}
	return c.simulate()
}

var errExit = errors.New("exit status 1")

// Magic marks simulated compressed files.
func Magic(tool string) string { return "VSTUB-" + tool + "\n" }

// Decompress undoes a simulated compression.
func Decompress(tool string, b []byte) ([]byte, error) {
	m := Magic(tool)
	if !bytes.HasPrefix(b, []byte(m)) || !bytes.HasSuffix(b, []byte("\nEND")) {
		return nil, fmt.Errorf("not a complete %s file", tool)
	}
	return b[len(m) : len(b)-4], nil
}

func (c *Cmd) simulate() error {
	tool := filepath.Base(c.Args[0])
	var files []string
	keep, force, toStdout, decomp, rm := false, false, false, false, false
	outName := ""
	kind := ""
	switch tool {
	case "xz", "unxz", "xzcat", "lzma":
		kind = "xz"
	case "zstd", "unzstd", "zstdcat", "zstdmt":
		kind = "zst"
		keep = true
	case "gzip", "gunzip":
		kind = "gz"
	default:
		return &exec.Error{Name: tool, Err: exec.ErrNotFound}
	}
	if strings.HasPrefix(tool, "un") || strings.HasSuffix(tool, "cat") || tool == "gunzip" {
		decomp = true
	}
	if strings.HasSuffix(tool, "cat") {
		toStdout = true
	}
	args := c.Args[1:]
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			files = append(files, args[i+1:]...)
			i = len(args)
		case strings.HasPrefix(a, "--"):
			switch o := strings.SplitN(a[2:], "=", 2); o[0] {
			case "keep":
				keep = true
			case "force":
				force = true
			case "stdout", "to-stdout":
				toStdout = true
			case "decompress", "uncompress":
				decomp = true
			case "compress":
				decomp = false
			case "rm":
				rm = true
			case "threads", "memlimit", "check", "format", "memlimit-compress", "memlimit-decompress":
				if len(o) == 1 {
					i++
				}
			case "quiet", "verbose", "extreme", "best", "fast", "ultra", "no-progress", "single-thread", "no-check", "long", "rsyncable", "adapt":
			default:
				return errExit
			}
		case len(a) > 1 && a[0] == '-':
			for j := 1; j < len(a); j++ {
				switch a[j] {
				case 'k':
					keep = true
				case 'f':
					force = true
				case 'c':
					toStdout = true
				case 'd':
					decomp = true
				case 'z':
					decomp = false
				case 'q', 'v', 'e', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
				case 'T', 'M', 'C', 'F', 'S':
					if j+1 == len(a) {
						i++
					}
					j = len(a)
				case 'o':
					if kind == "zst" {
						if j+1 < len(a) {
							outName = a[j+1:]
						} else if i++; i < len(args) {
							outName = args[i]
						}
						j = len(a)
					} else {
						return errExit
					}
				default:
					return errExit
				}
			}
		default:
			files = append(files, a)
		}
	}
	if rm {
		keep = false
	}
	if len(files) == 0 || len(files) == 1 && files[0] == "-" {
		return c.filter(kind, decomp, outName, force)
	}
	failed := false
	for _, in := range files {
		if c.Dir != "" && !filepath.IsAbs(in) {
			in = filepath.Join(c.Dir, in)
		}
		data, err := os.ReadFile(in)
		if err != nil {
			failed = true
			continue
		}
		out := outName
		var res []byte
		if decomp {
			if res, err = Decompress(kind, data); err != nil {
				// accept real compressed files too (package payloads)
				res, err = RealDecompress(kind, data)
				if err != nil {
					// zstd opens its output before it reads the input
					if o := strings.TrimSuffix(in, ".zst"); kind == "zst" && force && o != in && !toStdout {
						vos.Remove(o)
					}
					failed = true
					continue
				}
			}
			if out == "" {
				if !strings.HasSuffix(in, "."+kind) {
					failed = true
					continue
				}
				out = strings.TrimSuffix(in, "."+kind)
			}
		} else {
			if strings.HasSuffix(in, "."+kind) && !force && kind == "xz" {
				failed = true
				continue
			}
			res = append([]byte(Magic(kind)), data...)
			res = append(res, "\nEND"...)
			if out == "" {
				out = in + "." + kind
			}
		}
		if toStdout {
			if c.Stdout != nil {
				if _, err := c.Stdout.Write(res); err != nil {
					failed = true
				}
			}
			continue
		}
		if st, err := os.Lstat(in); err == nil && kind == "xz" && !force && !keep && st.Sys().(*syscall.Stat_t).Nlink > 1 {
			failed = true // xz refuses files with several names
			continue
		}
		if _, err := os.Lstat(out); err == nil {
			if !force {
				failed = true
				continue
			}
			if err := vos.Remove(out); err != nil {
				failed = true
				continue
			}
		}
		if err := emit(out, res); err != nil {
			failed = true
			continue
		}
		if !keep {
			vos.Remove(in)
		}
	}
	if failed {
		return errExit
	}
	return nil
}

// filter is a tool run without files: from standard input to standard output.
func (c *Cmd) filter(kind string, decomp bool, outName string, force bool) error {
	var data []byte
	if c.Stdin != nil {
		var err error
		if data, err = io.ReadAll(c.Stdin); err != nil {
			return errExit
		}
	}
	var res []byte
	if decomp {
		var err error
		if res, err = Decompress(kind, data); err != nil {
			if res, err = RealDecompress(kind, data); err != nil {
				return errExit
			}
		}
	} else {
		res = append([]byte(Magic(kind)), data...)
		res = append(res, "\nEND"...)
	}
	if outName != "" {
		if _, err := os.Lstat(outName); err == nil {
			if !force || vos.Remove(outName) != nil {
				return errExit
			}
		}
		return emit(outName, res)
	}
	if c.Stdout == nil {
		return nil
	}
	h := len(res) / 2
	if _, err := c.Stdout.Write(res[:h]); err != nil {
		return errExit
	}
	if _, err := c.Stdout.Write(res[h:]); err != nil {
		return errExit
	}
	return nil
}

var fixedTime = time.Unix(1600000000, 0)

// emit writes a tool's output in two steps so that crashes fall in between.
func emit(out string, res []byte) error {
	f, err := vos.Create(out)
	if err != nil {
		return err
	}
	h := len(res) / 2
	if _, err = f.Write(res[:h]); err == nil {
		_, err = f.Write(res[h:])
	}
	f.File.Close()
	if err != nil {
		vos.Remove(out) // the tools remove incomplete output on failure
		return err
	}
	// the tools copy the input's time; a constant keeps archives of it reproducible
	os.Chtimes(out, fixedTime, fixedTime)
	return nil
}

// RealDecompress runs the real tool.
func RealDecompress(kind string, data []byte) ([]byte, error) {
	var name string
	switch kind {
	case "xz":
		name = "xz"
	case "zst":
		name = "zstd"
	default:
		return nil, errExit
	}
	r := exec.Command(name, "-dc")
	r.Stdin = bytes.NewReader(data)
	return r.Output()
}

// RealCompress runs the real tool.
func RealCompress(kind string, data []byte) ([]byte, error) {
	r := exec.Command(map[string]string{"xz": "xz", "zst": "zstd"}[kind], "-zc")
	if kind == "zst" {
		r = exec.Command("zstd", "-c")
	}
	r.Stdin = bytes.NewReader(data)
	return r.Output()
}
