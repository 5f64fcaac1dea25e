//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
	"github.com/getsolus/ferryd/src/verifmc/vleveldb"
)

func push(s *jobs.JobStore, seq int, j *jobs.JobEntry) error {
	if seq == 0 {
		return s.PushSequentialJob(j)
	}
	return s.PushAsyncJob(j)
}

func claim(s *jobs.JobStore, seq int) (*jobs.JobEntry, error) {
	if seq == 0 {
		return s.ClaimSequentialJob()
	}
	return s.ClaimAsyncJob()
}

func retire(s *jobs.JobStore, seq int, j *jobs.JobEntry) error {
	if seq == 0 {
		return s.RetireSequentialJob(j)
	}
	return s.RetireAsyncJob(j)
}

// longQueues runs every short sequence of operations on queues that are long,
// and on queues whose numbering has come far.
func longQueues(r *lib.Report) {
	type start struct {
		wait int    // jobs waiting
		at   uint64 // number of the last one
	}
	var starts []start
	for _, n := range []int{8, 9, 10, 11, 98, 99, 100, 126, 127, 128, 254, 255, 256} {
		starts = append(starts, start{n, uint64(n) - 1})
	}
	for _, n := range []uint64{1 << 7, 1 << 8, 999, 1000, 1 << 12, 9999, 10000, 1 << 15, 1 << 16, 99999, 1 << 24, 1 << 31, 1 << 32} {
		for _, d := range []uint64{2, 1, 0} {
			starts = append(starts, start{1, n - d}, start{3, n - d})
		}
	}
	depth := lib.Pick(4, 6)
	var seqs [][]string
	var gen func(p []string)
	gen = func(p []string) {
		if len(p) == depth {
			seqs = append(seqs, append([]string{}, p...))
			return
		}
		for _, o := range []string{"push", "claim", "retire", "reopen"} {
			if o == "reopen" && len(p) > 0 && p[len(p)-1] == o {
				continue
			}
			gen(append(p, o))
		}
	}
	gen(nil)
	skipped := 0
	for seq := 0; seq < 2; seq++ {
		for _, st := range starts {
			w := lib.NewWorld(100)
			vleveldb.Drop(w.Base)
			s, err := jobs.NewStore(w.Base)
			if err != nil {
				r.Violation("store cannot be opened", err.Error(), nil)
				return
			}
			var queue []string
			var keys [][]byte
			for i := 0; i < st.wait; i++ {
				j := mkJob(seq == 0, i)
				queue = append(queue, ident(j))
				if err := push(s, seq, j); err != nil {
					r.Violation("push fails", err.Error(), nil)
					return
				}
			}
			s.Close()
			snap := w.Take()
			// give the waiting jobs the numbers they would have later on
			moved := true
			for _, kvs := range snap.DB {
				for _, kv := range kvs {
					keys = append(keys, []byte(kv.K))
				}
			}
			if off := st.at + 1 - uint64(st.wait); off > 0 {
				moved = len(keys) == st.wait
				for p, kvs := range snap.DB {
					for i := range kvs {
						k := []byte(kvs[i].K)
						if len(k) < 8 || binary.BigEndian.Uint64(k[len(k)-8:]) != uint64(i) || !bytes.HasPrefix(k, keys[0][:len(keys[0])-8]) {
							moved = false
							continue
						}
						binary.BigEndian.PutUint64(k[len(k)-8:], off+uint64(i))
						kvs[i].K = string(k)
					}
					snap.DB[p] = kvs
				}
			}
			if !moved { // numbers are not stored this way
				skipped++
				continue
			}
			w2 := make(chan *lib.World, 8)
			for i := 0; i < 8; i++ {
				w2 <- lib.NewWorld(100 + i)
			}
			lib.Parallel(len(seqs), 8, func(i int) {
				w := <-w2
				defer func() { w2 <- w }()
				w.RestoreDB(snap)
				longRun(r, w, seq, fmt.Sprintf("%d waiting, the last one number %d", st.wait, st.at), append([]string{}, queue...), seqs[i])
			})
		}
	}
	r.Set("long_queues", map[string]any{"starts": 2 * len(starts), "skipped": skipped, "depth": depth, "sequences": len(seqs) * (2*len(starts) - skipped)})
}

func longRun(r *lib.Report, w *lib.World, seq int, start string, queue, ops []string) {
	bad := func(k, t string, a ...any) {
		r.Violation(k, fmt.Sprintf("queue %d, %s, %v: ", seq, start, ops)+fmt.Sprintf(t, a...), map[string]any{"start": start, "ops": ops})
	}
	s, err := jobs.NewStore(w.Base)
	if err != nil {
		bad("store cannot be opened", "%v", err)
		return
	}
	defer func() { s.Close() }()
	next, n := 0, 1000
	var held []*jobs.JobEntry
	for _, o := range ops {
		switch o {
		case "push":
			j := mkJob(seq == 0, n)
			n++
			queue = append(queue, ident(j))
			if err := push(s, seq, j); err != nil {
				bad("push fails", "%v", err)
				return
			}
		case "claim":
			j, err := claim(s, seq)
			if next == len(queue) {
				if j != nil || err != jobs.ErrEmptyQueue {
					bad("claim from an empty queue", "%v %v", j, err)
				}
				continue
			}
			if err != nil || ident(j) != queue[next] {
				bad("claim returns another job than the oldest", "%v %v, want %s", j, err, queue[next])
				return
			}
			next++
			held = append(held, j)
		case "retire":
			if len(held) == 0 {
				continue
			}
			if err := retire(s, seq, held[0]); err != nil {
				bad("retire fails", "%v", err)
				return
			}
			held, queue, next = held[1:], queue[1:], next-1
		case "reopen":
			s.Close()
			if s, err = jobs.NewStore(w.Base); err != nil {
				bad("store cannot be reopened", "%v", err)
				return
			}
			held, next = nil, 0
		}
	}
	act, err := s.ActiveJobs()
	if err != nil || len(act) != len(queue) {
		bad("wrong number of active jobs", "%d, want %d: %v", len(act), len(queue), err)
	}
	for n := 0; next <= len(queue); next++ {
		if n++; len(queue) > 20 && n > 5 && fmt.Sprint(ops[1:]) != fmt.Sprint(ops[:len(ops)-1]) { // drained to the end for some only
			break
		}
		j, err := claim(s, seq)
		if next == len(queue) {
			if j != nil {
				bad("job handed out twice", "%s", ident(j))
			}
			break
		}
		if err != nil || ident(j) != queue[next] {
			bad("wrong order", "position %d: %v %v, want %s", next, j, err, queue[next])
			break
		}
	}
	r.Count(0, int64(len(ops)), 1)
}

// parameters sends every short list of unusual parameters through a queue.
func parameters(r *lib.Report) {
	vals := []string{"", " ", "a b", "a\x00b", "\n", "ü€😀", "\xff\xfe", "-1", "|bucket|", "\"'\\", strings.Repeat("x", 5000)}
	var lists [][]string
	lists = append(lists, nil, []string{})
	for _, a := range vals {
		lists = append(lists, []string{a})
		for _, b := range vals {
			lists = append(lists, []string{a, b}, []string{a, b, ""}, []string{"", a, b, a})
		}
	}
	var many []string
	for i := 0; i < 1000; i++ {
		many = append(many, fmt.Sprintf("/incoming/%d.eopkg", i))
	}
	lists = append(lists, many)
	types := []jobs.JobType{jobs.BulkAdd, jobs.CopySource, jobs.CloneRepo, jobs.CreateRepo, jobs.DeleteRepo, jobs.Delta, jobs.DeltaIndex, jobs.DeltaRepo, jobs.IndexRepo, jobs.PullRepo, jobs.RemoveSource, jobs.TransitProcess, jobs.TrimObsolete, jobs.TrimPackages, "", "no such type", "\xff"}
	w := lib.NewWorld(100)
	for seq := 0; seq < 2; seq++ {
		vleveldb.Drop(w.Base)
		s, err := jobs.NewStore(w.Base)
		if err != nil {
			r.Violation("store cannot be opened", err.Error(), nil)
			return
		}
		var want []string
		for i, l := range lists {
			for k, t := range types {
				if k != i%len(types) && len(l) != 1 {
					continue
				}
				j := &jobs.JobEntry{Type: t, Params: append([]string(nil), l...)}
				want = append(want, ident(j))
				if err := push(s, seq, j); err != nil {
					r.Violation("push fails", err.Error(), ident(j))
				}
			}
		}
		for half := 0; half < 2; half++ {
			s.Close()
			if s, err = jobs.NewStore(w.Base); err != nil {
				r.Violation("store cannot be opened", err.Error(), nil)
				return
			}
			for i, x := range want {
				if half == 0 && i == len(want)/2 {
					break
				}
				j, err := claim(s, seq)
				if err != nil || ident(j) != x {
					r.Violation("a job comes out changed", fmt.Sprintf("queue %d, job %d: %v %.300v, want %.300s", seq, i, err, j, x), nil)
					break
				}
				r.Count(0, 1, 1)
			}
		}
		s.Close()
	}
}
