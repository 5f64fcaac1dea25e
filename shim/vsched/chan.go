//go:build go1.24

package vsched

import "reflect"

// shadow is the scheduler's view of a channel: while a run is active all
// channel operations of instrumented code act on it and not on the channel.
type shadow struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g     *G
	val   any
	ok    bool
	fired bool  // completed by the other side
	sel   *selT // enclosing select, if any
	idx   int
}

type selT struct {
	fired bool
	idx   int
	w     *waiter
}

func shadowOf(ch any) *shadow {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	sh, ok := s.chans[p]
	if !ok {
		sh = &shadow{ref: ch, cap: v.Cap()}
		s.chans[p] = sh
	}
	return sh
}

func live(w *waiter) bool {
	return !w.fired && !w.g.done && !w.g.killed && (w.sel == nil || !w.sel.fired)
}

func first(q []*waiter) (*waiter, []*waiter) {
	for len(q) > 0 {
		w := q[0]
		q = q[1:]
		if live(w) {
			return w, q
		}
	}
	return nil, nil
}

func anyLive(q []*waiter) bool {
	for _, w := range q {
		if live(w) {
			return true
		}
	}
	return false
}

func (w *waiter) complete(v any, ok bool) {
	w.val, w.ok, w.fired = v, ok, true
	if w.sel != nil {
		w.sel.fired, w.sel.idx, w.sel.w = true, w.idx, w
	}
}

func (sh *shadow) canRecv() bool {
	return sh != nil && (len(sh.buf) > 0 || sh.closed || anyLive(sh.sendq))
}

func (sh *shadow) canSend() bool {
	return sh != nil && (sh.closed || len(sh.buf) < sh.cap || anyLive(sh.recvq))
}

func (sh *shadow) doRecv() (any, bool) {
	if len(sh.buf) > 0 {
		v := sh.buf[0]
		sh.buf = sh.buf[1:]
		if w, q := first(sh.sendq); w != nil {
			sh.sendq = q
			sh.buf = append(sh.buf, w.val)
			w.complete(w.val, true)
		}
		return v, true
	}
	if w, q := first(sh.sendq); w != nil {
		sh.sendq = q
		v := w.val
		w.complete(v, true)
		return v, true
	}
	return nil, false // closed
}

func (sh *shadow) doSend(v any) {
	if sh.closed {
		panic("send on closed channel")
	}
	if w, q := first(sh.recvq); w != nil {
		sh.recvq = q
		w.complete(v, true)
		return
	}
	sh.buf = append(sh.buf, v)
}

func send(ch any, v any) {
	sh := shadowOf(ch)
	Point("chan send")
	if sh == nil {
		Block("send on nil channel", func() bool { return false })
	}
	if sh.canSend() {
		sh.doSend(v)
		return
	}
	w := &waiter{g: s.cur, val: v}
	sh.sendq = append(sh.sendq, w)
	Block("chan send", func() bool { return w.fired || sh.closed })
	if !w.fired && sh.closed {
		panic("send on closed channel")
	}
}

func recv(ch any) (any, bool) {
	sh := shadowOf(ch)
	Point("chan recv")
	if sh == nil {
		Block("receive from nil channel", func() bool { return false })
	}
	if sh.canRecv() {
		return sh.doRecv()
	}
	w := &waiter{g: s.cur}
	sh.recvq = append(sh.recvq, w)
	Block("chan recv", func() bool { return w.fired || sh.closed })
	if w.fired {
		return w.val, w.ok
	}
	return nil, false
}

// S is a send statement: S(ch)(v).
func Snd[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Dying() {
			panic(Killed{"send while dying"})
		}
		if s == nil {
			ch <- v
			return
		}
		send(ch, v)
	}
}

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Rcv is a receive expression.
func Rcv[T any](ch <-chan T) T {
	v, _ := Rcv2(ch)
	return v
}

// Rcv2 is a two-valued receive expression.
func Rcv2[T any](ch <-chan T) (T, bool) {
	if Dying() {
		panic(Killed{"receive while dying"})
	}
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := recv(ch)
	return as[T](v), ok
}

// Close closes a channel.
func Close[T any](ch chan T) { closeAny(ch, func() { close(ch) }) }

// CloseS closes a send-only channel.
func CloseS[T any](ch chan<- T) { closeAny(ch, func() { close(ch) }) }

func closeAny(ch any, realClose func()) {
	if s == nil || Dying() {
		if s == nil {
			realClose()
		}
		return
	}
	sh := shadowOf(ch)
	if sh == nil {
		panic("close of nil channel")
	}
	Point("chan close")
	if sh.closed {
		panic("close of closed channel")
	}
	sh.closed = true
}

// CloseNow closes a channel from outside any goroutine (timers, contexts).
func CloseNow[T any](ch chan T) {
	if s == nil {
		close(ch)
		return
	}
	shadowOf(ch).closed = true
}

// Deliver puts a value into a channel from outside any goroutine (timers,
// signals, file events): dropped when the buffer is full and nobody waits.
func Deliver[T any](ch chan T, v T) bool {
	if s == nil {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	sh := shadowOf(ch)
	if sh.closed {
		return false
	}
	if len(sh.buf) < sh.cap || anyLive(sh.recvq) {
		sh.doSend(v)
		return true
	}
	return false
}

// Drain empties a channel's buffer (timer Stop/Reset semantics) and reports
// whether there was anything in it.
func Drain[T any](ch chan T) bool {
	if s == nil {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	sh := shadowOf(ch)
	had := len(sh.buf) > 0
	sh.buf = nil
	return had
}

// Select support: cases are built by RC/SC and resolved by Sel.

// Case is a select case.
type Case interface {
	shadow() *shadow
	sendVal() (any, bool)
	set(v any, ok bool)
	reflectCase() reflect.SelectCase
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// RC builds a receive case.
func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// V is the received value.
func (r *RecvCase[T]) V() T { return r.v }

// V2 is the received value and whether it was sent.
func (r *RecvCase[T]) V2() (T, bool) { return r.v, r.ok }

func (r *RecvCase[T]) shadow() *shadow {
	if r.ch == nil {
		return nil
	}
	return shadowOf(r.ch)
}
func (r *RecvCase[T]) sendVal() (any, bool) { return nil, false }
func (r *RecvCase[T]) set(v any, ok bool)   { r.v, r.ok = as[T](v), ok }
func (r *RecvCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// SC builds a send case: SC(ch)(v).
func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (r *SendCase[T]) shadow() *shadow {
	if r.ch == nil {
		return nil
	}
	return shadowOf(r.ch)
}
func (r *SendCase[T]) sendVal() (any, bool) { return r.v, true }
func (r *SendCase[T]) set(any, bool)        {}
func (r *SendCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: reflect.ValueOf(&r.v).Elem()}
}

// Sel performs a select and returns the index of the chosen case, or -1 for
// the default case.
func Sel(hasDefault bool, cases ...Case) int {
	if Dying() {
		panic(Killed{"select while dying"})
	}
	if s == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.reflectCase())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		if _, snd := cases[i].sendVal(); !snd {
			if v.IsValid() {
				cases[i].set(v.Interface(), ok)
			} else {
				cases[i].set(nil, ok)
			}
		}
		return i
	}
	Point("select")
	shs := make([]*shadow, len(cases))
	var can []int
	for i, c := range cases {
		shs[i] = c.shadow()
		_, snd := c.sendVal()
		if snd && shs[i].canSend() || !snd && shs[i].canRecv() {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[ChooseFree(len(can), "select case")]
		if v, snd := cases[i].sendVal(); snd {
			shs[i].doSend(v)
		} else {
			v, ok := shs[i].doRecv()
			cases[i].set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selT{}
	for i, c := range cases {
		if shs[i] == nil {
			continue
		}
		v, snd := c.sendVal()
		w := &waiter{g: s.cur, sel: sel, idx: i, val: v}
		if snd {
			shs[i].sendq = append(shs[i].sendq, w)
		} else {
			shs[i].recvq = append(shs[i].recvq, w)
		}
	}
	closedIdx := func() int {
		for i := range cases {
			if shs[i] != nil && shs[i].closed {
				return i
			}
		}
		return -1
	}
	Block("select", func() bool { return sel.fired || closedIdx() >= 0 })
	if sel.fired {
		if _, snd := cases[sel.idx].sendVal(); !snd {
			cases[sel.idx].set(sel.w.val, sel.w.ok)
		}
		return sel.idx
	}
	i := closedIdx()
	sel.fired = true
	if _, snd := cases[i].sendVal(); snd {
		panic("send on closed channel")
	}
	cases[i].set(nil, false)
	return i
}

// DeliverS is Deliver for send-only channels (controlled runs only).
func DeliverS[T any](ch chan<- T, v T) bool {
	if s == nil {
		return false
	}
	sh := shadowOf(ch)
	if sh.closed {
		return false
	}
	if len(sh.buf) < sh.cap || anyLive(sh.recvq) {
		sh.doSend(v)
		return true
	}
	return false
}

func reflectLen(ch any) int { return reflect.ValueOf(ch).Len() }
func reflectCap(ch any) int { return reflect.ValueOf(ch).Cap() }
