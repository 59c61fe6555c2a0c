package vs

import (
	"iter"
	"unsafe"
)

// Channels are emulated: the native channel is only an identity (and gives the
// capacity); buffer, waiting senders and closing live here, in linked lists
// touched by norace code only. A channel this package never saw being sent to
// or closed (a timer, a context) is "foreign": native readiness is consulted,
// and a stuck execution is not judged.

type cell struct {
	v    any
	done bool
	next *cell
}

type chanState struct {
	o      Obj
	p      unsafe.Pointer
	cap    int
	n      int // buffered values
	head   *cell
	tail   *cell
	qhead  *cell // blocked senders of an unbuffered channel
	qtail  *cell
	closed bool
	touch  bool                     // sent to or closed under our control
	ours   bool                     // made by the code under control, which alone can send to it
	native func() (any, bool, bool) // value, ok, received
	sync   byte
	next   *chanState
}

var (
	chans   *chanState
	chEpoch uint32
)

//go:norace
func stateOf(p unsafe.Pointer, cp int, native func() (any, bool, bool)) *chanState {
	if s != nil && chEpoch != s.epoch {
		if chEpoch == 0 {
			for c := chans; c != nil; c = c.next {
				early = &earlyChan{c, c.ours, c.touch, c.closed, values(c), early}
			}
		}
		chEpoch = s.epoch
		chans = nil
		for e := early; e != nil; e = e.next {
			e.restore()
		}
	}
	for c := chans; c != nil; c = c.next {
		if c.p == p {
			if c.native == nil {
				c.native = native
			}
			return c
		}
	}
	c := &chanState{p: p, cap: cp, native: native, next: chans}
	chans = c
	return c
}

// earlyChan is a channel made before any execution (a package variable) and
// what it held then; every execution finds it like that.
type earlyChan struct {
	c                   *chanState
	ours, touch, closed bool
	vals                *cell
	next                *earlyChan
}

var early *earlyChan

//go:norace
func values(c *chanState) *cell {
	var head, tail *cell
	for e := c.head; e != nil; e = e.next {
		x := &cell{v: e.v}
		if tail == nil {
			head = x
		} else {
			tail.next = x
		}
		tail = x
	}
	return head
}

//go:norace
func (e *earlyChan) restore() {
	c := &chanState{p: e.c.p, cap: e.c.cap, native: e.c.native, ours: e.ours, touch: e.touch, closed: e.closed, next: chans}
	for v := e.vals; v != nil; v = v.next {
		c.push(v.v)
	}
	chans = c
}

// Made marks a channel the code under control has made: `make(chan T)`. Nobody
// else sends to it, so a receiver without a sender is stuck.
func Made[C ~chan T, T any](ch C) C {
	own(recvState[C, T](ch))
	return ch
}

//go:norace
func own(c *chanState) { c.ours = true }

type nilChan struct{ o Obj }

//go:norace
func (n *nilChan) Ready(uint8) bool { return false }

//go:norace
func (n *nilChan) Base() *Obj { return &n.o }

//go:norace
func (c *chanState) Base() *Obj { return &c.o }

//go:norace
func (c *chanState) push(v any) {
	e := &cell{v: v}
	if c.tail == nil {
		c.head = e
	} else {
		c.tail.next = e
	}
	c.tail = e
	c.n++
}

//go:norace
func (c *chanState) enqueue(v any) *cell {
	e := &cell{v: v}
	if c.qtail == nil {
		c.qhead = e
	} else {
		c.qtail.next = e
	}
	c.qtail = e
	return e
}

//go:norace
func (c *chanState) pull() {
	if c.touch || c.n > 0 || c.closed || c.native == nil {
		return
	}
	if v, ok, got := c.native(); got {
		if ok {
			c.push(v)
		} else {
			c.closed = true
		}
	} else if s != nil && c.qhead == nil && !c.ours {
		s.foreign = true
	}
}

//go:norace
func (c *chanState) Ready(k uint8) bool {
	switch k {
	case KRecv:
		if c.qhead == nil {
			c.pull()
		}
		return c.n > 0 || c.closed || c.qhead != nil
	case KSend:
		return c.closed || c.n < c.cap
	}
	return true
}

type sendWait struct {
	c *chanState
	r *cell
}

//go:norace
func (w *sendWait) Ready(uint8) bool { return w.r.done || w.c.closed }

//go:norace
func (w *sendWait) Base() *Obj { return &w.c.o }

//go:norace
func send(c *chanState, v any) {
	c.touch = true
	if c.cap > 0 {
		Point(c, KSend)
	} else {
		Point(c, KWrite)
	}
	if Aborting() {
		return
	}
	if c.closed {
		panic("send on closed channel")
	}
	ReleaseMerge(unsafe.Pointer(&c.sync))
	if c.cap > 0 {
		c.push(v)
		return
	}
	r := c.enqueue(v)
	Point(&sendWait{c, r}, KSend)
	if !r.done && c.closed && !Aborting() {
		panic("send on closed channel")
	}
	Acquire(unsafe.Pointer(&c.sync))
}

//go:norace
func (c *chanState) take() (any, bool) {
	if Aborting() {
		return nil, false
	}
	Acquire(unsafe.Pointer(&c.sync))
	if c.n > 0 {
		e := c.head
		c.head = e.next
		if c.head == nil {
			c.tail = nil
		}
		c.n--
		ReleaseMerge(unsafe.Pointer(&c.sync)) // the send that reuses the slot comes after
		return e.v, true
	}
	if c.qhead != nil {
		e := c.qhead
		c.qhead = e.next
		if c.qhead == nil {
			c.qtail = nil
		}
		e.done = true
		ReleaseMerge(unsafe.Pointer(&c.sync))
		return e.v, true
	}
	return nil, false
}

//go:norace
func chClose(c *chanState) {
	Point(c, KWrite)
	if c.closed && !Aborting() {
		panic("close of closed channel")
	}
	ReleaseMerge(unsafe.Pointer(&c.sync))
	c.touch, c.closed = true, true
}

//go:norace
func chLen(c *chanState) int {
	Point(c, KWrite)
	return c.n
}

func tryRecv[T any](ch <-chan T) func() (any, bool, bool) {
	return func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
}

func ptr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func sendState[C ~chan T | ~chan<- T, T any](ch C) *chanState {
	return stateOf(ptr(ch), cap((chan<- T)(ch)), nil)
}

func recvState[C ~chan T | ~<-chan T, T any](ch C) *chanState {
	r := (<-chan T)(ch)
	return stateOf(ptr(ch), cap(r), tryRecv(r))
}

// ChS sends: `ch <- v` becomes `ChS(ch)(v)`.
func ChS[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		if ptr(ch) == nil {
			Point(&nilChan{}, KSend)
			return
		}
		send(sendState[C, T](ch), v)
	}
}

// ChR receives: `<-ch`.
func ChR[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := ChR2[C, T](ch)
	return v
}

// ChR2 receives: `v, ok := <-ch`.
func ChR2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	var z T
	if ptr(ch) == nil {
		Point(&nilChan{}, KRecv)
		return z, false
	}
	c := recvState[C, T](ch)
	Point(c, KRecv)
	v, ok := c.take()
	if ok && v != nil {
		return v.(T), ok
	}
	return z, ok
}

// ChClose closes: `close(ch)`.
func ChClose[C ~chan T | ~chan<- T, T any](ch C) {
	if ptr(ch) == nil {
		panic("close of nil channel")
	}
	chClose(sendState[C, T](ch))
}

// ChLen is `len(ch)`.
func ChLen[C ~chan T | ~<-chan T, T any](ch C) int {
	if ptr(ch) == nil {
		return 0
	}
	return chLen(recvState[C, T](ch))
}

// ChRange is `range ch`.
func ChRange[C ~chan T | ~<-chan T, T any](ch C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := ChR2[C, T](ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SelCase is one case of a select statement.
type SelCase struct {
	c    *chanState
	send bool
	v    any
}

// SR is a receive case.
func SR[C ~chan T | ~<-chan T, T any](ch C) SelCase {
	if ptr(ch) == nil {
		return SelCase{}
	}
	return SelCase{c: recvState[C, T](ch)}
}

// SS is a send case: `SS(ch)(v)`.
func SS[C ~chan T | ~chan<- T, T any](ch C) func(T) SelCase {
	return func(v T) SelCase {
		if ptr(ch) == nil {
			return SelCase{}
		}
		return SelCase{c: sendState[C, T](ch), send: true, v: v}
	}
}

type selWait struct {
	o   Obj
	cs  []SelCase
	def bool
}

//go:norace
func (w *selWait) Base() *Obj { return &w.o }

//go:norace
func (w *selWait) pick() int { return w.ready(0) }

// ready finds the first case from number i on that can be taken.
//
//go:norace
func (w *selWait) ready(i int) int {
	for ; i < len(w.cs); i++ {
		k := w.cs[i]
		if k.c == nil {
			continue
		}
		if k.send {
			if k.c.closed || (k.c.cap > 0 && k.c.n < k.c.cap) || (k.c.cap == 0 && k.c.recvWaiting()) {
				return i
			}
		} else if k.c.Ready(KRecv) {
			return i
		}
	}
	return -1
}

//go:norace
func (w *selWait) count() int {
	n := 0
	for i := w.ready(0); i >= 0; i = w.ready(i + 1) {
		n++
	}
	return n
}

//go:norace
func (w *selWait) Ready(uint8) bool { return w.def || w.pick() >= 0 }

// recvWaiting tells whether some other thread is blocked receiving from c.
//
//go:norace
func (c *chanState) recvWaiting() bool {
	if s == nil {
		return false
	}
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == stReady && t != s.cur {
			if w, ok := t.w.(*chanState); ok && w == c && t.kind == KRecv {
				return true
			}
		}
	}
	return false
}

// Select performs a select statement and returns the index of the chosen case
// (-1: default). Every ready case is tried.
//
//go:norace
func Select(def bool, cs ...SelCase) int {
	w := &selWait{cs: cs, def: def}
	Point(w, KSelect)
	if Aborting() {
		return -1
	}
	i := w.pick()
	if i < 0 {
		return -1
	}
	for k := alternative(w.count()); k > 0; k-- {
		i = w.ready(i + 1)
	}
	k := cs[i]
	if k.send {
		if k.c.closed {
			panic("send on closed channel")
		}
		k.c.touch = true
		ReleaseMerge(unsafe.Pointer(&k.c.sync))
		if k.c.cap > 0 {
			k.c.push(k.v)
		} else {
			k.c.enqueue(k.v)
		}
		return i
	}
	v, ok := k.c.take()
	if active {
		s.cur.selVal, s.cur.selOK = v, ok
	} else {
		selVal, selOK = v, ok
	}
	return i
}

var (
	selVal any
	selOK  bool
)

//go:norace
func selected() (any, bool) {
	if active {
		return s.cur.selVal, s.cur.selOK
	}
	return selVal, selOK
}

// SelV and SelV2 give the value received by the last Select; the argument
// only conveys the type.
func SelV[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := SelV2[C, T](ch)
	return v
}

func SelV2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	v, ok := selected()
	var z T
	if v == nil {
		return z, ok
	}
	return v.(T), ok
}
