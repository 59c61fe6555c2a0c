// Package vsync replaces package sync under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/sonirico/visigoth/zz_verif/vs"
)

type Locker = sync.Locker

// Mutex: same contract as sync.Mutex.
type Mutex struct {
	o    vs.Obj
	held bool
}

//go:norace
func (m *Mutex) Ready(k uint8) bool { return k != vs.KLock || !m.held }

//go:norace
func (m *Mutex) Base() *vs.Obj { return &m.o }

//go:norace
func (m *Mutex) Lock() {
	vs.Point(m, vs.KLock)
	m.held = true
	vs.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	vs.Point(m, vs.KWrite)
	if m.held {
		return false
	}
	m.held = true
	vs.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	vs.Point(m, vs.KUnlock)
	if !m.held && !vs.Aborting() {
		panic("sync: unlock of unlocked mutex")
	}
	vs.Release(unsafe.Pointer(m))
	m.held = false
}

// RWMutex: as sync.RWMutex, including that a waiting writer blocks new readers.
type RWMutex struct {
	o       vs.Obj
	wheld   bool // a writer holds or has announced itself
	readers int
	wown    bool // a writer holds
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) Ready(k uint8) bool {
	switch k {
	case vs.KRLock, vs.KLock:
		return !m.wheld
	case vs.KLock2:
		return m.readers == 0
	}
	return true
}

//go:norace
func (m *RWMutex) Base() *vs.Obj { return &m.o }

//go:norace
func (m *RWMutex) RLock() {
	vs.Point(m, vs.KRLock)
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vs.Point(m, vs.KWrite)
	if m.wheld {
		return false
	}
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	vs.Point(m, vs.KRUnlock)
	if m.readers <= 0 {
		if vs.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vs.ReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
}

//go:norace
func (m *RWMutex) Lock() {
	vs.Point(m, vs.KLock)
	m.wheld = true
	if m.readers > 0 {
		vs.Point(m, vs.KLock2)
	}
	m.wown = true
	vs.Acquire(unsafe.Pointer(&m.rsem))
	vs.Acquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vs.Point(m, vs.KWrite)
	if m.wheld || m.readers > 0 {
		return false
	}
	m.wheld, m.wown = true, true
	vs.Acquire(unsafe.Pointer(&m.rsem))
	vs.Acquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	vs.Point(m, vs.KUnlock)
	if !m.wown {
		if vs.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.rsem))
	m.wheld, m.wown = false, false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup: as sync.WaitGroup.
type WaitGroup struct {
	o vs.Obj
	n int
}

//go:norace
func (w *WaitGroup) Ready(k uint8) bool { return k != vs.KWait || w.n == 0 }

//go:norace
func (w *WaitGroup) Base() *vs.Obj { return &w.o }

//go:norace
func (w *WaitGroup) Add(d int) {
	k := uint8(vs.KWrite)
	if d < 0 {
		k = vs.KDone
	}
	vs.Point(w, k)
	if d < 0 {
		vs.ReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 && !vs.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vs.Point(w, vs.KWait)
	vs.Acquire(unsafe.Pointer(w))
}

// Go as in Go 1.25.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.BeforeGo()
	go func() {
		defer vs.Detach(vs.Attach())
		defer w.Done()
		f()
	}()
	vs.AfterGo()
}

// Once: as sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Cond: as sync.Cond (without spurious wake-ups; Signal wakes the longest waiter).
type Cond struct {
	o    vs.Obj
	L    Locker
	head int // tickets below head may pass
	tail int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type ticket struct {
	c *Cond
	n int
}

//go:norace
func (t *ticket) Ready(k uint8) bool { return t.n < t.c.head }

//go:norace
func (t *ticket) Base() *vs.Obj { return &t.c.o }

//go:norace
func (c *Cond) Ready(k uint8) bool { return true }

//go:norace
func (c *Cond) Base() *vs.Obj { return &c.o }

//go:norace
func (c *Cond) Wait() {
	vs.Point(c, vs.KWrite)
	t := &ticket{c, c.tail}
	c.tail++
	c.L.Unlock()
	vs.Point(t, vs.KWait)
	vs.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vs.Point(c, vs.KWrite)
	vs.ReleaseMerge(unsafe.Pointer(c))
	if c.head < c.tail {
		c.head++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	vs.Point(c, vs.KWrite)
	vs.ReleaseMerge(unsafe.Pointer(c))
	c.head = c.tail
}

// Map: as sync.Map, every operation atomic, Range in a defined order.
type Map struct {
	o  vs.Obj
	m  map[any]any
	mu sync.Mutex // never contended under the scheduler; gives the happens-before edges
}

//go:norace
func (m *Map) Ready(k uint8) bool { return true }

//go:norace
func (m *Map) Base() *vs.Obj { return &m.o }

func (m *Map) begin(k uint8) {
	vs.Point(m, k)
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) {
	m.begin(vs.KRead)
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.begin(vs.KWrite)
	defer m.mu.Unlock()
	m.m = map[any]any{}
}
func (m *Map) Range(f func(k, v any) bool) {
	m.begin(vs.KRead)
	ks := vs.SortedKeys(m.m)
	m.mu.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool: last in, first out; reuse is immediate, the most revealing behaviour
// the contract allows.
type Pool struct {
	o     vs.Obj
	New   func() any
	items []any
	mu    sync.Mutex
}

//go:norace
func (p *Pool) Ready(k uint8) bool { return true }

//go:norace
func (p *Pool) Base() *vs.Obj { return &p.o }

func (p *Pool) Get() any {
	vs.Point(p, vs.KWrite)
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vs.Point(p, vs.KWrite)
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
