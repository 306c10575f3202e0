// Package sync stands in for the standard package: locks are modelled on top of the
// cooperative scheduler, so that blocking and deadlock are exact.
package sync

import (
	"sync"
	"unsafe"

	"skipverif/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Pool models sync.Pool: last in, first out, and emptied between cases
// and by forced collections.
type Pool struct {
	New   func() any
	items []*pooled
	epoch uint64
}

type pooled struct{ v any }

//go:norace
func (p *Pool) pop() *pooled {
	if p.epoch != vsched.Epoch {
		p.epoch, p.items = vsched.Epoch, nil
	}
	n := len(p.items)
	if n == 0 {
		return nil
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	return x
}

//go:norace
func (p *Pool) push(x *pooled) {
	if p.epoch != vsched.Epoch {
		p.epoch, p.items = vsched.Epoch, nil
	}
	if len(p.items) == 0 {
		vsched.OnGC(func() { p.items = nil })
	}
	p.items = append(p.items, x)
}

func (p *Pool) Get() any {
	vsched.Point(vsched.KRMW)
	if x := p.pop(); x != nil {
		vsched.RaceAcquire(unsafe.Pointer(x))
		return x.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	vsched.Point(vsched.KRMW)
	if v == nil {
		return
	}
	x := &pooled{v: v}
	vsched.RaceRelease(unsafe.Pointer(x))
	p.push(x)
}

// Mutex models sync.Mutex.
type Mutex struct{ locked bool }

//go:norace
func (m *Mutex) take() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) release() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

func (m *Mutex) Lock() {
	vsched.Point(vsched.KLock)
	for try := 1; !m.take() && !vsched.BlockLock(unsafe.Pointer(m), try); try++ {
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vsched.Point(vsched.KLock)
	if !m.take() {
		return false
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	vsched.Point(vsched.KUnlock)
	vsched.RaceRelease(unsafe.Pointer(m))
	m.release()
	if vsched.Handoff(unsafe.Pointer(m)) {
		m.take()
	} else {
		vsched.Wake(unsafe.Pointer(m))
	}
}

// RWMutex models sync.RWMutex (without writer preference: a permitted behaviour set
// that is larger than, and includes, the outcomes of the original).
type RWMutex struct {
	w bool
	r int
	x byte
}

//go:norace
func (m *RWMutex) takeW() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) takeR() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

//go:norace
func (m *RWMutex) relW() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

//go:norace
func (m *RWMutex) relR() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

// pass hands the lock to a starved writer or wakes those who wait.
func (m *RWMutex) pass() {
	if m.takeW() {
		if vsched.Handoff(unsafe.Pointer(m)) {
			return
		}
		m.relW()
	}
	vsched.Wake(unsafe.Pointer(m))
}

func (m *RWMutex) Lock() {
	vsched.Point(vsched.KLock)
	for try := 1; !m.takeW() && !vsched.BlockLock(unsafe.Pointer(m), try); try++ {
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
	vsched.RaceAcquire(unsafe.Pointer(&m.x))
}

func (m *RWMutex) TryLock() bool {
	vsched.Point(vsched.KLock)
	if !m.takeW() {
		return false
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
	vsched.RaceAcquire(unsafe.Pointer(&m.x))
	return true
}

func (m *RWMutex) Unlock() {
	vsched.Point(vsched.KUnlock)
	vsched.RaceRelease(unsafe.Pointer(m))
	m.relW()
	m.pass()
}

func (m *RWMutex) RLock() {
	vsched.Point(vsched.KLock)
	for !m.takeR() && !vsched.BlockLock(unsafe.Pointer(m), 0) {
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point(vsched.KLock)
	if !m.takeR() {
		return false
	}
	vsched.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Point(vsched.KUnlock)
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.x))
	m.relR()
	m.pass()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) add(d int) int {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	return w.n
}

func (w *WaitGroup) Add(d int) {
	vsched.Point(vsched.KRMW)
	vsched.RaceReleaseMerge(unsafe.Pointer(w))
	if w.add(d) == 0 {
		vsched.Wake(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Point(vsched.KLock)
	for w.add(0) > 0 {
		vsched.Block(unsafe.Pointer(w))
	}
	vsched.RaceAcquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Cond models sync.Cond (every Signal wakes all waiters: spurious wake-ups are only
// seen by callers that do not re-check their condition in a loop, as they must).
type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) get() int { return c.gen }

//go:norace
func (c *Cond) inc() { c.gen++ }

func (c *Cond) Wait() {
	g := c.get()
	c.L.Unlock()
	for c.get() == g {
		vsched.Block(unsafe.Pointer(c))
	}
	vsched.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() { c.Broadcast() }
func (c *Cond) Broadcast() {
	vsched.Point(vsched.KStore)
	vsched.RaceReleaseMerge(unsafe.Pointer(c))
	c.inc()
	vsched.Wake(unsafe.Pointer(c))
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
