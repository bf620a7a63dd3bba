//go:build go1.21

package vsync

import (
	"sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	waiting int // writers waiting: readers have to queue behind them
	w, r    byte
}

//go:norace
func (l *RWMutex) Lock() {
	l.waiting++
	ok := point(opLock, unsafe.Pointer(l))
	l.waiting--
	if !ok {
		panic("vsync: deadlock: the lock is held and nobody is left to release it")
	}
	l.writer = true
	acquire(unsafe.Pointer(&l.w))
	acquire(unsafe.Pointer(&l.r))
}

//go:norace
func (l *RWMutex) TryLock() bool {
	point(opNone, nil)
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	acquire(unsafe.Pointer(&l.w))
	acquire(unsafe.Pointer(&l.r))
	return true
}

//go:norace
func (l *RWMutex) Unlock() {
	point(opNone, nil)
	if !l.writer {
		panic("vsync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(&l.w))
	l.writer = false
}

//go:norace
func (l *RWMutex) RLock() {
	if !point(opRLock, unsafe.Pointer(l)) {
		panic("vsync: deadlock: the lock is held and nobody is left to release it")
	}
	l.readers++
	acquire(unsafe.Pointer(&l.w))
}

//go:norace
func (l *RWMutex) TryRLock() bool {
	point(opNone, nil)
	if l.writer {
		return false
	}
	l.readers++
	acquire(unsafe.Pointer(&l.w))
	return true
}

//go:norace
func (l *RWMutex) RUnlock() {
	point(opNone, nil)
	if l.readers <= 0 {
		panic("vsync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(&l.r))
	l.readers--
}

// RLocker is sync.RWMutex.RLocker.
func (l *RWMutex) RLocker() Locker { return (*rlocker)(l) }

type rlocker RWMutex

//go:norace
func (l *rlocker) Lock() { (*RWMutex)(l).RLock() }

//go:norace
func (l *rlocker) Unlock() { (*RWMutex)(l).RUnlock() }

// Mutex replaces sync.Mutex.
type Mutex struct{ l RWMutex }

//go:norace
func (m *Mutex) Lock() { m.l.Lock() }

//go:norace
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

//go:norace
func (m *Mutex) Unlock() { m.l.Unlock() }

// Once replaces sync.Once.
type Once struct {
	done, running bool
	b             byte
}

//go:norace
func (o *Once) Do(f func()) {
	if !point(opOnce, unsafe.Pointer(o)) {
		panic("vsync: deadlock: the function of a Once waits for itself")
	}
	if o.done {
		acquire(unsafe.Pointer(&o.b))
		return
	}
	o.running = true
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() {
	o.running, o.done = false, true
	release(unsafe.Pointer(&o.b))
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := new(Once)
	var pv interface{}
	return func() {
		o.Do(func() {
			defer func() { pv = recover() }()
			f()
		})
		if pv != nil {
			panic(pv)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	b byte
}

//go:norace
func (w *WaitGroup) Add(n int) {
	point(opNone, nil)
	release(unsafe.Pointer(&w.b))
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !point(opWait, unsafe.Pointer(w)) {
		panic("vsync: deadlock: waiting for a group nobody finishes")
	}
	acquire(unsafe.Pointer(&w.b))
}

// Map replaces sync.Map. Its operations are ordered by each other.
type Map struct {
	m    map[any]any
	keys []any
	b    byte
}

//go:norace
func (m *Map) in() {
	point(opNone, nil)
	acquire(unsafe.Pointer(&m.b))
	if m.m == nil {
		m.m = map[any]any{}
	}
}

//go:norace
func (m *Map) out() { release(unsafe.Pointer(&m.b)) }

func (m *Map) Load(k any) (v any, ok bool) {
	m.in()
	defer m.out()
	v, ok = m.m[k]
	return
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (old any, loaded bool) {
	m.in()
	defer m.out()
	if old, loaded = m.m[k]; !loaded {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	defer m.out()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.in()
	defer m.out()
	v, ok = m.m[k]
	m.del(k)
	return
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.in()
	defer m.out()
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	m.m[k] = v
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.in()
	defer m.out()
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	m.in()
	defer m.out()
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	keys := append([]any{}, m.keys...)
	m.out()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool; what was put last is taken first.
type Pool struct {
	New   func() any
	items []any
	b     byte
}

func (p *Pool) Get() any {
	point(opNone, nil)
	acquire(unsafe.Pointer(&p.b))
	var v any
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[: n-1 : n-1]
	}
	release(unsafe.Pointer(&p.b))
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	point(opNone, nil)
	acquire(unsafe.Pointer(&p.b))
	p.items = append(p.items, v)
	release(unsafe.Pointer(&p.b))
}

type waiter struct {
	signalled bool
	b         byte
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*waiter
	b byte
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{}
	acquire(unsafe.Pointer(&c.b))
	c.q = append(c.q, w)
	release(unsafe.Pointer(&c.b))
	c.L.Unlock()
	if !point(opSignal, unsafe.Pointer(w)) {
		panic("vsync: deadlock: nobody signals")
	}
	acquire(unsafe.Pointer(&w.b))
	c.L.Lock()
}

//go:norace
func (c *Cond) wakeFirst() {
	if len(c.q) == 0 {
		return
	}
	w := c.q[0]
	release(unsafe.Pointer(&w.b))
	w.signalled = true
	c.q = c.q[1:]
}

func (c *Cond) Signal() {
	point(opNone, nil)
	acquire(unsafe.Pointer(&c.b))
	c.wakeFirst()
	release(unsafe.Pointer(&c.b))
}

func (c *Cond) Broadcast() {
	point(opNone, nil)
	acquire(unsafe.Pointer(&c.b))
	for len(c.q) > 0 {
		c.wakeFirst()
	}
	release(unsafe.Pointer(&c.b))
}
