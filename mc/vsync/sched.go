//go:build go1.21

// Package vsync replaces sync in the code under test. Goroutines started by Run
// execute one at a time; before each operation on a lock they hand over to the
// scheduler, which decides who continues. The race detector does not see the
// hand over, it only sees the synchronisation the code under test does itself,
// so an unsynchronised access is reported whatever the schedule is.
package vsync

import (
	"runtime"
	"sync"
	"time"
	"unsafe"
)

const maxThreads = 16

type opKind int

const (
	opNone   opKind = iota // always enabled
	opLock                 // enabled when nobody holds the lock
	opRLock                // enabled when no writer holds it
	opWait                 // enabled when the counter is zero
	opSignal               // enabled when signalled
	opOnce                 // enabled when the function is not running
)

type thread struct {
	id       int
	goid     uint64
	wake     chan struct{}
	op       opKind
	obj      unsafe.Pointer
	parked   bool
	done     bool
	external bool // blocked by something the scheduler does not know
	dynamic  bool // started by the code under test
	pv       interface{}
	stack    string
}

type sched struct {
	active  bool
	current int // the thread that was chosen
	threads [maxThreads]*thread
	n       int
	notes   chan int32
	mu      sync.Mutex
}

var sc sched

// Result of Run.
type Result struct {
	Blocked []int // threads which can never continue
	Panics  map[int]string
	Steps   int
}

//go:norace
func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for i := len("goroutine "); i < n; i++ {
		c := buf[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// self is the thread of the calling goroutine, nil outside of Run.
//
//go:norace
func self() *thread {
	if !sc.active {
		return nil
	}
	id := goid()
	for i := 0; i < sc.n; i++ {
		if sc.threads[i].goid == id {
			return sc.threads[i]
		}
	}
	// a goroutine the code under test has started
	raceOff()
	defer raceOn()
	sc.mu.Lock()
	defer sc.mu.Unlock()
	if sc.n == maxThreads {
		return nil
	}
	t := &thread{id: sc.n, goid: id, dynamic: true, wake: make(chan struct{}, 1)}
	sc.threads[sc.n] = t
	sc.n++
	return t
}

// enabled tells if the operation the thread is about to do can be done.
//
//go:norace
func (t *thread) enabled() bool {
	switch t.op {
	case opLock:
		l := (*RWMutex)(t.obj)
		return !l.writer && l.readers == 0
	case opRLock:
		l := (*RWMutex)(t.obj)
		return !l.writer && l.waiting == 0
	case opWait:
		return (*WaitGroup)(t.obj).n <= 0
	case opSignal:
		return (*waiter)(t.obj).signalled
	case opOnce:
		return !(*Once)(t.obj).running
	}
	return true
}

// point is a scheduling point: the calling thread continues when it was chosen
// and its operation can be done. It returns false outside of Run, when the
// operation can't be done (nobody will ever make it possible).
//
//go:norace
func point(op opKind, obj unsafe.Pointer) bool {
	t := self()
	if t == nil {
		x := thread{op: op, obj: obj}
		return x.enabled()
	}
	t.op, t.obj = op, obj
	raceOff()
	t.parked = true
	sc.notes <- int32(t.id)
	<-t.wake
	raceOn()
	return true
}

// Point is a scheduling point of its own.
//
//go:norace
func Point() { point(opNone, nil) }

// PointAt is a scheduling point for the first visits of a place by a thread.
//
//go:norace
func PointAt(place int) {
	if !sc.active {
		return
	}
	v := &visits[sc.current%maxThreads][place%maxPlaces]
	*v++
	if *v <= maxVisits {
		point(opNone, nil)
	}
}

const (
	maxPlaces = 1 << 12
	maxVisits = 2
)

var visits [maxThreads][maxPlaces]int32

//go:norace
func begin(t *thread) {
	t.goid = goid()
	raceOff()
	t.parked = true
	sc.notes <- int32(t.id)
	<-t.wake
	raceOn()
}

//go:norace
func end(t *thread) {
	raceOff()
	t.done = true
	sc.notes <- int32(t.id)
	raceOn()
}

//go:norace
func wakeup(t *thread) {
	t.parked = false
	t.op, t.obj = opNone, nil
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

// await waits for a thread to park or end.
//
//go:norace
func await(d time.Duration) (id int, ok bool) {
	raceOff()
	defer raceOn()
	select {
	case n := <-sc.notes:
		return int(n), true
	default:
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case n := <-sc.notes:
		return int(n), true
	case <-tm.C:
		return 0, false
	}
}

//go:norace
func body(t *thread, fn func()) {
	begin(t)
	call(t, fn)
	end(t)
}

//go:norace
func call(t *thread, fn func()) {
	defer caught(t)
	fn()
}

//go:norace
func caught(t *thread) {
	if pv := recover(); pv != nil {
		t.pv = pv
		b := make([]byte, 8192)
		t.stack = string(b[:runtime.Stack(b, false)])
	}
}

// Run executes the functions as threads. pick chooses one of n threads that
// can continue; the thread that ran last is the first of them if it can (same).
//
//go:norace
func Run(pick func(n int, same bool) int, fns ...func()) (r Result) {
	if sc.active || len(fns) > maxThreads {
		panic("vsync: bad use of Run")
	}
	sc.notes = make(chan int32, 4*maxThreads)
	sc.n = len(fns)
	visits = [maxThreads][maxPlaces]int32{}
	for i := range fns {
		sc.threads[i] = &thread{id: i, wake: make(chan struct{}, 1)}
	}
	sc.active = true
	for i, fn := range fns {
		go body(sc.threads[i], fn)
		await(time.Minute)
	}
	last := -1
	for {
		// who can continue; the last one first
		var ids [maxThreads]int
		n := 0
		left, external := 0, 0
		if last >= 0 && sc.threads[last].parked && !sc.threads[last].done && sc.threads[last].enabled() {
			ids[n] = last
			n++
		}
		same := n == 1
		for i := 0; i < sc.n; i++ {
			t := sc.threads[i]
			if t.done || t.dynamic && !t.parked {
				continue
			}
			left++
			if t.external {
				external++
				continue
			}
			if i != last && t.parked && t.enabled() {
				ids[n] = i
				n++
			}
		}
		if left == 0 {
			break
		}
		if n == 0 {
			if external > 0 {
				if id, ok := await(5 * time.Second); ok {
					sc.threads[id].external = false
					continue
				}
			}
			for i := 0; i < sc.n; i++ {
				if !sc.threads[i].done {
					r.Blocked = append(r.Blocked, i)
				}
			}
			break
		}
		k := 0
		if n > 1 {
			k = pick(n, same)
		}
		t := sc.threads[ids[k]]
		last = t.id
		sc.current = t.id
		r.Steps++
		wakeup(t)
		for {
			id, ok := await(time.Second)
			if !ok {
				t.external = true
				break
			}
			sc.threads[id].external = false
			if id == t.id {
				break
			}
		}
	}
	sc.active = false
	for i := 0; i < sc.n; i++ {
		if t := sc.threads[i]; t.pv != nil {
			if r.Panics == nil {
				r.Panics = map[int]string{}
			}
			r.Panics[i] = text(t.pv) + "\n" + t.stack
		}
	}
	return r
}

//go:norace
func text(v interface{}) string {
	switch v := v.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return "panic"
}
