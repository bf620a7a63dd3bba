//go:build go1.21

// Package maporder gives the order in which maps are iterated into the hands
// of the explorer. It needs the overlay made by patch.py.
package maporder

import (
	"go/types"
	"runtime"
	"strings"
	"sync"
	"unsafe"
)

//go:linkname verifOrder internal/runtime/maps.verifOrder
var verifOrder func(n int) []int

//go:linkname verifRank internal/runtime/maps.verifRank
var verifRank func(elem unsafe.Pointer) string

// Prefixes of packages whose iterations are controlled.
var Prefixes = []string{"github.com/buypal/oapi-go", "github.com/Jeffail/gabs", typeutil}

const typeutil = "golang.org/x/tools/go/types/typeutil"

// passed on to their caller
var helpers = []string{"runtime.", "internal/runtime/", "maps.", "slices.", "iter.", "sort."}

// Orders lists the orders of n keys which are explored: all of them up to
// four keys, else the identity, the reverse, all rotations and each key moved
// to the front or to the end, and neighbours swapped.
func Orders(n int) [][]int {
	if o, ok := cache[n]; ok {
		return o
	}
	var out [][]int
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		var rec func(cur, rest []int)
		rec = func(cur, rest []int) {
			if len(rest) == 0 {
				out = append(out, append([]int{}, cur...))
				return
			}
			for i := range rest {
				r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
				rec(append(cur, rest[i]), r)
			}
		}
		rec(nil, id)
	} else {
		seen := map[string]bool{}
		add := func(o []int) {
			b := make([]byte, n)
			for i, v := range o {
				b[i] = byte(v)
			}
			if !seen[string(b)] {
				seen[string(b)] = true
				out = append(out, o)
			}
		}
		add(id)
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		add(rev)
		for i := 0; i < n; i++ {
			var rot, front, back []int
			front = append(front, i)
			for j := 0; j < n; j++ {
				rot = append(rot, (i+j)%n)
				if j != i {
					front = append(front, j)
					back = append(back, j)
				}
			}
			add(rot)
			add(front)
			add(append(back, i))
		}
		for i := 0; i+1 < n; i++ {
			sw := append([]int{}, id...)
			sw[i], sw[i+1] = sw[i+1], sw[i]
			add(sw)
		}
	}
	cache[n] = out
	return out
}

// Policy gives the index of an order: 1 reverse, 2 rotation, 3 first two
// swapped (or with two keys the reverse).
func Policy(n, p int) int {
	want := make([]int, n)
	for i := range want {
		switch p {
		case 1:
			want[i] = n - 1 - i
		case 2:
			want[i] = (i + 1) % n
		default:
			want[i] = i
		}
	}
	if p == 3 {
		want[0], want[1] = 1, 0
	}
	for i, o := range Orders(n) {
		same := true
		for j := range o {
			same = same && o[j] == want[j]
		}
		if same {
			return i
		}
	}
	return 0
}

var cache = map[int][][]int{}

// Control runs fn; the order of each controlled iteration is the one of
// Orders(n) which pick(n, len(Orders(n)), caller) selects.
func Control(pick func(n, orders int, caller string) int, fn func()) {
	busy := false
	ranks = map[types.Type]string{}
	verifOrder = func(n int) []int {
		if busy || n > 200 {
			return nil
		}
		name, pcs, ok := caller()
		if !ok {
			return nil
		}
		busy = true
		verifRank = nil
		if strings.HasPrefix(name, typeutil) {
			verifRank = rank
		}
		defer func() { busy = false }()
		o := Orders(n)
		return o[pick(n, len(o), chain(pcs))]
	}
	defer func() { verifOrder, verifRank = nil, nil }()
	fn()
}

// rank of a bucket of typeutil.Map: its types
func rank(elem unsafe.Pointer) (s string) {
	for _, e := range *(*[]struct {
		key   types.Type
		value interface{}
	})(elem) {
		if e.key == nil {
			continue
		}
		if _, ok := ranks[e.key]; !ok {
			ranks[e.key] = types.TypeString(e.key, nil)
		}
		s += ranks[e.key] + ";"
	}
	return
}

var ranks = map[types.Type]string{}

type class struct {
	kind int // 0 passed on to the caller, 1 controlled, 2 not
	name string
}

// classes of return addresses, inlined functions included
var (
	mu      sync.Mutex
	classes = map[uintptr]class{}
)

func classify(pc uintptr) (c class) {
	mu.Lock()
	defer mu.Unlock()
	c, ok := classes[pc]
	if ok {
		return c
	}
	fr := runtime.CallersFrames([]uintptr{pc})
	for {
		f, more := fr.Next()
		c = class{2, f.Function}
		for _, h := range helpers {
			if strings.HasPrefix(f.Function, h) {
				c.kind = 0
			}
		}
		for _, p := range Prefixes {
			if strings.HasPrefix(f.Function, p) && !strings.Contains(f.Function, "/internal/verifmc/") {
				c.kind = 1
			}
		}
		if c.kind != 0 || !more {
			break
		}
	}
	classes[pc] = c
	return c
}

// caller is the function which iterates, chain the functions of the module it
// was called by, without repetitions.
func caller() (name string, pcs []uintptr, ok bool) {
	var buf [14]uintptr
	n := runtime.Callers(4, buf[:8])
	for i, pc := range buf[:n] {
		switch c := classify(pc); c.kind {
		case 1:
			n = runtime.Callers(4+i, buf[:])
			return c.name, buf[:n], true
		case 2:
			return "", nil, false
		}
	}
	return "", nil, false
}

func chain(pcs []uintptr) string {
	var out []string
	for _, pc := range pcs {
		c := classify(pc)
		if c.kind != 1 {
			continue
		}
		s := c.name[strings.LastIndex(c.name, "/")+1:]
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	return strings.Join(out, "<")
}
