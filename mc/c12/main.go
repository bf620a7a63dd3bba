//go:build go1.21

// C12: concurrent matching.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/route"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	"github.com/buypal/oapi-go/internal/verifmc/vsync"
)

type obj = map[string]interface{}

var world *m.World

// call of Match. Patterns hold a number that was never used before in the
// process, so every execution finds the same state.
type call struct {
	pattern, method, path string
	want                  bool
	bad                   bool // the pattern can't be compiled
}

var serial int64

// alphabet of calls; a, b are two fresh texts
func alphabet(a, b string) []call {
	return []call{
		{pattern: "/" + a, path: "/" + a, want: true},
		{pattern: "/" + a, path: "/" + b},
		{pattern: "/" + a + "/{id}", path: "/" + a + "/1", want: true},
		{pattern: "GET:/" + a, method: "get", path: "/" + a, want: true},
		{pattern: "/" + b, path: "/" + b, want: true},
		{pattern: "/" + a + "\xff", path: "/" + a, bad: true},
		{pattern: "/" + a + "*", path: "/" + a + "/x/y", want: true},
		{pattern: "post:/" + b, method: "get", path: "/" + b},
		{pattern: "/" + b + "\xff", path: "/" + b, bad: true},
	}
}

// fresh is a text without letters that matter, of constant length.
func fresh() string { return fmt.Sprintf("p%07d", atomic.AddInt64(&serial, 1)) }

type answer struct {
	ok  bool
	err error
	ran bool
}

func races(x *m.X, before int) {
	if n := vsync.Races(); n > before {
		x.Report("race", "data race: %s", report())
	}
}

// report is the last report of the race detector.
func report() string {
	ff, _ := filepath.Glob(strings.TrimPrefix(field(os.Getenv("GORACE"), "log_path="), "") + fmt.Sprintf(".%d", os.Getpid()))
	for _, f := range ff {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		t := string(b)
		if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
			t = t[i:]
		}
		if len(t) > 3000 {
			t = t[:3000]
		}
		return t
	}
	return "see the race detector"
}

func field(s, k string) string {
	for _, f := range strings.Fields(s) {
		if strings.HasPrefix(f, k) {
			return strings.TrimPrefix(f, k)
		}
	}
	return ""
}

// execute runs the threads under the scheduler and judges every answer.
func execute(x *m.X, threads [][]call) {
	answers := make([][]answer, len(threads))
	var fns []func()
	var what []string
	for i := range threads {
		i := i
		answers[i] = make([]answer, len(threads[i]))
		what = append(what, m.JS(texts(threads[i])))
		fns = append(fns, func() {
			for j, c := range threads[i] {
				ok, err := route.Match(c.pattern, c.method, c.path)
				answers[i][j] = answer{ok, err, true}
			}
		})
	}
	x.Case("threads %s", strings.Join(what, " || "))
	before := vsync.Races()
	var trace []string
	r := vsync.Run(func(n int, same bool) int {
		k := 0
		if same {
			k = x.Deviate(n, "preempt")
		} else {
			k = x.Choose(n, "next")
		}
		trace = append(trace, fmt.Sprint(k))
		return k
	}, fns...)
	races(x, before)
	if len(r.Blocked) > 0 {
		x.Fail("blocked", "threads %v never continue (schedule %v)", r.Blocked, trace)
	}
	for i, p := range r.Panics {
		if p != "" {
			x.Fail("panic", "thread %d panicked: %s", i, p)
		}
	}
	for i := range threads {
		for j, c := range threads[i] {
			judge(x, c, answers[i][j], fmt.Sprintf("call %d of thread %d, schedule %v", j, i, trace))
		}
	}
	x.Outcome("steps %d", r.Steps)
	// what is left behind has to work as well
	for _, t := range threads {
		for _, c := range t {
			c := c
			var a answer
			r := vsync.Run(func(int, bool) int { return 0 }, func() { a.ok, a.err = route.Match(c.pattern, c.method, c.path) })
			if len(r.Blocked) > 0 {
				x.Fail("blocked", "matching %q blocks for ever after the threads ended (schedule %v)", c.pattern, trace)
			}
			if r.Panics != nil {
				x.Fail("panic", "matching %q after the threads ended panicked: %s", c.pattern, r.Panics[0])
			}
			judge(x, c, a, "after the threads ended")
		}
	}
}

func texts(cc []call) (t []string) {
	for _, c := range cc {
		t = append(t, fmt.Sprintf("%s %s %s", c.pattern, c.method, c.path))
	}
	return
}

func judge(x *m.X, c call, a answer, when string) {
	if c.bad {
		if a.err == nil {
			x.Fail("no error", "pattern %q compiled (%s)", c.pattern, when)
		}
		return
	}
	if a.err != nil || a.ok != c.want {
		x.Fail("answer", "Match(%q, %q, %q) = %v, %v (%s)", c.pattern, c.method, c.path, a.ok, a.err, when)
	}
}

// programs with the given shape; symmetric ones are taken once.
func programs(shape []int, letters func() int) func(x *m.X) {
	return func(x *m.X) {
		al := alphabet(fresh(), fresh())
		var threads [][]call
		var prev []int
		for i, n := range shape {
			var t []call
			var ids []int
			for j := 0; j < n; j++ {
				k := x.Choose(letters(), "call")
				ids = append(ids, k)
				t = append(t, al[k])
			}
			if i > 0 && len(ids) == len(prev) && less(ids, prev) {
				x.Prune()
			}
			prev = ids
			threads = append(threads, t)
		}
		execute(x, threads)
	}
}

func less(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// full: many patterns were matched before
func full(x *m.X) {
	n := m.Pick(x, "before", 10, 70, 300, 1100)
	for i := 0; i < n; i++ {
		p := "/" + fresh()
		ok, err := route.Match(p, "", p)
		if !ok || err != nil {
			x.Fail("answer", "Match(%q, %q) = %v, %v", p, p, ok, err)
		}
	}
	al := alphabet(fresh(), fresh())
	var threads [][]call
	for i := 0; i < 2; i++ {
		threads = append(threads, []call{al[x.Choose(6, "call")]})
	}
	execute(x, threads)
}

// ---- whole scans and formats

const src = "package a\n\nimport \"ex.com/b\"\n\n//openapi:schema Ex T\ntype T struct {\n\tX int `oapi:\"x,min:1\"`\n\tS []b.U\n\tN *T\n}\n"

func library(x *m.X) {
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"},
		"paths":      obj{"/a/{id}": obj{"get": obj{"responses": obj{"200": obj{"content": obj{"m": obj{"schema": obj{"$ref": "go://#/T"}}}}}}}},
		"components": obj{"schemas": obj{"Q": obj{"$ref": "go://ex.com/b#/U"}}}, "x-b": obj{"k": []interface{}{1.0, "v"}}, "x-a": 1.0}
	dir := world.Write("ex.com/a",
		m.Pkg{Path: "ex.com/a", Files: map[string]string{"x.go": src, "oapi.json": m.JS(doc)}},
		m.Pkg{Path: "ex.com/b", Files: map[string]string{"z.go": "package b\n\ntype U struct { Z bool }\n"}})
	formats := []string{"json", "yaml", "json:pretty", "go"}
	var shared oapi.OAPI
	ref := map[string]string{}
	var err error
	if shared, err = oapi.Scan(context.Background(), oapi.WithDir(dir)); err != nil {
		x.Fail("scan", "%v", err)
	}
	for _, f := range formats {
		// of a document of its own: nothing is shared
		o, err := oapi.Scan(context.Background(), oapi.WithDir(dir))
		if err != nil {
			x.Fail("scan", "%v", err)
		}
		b, err := oapi.Format(f, o)
		if err != nil {
			x.Fail("format", "%v", err)
		}
		ref[f] = string(b)
	}
	kinds := append([]string{"scan"}, formats...)
	var what []string
	out := make([]string, 3)
	var fns []func()
	for i := 0; i < m.N(2, 3); i++ {
		i := i
		k := m.Pick(x, "thread", kinds...)
		what = append(what, k)
		fns = append(fns, func() {
			var b []byte
			var err error
			if k == "scan" {
				var o oapi.OAPI
				if o, err = oapi.Scan(context.Background(), oapi.WithDir(dir)); err == nil {
					b, err = oapi.Format("json", o)
				}
			} else {
				b, err = oapi.Format(k, shared)
			}
			out[i] = string(b)
			if err != nil {
				out[i] = "error: " + err.Error()
			}
		})
	}
	x.Case("%v at the same time", what)
	before := vsync.Races()
	r := vsync.Run(func(n int, same bool) int {
		if same {
			return x.Deviate(n, "preempt")
		}
		return x.Choose(n, "next")
	}, fns...)
	races(x, before)
	if len(r.Blocked) > 0 {
		x.Fail("blocked", "threads %v never continue", r.Blocked)
	}
	for i, p := range r.Panics {
		x.Fail("panic", "thread %d panicked: %s", i, p)
	}
	for i, k := range what {
		if k == "scan" {
			k = "json"
		}
		if out[i] != ref[k] {
			x.Fail("result", "%s gives %s instead of %s", what[i], out[i], ref[k])
		}
	}
	x.Outcome("%v", what)
}

func main() {
	mode := "the sync package of the code that matches is replaced, a thread can be preempted before each operation on a lock or atomic"
	if os.Getenv("MC_UNCONTROLLED") != "" {
		mode = "THE SYNC PACKAGE COULD NOT BE REPLACED, threads run whole calls; races are still found"
	}
	m.Main(m.Check{
		ID: "C12", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{mode, "the race detector reports every pair of conflicting accesses without synchronisation in the schedule it watches; it keeps the last four accesses of a place", "a data race free program behaves as if it could only be preempted at synchronisation"},
		Spaces: []m.Space{
			{Name: "pairs", Bound: -1, Loose: true, Rule: "two threads with one call each of 9, every schedule", Run: programs([]int{1, 1}, func() int { return 9 })},
			{Name: "two by two", Bound: m.N(2, -1), Loose: true, Rule: "two threads with two calls each of 6 (thorough 9), up to 2 preemptions (thorough any number)", Run: programs([]int{2, 2}, func() int { return m.N(6, 9) })},
			{Name: "three", Bound: m.N(2, 4), Loose: true, Rule: "three threads with one call each of 9, up to 2 (thorough 4) preemptions", Run: programs([]int{1, 1, 1}, func() int { return 9 })},
			{Name: "three by two", Bound: 3, ThoroughOnly: true, Loose: true, Rule: "three threads with two calls each of 4, up to 3 preemptions", Run: programs([]int{2, 2, 2}, func() int { return 4 })},
			{Name: "full", Bound: m.N(1, 3), Loose: true, Rule: "two threads after up to 1100 other patterns were matched", Run: full},
			{Name: "library", Bound: 1, Loose: true, Rule: "two (thorough three) scans and formats of one document at the same time", Run: library},
		},
	})
}
