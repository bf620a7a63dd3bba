//go:build go1.21

// Package mclib is a small stateless model checker: it enumerates every
// sequence of choices a harness body can make (optionally bounded in the number
// of deviations from choice 0), runs the body once per sequence against the
// real code, and reports the executions in which an oracle failed.
//
// It knows nothing about the code under test.
package mclib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Space is one bounded space of behaviours.
type Space struct {
	Name string
	// Run executes one behaviour. Every nondeterministic decision has to be
	// taken with x.Choose / x.Deviate.
	Run func(x *X)
	// Bound is the number of deviations allowed; <0 means unbounded.
	Bound int
	// Rule says in words what is enumerated.
	Rule string
	// Skip leaves the space out in the quick tier.
	ThoroughOnly bool
	// Loose replays as far as possible when an execution does not repeat its
	// choices (state of the process that can't be reset).
	Loose bool
}

// Check is a property check: a set of spaces.
type Check struct {
	ID     string
	Level  string
	Spaces []Space
	// Assume lists what the check trusts.
	Assume []string
	// Init runs once in every worker process before the first execution.
	Init func(scratch string)
	// Post runs once in the coordinator after the exploration (nil when unused)
	// and may report violations of its own (key, description) plus extra
	// evidence.
	Post func(c *Coordinator)
}

// X is one execution.
type X struct {
	prefix  []int
	bound   int
	loose   bool
	choices []int
	arity   []int
	dev     []bool
	labels  []string
	viols   []Violation
	outcome []string
	notes   []string
	pruned  bool
	sampled string
	Space   string
	Scratch string
	shm     *shm
}

// Violation of a property in one execution.
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

type stop struct{}

type divergence struct{ msg string }

// Choose takes one of n alternatives.
func (x *X) Choose(n int, label string) int { return x.choose(n, label, false) }

// Deviate is like Choose but taking anything other than 0 costs one deviation
// from the space's bound.
func (x *X) Deviate(n int, label string) int { return x.choose(n, label, true) }

// Bool chooses false, then true.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

func (x *X) choose(n int, label string, dev bool) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("choice %q with %d alternatives", label, n)})
	}
	if n == 1 {
		return 0
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n && x.loose {
			c %= n
		}
		if c >= n {
			panic(divergence{fmt.Sprintf("replay diverged at choice %d (%s): want alternative %d of %d", i, label, c, n)})
		}
	}
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	x.dev = append(x.dev, dev)
	x.labels = append(x.labels, label)
	if x.shm != nil {
		x.shm.push(c)
	}
	return c
}

// Pick chooses one of the given values.
func Pick[T any](x *X, label string, opts ...T) T {
	return opts[x.Choose(len(opts), label)]
}

// Fail reports a violation and ends the execution.
func (x *X) Fail(key, format string, args ...interface{}) {
	x.Report(key, format, args...)
	panic(stop{})
}

// Report records a violation and lets the execution go on.
func (x *X) Report(key, format string, args ...interface{}) {
	x.viols = append(x.viols, Violation{Key: key, Detail: fmt.Sprintf(format, args...)})
}

// Failed tells if a violation was reported in this execution.
func (x *X) Failed() bool { return len(x.viols) > 0 }

// Prune abandons the execution: the choices so far do not make a case.
func (x *X) Prune() {
	x.pruned = true
	panic(stop{})
}

// Outcome records what was observed; distinct outcomes are counted.
func (x *X) Outcome(format string, args ...interface{}) {
	x.outcome = append(x.outcome, fmt.Sprintf(format, args...))
}

// Case sets the human readable description of the execution.
func (x *X) Case(format string, args ...interface{}) {
	x.sampled = fmt.Sprintf(format, args...)
}

// Trace is the list of choices as text.
func (x *X) Trace() string {
	var b strings.Builder
	for i := range x.choices {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%s=%d/%d", strings.ReplaceAll(x.labels[i], " ", "_"), x.choices[i], x.arity[i])
	}
	return b.String()
}

// Try runs fn and returns the panic value and stack, if it panicked.
func Try(fn func()) (pv interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case stop, divergence:
				panic(r)
			}
			pv = r
			stack = string(debug.Stack())
		}
	}()
	fn()
	return
}

// runOne executes the body once with the given prefix.
func runOne(sp Space, prefix []int, scratch string, sh *shm) (x *X) {
	x = &X{prefix: prefix, bound: sp.Bound, loose: sp.Loose, Space: sp.Name, Scratch: scratch, shm: sh}
	if sh != nil {
		sh.reset()
	}
	defer func() {
		r := recover()
		if r == nil {
			if len(x.choices) < len(prefix) && !sp.Loose {
				fatalf("space %s: execution made %d choices, prefix has %d", sp.Name, len(x.choices), len(prefix))
			}
			return
		}
		switch v := r.(type) {
		case stop:
		case divergence:
			fatalf("space %s prefix %v: %s", sp.Name, prefix, v.msg)
		default:
			x.viols = append(x.viols, Violation{
				Key:    "panic",
				Detail: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))),
			})
		}
	}()
	sp.Run(x)
	return x
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// alternatives returns the prefixes that branch off the execution behind its
// own prefix.
func (x *X) alternatives() (out [][]int) {
	cost := 0
	for i := range x.choices {
		if i >= len(x.prefix) {
			c := cost
			if x.dev[i] {
				c++
			}
			if x.bound < 0 || !x.dev[i] || c <= x.bound {
				for alt := x.arity[i] - 1; alt >= 1; alt-- {
					p := make([]int, i+1)
					copy(p, x.choices[:i])
					p[i] = alt
					out = append(out, p)
				}
			}
		}
		if x.dev[i] && x.choices[i] != 0 {
			cost++
		}
	}
	// deepest first on the stack top: reverse so that the first branch is
	// pushed first (explored last); DFS keeps the stack small.
	return
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "mc: "+format+"\n", args...)
	os.Exit(3)
}

// JS renders v as compact JSON for messages.
func JS(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// SortedKeys of a map.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
