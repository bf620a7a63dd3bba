//go:build go1.21

// C17: the visit of the import graph.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/buypal/oapi-go/internal/pkgutil"
	"github.com/buypal/oapi-go/internal/verifmc/maporder"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
	"golang.org/x/tools/go/packages"
)

var world *m.World

type visitor struct {
	order []*packages.Package
	fail  map[*packages.Package]error
}

func (v *visitor) Scan(p *packages.Package) error {
	v.order = append(v.order, p)
	return v.fail[p]
}

// graph: node i imports the nodes of edges[i]
type graph struct {
	paths []string
	std   []bool
	edges [][]int
	roots []int // -1 is nil
}

func (g graph) String() string {
	var s []string
	for i, p := range g.paths {
		var to []string
		for _, j := range g.edges[i] {
			to = append(to, g.paths[j])
		}
		s = append(s, fmt.Sprintf("%s -> %v", p, to))
	}
	return fmt.Sprintf("roots %v; %s", g.roots, strings.Join(s, "; "))
}

func (g graph) build(reverse bool) (all, roots []*packages.Package) {
	for _, p := range g.paths {
		all = append(all, &packages.Package{ID: p, PkgPath: p, Imports: map[string]*packages.Package{}})
	}
	for i := range g.edges {
		for k := range g.edges[i] {
			j := g.edges[i][k]
			if reverse {
				j = g.edges[i][len(g.edges[i])-1-k]
			}
			all[i].Imports[g.paths[j]] = all[j]
		}
	}
	for _, r := range g.roots {
		if r < 0 {
			roots = append(roots, nil)
			continue
		}
		roots = append(roots, all[r])
	}
	return
}

// reachable without passing a standard package
func (g graph) reachable() []bool {
	r := make([]bool, len(g.paths))
	var visit func(int)
	visit = func(i int) {
		if i < 0 || r[i] || g.std[i] {
			return
		}
		r[i] = true
		for _, j := range g.edges[i] {
			visit(j)
		}
	}
	for _, i := range g.roots {
		visit(i)
	}
	return r
}

// judge checks one visit and gives the order
func judge(x *m.X, g graph, all []*packages.Package, v *visitor, err error, acyclic bool) string {
	index := map[*packages.Package]int{}
	for i, p := range all {
		index[p] = i
	}
	reach := g.reachable()
	done := map[int]bool{}
	var order []string
	for _, p := range v.order {
		i, ok := index[p]
		if !ok || !reach[i] {
			x.Fail("visited", "visited %v, which is no package to visit", p)
		}
		if done[i] {
			x.Fail("twice", "package %s is visited twice: %v", p.PkgPath, order)
		}
		if acyclic {
			for _, j := range g.edges[i] {
				if reach[j] && !done[j] {
					x.Fail("order", "package %s is visited before its import %s", p.PkgPath, g.paths[j])
				}
			}
		}
		done[i] = true
		order = append(order, p.PkgPath)
	}
	for i := range all {
		if reach[i] && !done[i] {
			x.Fail("missed", "package %s is not visited, only %v", g.paths[i], order)
		}
	}
	return strings.Join(order, " ")
}

func visit(x *m.X, g graph, setup func(all []*packages.Package, v *visitor), check func(all []*packages.Package, v *visitor, err error), acyclic bool) {
	all, roots := g.build(false)
	v := &visitor{fail: map[*packages.Package]error{}}
	if setup != nil {
		setup(all, v)
	}
	var err error
	pv, stack := m.Try(func() {
		maporder.Control(func(n, orders int, caller string) int {
			return x.Deviate(orders, "order of imports in "+caller)
		}, func() { err = pkgutil.Scan(roots, v) })
	})
	if pv != nil {
		x.Fail("panic", "%v\n%s", pv, stack)
	}
	got := judge(x, g, all, v, err, acyclic)
	x.Outcome("%s %v", got, err)
	if check != nil {
		check(all, v, err)
	} else if err != nil {
		x.Fail("error", "%v", err)
	}
	// once more with another iteration order and other insertion order
	all2, roots2 := g.build(true)
	v2 := &visitor{fail: map[*packages.Package]error{}}
	if setup != nil {
		setup(all2, v2)
	}
	var err2 error
	maporder.Control(func(n, orders int, caller string) int { return 0 }, func() { err2 = pkgutil.Scan(roots2, v2) })
	if got2 := judge(x, g, all2, v2, err2, acyclic); got != got2 {
		x.Fail("unstable", "visited in the order %s and in the order %s", got, got2)
	}
	if fmt.Sprint(err) != fmt.Sprint(err2) {
		x.Fail("unstable error", "%v and %v", err, err2)
	}
}

var names = [][]string{
	{"ex.com/a", "ex.com/b", "ex.com/c", "ex.com/d", "ex.com/e"},
	{"ex.com/d", "ex.com/a", "ex.com/e", "ex.com/b", "ex.com/c"},
	{"ex.com/e", "ex.com/d", "ex.com/c", "ex.com/b", "ex.com/a"},
	{"main", "internal/x", "a", "timeout", "ex.com/time"},
	{"time/x", "ioutil", "m/io", "unsafe.x/y", "Time"},
}

func choose(x *m.X, n int) graph {
	g := graph{edges: make([][]int, n), std: make([]bool, n)}
	nm := names[x.Choose(len(names), "names")]
	g.paths = append(g.paths, nm[:n]...)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if x.Bool(fmt.Sprintf("%d imports %d", i, j)) {
				g.edges[i] = append(g.edges[i], j)
			}
		}
	}
	return g
}

func roots(x *m.X, n int) []int {
	sets := [][]int{{0}, {0, 0}, {1, 0}, {0, 1}, {n - 1, 0}, {-1, 0, -1}, {}, {n - 1}, {n - 1, n - 2, 0}}
	return sets[x.Choose(len(sets), "roots")]
}

func graphs(n int) func(*m.X) {
	return func(x *m.X) {
		g := choose(x, n)
		g.roots = roots(x, n)
		x.Case("%v", g)
		visit(x, g, nil, nil, true)
	}
}

// std: any of the packages is one of the standard library
func std(x *m.X) {
	g := choose(x, 4)
	s := 0
	for i := range g.paths {
		if x.Bool(fmt.Sprintf("%d is standard", i)) {
			if s == 3 {
				x.Prune()
			}
			g.paths[i] = []string{"time", "io", "unsafe"}[s]
			g.std[i] = true
			s++
		}
	}
	g.roots = [][]int{{0}, {0, 1}, {3, 0}}[x.Choose(3, "roots")]
	x.Case("%v", g)
	visit(x, g, nil, nil, true)
}

// cycles, which only faulty programs have: the visit still ends, once each
func cycles(x *m.X) {
	g := graph{paths: names[0][:3], std: make([]bool, 3), edges: make([][]int, 3)}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if x.Bool(fmt.Sprintf("%d imports %d", i, j)) {
				g.edges[i] = append(g.edges[i], j)
			}
		}
	}
	g.roots = [][]int{{0}, {1, 0}, {2, 1}}[x.Choose(3, "roots")]
	x.Case("%v", g)
	visit(x, g, nil, nil, false)
}

// failures of packages and of visits
func failures(x *m.X) {
	g := graph{paths: names[m.N(0, 0)+x.Choose(2, "names")][:4], std: make([]bool, 4), edges: [][][]int{
		{{1, 2}, {3}, {3}, {}}, {{1}, {2}, {3}, {}}, {{1, 2, 3}, {}, {}, {}}, {{}, {}, {}, {}}, {{2}, {2, 3}, {}, {}}}[x.Choose(5, "imports")]}
	g.roots = [][]int{{0}, {0, 1}, {0, 1, 2, 3}, {3, 0}}[x.Choose(4, "roots")]
	var kinds []int
	for range g.paths {
		kinds = append(kinds, x.Choose(6, "failure"))
	}
	same := x.Bool("same text")
	x.Case("%v; failures %v, same text %v", g, kinds, same)
	text := func(i int, s string) string {
		if same {
			return "broken"
		}
		return fmt.Sprintf("broken-%d-%s", i, s)
	}
	setup := func(all []*packages.Package, v *visitor) {
		for i, p := range all {
			k := kinds[i]
			if k == 1 || k == 3 || k == 4 {
				p.Errors = append(p.Errors, packages.Error{Pos: "x.go:1:1", Msg: text(i, "first"), Kind: packages.ParseError})
			}
			if k == 4 {
				p.Errors = append(p.Errors, packages.Error{Pos: "-", Msg: text(i, "second"), Kind: packages.TypeError})
			}
			if k == 5 {
				p.Errors = append(p.Errors, packages.Error{Msg: text(i, "list"), Kind: packages.ListError})
			}
			if k == 2 || k == 3 {
				v.fail[p] = errors.New(text(i, "visit"))
			}
			if k >= 3 {
				p.IllTyped = true
			}
		}
	}
	visit(x, g, setup, func(all []*packages.Package, v *visitor, err error) {
		var want []string
		for i, r := range g.reachable() {
			if !r {
				continue
			}
			for _, e := range all[i].Errors {
				want = append(want, e.Msg)
			}
			if e := v.fail[all[i]]; e != nil {
				want = append(want, e.Error())
			}
		}
		if len(want) == 0 {
			if err != nil {
				x.Fail("error", "nothing failed but the error is %v", err)
			}
			return
		}
		if err == nil {
			x.Fail("silent", "%v failed but there is no error", want)
		}
		if same {
			if n := strings.Count(err.Error(), "broken"); n < len(want) {
				x.Fail("lost", "%d failures of the same text, the error names %d: %v", len(want), n, err)
			}
			return
		}
		for _, w := range want {
			if !strings.Contains(err.Error(), w) {
				x.Fail("lost", "the error does not name %s: %v", w, err)
			}
		}
		for i, p := range all {
			for _, s := range []string{"first", "second", "visit", "list"} {
				if t := text(i, s); strings.Contains(err.Error(), t) && !contains(want, t) {
					x.Fail("foreign", "the error names %s of %s: %v", t, p.PkgPath, err)
				}
			}
		}
	}, true)
}

// large: many packages, many failures
func large(x *m.X) {
	n := m.Pick(x, "packages", 9, 10, 11, 16, 17, 33, 65, 101, 129, 257, 1025)
	shape := m.Pick(x, "imports", "chain", "star", "layers", "all later", "none")
	g := graph{edges: make([][]int, n), std: make([]bool, n)}
	for i := 0; i < n; i++ {
		g.paths = append(g.paths, fmt.Sprintf("ex.com/p%d", (i*7+3)%n*n+i))
		switch shape {
		case "chain":
			if i+1 < n {
				g.edges[i] = []int{i + 1}
			}
		case "star":
			if i == 0 {
				for j := 1; j < n; j++ {
					g.edges[i] = append(g.edges[i], j)
				}
			}
		case "layers":
			for _, j := range []int{2*i + 1, 2*i + 2, i + n/2} {
				if j < n && j > i {
					g.edges[i] = append(g.edges[i], j)
				}
			}
		case "all later":
			if n > 257 {
				x.Prune()
			}
			for j := i + 1; j < n; j++ {
				g.edges[i] = append(g.edges[i], j)
			}
		}
	}
	switch {
	case shape == "none" || x.Bool("all are roots"):
		for i := 0; i < n; i++ {
			g.roots = append(g.roots, i)
		}
	default:
		g.roots = []int{0}
	}
	kind := m.Pick(x, "failures", "none", "every package", "every visit", "every second package and the visits of the others", "the last package 40 times", "the visit of the last")
	x.Case("%d packages, %s, %d roots, failures: %s", n, shape, len(g.roots), kind)
	text := func(i, k int) string { return fmt.Sprintf("broken<%d,%d>", i, k) }
	setup := func(all []*packages.Package, v *visitor) {
		for i, p := range all {
			errs := 0
			switch {
			case kind == "every package", kind == "every second package and the visits of the others" && i%2 == 0:
				errs = 2
			case kind == "every visit", kind == "every second package and the visits of the others", kind == "the visit of the last" && i == n-1:
				v.fail[p] = errors.New(text(i, 99))
			case kind == "the last package 40 times" && i == n-1:
				errs = 40
			}
			for k := 0; k < errs; k++ {
				p.Errors = append(p.Errors, packages.Error{Pos: "x.go:1:1", Msg: text(i, k)})
			}
		}
	}
	visit(x, g, setup, func(all []*packages.Package, v *visitor, err error) {
		for i, p := range all {
			want := len(p.Errors)
			for k := 0; k < want; k++ {
				if err == nil || !strings.Contains(err.Error(), text(i, k)) {
					x.Fail("lost", "failure %s of %s is not reported", text(i, k), p.PkgPath)
				}
			}
			if v.fail[p] != nil && (err == nil || !strings.Contains(err.Error(), text(i, 99))) {
				x.Fail("lost", "the failure of the visit of %s (%d of %d) is not reported", p.PkgPath, i, n)
			}
		}
		if kind == "none" && err != nil {
			x.Fail("error", "%v", err)
		}
	}, true)
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// scans of real programs in which several things fail
func scans(x *m.X) {
	paths := []string{"ex.com/a", "ex.com/b", "ex.com/c"}
	edges := [][][]int{{{1}, {2}, {}}, {{1, 2}, {}, {}}, {{1, 2}, {2}, {}}}[x.Choose(3, "imports")]
	kinds := []struct{ name, src, file, spec string }{
		{"none", "type X int\n", "", ""},
		{"type error", "var V%d missing%d\n", "", ""},
		{"two type errors", "var V%d missing%d\nvar W%d string = unknown%d\n", "", ""},
		{"comment", "//openapi:schema X go://ex.com/bad%d\ntype X int\n", "", ""},
		{"comment of unknown kind", "//openapi:unknown%d\ntype X int\n", "", ""},
		{"specification", "type X int\n", "oapi.yaml", "{bad%d: [\n"},
	}
	var files []map[string]string
	var want []string
	what := fmt.Sprint(edges)
	var picked []int
	for range paths {
		k := x.Choose(len(kinds), "failure")
		picked = append(picked, k)
		what += ", " + kinds[k].name
	}
	// the comments are scanned before the specifications are read
	early := false
	for _, k := range picked {
		early = early || k == 1 || k == 2 || k == 3 || k == 4
	}
	for i := range paths {
		k := kinds[picked[i]]
		src := "package " + paths[i][7:] + "\n"
		for _, j := range edges[i] {
			src += fmt.Sprintf("import _ %q\n", paths[j])
		}
		n := strings.ReplaceAll(k.src, "%d", fmt.Sprint(i))
		files = append(files, map[string]string{"x.go": src + n})
		if k.file != "" {
			files[i][k.file] = strings.ReplaceAll(k.spec, "%d", fmt.Sprint(i))
		}
		switch picked[i] {
		case 1:
			want = append(want, fmt.Sprintf("missing%d", i))
		case 2:
			want = append(want, fmt.Sprintf("missing%d", i), fmt.Sprintf("unknown%d", i))
		}
	}
	comments, specs := 0, 0
	for _, k := range picked {
		if k == 3 || k == 4 {
			comments++
		}
		if k == 5 {
			specs++
		}
	}
	x.Case("%s", what)
	var pkgs []m.Pkg
	for i := range paths {
		pkgs = append(pkgs, m.Pkg{Path: paths[i], Files: files[i]})
	}
	files[0]["oapi.json"] = `{"openapi":"3.0.3","info":{},"paths":{}}`
	r := f.Scan(world.Write(paths[0], pkgs...))
	x.Outcome("%v %v", r.Err != nil, r.JSON)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if len(want)+comments+specs == 0 {
		if r.Err != nil {
			x.Fail("error", "%v", r.Err)
		}
		return
	}
	if r.Err == nil {
		x.Fail("silent", "the scan succeeds")
	}
	for _, w := range want {
		if !strings.Contains(r.Err.Error(), w) {
			x.Fail("lost", "the error does not name %s: %v", w, r.Err)
		}
	}
	if n := strings.Count(r.Err.Error(), "\t- "); n < len(want)+comments || !early && n < specs {
		x.Fail("lost", "the error names only %d failures: %v", n, r.Err)
	}
}

func main() {
	m.Main(m.Check{
		ID: "C17", Level: "model_checking",
		Init: func(string) { world = m.NewWorld() },
		Assume: []string{
			"the standard library is the one the driver of the harness lists (time, io, unsafe)",
			"packages are the same if they are the same object, as in the result of packages.Load",
			"a visit of each of the three scans (comments, specifications, types) is complete; the scan ends after the first visit which fails",
		},
		Spaces: []m.Space{
			{Name: "graphs", Bound: m.N(2, 3), Rule: "all import graphs of up to 4 packages x 5 namings x 9 lists of roots; every order of iterations of the imports within the bound", Run: graphs(4)},
			{Name: "graphs5", Bound: m.N(0, 1), Rule: "all import graphs of 5 packages x 5 namings x 9 lists of roots; quick in the sorted order of imports, thorough every order of one of them", Run: graphs(5)},
			{Name: "std", Bound: 1, Rule: "all import graphs of 4 packages of which up to 3 are standard packages x 5 namings x 3 lists of roots", Run: std},
			{Name: "cycles", Bound: 2, Rule: "all graphs of 3 packages with cycles x 3 lists of roots", Run: cycles},
			{Name: "failures", Bound: 1, Rule: "5 graphs of 4 packages x 4 lists of roots x 6 kinds of failure of each package x same or distinct texts", Run: failures},
			{Name: "large", Bound: 0, Rule: "11 numbers of packages (9 to 1025) x 5 shapes of imports x one or all are roots x 6 sets of failures (up to 514 in one visit), in the sorted order of imports", Run: large},
			{Name: "scans", Bound: -1, Rule: "scans of 3 packages: 3 graphs x 6 kinds of failure of each", Run: scans},
		},
	})
}
