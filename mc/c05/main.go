//go:build go1.21

// C05: recursive types and exported components.
package main

import (
	"fmt"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

type obj = map[string]interface{}

var world *m.World

func basic(s string) *f.Type { return &f.Type{K: f.Basic, Text: s} }

// graph of n named types of one package
type graph struct {
	types []*f.Type
	env   *f.Env
	p     *f.Program
}

// split is a graph of types of two packages, some of them named alike.
func split(names ...string) *graph {
	g := newGraph(len(names))
	for i, n := range names {
		if n[0] == '2' {
			g.types[i].Pkg = pkgB
			n = n[1:]
		}
		g.types[i].Name = n
	}
	return g
}

func newGraph(n int) *graph {
	g := &graph{p: f.NewProgram(), env: &f.Env{Strict: true, Exports: map[*f.Type]string{}, Overrides: map[*f.Type]interface{}{}, Used: map[string]bool{}}}
	for i := 0; i < n; i++ {
		g.types = append(g.types, &f.Type{K: f.Named, Pkg: pkgA, Name: string(rune('A' + i))})
	}
	return g
}

// wrap makes a field type of an edge; shape 0..
func wrap(shape int, t *f.Type) *f.Type {
	switch shape {
	case 0:
		return &f.Type{K: f.Slice, Elem: t}
	case 1:
		return &f.Type{K: f.Ptr, Elem: t}
	case 2:
		return &f.Type{K: f.Map, Key: "string", Elem: t}
	case 3:
		return t
	case 4:
		return &f.Type{K: f.Ptr, Elem: &f.Type{K: f.Slice, Elem: t}}
	case 5:
		return &f.Type{K: f.Slice, Elem: &f.Type{K: f.Ptr, Elem: t}}
	case 6:
		return &f.Type{K: f.Struct, Fields: []f.Field{{Name: "In", Type: &f.Type{K: f.Slice, Elem: t}}}}
	case 7:
		return &f.Type{K: f.Array, Len: 2, Elem: &f.Type{K: f.Map, Key: "string", Elem: &f.Type{K: f.Ptr, Elem: t}}}
	}
	panic("shape")
}

func (g *graph) structs(edges [][]*f.Type) {
	for i, t := range g.types {
		st := &f.Type{K: f.Struct}
		for j, e := range edges[i] {
			if e != nil {
				st.Fields = append(st.Fields, f.Field{Name: fmt.Sprintf("F%d", j), Type: e})
			}
		}
		// makes the types distinguishable
		st.Fields = append(st.Fields, f.Field{Name: "V" + t.Name, Type: basic([]string{"int", "string", "bool", "float32"}[i%4])})
		t.Def = st
	}
	for _, t := range g.types {
		g.p.Declare(t)
	}
}

// finite tells that no type holds itself by value.
func (g *graph) finite() bool {
	state := map[*f.Type]int{}
	var visit func(t *f.Type) bool
	visit = func(t *f.Type) bool {
		switch t.K {
		case f.Named:
			if state[t] == 1 {
				return false
			}
			if state[t] == 2 {
				return true
			}
			state[t] = 1
			ok := visit(t.Def)
			state[t] = 2
			return ok
		case f.Struct:
			for _, x := range t.Fields {
				if !visit(x.Type) {
					return false
				}
			}
		case f.Array:
			return visit(t.Elem)
		}
		return true
	}
	for _, t := range g.types {
		if !visit(t) {
			return false
		}
	}
	return true
}

var names = []string{"A", "B2", "C.x"}

func (g *graph) exports(x *m.X, sets int) string {
	mask := x.Choose(sets, "exports")
	for i, t := range g.types {
		if mask&(1<<uint(i)) == 0 {
			continue
		}
		name := t.Name
		if i < len(names) {
			name = names[i]
		}
		g.env.Exports[t] = name
		if name == t.Name {
			g.p.Extra(t.Pkg, "//openapi:schema "+name)
		} else {
			g.p.Extra(t.Pkg, "//openapi:schema "+name+" "+t.Name)
		}
	}
	return fmt.Sprintf("exports %b", mask)
}

// entry is a reference of the specification.
type entry struct {
	ref string
	t   *f.Type
}

func (g *graph) check(x *m.X, what string, entries []entry) {
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	want := f.Deep(interface{}(doc))
	for i, e := range entries {
		// the keys make the traversal order follow the list
		k := fmt.Sprintf("x-%d", i)
		f.Put(interface{}(doc), interface{}(obj{"$ref": e.ref}), k)
		f.Put(want, &f.RefTo{T: e.t, Place: strings.Count(e.ref, "/") > 4}, k)
		what += " " + e.ref
	}
	x.Case("%s: %s", what, strings.ReplaceAll(g.p.Source(pkgA), "\n", " "))
	r := f.Scan(world.Write(pkgA, g.p.Pkgs(map[string]string{pkgA + "/oapi.yaml": m.JS(doc)})...))
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	if left := f.ExternalRefs(interface{}(r.Doc)); len(left) > 0 {
		x.Fail("left", "references %q are left", left)
	}
	got := f.Deep(interface{}(r.Doc)).(obj)
	comps, _ := f.Get(interface{}(got), "components", "schemas").(obj)
	if c, ok := got["components"].(obj); ok {
		if len(c) > 1 {
			x.Fail("components", "got %s", m.JS(c))
		}
		delete(got, "components")
	}
	if err := g.env.MatchTree(interface{}(got), want); err != nil {
		x.Fail("schema", "%v in %s", err, r.JSON)
	}
	if err := g.env.Closure(comps); err != nil {
		x.Fail("component", "%v in %s", err, r.JSON)
	}
	if len(comps) > 0 {
		x.Fail("component", "components %q nobody refers to in %s", m.SortedKeys(comps), r.JSON)
	}
	x.Outcome("%s", r.JSON)
}

// entries chooses an ordered list of distinct types.
func (g *graph) entries(x *m.X, max int) (out []entry) {
	used := map[int]bool{}
	for len(out) < max {
		var free []int
		for i := range g.types {
			if !used[i] {
				free = append(free, i)
			}
		}
		n := len(free)
		if n == 0 {
			return
		}
		c := 0
		if len(out) > 0 {
			c = x.Choose(n+1, "entry")
			if c == 0 {
				return
			}
			c--
		} else {
			c = x.Choose(n, "entry")
		}
		used[free[c]] = true
		t := g.types[free[c]]
		out = append(out, entry{"go://" + t.Pkg + "#/" + t.Name, t})
	}
	return
}

// all graphs of three types
func graphs(n int, shapes func() int, orders bool) func(*m.X) {
	return func(x *m.X) {
		g := newGraph(n)
		edges := make([][]*f.Type, n)
		shape := x.Choose(shapes(), "shape")
		bits := 0
		for i := range edges {
			edges[i] = make([]*f.Type, n)
			for j := range edges[i] {
				if x.Bool("edge") {
					edges[i][j] = wrap((shape+i+j)%3, g.types[j])
					bits |= 1 << uint(i*n+j)
				}
			}
		}
		g.structs(edges)
		what := fmt.Sprintf("graph %b shape %d", bits, shape)
		what += g.exports(x, 1<<uint(n))
		var es []entry
		if orders {
			es = g.entries(x, m.N(2, n))
		} else {
			es = []entry{{"go://" + pkgA + "#/A", g.types[0]}}
		}
		g.check(x, what, es)
	}
}

// types of the same name in two packages
func namesakes(x *m.X) {
	g := split([][]string{{"A", "B", "2A", "2B"}, {"A", "2A", "2Aa", "2AA"}}[x.Choose(2, "names")]...)
	edges := make([][]*f.Type, 4)
	shape := x.Choose(m.N(2, 3), "shape")
	bits := 0
	for i := range edges {
		edges[i] = make([]*f.Type, 4)
		for j := range edges[i] {
			if g.types[i].Pkg == pkgB && g.types[j].Pkg == pkgA || i == j && !m.Thorough() || g.types[i].Pkg == pkgA && i > j {
				continue // packages do not import each other
			}
			if x.Bool("edge") {
				edges[i][j] = wrap((shape*3+i+j)%4, g.types[j])
				bits |= 1 << uint(i*4+j)
			}
		}
	}
	g.structs(edges)
	if !g.finite() {
		x.Prune()
	}
	what := fmt.Sprintf("namesakes %b shape %d", bits, shape)
	mask := m.Pick(x, "exports", 0, 1, 4, 8, 5, 15)
	for i, t := range g.types {
		if mask&(1<<uint(i)) != 0 {
			name := fmt.Sprintf("N%d", i)
			g.env.Exports[t] = name
			g.p.Extra(t.Pkg, "//openapi:schema "+name+" "+t.Name)
		}
	}
	g.p.Import(pkgA, pkgB)
	g.check(x, what+fmt.Sprintf(" exports %b", mask), g.entries(x, 1))
}

// long: many types, one after another or all within one
func long(x *m.X) {
	sizes := []int{9, 11, 17, 33, 65}
	if m.Thorough() {
		sizes = []int{5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 129}
	}
	n := m.Pick(x, "types", sizes...)
	g := newGraph(n)
	for i, t := range g.types {
		t.Name = fmt.Sprintf("T%d", i)
	}
	edges := make([][]*f.Type, n)
	form := m.Pick(x, "form", "chain", "wide", "comb")
	shape := x.Choose(m.N(2, 4), "shape")
	for i := range edges {
		switch form {
		case "chain":
			if i+1 < n {
				edges[i] = append(edges[i], wrap(shape, g.types[i+1]))
			}
		case "wide":
			for j := 1; i == 0 && j < n; j++ {
				edges[i] = append(edges[i], wrap((shape+j)%4, g.types[j]))
			}
		case "comb": // every second type is a leaf
			for j := i + 1; i%2 == 0 && j < n && j <= i+2; j++ {
				edges[i] = append(edges[i], wrap(shape, g.types[j]))
			}
		}
	}
	what := fmt.Sprintf("%s of %d types, shape %d", form, n, shape)
	if back := m.Pick(x, "back to", -1, 0, 1, n/2, n-2, n-1); back >= 0 {
		from := n - 1
		if form == "comb" && from%2 == 1 {
			from--
		}
		edges[from] = append(edges[from], wrap(x.Choose(2, "back shape"), g.types[back]))
		what += fmt.Sprintf(" and back to %d", back)
	}
	g.structs(edges)
	every := m.Pick(x, "exported", 0, 1, 3, n-1)
	for i, t := range g.types {
		if every > 0 && i%every == every-1 {
			name := fmt.Sprintf("N%d", i)
			g.env.Exports[t] = name
			g.p.Extra(t.Pkg, "//openapi:schema "+name+" "+t.Name)
		}
	}
	what += fmt.Sprintf(" every %d exported", every)
	t := g.types[m.Pick(x, "entry", 0, n/2)]
	g.check(x, what, []entry{{"go://" + t.Pkg + "#/" + t.Name, t}})
}

// embedding: structs embedding pointers to each other
func embedding(x *m.X) {
	n := m.N(3, 4)
	if n == 4 {
		n = 3 + x.Choose(2, "types")
	}
	src := "package a\n"
	var emb [4][4]bool
	entry := x.Choose(n, "entry")
	for i := 0; i < n; i++ {
		src += fmt.Sprintf("type %c struct {\n", 'A'+i)
		for j := 0; j < n; j++ {
			if n == 4 && i == j {
				continue
			}
			if emb[i][j] = x.Bool("embeds"); emb[i][j] {
				src += fmt.Sprintf("\t*%c\n", 'A'+j)
			}
		}
		src += fmt.Sprintf("\tV%c %s\n}\n", 'A'+i, []string{"int", "string", "bool", "float32"}[i])
	}
	switch x.Choose(m.N(2, 3), "exports") {
	case 1:
		src += fmt.Sprintf("//openapi:schema Ex %c\n", 'A'+(entry+1)%n)
	case 2:
		src += fmt.Sprintf("//openapi:schema Ex %c\n", 'A'+entry)
	}
	// as encoding/json promotes: breadth first, each type at its least depth;
	// fields reached in several ways at that depth hide each other
	want := obj{}
	seen := map[int]bool{}
	for level := map[int]int{entry: 1}; len(level) > 0; {
		next := map[int]int{}
		for i, ways := range level {
			seen[i] = true
			if ways == 1 {
				v := obj{}
				for k, e := range f.Basics[[]string{"int", "string", "bool", "float32"}[i]] {
					v[k] = e
				}
				want["V"+string(rune('A'+i))] = v
			}
		}
		for i, ways := range level {
			for j := 0; j < n; j++ {
				if emb[i][j] && !seen[j] {
					next[j] += ways
				}
			}
		}
		level = next
	}
	spec := f.Spec(fmt.Sprintf("{$ref: 'go://ex.com/a#/%c'}", 'A'+entry))
	x.Case("%s from %c", strings.ReplaceAll(src, "\n", " "), 'A'+entry)
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": src, "oapi.yaml": spec}}))
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	got := f.SpecSchema(r.Doc, 0)
	if ref := f.Get(got, "$ref"); ref != nil {
		got = f.Get(interface{}(r.Doc), strings.Split(strings.TrimPrefix(fmt.Sprint(ref), "#/"), "/")...)
	}
	x.Outcome("%s", m.JS(got))
	if exp := interface{}(obj{"type": "object", "properties": want}); m.JS(got) != m.JS(exp) {
		x.Fail("promotion", "got %s, want %s", m.JS(got), m.JS(exp))
	}
}

// two types with edges of every shape
func shapes(x *m.X) {
	g := newGraph(2)
	edges := make([][]*f.Type, 2)
	for i := range edges {
		edges[i] = make([]*f.Type, 2)
		for j := range edges[i] {
			if s := x.Choose(m.N(7, 9), "shape"); s > 0 {
				edges[i][j] = wrap([]int{0, 1, 2, 3, 5, 6, 4, 7}[s-1], g.types[j])
			}
		}
	}
	g.structs(edges)
	if !g.finite() {
		x.Prune()
	}
	what := "shapes " + g.exports(x, 4)
	g.check(x, what, g.entries(x, m.N(1, 2)))
}

// types which are not structs
func kinds(x *m.X) {
	n := m.N(2, 3)
	g := newGraph(n)
	for i := range g.types {
		k := x.Choose(6, "kind")
		var target *f.Type
		if c := x.Choose(n+1, "target"); c < n {
			target = g.types[c]
		} else {
			target = basic("int")
		}
		switch k {
		case 0:
			target = wrap(0, target)
		case 1:
			target = wrap(1, target)
		case 2:
			target = wrap(2, target)
		case 3:
			target = &f.Type{K: f.Struct, Fields: []f.Field{{Name: "F", Type: wrap(0, target)}}}
		case 4:
			target = &f.Type{K: f.Struct, Fields: []f.Field{{Name: "F", Type: wrap(1, target)}, {Name: "V", Type: basic("bool")}}}
		case 5:
			target = wrap(5, target)
		}
		g.types[i].Def = target
	}
	for _, t := range g.types {
		g.p.Declare(t)
	}
	what := "kinds " + g.exports(x, 1<<uint(n))
	g.check(x, what, g.entries(x, 2))
}

// references into recursive types
func paths(x *m.X) {
	g := newGraph(2)
	edges := make([][]*f.Type, 2)
	for i := range edges {
		edges[i] = make([]*f.Type, 2)
		for j := range edges[i] {
			if s := x.Choose(5, "shape"); s > 0 {
				edges[i][j] = wrap([]int{0, 1, 3, 6}[s-1], g.types[j])
			}
		}
	}
	g.structs(edges)
	if !g.finite() {
		x.Prune()
	}
	what := "paths " + g.exports(x, 4)
	root := g.types[x.Choose(2, "root")]
	e := entry{"go://" + pkgA + "#/" + root.Name, root}
	seen := map[*f.Type]bool{root: true}
	for d := 0; d < m.N(2, 5); d++ {
		u := e.t.Under()
		frag := ""
		var next *f.Type
		switch u.K {
		case f.Slice, f.Array, f.Map:
			frag, next = "/[]", u.Elem
		case f.Ptr:
			frag, next = "/*", u.Elem
		case f.Struct:
			fs := u.Fields
			c := x.Choose(len(fs)+1, "field")
			if c > 0 {
				frag, next = "/"+fs[c-1].Name, fs[c-1].Type
			}
		}
		if next == nil || (frag == "/[]" || frag == "/*") && !x.Bool("into") {
			break
		}
		// a path may not run through the same type twice
		if seen[next] && next.K == f.Named {
			x.Prune()
		}
		seen[next] = true
		e = entry{e.ref + frag, next}
	}
	if e.t == root {
		x.Prune()
	}
	es := []entry{e}
	if x.Bool("root as well") {
		es = append(es, entry{"go://" + pkgA + "#/" + root.Name, root})
	}
	g.check(x, what, es)
}

func main() {
	m.Main(m.Check{
		ID: "C05", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the packages are found through the driver protocol of go/packages", "the schema of a type is the one C01 and C02 describe"},
		Spaces: []m.Space{
			{Name: "graphs", Bound: -1, Rule: "all 512 directed graphs of three struct types x all sets of exports x all ordered lists of up to two (three) references (edges are slices, pointers and maps)", Run: graphs(3, func() int { return m.N(1, 3) }, true)},
			{Name: "namesakes", Bound: -1, Rule: "two types each in two packages, the names equal, differing in case or one beginning with the other; all edges within the bounds of imports x 6 sets of exports x the type referred to", Run: namesakes},
			{Name: "long", Bound: -1, Rule: "chains, combs and fans of 5 (19) numbers of types up to 65 (129) x two (four) shapes x closed to five places or not x four sets of exports x two references", Run: long},
			{Name: "embedding", Bound: -1, Rule: "all 512 ways three structs embed pointers to each other and themselves (thorough: and 4096 ways four do) x exports x the struct referred to", Run: embedding},
			{Name: "shapes", Bound: -1, Rule: "two struct types, every edge absent or of one of six (eight) shapes x exports x references", Run: shapes},
			{Name: "kinds", Bound: -1, Rule: "two (three) recursive types which are slices, pointers, maps or structs x exports x references", Run: kinds},
			{Name: "paths", Bound: -1, Rule: "references into recursive types: every place x exports x with or without a reference to the whole type", Run: paths},
			{Name: "graphs4", Bound: -1, ThoroughOnly: true, Rule: "all 65536 directed graphs of four struct types x all sets of exports", Run: graphs(4, func() int { return 1 }, false)},
		},
	})
}
