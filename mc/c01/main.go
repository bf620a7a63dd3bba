//go:build go1.21

// C01: translation of Go types to schemas.
package main

import (
	"fmt"
	"strconv"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

var world *m.World

var basics = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "float32", "float64"}
var unsupported = []string{"interface{}", "chan int", "func()", "complex64", "complex128", "uintptr", "error", "interface{ M() }"}

type gen struct {
	x     *m.X
	n     int
	basic []string
	unsup []string
}

func (g *gen) name(pkg, p string, def *f.Type, alias bool) *f.Type {
	g.n++
	return &f.Type{K: f.Named, Pkg: pkg, Name: p + strconv.Itoa(g.n), Def: def, Alias: alias}
}

func basic(s string) *f.Type { return &f.Type{K: f.Basic, Text: s} }

func (g *gen) leaf() *f.Type {
	i := g.x.Choose(len(g.basic)+len(g.unsup)+6, "leaf")
	if i < len(g.basic) {
		return basic(g.basic[i])
	}
	i -= len(g.basic)
	if i < len(g.unsup) {
		return &f.Type{K: f.Unsup, Text: g.unsup[i]}
	}
	i -= len(g.unsup)
	two := &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: basic("int64")}, {Name: "y", Type: &f.Type{K: f.Unsup, Text: "chan int"}, Skip: true}, {Name: "Z", Type: basic("string")}}}
	switch i {
	case 0:
		return two // anonymous
	case 1:
		return g.name(pkgA, "S", two, false)
	case 2:
		return g.name(pkgB, "S", two, false)
	case 3:
		return &f.Type{K: f.Time}
	case 4:
		return &f.Type{K: f.Struct} // struct{}
	}
	return g.name(pkgB, "Y", &f.Type{K: f.Slice, Elem: basic("byte")}, false)
}

func (g *gen) typ(depth int) *f.Type {
	if depth == 0 {
		return g.leaf()
	}
	switch g.x.Choose(12, "con") {
	case 0:
		return g.leaf()
	case 1:
		return &f.Type{K: f.Slice, Elem: g.typ(depth - 1)}
	case 2:
		return &f.Type{K: f.Array, Len: 3, Elem: g.typ(depth - 1)}
	case 3:
		return &f.Type{K: f.Array, Len: 0, Elem: g.typ(depth - 1)}
	case 4:
		return &f.Type{K: f.Map, Key: "string", Elem: g.typ(depth - 1)}
	case 5:
		return &f.Type{K: f.Map, Key: "int", Elem: g.typ(depth - 1)}
	case 6:
		return &f.Type{K: f.Ptr, Elem: g.typ(depth - 1)}
	case 7:
		return g.name(pkgA, "N", g.typ(depth-1), false)
	case 8:
		return g.name(pkgA, "L", g.typ(depth-1), true)
	case 10:
		return &f.Type{K: f.Array, Len: 1, Elem: g.typ(depth - 1)}
	case 9:
		return &f.Type{K: f.Struct, Fields: []f.Field{{Name: "F", Type: g.typ(depth - 1)}}}
	}
	return g.name(pkgB, "Q", g.typIn(depth-1), false)
}

// typIn is a type of package b, which cannot refer to package a.
func (g *gen) typIn(depth int) *f.Type {
	t := g.typ(depth)
	if usesA(t) {
		g.x.Prune()
	}
	return t
}

func usesA(t *f.Type) bool {
	if t == nil {
		return false
	}
	if t.K == f.Named && t.Pkg == pkgA {
		return true
	}
	for _, x := range t.Fields {
		if usesA(x.Type) {
			return true
		}
	}
	return usesA(t.Elem) || usesA(t.Def)
}

// sub picks a place inside of t that can be referred to.
func (g *gen) sub(t *f.Type) (frag string, at *f.Type) {
	at = t
	for {
		u := at.Under()
		switch u.K {
		case f.Slice, f.Array, f.Map:
			if !g.x.Bool("into") {
				return
			}
			frag, at = frag+"/[]", u.Elem
		case f.Ptr:
			if !g.x.Bool("into") {
				return
			}
			frag, at = frag+"/*", u.Elem
		case f.Struct:
			var ok []f.Field
			for _, x := range u.Fields {
				if !x.Skip {
					ok = append(ok, x)
				}
			}
			i := g.x.Choose(len(ok)+1, "field")
			if i == 0 {
				return
			}
			frag, at = frag+"/"+ok[i-1].Name, ok[i-1].Type
		default:
			return
		}
	}
}

func check(x *m.X, t *f.Type, frag string, at *f.Type) {
	p := f.NewProgram()
	root := &f.Type{K: f.Named, Pkg: pkgA, Name: "T", Def: t}
	p.Declare(root)
	if usesB(t) {
		p.Import(pkgA, pkgB)
	}
	ref := "go://" + pkgA + "#/T" + frag
	dir := world.Write(pkgA, p.Pkgs(map[string]string{pkgA + "/oapi.yaml": f.Spec("{$ref: '" + ref + "'}")})...)
	x.Case("%s ; ref %s", strings.ReplaceAll(p.Source(pkgA)+p.Source(pkgB), "\n", " "), ref)
	r := f.Scan(dir)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if !at.Supported() {
		x.Outcome("unsupported %v", r.Err != nil)
		if r.Err == nil {
			x.Fail("accepted", "type without schema was accepted: %s", r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "scan failed: %v", r.Err)
	}
	s := f.SpecSchema(r.Doc, 0)
	x.Outcome("%s", m.JS(s))
	if frag == "" {
		at = root
	}
	if err := (&f.Env{}).Match(s, at); err != nil {
		x.Fail("schema", "%v", err)
	}
}

func usesB(t *f.Type) bool {
	if t == nil {
		return false
	}
	if t.K == f.Named && t.Pkg == pkgB {
		return true
	}
	for _, x := range t.Fields {
		if usesB(x.Type) {
			return true
		}
	}
	return usesB(t.Elem) || usesB(t.Def)
}

func space(depth func() int, basic, unsup []string) func(*m.X) {
	return func(x *m.X) {
		g := &gen{x: x, basic: basic, unsup: unsup}
		t := g.typ(depth())
		frag, at := g.sub(t)
		check(x, t, frag, at)
	}
}

// pair of fields sharing or not sharing their types, in two structs
func pairs(x *m.X) {
	anon := func(tag string) *f.Type {
		return &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: basic("int")}}}
	}
	n1 := &f.Type{K: f.Named, Pkg: pkgA, Name: "N1", Def: anon("")}
	n2 := &f.Type{K: f.Named, Pkg: pkgA, Name: "N2", Def: anon("")}
	n3 := &f.Type{K: f.Named, Pkg: pkgB, Name: "N1", Def: anon("")}
	n4 := &f.Type{K: f.Named, Pkg: pkgB, Name: "N4", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: basic("string")}}}}
	n5 := &f.Type{K: f.Named, Pkg: pkgA, Name: "N5", Def: n4}
	u := &f.Type{K: f.Unsup, Text: "interface{}"}
	opts := []*f.Type{anon(""), n1, n2, n3, n4, n5, basic("int"), {K: f.Time}, u}
	wrap := func(i int, t *f.Type) *f.Type {
		switch i {
		case 1:
			return &f.Type{K: f.Ptr, Elem: t}
		case 2:
			return &f.Type{K: f.Slice, Elem: t}
		case 3:
			return &f.Type{K: f.Map, Key: "string", Elem: &f.Type{K: f.Ptr, Elem: t}}
		}
		return t
	}
	a := wrap(x.Choose(4, "wrapA"), opts[x.Choose(len(opts), "A")])
	b := wrap(x.Choose(4, "wrapB"), opts[x.Choose(len(opts), "B")])
	t := &f.Type{K: f.Struct, Fields: []f.Field{{Name: "A", Type: a}, {Name: "B", Type: b}}}
	if x.Bool("nest") {
		t = &f.Type{K: f.Struct, Fields: []f.Field{{Name: "A", Type: a}, {Name: "B", Type: &f.Type{K: f.Named, Pkg: pkgA, Name: "M", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "A", Type: b}, {Name: "B", Type: a}}}}}}}
	}
	g := &gen{x: x}
	frag, at := g.sub(t)
	check(x, t, frag, at)
}

// deep: few constructors repeated many times, and structs of many fields
func deep(x *m.X) {
	g := &gen{x: x}
	depths := []int{5, 8, 9, 17, 33}
	if m.Thorough() {
		depths = []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 129}
	}
	depth := m.Pick(x, "depth", depths...)
	var period []int
	structs := false
	for n := 1 + x.Choose(m.N(2, 3), "period"); len(period) < n; {
		c := x.Choose(7, "con")
		if len(period) > 0 && c == period[0] && n == 2 {
			x.Prune() // as period of one
		}
		period, structs = append(period, c), structs || c == 6
	}
	width := 1
	if structs {
		width = m.Pick(x, "fields", 1, 12, 101)
	}
	if width == 101 && depth > 17 && !m.Thorough() {
		x.Prune()
	}
	t := basic("string")
	frag, end := "", t
	for i := depth - 1; i >= 0; i-- {
		switch period[i%len(period)] {
		case 0:
			t, frag = &f.Type{K: f.Slice, Elem: t}, "/[]"+frag
		case 1:
			t, frag = &f.Type{K: f.Array, Len: 2, Elem: t}, "/[]"+frag
		case 2:
			t, frag = &f.Type{K: f.Map, Key: "string", Elem: t}, "/[]"+frag
		case 3:
			t, frag = &f.Type{K: f.Ptr, Elem: t}, "/*"+frag
		case 4:
			t = g.name(pkgA, "N", t, false)
		case 5:
			t = g.name(pkgA, "L", t, true)
		case 6:
			st := &f.Type{K: f.Struct}
			name := "F"
			for j := 0; j < width; j++ {
				ft := t
				if j != width/2 {
					ft = basic([]string{"bool", "int64", "float32"}[j%3])
				}
				fn := fmt.Sprintf("F%d", j)
				if width == 1 {
					fn = "F"
				}
				if j == width/2 {
					name = fn
				}
				st.Fields = append(st.Fields, f.Field{Name: fn, Type: ft})
			}
			t, frag = st, "/"+name+frag
		}
	}
	if x.Bool("whole") {
		check(x, t, "", t)
		return
	}
	check(x, t, frag, end)
}

func main() {
	m.Main(m.Check{
		ID: "C01",
		Spaces: []m.Space{
			{Name: "depth2", Bound: -1, Run: space(func() int { return 2 }, basics, unsupported),
				Rule: "every basic kind, struct, standard and unsupported leaf below up to two constructors (slice, array of 3, 1 and 0, map by string and int, pointer, defined type, alias, struct, defined type of another package), referred to whole or at every place inside"},
			{Name: "depth3", Bound: -1, Run: space(func() int { return m.N(3, 4) }, []string{"int", "string"}, []string{"interface{}"}),
				Rule: "the same with up to three (thorough: four) constructors over reduced leaves"},
			{Name: "pairs", Bound: -1, Run: pairs,
				Rule: "structs with two fields of nine types with identical, equal or different structure, each plain or below pointer, slice or map, nested twice, referred to at every place"},
			{Name: "deep", Bound: -1, Run: deep,
				Rule: "cycles of up to two (three) of seven constructors repeated to depth 5 to 33 (129), structs of 1, 12 or 101 fields, referred to whole or at the innermost place"},
		},
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"go/types and golang.org/x/tools/go/packages load the program that is written", "packages are handed over by the external driver protocol"},
	})
}
