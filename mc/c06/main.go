//go:build go1.21

// C06: the same input gives the same bytes.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/verifmc/maporder"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

type obj = map[string]interface{}
type arr = []interface{}

var world *m.World

type input struct {
	name string
	dir  string
	opts func() []oapi.Option
}

// outputs of a scan in all formats, or the mark of a failure
func outputs(in input) (out string) {
	pv, stack := m.Try(func() {
		o, err := oapi.Scan(context.Background(), append([]oapi.Option{oapi.WithDir(in.dir)}, in.opts()...)...)
		if err != nil {
			out = "fails"
			return
		}
		for _, f := range []string{"json", "json:pretty", "yaml", "go"} {
			b, err := oapi.Format(f, o)
			if err != nil {
				out += "\n" + f + " fails"
				continue
			}
			out += "\n" + string(b)
		}
	})
	if pv != nil {
		return fmt.Sprint("panic ", pv, stack)
	}
	return
}

// types of the input share a pointer, though they should not
var confused string

var baseline = map[string]string{}

// explore runs the scan of the input with every order of the controlled
// iterations within the bound of deviations.
func explore(x *m.X, in input, perSite bool) {
	want, ok := baseline[in.name]
	if !ok {
		maporder.Control(func(n, orders int, caller string) int { return 0 }, func() { want = outputs(in) })
		baseline[in.name] = want
	}
	var taken []string
	points := 0
	var got string
	chosen := map[string]int{}
	maporder.Control(func(n, orders int, caller string) int {
		points++
		var c int
		if perSite {
			// all iterations of one place of the code go by the same policy
			p, ok := chosen[caller]
			if !ok {
				p = x.Deviate(4, "policy of "+caller)
				chosen[caller] = p
			}
			if p == 0 {
				return 0
			}
			c = maporder.Policy(n, p)
		} else {
			c = x.Deviate(orders, "order of map in "+caller)
		}
		if c > 0 && len(taken) < 10 {
			taken = append(taken, fmt.Sprintf("%s: %v", caller, maporder.Orders(n)[c]))
		}
		return c
	}, func() { got = outputs(in) })
	x.Case("%s; %d iterations; orders %v", in.name, points, taken)
	x.Outcome("%s %s", in.name, got)
	if got != want {
		where := "none"
		if len(taken) > 0 {
			where = strings.SplitN(taken[len(taken)-1], ":", 2)[0]
		}
		if confused != "" {
			where = confused
		}
		x.Fail(where, "iterating %v gives\n%s\ninstead of\n%s", taken, got, want)
	}
}

func op(refs ...string) obj {
	content := obj{}
	for i, r := range refs {
		content[fmt.Sprintf("m/%d", i)] = obj{"schema": obj{"$ref": r}}
	}
	return obj{"summary": "s", "responses": obj{"200": obj{"description": "d", "content": content}}}
}

const srcA = `package a

import "ex.com/b"

type T struct {
	N *T
	U U
	M map[string]b.B
}

type U struct {
	T []T
	b.B
	X struct{ Y *U; Z int }
}

type D struct { E1; E2; F int }
type P struct { X struct{ V int }; L []struct{ V int } }
type Q struct { Y struct{ V int }; M map[string]struct{ V int } }
type R struct { Q Q; Z struct{ V int }; P *P }
type E1 struct { A, B, C int }
type E2 struct { B, C string; D b.B }
`
const srcB = `package b

type B struct { C *C; S string }
type C struct { B *B; L []C }
`

var exportSets = [][]string{
	{},
	{"T go://ex.com/a#/T"},
	{"TT T", "UU go://ex.com/a#/U"},
	{"TT T", "UU go://ex.com/a#/U", "BB go://ex.com/b#/B", "CC go://ex.com/b#/C"},
	{"BB go://ex.com/b#/B", "CC go://ex.com/b#/C"},
	{"In go://ex.com/a#/P/X"},
	{"In go://ex.com/a#/Q/Y", "P", "El go://ex.com/a#/P/L/[]"},
}

func program(exports int) []m.Pkg {
	a := srcA
	for _, e := range exportSets[exports] {
		a += "\n//openapi:schema " + e + "\n"
	}
	return []m.Pkg{{Path: pkgA, Files: map[string]string{"x.go": a}}, {Path: pkgB, Files: map[string]string{"x.go": srcB}}}
}

var targets = []string{"go://ex.com/a#/T", "go://ex.com/a#/U", "go://ex.com/a#/U/X", "go://ex.com/a#/T/M", "go://ex.com/a#/D", "go://ex.com/b#/B", "go://ex.com/b#/C/L", "go://ex.com/a#/U/T/[]"}

// types sharing unnamed structs
var shared = []string{"go://ex.com/a#/P", "go://ex.com/a#/Q", "go://ex.com/a#/R", "go://ex.com/a#/P/L", "go://ex.com/a#/Q/Y", "go://ex.com/a#/R/Z"}

func decode(v interface{}, into interface{}) {
	if err := json.Unmarshal([]byte(m.JS(v)), into); err != nil {
		panic(err)
	}
}

// types: references to recursive types and exports
func types(perSite bool, targets []string) func(*m.X) {
	return func(x *m.X) { typesOf(x, perSite, targets, x.Choose(5, "exports")) }
}

func typesOf(x *m.X, perSite bool, targets []string, e int) {
	i := x.Choose(len(targets), "first reference")
	j := x.Choose(len(targets), "second reference")
	if j < i || !m.Thorough() && (perSite && j > i+1 && i > 0 || !perSite && e != 0 && e != 3 && e < 5) {
		x.Prune()
	}
	pp := program(e)
	pp[0].Files["oapi.yaml"] = m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"},
		"paths": obj{"/p": obj{"get": op(targets[i])}}, "components": obj{"schemas": obj{"Own": obj{"$ref": targets[j]}}}})
	explore(x, input{name: fmt.Sprintf("types, exports %v, references %s %s", exportSets[e], targets[i], targets[j]), dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, perSite)
}

// config: root document, overrides, default operations
func config(x *m.X) {
	e := x.Choose(5, "exports")
	ov := x.Choose(4, "overrides")
	de := x.Choose(7, "default operations")
	ro := x.Choose(5, "root")
	if !m.Thorough() && (e != 0 && e != 3 || ov == 1 || ov == 2 || ov > 0 && ro > 0 || ro == 1) {
		x.Prune()
	}
	pp := program(e)
	pp[0].Files["oapi.yaml"] = m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"},
		"paths":      obj{"/p/{id}": obj{"get": op("go://ex.com/a#/D"), "put": op(), "parameters": arr{obj{"$ref": "#/x"}}}, "/q": obj{"get": op("go://ex.com/b#/B")}},
		"components": obj{"schemas": obj{"One": obj{"$ref": "go://ex.com/a#/E1"}, "Two": obj{"type": "string", "x-b": 1., "x-a": 2.}}}})
	overrides := [][]string{{}, {`{"go://ex.com/a#/E1":{"type":"string","format":"x"}}`}, {`{"go://ex.com/a#/E1":{"type":"string"},"go://ex.com/b#/B":{"$ref":"go://ex.com/a#/E1"}}`},
		{`{"go://ex.com/a#/E1":{"type":"object","properties":{"p":{"type":"string"},"q":{"$ref":"go://ex.com/b#/C"},"r":{"type":"integer"}}},"go://ex.com/a#/D":{"type":"array","items":{"$ref":"go://ex.com/a#/E1"}},"go://ex.com/a#/E2":{"type":"number"}}`}}[ov]
	op1 := func(s string, codes ...string) obj {
		r := obj{}
		for _, c := range codes {
			r[c] = obj{"description": s + c, "content": obj{"m": obj{"schema": obj{"type": "string", "title": s}}}}
		}
		return obj{"summary": s, "operationId": s, "responses": r}
	}
	refop := func(s, ref string) obj {
		return obj{"description": s, "responses": obj{"500": obj{"description": s, "content": obj{"m": obj{"schema": obj{"$ref": ref}}}}}}
	}
	defs := []obj{
		{},
		{"*": op1("all", "400", "500")},
		{"*": op1("all", "400", "500"), "/p/{id}": op1("p", "400", "404")},
		{"get:*": op1("get", "400"), "/p/*": op1("p", "400", "404"), "put:/p/{id}": op1("put", "200", "404")},
		{"/q": refop("a", "go://ex.com/a#/E2"), "/*": refop("b", "go://ex.com/b#/C"), "*": refop("c", "go://ex.com/a#/T")},
		{"/{a}": refop("a", "go://ex.com/a#/E2"), "/{b}": refop("b", "go://ex.com/b#/C")},
		{"GET:/q": op1("1", "400"), "get:/q": op1("2", "400"), "Get:/q": op1("3", "401")},
	}[de]
	roots := []string{"", `{"info":{"title":"root","version":"2"}}`,
		`{"components":{"schemas":{"R1":{"$ref":"go://ex.com/a#/E2"},"R2":{"$ref":"go://ex.com/a#/T"},"One":{"$ref":"go://ex.com/a#/E1"}}}}`,
		`{"components":{"schemas":{"R1":{"type":"string"}},"responses":{"X":{"description":"d","content":{"m":{}}}}},"servers":[{"url":"a"},{"url":"b"}],"tags":[{"name":"t"},{"name":"s"}],"security":[{"b":[],"a":[]}]}`,
		`{"paths":{"/r":{"get":{"summary":"r","responses":{"200":{"description":"d","content":{"m":{"schema":{"$ref":"go://ex.com/b#/C"}}}}}}}},"components":{"schemas":{"Two":{"type":"number"}}}}`}[ro]
	opts := func() (o []oapi.Option) {
		if ov > 0 {
			s := map[string]spec.Schema{}
			decode(json.RawMessage(overrides[0]), &s)
			o = append(o, oapi.WithOverride(s))
		}
		if de > 0 {
			d := map[string]spec.Operation{}
			decode(defs, &d)
			o = append(o, oapi.WithDefOps(d))
		}
		if ro > 0 {
			var r spec.OpenAPI
			decode(json.RawMessage(roots), &r)
			o = append(o, oapi.WithRootSchema(r))
		}
		return
	}
	explore(x, input{name: fmt.Sprintf("config, exports %v, overrides %v, default operations %s, root %s", exportSets[e], overrides, m.JS(defs), roots), dir: world.Write(pkgA, pp...), opts: opts}, true)
}

// files: several specification files, saying the same or conflicting
func files(x *m.X) {
	base := func(extra ...string) obj {
		d := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{"/s": obj{"get": op("go://ex.com/b#/B")}}}
		for _, e := range extra {
			d["x-"+e] = obj{e: e, "z" + e: arr{e}}
			d["paths"].(obj)["/"+e] = obj{"get": op("go://ex.com/b#/C", "go://ex.com/b#/B"), "post": op()}
		}
		return d
	}
	variants := []obj{nil, base("a"), base("a", "b"), base("c", "d"), func() obj { d := base(); d["info"] = obj{"title": "other"}; return d }()}
	pp := program(0)
	what := "files"
	n := 0
	for _, w := range []struct {
		pkg  int
		name string
	}{{0, "oapi.yaml"}, {0, "oapi.json"}, {1, "oapi.yml"}, {1, "oapi.yaml"}} {
		c := x.Choose(len(variants), w.name)
		if c == 0 {
			continue
		}
		n++
		pp[w.pkg].Files[w.name] = m.JS(variants[c])
		what += fmt.Sprintf(" %d/%s:%d", w.pkg, w.name, c)
	}
	if n == 0 || n > m.N(2, 3) {
		x.Prune()
	}
	explore(x, input{name: what, dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, true)
}

// nested: references below and beside each other, some broken
func nested(x *m.X) {
	refs := []string{"", "go://ex.com/a#/D", "go://ex.com/b#/B", "go://ex.com/a#/Missing", "go://ex.com/a#/E1", "#/x-a"}[:m.N(4, 6)]
	n := 0
	s := obj{}
	what := ""
	for _, p := range []string{"", "items", "properties", "x-a"} {
		r := refs[x.Choose(len(refs), "reference")]
		if r == "" {
			continue
		}
		if n++; n > m.N(2, 3) {
			x.Prune()
		}
		o := obj{"$ref": r}
		switch p {
		case "":
			s["$ref"] = r
		case "properties":
			s[p] = obj{"p": o, "$ref": obj{"q": o}}
		default:
			s[p] = o
		}
		what += p + ":" + r + " "
	}
	pp := program(x.Choose(m.N(1, 2), "exports") * 3)
	pp[0].Files["oapi.yaml"] = m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{}, "components": obj{"schemas": obj{"Own": s}}})
	explore(x, input{name: "nested " + what + fmt.Sprint(pp[0].Files["x.go"] == srcA), dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, true)
}

// generics: instances of generic types. Their pointer names the generic type,
// so that different instances share it (a known finding).
func generics(x *m.X) {
	args := []string{"", "int", "string", "T", "[]int"}[:m.N(4, 5)]
	f, g := x.Choose(len(args), "instance of F"), x.Choose(len(args), "instance of G")
	if f == 0 && g == 0 {
		x.Prune()
	}
	field := func(n string, i int) string {
		if i == 0 {
			return ""
		}
		return "\t" + n + " " + m.Pick(x, "how", []string{"", "[]", "*"}[:m.N(2, 3)]...) + "Box[" + args[i] + "]\n"
	}
	src := "package a\n\ntype Box[P any] struct { " + m.Pick(x, "content", []string{"V P", "V int", "V P; W []P"}[:m.N(2, 3)]...) + " }\n\n"
	if x.Bool("export") {
		src += "//openapi:schema Ex T\n"
	}
	src += "type T struct {\n" + field("F", f) + field("G", g) + "}\n"
	pp := []m.Pkg{{Path: pkgA, Files: map[string]string{"x.go": src,
		"oapi.yaml": m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{"/p": obj{"get": op("go://ex.com/a#/T")}}})}}}
	if f > 0 && g > 0 && f != g {
		confused = "instances of a generic type"
	}
	defer func() { confused = "" }()
	explore(x, input{name: src, dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, true)
}

// exports: comments of several packages, saying the same, something else of
// the same type, or giving one name to several types.
func exports(x *m.X) {
	comments := []string{"", "One go://ex.com/a#/T", "Two go://ex.com/a#/T", "One go://ex.com/a#/U", "T go://ex.com/b#/B", "B", "One go://ex.com/a#/Missing"}
	imports := map[string]string{pkgA: "import (\n\t\"ex.com/b\"\n\t_ \"ex.com/c\"\n)\n\n", pkgB: "import \"ex.com/c\"\n\n", "ex.com/c": ""}
	decls := map[string]string{pkgA: "type T struct { U U; B *b.B }\n\ntype U struct { T []T }\n", pkgB: "type B struct { V c.C }\n", "ex.com/c": "type C int\n"}
	var pp []m.Pkg
	what := "exports"
	n := 0
	for _, p := range []string{pkgA, pkgB, "ex.com/c"} {
		text := ""
		for i := 0; i < m.N(1, 2); i++ {
			if c := x.Choose(len(comments), "comment"); c > 0 && !(p == "ex.com/c" && comments[c] == "B") {
				n++
				text += "//openapi:schema " + comments[c] + "\n\n"
				what += fmt.Sprint(" ", p, ":", comments[c])
			}
		}
		pp = append(pp, m.Pkg{Path: p, Files: map[string]string{"x.go": "package " + p[7:] + "\n\n" + imports[p] + text + decls[p]}})
	}
	if n > 3 {
		x.Prune()
	}
	pp[0].Files["oapi.yaml"] = m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{"/p": obj{"get": op("go://ex.com/a#/T", "go://ex.com/b#/B", "go://ex.com/a#/U")}}})
	explore(x, input{name: what, dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, true)
}

// keys: specifications in yaml with keys whose text is the same
func keys(x *m.X) {
	pairs := [][2]string{{"200", "'200'"}, {"1", "1.0"}, {"true", "'true'"}, {"on", "'true'"}, {"200", "404"}, {"2", "'3'"}}
	p := pairs[x.Choose(len(pairs), "keys")]
	text := "openapi: 3.0.3\ninfo: {title: t, version: v}\n"
	switch x.Choose(3, "place") {
	case 0:
		text += fmt.Sprintf("paths:\n  /a:\n    get:\n      responses:\n        %s: {description: a}\n        %s: {$ref: 'go://ex.com/a#/D'}\n", p[0], p[1])
	case 1:
		text += fmt.Sprintf("paths: {}\nx-a: [{%s: {a: 1}, %s: {b: 2}}]\n", p[0], p[1])
	case 2:
		text += fmt.Sprintf("paths: {}\nx-a:\n  %s: 1\n  %s: 2\n", p[1], p[0])
	}
	pp := program(0)
	pp[0].Files["oapi.yaml"] = text
	explore(x, input{name: "keys " + text, dir: world.Write(pkgA, pp...), opts: func() []oapi.Option { return nil }}, true)
}

func main() {
	m.Main(m.Check{
		ID: "C06", Level: "model_checking",
		Init: func(string) { world = m.NewWorld() },
		Assume: []string{
			"iterations of maps by the code of the module and of gabs are controlled, those inside of other libraries (encoding/json, yaml, go/types, go/packages) are not",
			"maps with more than four keys are iterated in reverse, in all rotations and with each key first or last, not in all orders",
			"what a failing scan says is no output",
		},
		Spaces: []m.Space{
			{Name: "types", Bound: m.N(1, 2), Rule: "5 export sets x pairs of 8 references (quick: neighbours and pairs with the first); the iterations of each place of the code (chain of callers) go by one of four policies, up to the bound of places deviate", Run: types(true, targets)},
			{Name: "shared", Bound: m.N(1, 2), Rule: "unnamed struct types used at several places, one of them exported or none: 3 export sets x pairs of 6 references; policies as above", Run: func(x *m.X) {
				typesOf(x, true, shared, m.Pick(x, "exports", 5, 6, 0))
			}},
			{Name: "config", Bound: m.N(1, 2), Rule: "5 (quick 2) export sets x 4 (2) overrides x 7 default operations x 5 (4) root documents; policies as above", Run: config},
			{Name: "files", Bound: m.N(1, 2), Rule: "5 contents of each of 4 specification files (up to 2, thorough 3 present); policies as above", Run: files},
			{Name: "nested", Bound: 1, Rule: "up to 2 (thorough 3) of 3 (5) good and broken references at 4 places of one schema, above, below and beside each other (thorough: x 2 export sets); policies as above", Run: nested},
			{Name: "exports", Bound: m.N(1, 2), Rule: "one (thorough 2) of 7 export comments in each of 3 packages, naming the same type or using the same name; policies as above", Run: exports},
			{Name: "generics", Bound: m.N(1, 2), Rule: "2 fields of the type of 3 (thorough 4) instances of a generic type (or none) in 2 (3) ways x 2 (3) contents of it x exported or not; policies as above", Run: generics},
			{Name: "keys", Bound: m.N(1, 2), Rule: "6 pairs of keys, some of the same text, at 3 places of a specification in yaml; policies as above", Run: keys},
			{Name: "instances", Bound: 1, Rule: "2 (5) export sets x pairs of 2 (5) references; every order of every single map iteration", Run: types(false, targets[1:m.N(3, 6)])},
		},
	})
}
