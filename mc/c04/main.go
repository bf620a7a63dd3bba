//go:build go1.21

// C04: references are replaced everywhere or the scan fails.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

type obj = map[string]interface{}
type arr = []interface{}
type path = []interface{}

var world *m.World

func basic(s string) *f.Type { return &f.Type{K: f.Basic, Text: s} }

// program of all cases --------------------------------------------------------

type prog struct {
	S, E, N, P, R, L, M *f.Type // a.S struct, a.E exported in some cases, a.N basic, b.P struct, a.R recursive, a.EE and a.SX look like others
	p                   *f.Program
	env                 *f.Env
}

func mkprog() *prog {
	g := &prog{p: f.NewProgram(), env: &f.Env{Exports: map[*f.Type]string{}, Overrides: map[*f.Type]interface{}{}, Used: map[string]bool{}}}
	g.P = &f.Type{K: f.Named, Pkg: pkgB, Name: "P", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "Deep", Type: basic("int64")}}}}
	g.E = &f.Type{K: f.Named, Pkg: pkgA, Name: "Ee", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "Y", Type: basic("string")}, {Name: "Pp", Type: g.P}}}}
	g.N = &f.Type{K: f.Named, Pkg: pkgA, Name: "N", Def: basic("uint8")}
	g.R = &f.Type{K: f.Named, Pkg: pkgA, Name: "R", Def: &f.Type{K: f.Struct}}
	g.R.Def.Fields = []f.Field{{Name: "Next", Type: &f.Type{K: f.Slice, Elem: g.R}}, {Name: "V", Type: basic("bool")}}
	g.S = &f.Type{K: f.Named, Pkg: pkgA, Name: "S", Def: &f.Type{K: f.Struct, Fields: []f.Field{
		{Name: "X", Type: basic("int")}, {Name: "Es", Type: &f.Type{K: f.Slice, Elem: g.E}}, {Name: "Pt", Type: g.P}, {Name: "Nn", Type: g.N}}}}
	g.L = &f.Type{K: f.Named, Pkg: pkgA, Name: "EE", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "Z", Type: basic("float32")}, {Name: "Pe", Type: g.E}}}}
	g.M = &f.Type{K: f.Named, Pkg: pkgA, Name: "SX", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: basic("string")}}}}
	for _, t := range []*f.Type{g.S, g.E, g.N, g.R, g.L, g.M} {
		g.p.Declare(t)
	}
	g.p.Extra(pkgA, "type unexported struct { Q string }\nfunc Fn() {}\ntype Ch chan int\ntype W struct { C Ch }")
	return g
}

func (g *prog) export(t *f.Type, name string) {
	g.env.Exports[t] = name
	if name == t.Name {
		g.p.Extra(t.Pkg, "//openapi:schema "+name)
	} else {
		g.p.Extra(t.Pkg, "//openapi:schema "+name+" "+t.Name)
	}
}

type target struct {
	ref string
	t   func(*prog) *f.Type
}

var targets = []target{
	{"go://ex.com/a#/S", func(g *prog) *f.Type { return g.S }},
	{"go://#/S", func(g *prog) *f.Type { return g.S }},
	{"go://ex.com/a#/Ee", func(g *prog) *f.Type { return g.E }},
	{"go://ex.com/b#/P", func(g *prog) *f.Type { return g.P }},
	{"go://#/N", func(g *prog) *f.Type { return g.N }},
	{"go://#/S/X", func(g *prog) *f.Type { return basic("int") }},
	{"go://#/R", func(g *prog) *f.Type { return g.R }},
	{"go://#/EE", func(g *prog) *f.Type { return g.L }},
	{"go://#/SX", func(g *prog) *f.Type { return g.M }},
	{"go://ex.com/a#/SX/X", func(g *prog) *f.Type { return basic("string") }},
}

const plain = 7 // targets which do not look like others

var bad = []string{
	"go://ex.com/a#/Missing", "go://#/Missing", "go://ex.com/missing#/S", "go://ex.com/a#/S/Nope", "go://ex.com/a#/S/X/Nope",
	"http://example.com/x.json#/S", "foo://ex.com/a#/S", "go://ex.com/a#/", "go://ex.com/a", "go://ex.com/a#S", "go://ex.com/b#/S",
	"go://#/Fn", "go://#/W", "go://#/Ch", "go://ex.com/a#/s", "go://", "https://ex.com/a#/S", "go://ex.com/a/#/S", "go://EX.com/a#/S", "go://ex.com/a#/S/Es/x", "go://%zz#/S",
}

type position struct {
	path   path
	schema bool // usable where the document is made of spec types
}

var op = path{"paths", "/p.a/{id}", "get"}

func at(base path, more ...interface{}) path { return append(append(path{}, base...), more...) }

var positions = []position{
	{at(op, "responses", "200", "content", "application/json", "schema"), true},
	{at(op, "responses", "201", "content", "application/json", "schema", "items"), true},
	{at(op, "responses", "202", "content", "application/json", "schema", "properties", "a.b~c/d"), true},
	{at(op, "parameters", 1), false},
	{at(op, "parameters", 2, "schema"), true},
	{at(op, "parameters", 11, "schema"), true},
	{path{"paths", "/p.a/{id}", "post", "requestBody", "content", "*/*", "schema", "allOf", 0}, true},
	{path{"paths", "/p.a/{id}", "post", "requestBody", "content", "*/*", "schema", "allOf", 1}, true},
	{path{"paths", "/p.a/{id}", "post", "requestBody", "content", "a", "schema", "not"}, true},
	{path{"paths", "/p.a/{id}", "parameters", 0, "schema"}, true},
	{path{"components", "schemas", "C"}, true},
	{path{"components", "schemas", "D", "additionalProperties"}, true},
	{path{"components", "schemas", "D.1~0", "properties", "$ref"}, true},
	{path{"components", "responses", "R", "headers", "X-H", "schema"}, true},
	{at(op, "callbacks", "cb", "{$request.body#/url}", "post", "requestBody", "content", "x", "schema"), true},
	{path{"x-top"}, false},
	{path{"x-list", 0, 0, 1}, false},
	{path{"", "", "x"}, false},
	{path{"components", "examples", "Ex", "value", "deep"}, false},
}

func baseDoc() obj {
	var d interface{} = obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v", "x": arr{1., nil, false, "go://not/a#/Ref"}},
		"paths":      obj{"/p.a/{id}": obj{"get": obj{"responses": obj{"200": obj{"description": "d"}}}}},
		"components": obj{"schemas": obj{"Local": obj{"type": "string", "$refs": "go://x", "ref": "go://#/S"}}}}
	return d.(obj)
}

// toYAML: JSON is YAML.
func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (g *prog) scan(x *m.X, doc interface{}, file string, opts ...oapi.Option) f.Result {
	g.p.Import(pkgA, pkgB)
	g.p.Declare(g.P)
	files := map[string]string{}
	if doc != nil {
		files[pkgA+"/"+file] = text(doc)
	}
	return f.Scan(world.Write(pkgA, g.p.Pkgs(files)...), opts...)
}

// judge checks a successful scan against the expected document.
func (g *prog) judge(x *m.X, r f.Result, want interface{}, what string) {
	if r.Panic != "" {
		x.Fail("panic", "%s: %s", what, r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "%s: %v", what, r.Err)
	}
	if left := f.ExternalRefs(interface{}(r.Doc)); len(left) > 0 {
		x.Fail("left", "%s: references %q are left", what, left)
	}
	doc := f.Deep(interface{}(r.Doc)).(obj)
	// components added by exports are checked apart
	comps, _ := f.Get(interface{}(doc), "components", "schemas").(obj)
	own, _ := f.Get(want, "components", "schemas").(obj)
	extra := obj{}
	for _, k := range m.SortedKeys(comps) {
		if _, ok := own[k]; !ok {
			extra[k] = comps[k]
			delete(comps, k)
		}
	}
	if err := g.env.MatchTree(interface{}(doc), want); err != nil {
		x.Fail("document", "%s: %v", what, err)
	}
	if err := g.env.Closure(extra); err != nil {
		x.Fail("component", "%s: %v", what, err)
	}
	if len(extra) > 0 {
		x.Fail("component", "%s: components %q nobody refers to", what, m.SortedKeys(extra))
	}
	x.Outcome("%d", len(g.env.Used))
}

// overrides ------------------------------------------------------------------

type override struct {
	key  string
	json string
	t    func(*prog) *f.Type
	want func(*prog) interface{}
}

var overrides = []override{
	{"go://ex.com/a#/S", `{"type":"string","format":"ov"}`, func(g *prog) *f.Type { return g.S }, func(g *prog) interface{} { return obj{"type": "string", "format": "ov"} }},
	{"go://ex.com/b#/P", `{"$ref":"go://ex.com/a#/N"}`, func(g *prog) *f.Type { return g.P }, func(g *prog) interface{} { return &f.RefTo{T: g.N} }},
	{"go://ex.com/a#/Ee", `{"type":"object","properties":{"p":{"$ref":"go://ex.com/b#/P"},"l":{"$ref":"#/components/schemas/Local"}}}`, func(g *prog) *f.Type { return g.E }, func(g *prog) interface{} {
		return obj{"type": "object", "properties": obj{"p": &f.RefTo{T: g.P}, "l": obj{"$ref": "#/components/schemas/Local"}}}
	}},
}

func schema(x *m.X, s string) (out spec.Schema) {
	if err := json.Unmarshal([]byte(s), &out); err != nil {
		x.Fail("config", "schema %s: %v", s, err)
	}
	return
}

func (g *prog) override(x *m.X, i int) oapi.Option {
	o := overrides[i]
	g.env.Overrides[o.t(g)] = o.want(g)
	return oapi.WithOverride(map[string]spec.Schema{o.key: schema(x, o.json)})
}

var siblings = []obj{nil, {"description": "go://no/ref"}, {"description": "d", "properties": obj{"z": obj{"$ref": "#/components/schemas/Local"}}, "a": arr{obj{"$ref": "go://ex.com/b#/P"}}}}

func sibling(g *prog, i int) obj {
	if i == 2 {
		return obj{"description": "d", "properties": obj{"z": obj{"$ref": "#/components/schemas/Local"}}, "a": arr{&f.RefTo{T: g.P}}}
	}
	return siblings[i]
}

func refObj(ref string, sib obj) obj {
	o := obj{"$ref": ref}
	for k, v := range sib {
		o[k] = v
	}
	return o
}

func exports(x *m.X, g *prog) {
	switch x.Choose(5, "exports") {
	case 1:
		g.export(g.S, "S")
	case 2:
		g.export(g.E, "Err.or-1_x")
	case 3:
		g.export(g.S, "SS")
		g.export(g.E, "E")
		g.export(g.P, "P")
	case 4:
		g.export(g.R, "R")
		g.export(g.N, "N")
	}
}

func single(x *m.X) {
	g := mkprog()
	p := positions[x.Choose(len(positions), "position")]
	t := targets[x.Choose(len(targets), "target")]
	sib := x.Choose(len(siblings), "siblings")
	exports(x, g)
	var opts []oapi.Option
	if o := x.Choose(len(overrides)+1, "override"); o > 0 {
		opts = append(opts, g.override(x, o-1))
	}
	doc := baseDoc()
	f.Put(doc, interface{}(refObj(t.ref, siblings[sib])), p.path...)
	want := f.Deep(doc)
	f.Put(want, &f.RefTo{T: t.t(g), Sibling: sibling(g, sib)}, p.path...)
	what := fmt.Sprintf("%s at %v", t.ref, p.path)
	x.Case("%s", what)
	r := g.scan(x, doc, m.Pick(x, "file", "oapi.yaml", "oapi.json"), opts...)
	g.judge(x, r, want, what)
}

func pairs(x *m.X) {
	g := mkprog()
	i := x.Choose(len(positions), "first")
	j := x.Choose(len(positions), "second")
	if j == i || prefix(positions[i].path, positions[j].path) || prefix(positions[j].path, positions[i].path) {
		x.Prune()
	}
	doc := interface{}(baseDoc())
	want := f.Deep(doc)
	what := ""
	for _, k := range []int{i, j} {
		t := targets[x.Choose(plain, "target")]
		f.Put(doc, interface{}(refObj(t.ref, nil)), positions[k].path...)
		f.Put(want, &f.RefTo{T: t.t(g)}, positions[k].path...)
		what += fmt.Sprintf("%s at %v; ", t.ref, positions[k].path)
	}
	if x.Bool("exports") {
		g.export(g.S, "S")
		g.export(g.P, "Pe")
	}
	x.Case("%s", what)
	g.judge(x, g.scan(x, doc, "oapi.yaml"), want, what)
}

func prefix(a, b path) bool {
	return len(a) <= len(b) && reflect.DeepEqual(a, b[:len(a)])
}

func all(x *m.X) {
	// every position at once, targets rotated
	g := mkprog()
	off := x.Choose(len(targets), "rotation")
	step := 1 + x.Choose(3, "step")
	exports(x, g)
	doc := interface{}(baseDoc())
	want := f.Deep(doc)
	for k, p := range positions {
		t := targets[(off+k*step)%len(targets)]
		f.Put(doc, interface{}(refObj(t.ref, nil)), p.path...)
		f.Put(want, &f.RefTo{T: t.t(g)}, p.path...)
	}
	var opts []oapi.Option
	if o := x.Choose(len(overrides)+1, "override"); o > 0 {
		opts = append(opts, g.override(x, o-1))
	}
	g.judge(x, g.scan(x, doc, "oapi.yml", opts...), want, "all positions")
}

// many: many references in one document, many levels down or side by side
func many(x *m.X) {
	g := mkprog()
	sizes := []int{9, 11, 17, 65}
	if m.Thorough() {
		sizes = []int{5, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 50, 64, 65, 100, 101, 129, 257}
	}
	n := m.Pick(x, "references", sizes...)
	form := m.Pick(x, "form", "list", "map", "chain of keys", "chain of lists", "operations", "parameters", "properties")
	off := x.Choose(m.N(2, len(targets)), "rotation")
	step := x.Choose(m.N(2, 3), "step")
	exports(x, g)
	doc := interface{}(baseDoc())
	var paths []path
	switch form {
	case "list", "map", "parameters", "properties":
		base := map[string]path{"list": {"x-l"}, "map": {"x-m"}, "parameters": at(op, "parameters"), "properties": {"components", "schemas", "Big", "properties"}}[form]
		for i := 0; i < n; i++ {
			switch form {
			case "list":
				paths = append(paths, at(base, i))
			case "parameters":
				paths = append(paths, at(base, i, "schema"))
			default:
				paths = append(paths, at(base, fmt.Sprintf("k%d", i)))
			}
		}
	case "chain of keys", "chain of lists":
		p := path{"x-c"}
		for i := 0; i < n; i++ {
			if form == "chain of lists" {
				paths = append(paths, at(p, 0))
				p = at(p, 1)
				continue
			}
			paths = append(paths, at(p, "r"))
			p = at(p, "n")
		}
	case "operations":
		for i := 0; i < n; i++ {
			p := path{"paths", fmt.Sprintf("/p%d", i/4), []string{"get", "put", "post", "delete"}[i%4], "responses"}
			paths = append(paths, at(p, fmt.Sprint(200+i%3), "content", "a/b", "schema"))
		}
	}
	want := f.Deep(doc)
	for k, p := range paths {
		t := targets[(off+k*step)%len(targets)]
		f.Put(doc, interface{}(refObj(t.ref, nil)), p...)
		f.Put(want, &f.RefTo{T: t.t(g)}, p...)
	}
	what := fmt.Sprintf("%d references, %s", n, form)
	x.Case("%s", what)
	g.judge(x, g.scan(x, doc, "oapi.yaml"), want, what)
}

func unresolvable(x *m.X) {
	g := mkprog()
	ref := bad[x.Choose(len(bad), "reference")]
	where := x.Choose(len(positions)+5, "position")
	doc := interface{}(baseDoc())
	if x.Bool("with a good one") {
		f.Put(doc, interface{}(obj{"$ref": "go://#/S"}), "x-good")
	}
	var opts []oapi.Option
	bref := `{"$ref":` + text(ref) + `}`
	what := ""
	var r f.Result
	switch k := where - len(positions); {
	case k < 0:
		f.Put(doc, interface{}(obj{"$ref": ref}), positions[where].path...)
		what = fmt.Sprintf("%q at %v", ref, positions[where].path)
	default:
		if strings.Contains(ref, "%zz") || strings.HasPrefix(ref, "go://#") || ref == "go://ex.com/a#S" || ref == "go://" {
			x.Prune() // no reference of a configuration
		}
		switch k {
		case 0:
			var o spec.Operation
			if err := json.Unmarshal([]byte(`{"responses":{"500":{"description":"e","content":{"a":{"schema":`+bref+`}}}}}`), &o); err != nil {
				x.Prune()
			}
			opts = append(opts, oapi.WithDefOps(map[string]spec.Operation{"*": o}))
			what = "default operation with " + ref
		case 1:
			f.Put(doc, interface{}(obj{"$ref": "go://#/S"}), "x-used")
			opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/S": schema(x, bref)}))
			what = "override with " + ref
		case 2:
			var o spec.OpenAPI
			if err := json.Unmarshal([]byte(`{"components":{"schemas":{"Z":`+bref+`}}}`), &o); err != nil {
				x.Prune()
			}
			opts = append(opts, oapi.WithRootSchema(o))
			what = "root document with " + ref
		case 3: // inside of an override used by an exported component
			f.Put(doc, interface{}(obj{"$ref": "go://#/Ee"}), "x-used")
			g.export(g.E, "E")
			opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/Ee": schema(x, `{"items":`+bref+`}`)}))
			what = "override of exported type with " + ref
		case 4: // second of two in one list
			f.Put(doc, interface{}(arr{obj{"$ref": "go://#/S"}, obj{"$ref": ref}}), "x-two")
			what = "second of list " + ref
		}
	}
	x.Case("%s", what)
	r = g.scan(x, doc, "oapi.yaml", opts...)
	if r.Panic != "" {
		x.Fail("panic", "%s: %s", what, r.Panic)
	}
	if r.Err == nil {
		x.Fail("accepted", "%s: the scan succeeds with %s", what, r.JSON)
	}
	x.Outcome("%v", r.Err != nil)
}

var locals = []string{"#/components/schemas/Local", "#/paths/~1p.a~1{id}/get", "#/a~0b", "#", "#/", "other.json#/x", "./d/e.yaml#/x/y", "#/components/schemas/a b", "#/é", "../x.yaml#/a~1b", "#/a//b"}

// references whose text is written back in another notation, which is a known
// finding as long as it is exactly this one
var localsKnown = [][2]string{{"#/a%20b", "#/a b"}, {"#/%C3%A9", "#/é"}, {"", "#"}, {"other.json", "other.json#"}, {"#/a%2Fb", "#/a/b"}, {"x y.json#/a", "x%20y.json#/a"}}

func untouched(x *m.X) {
	g := mkprog()
	list := append([]string{}, locals...)
	for _, k := range localsKnown {
		list = append(list, k[0])
	}
	i := x.Choose(len(list), "reference")
	p := positions[x.Choose(len(positions), "position")]
	sib := m.Pick(x, "siblings", obj(nil), obj{"description": "d", "x": obj{"$ref": "#/x"}})
	doc := interface{}(baseDoc())
	f.Put(doc, interface{}(refObj(list[i], sib)), p.path...)
	if x.Bool("with external") {
		f.Put(doc, interface{}(obj{"$ref": "go://#/S"}), "x-ext")
	}
	want := f.Deep(doc)
	if _, ok := f.Get(want, "x-ext").(obj); ok {
		f.Put(want, &f.RefTo{T: g.S}, "x-ext")
	}
	what := fmt.Sprintf("%q at %v", list[i], p.path)
	x.Case("%s", what)
	r := g.scan(x, doc, "oapi.yaml")
	if i >= len(locals) && r.Err == nil && r.Panic == "" {
		k := localsKnown[i-len(locals)]
		alt := f.Deep(want)
		f.Put(alt, interface{}(refObj(k[1], sib)), p.path...)
		if g.env.MatchTree(interface{}(r.Doc), alt) == nil {
			x.Fail("local:"+k[0]+"->"+k[1], "%s: written back as %q", what, k[1])
		}
	}
	g.judge(x, r, want, what)
}

func content(x *m.X) {
	// values that look like references but are none
	g := mkprog()
	vals := []interface{}{
		obj{"$ref": 1.}, obj{"$ref": nil}, obj{"$ref": true}, obj{"$ref": arr{"go://#/S"}}, obj{"$ref": obj{"type": "string"}}, obj{"$ref": obj{"$ref": "#/components/schemas/Local"}},
		"go://#/S", arr{"$ref", "go://#/S"}, obj{"ref": "go://#/S"}, obj{"$REF": "go://#/S"}, obj{"$ref ": "go://#/S"}, obj{"x$ref": "go://#/S"}, obj{"a.$ref": "go://#/S"}, obj{"$ref.": "go://#/S"}, obj{"~1$ref": "go://#/S"},
		obj{}, arr{}, arr{arr{}, obj{}, nil}, nil, 1e21, 9007199254740991., -0.5, "", obj{"": obj{"": ""}}, obj{"mapping": obj{"k": "go://#/S"}}, "<>&\u2028", obj{"a": 1e-9},
	}
	p := positions[x.Choose(len(positions), "position")]
	v := vals[x.Choose(len(vals), "value")]
	if _, ok := v.(string); ok && p.path[len(p.path)-1] == "$ref" {
		x.Prune() // that is a reference
	}
	doc := interface{}(baseDoc())
	f.Put(doc, f.Deep(v), p.path...)
	want := f.Deep(doc)
	if x.Bool("with external") {
		f.Put(doc, interface{}(obj{"$ref": "go://#/S"}), "x-ext")
		f.Put(want, &f.RefTo{T: g.S}, "x-ext")
	}
	what := fmt.Sprintf("%s at %v", m.JS(v), p.path)
	x.Case("%s", what)
	g.judge(x, g.scan(x, doc, m.Pick(x, "file", "oapi.yaml", "oapi.json")), want, what)
}

func config(x *m.X) {
	// references in the root document, default operations and overrides
	g := mkprog()
	t := targets[x.Choose(len(targets), "target")]
	if strings.HasPrefix(t.ref, "go://#") {
		x.Prune()
	}
	exports(x, g)
	doc := interface{}(baseDoc())
	inSpec := x.Bool("also in specification")
	if inSpec {
		f.Put(doc, interface{}(obj{"$ref": t.ref}), "x-used")
	}
	want := f.Deep(doc)
	if inSpec {
		f.Put(want, &f.RefTo{T: t.t(g)}, "x-used")
	}
	var opts []oapi.Option
	bref := `{"$ref":` + text(t.ref) + `}`
	what := t.ref
	where := x.Choose(4, "where")
	switch where {
	case 0:
		var o spec.OpenAPI
		if err := json.Unmarshal([]byte(`{"info":null,"components":{"schemas":{"Z":{"type":"array","items":`+bref+`}}},"paths":{"/z":{"put":{"responses":{"200":{"description":"r","content":{"m":{"schema":`+bref+`}}}}}}}}`), &o); err != nil {
			x.Fail("config", "%v", err)
		}
		opts = append(opts, oapi.WithRootSchema(o))
		f.Put(want, interface{}(obj{"type": "array", "items": &f.RefTo{T: t.t(g)}}), "components", "schemas", "Z")
		f.Put(want, interface{}(obj{"description": "r", "content": obj{"m": obj{"schema": &f.RefTo{T: t.t(g)}}}}), "paths", "/z", "put", "responses", "200")
		what += " in the root document"
	case 1:
		var o spec.Operation
		if err := json.Unmarshal([]byte(`{"responses":{"500":{"description":"e","content":{"m":{"schema":`+bref+`}}}}}`), &o); err != nil {
			x.Fail("config", "%v", err)
		}
		pat := m.Pick(x, "pattern", "*", "get:/p.a/*", "post:*")
		opts = append(opts, oapi.WithDefOps(map[string]spec.Operation{pat: o}))
		if pat != "post:*" {
			f.Put(want, interface{}(obj{"description": "e", "content": obj{"m": obj{"schema": &f.RefTo{T: t.t(g)}}}}), at(op, "responses", "500")...)
		}
		what += " in a default operation for " + pat
	case 2:
		if t.ref == "go://ex.com/a#/S" {
			x.Prune()
		}
		f.Put(doc, interface{}(obj{"$ref": "go://#/S"}), "x-s")
		f.Put(want, &f.RefTo{T: g.S}, "x-s")
		g.env.Overrides[g.S] = obj{"type": "object", "properties": obj{"o": &f.RefTo{T: t.t(g)}}, "description": "go://#/S"}
		opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/S": schema(x, `{"type":"object","description":"go://#/S","properties":{"o":`+bref+`}}`)}))
		what += " in an override"
	case 3: // both
		if t.ref == "go://ex.com/a#/S" {
			x.Prune()
		}
		g.env.Overrides[g.S] = &f.RefTo{T: t.t(g)}
		opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/S": schema(x, bref)}))
		var o spec.Operation
		if err := json.Unmarshal([]byte(`{"responses":{"500":{"description":"e","content":{"m":{"schema":{"$ref":"go://ex.com/a#/S"}}}}}}`), &o); err != nil {
			x.Fail("config", "%v", err)
		}
		opts = append(opts, oapi.WithDefOps(map[string]spec.Operation{"/p.a/{id}": o}))
		f.Put(want, interface{}(obj{"description": "e", "content": obj{"m": obj{"schema": &f.RefTo{T: g.S}}}}), at(op, "responses", "500")...)
		what += " in an override used by a default operation"
	}
	x.Case("%s", what)
	g.judge(x, g.scan(x, doc, "oapi.yaml", opts...), want, what)
}

func main() {
	m.Main(m.Check{
		ID: "C04", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the packages are found through the driver protocol of go/packages", "the schema of a type is the one C01 and C02 describe", "the siblings of a replaced reference are dropped, as JSON reference says"},
		Spaces: []m.Space{
			{Name: "single", Bound: -1, Rule: fmt.Sprintf("%d positions x %d targets x siblings x 5 sets of exports x 4 overrides x yaml or json", len(positions), len(targets)), Run: single},
			{Name: "pairs", Bound: -1, Rule: "all ordered pairs of positions x all pairs of targets x exports or not", Run: pairs},
			{Name: "all", Bound: -1, Rule: "references at all positions at once, targets rotated in every way", Run: all},
			{Name: "many", Bound: -1, Rule: "9 to 65 (5 to 257) references in lists, maps, chains of keys and lists, operations, parameters and properties x targets x exports", Run: many},
			{Name: "unresolvable", Bound: -1, Rule: fmt.Sprintf("%d references that denote nothing x all positions, default operations, overrides and root document", len(bad)), Run: unresolvable},
			{Name: "local", Bound: -1, Rule: "local references and references to other documents x positions", Run: untouched},
			{Name: "content", Bound: -1, Rule: "values which look like references x positions", Run: content},
			{Name: "config", Bound: -1, Rule: "references in root document, default operations and overrides x targets x exports", Run: config},
		},
	})
}
