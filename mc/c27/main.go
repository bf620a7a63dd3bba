//go:build go1.21

// C27: overrides.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

type obj = map[string]interface{}
type arr = []interface{}

const pkgA, pkgB = "ex.com/a", "ex.com/b"

var world *m.World

// leaf is a type that can have an override
type leaf struct {
	expr string // how package a writes it
	key  string
	def  func(body obj) interface{} // its schema without override
}

func intObj(format string) obj {
	o := obj{"type": "integer"}
	if format != "" {
		o["format"] = format
	}
	return o
}

var text = obj{"type": "string"}

func same(body obj) interface{} { return body }

var leaves = []leaf{
	{"T", "go://ex.com/a#/T", same},
	{"b.T", "go://ex.com/b#/T", nil},
	{"time.Time", "go://time#/Time", func(obj) interface{} { return text }},
	{"D", "go://ex.com/a#/D", same},
	{"A", "go://ex.com/b#/T", nil},
	{"Stamp", "go://ex.com/a#/Stamp", func(obj) interface{} { return obj{"type": "object"} }},
	{"Emb", "go://ex.com/a#/Emb", nil},
}

// bodies of a.T and b.T
var bodyA, bodyB = obj{"type": "object", "properties": obj{"X": text}}, obj{"type": "object", "properties": obj{"Y": obj{"type": "boolean"}}}

const (
	srcA = "package a\n\nimport (\n\t\"time\"\n\n\t\"ex.com/b\"\n)\n\nvar _ time.Time\n\ntype T struct{ X string }\n\ntype D T\n\ntype A = b.T\n\ntype Stamp time.Time\n\ntype Emb struct{ b.T }\n\n"
	srcB = "package b\n\ntype T struct{ Y bool }\n\ntype U struct{ Q string }\n"
)

func (l leaf) schema(alike bool) interface{} {
	b := bodyB
	if alike {
		b = bodyA
	}
	if l.def != nil {
		return l.def(bodyA)
	}
	return b
}

// wrappers around a type: Go text with %s and schema
type wrapper struct {
	text string
	wrap func(in interface{}, ref bool) interface{}
}

func with(v interface{}, more obj) obj {
	o := f.Deep(v).(obj)
	for k, x := range more {
		o[k] = x
	}
	return o
}

var null = obj{"type": "object", "nullable": true, "enum": arr{nil}}

func list(in interface{}, _ bool) interface{} {
	return obj{"type": "array", "items": in, "nullable": true}
}

var wrappers = []wrapper{
	{"*%s", func(in interface{}, ref bool) interface{} {
		if ref {
			return obj{"anyOf": arr{in, null}}
		}
		return with(in, obj{"nullable": true})
	}},
	{"[]%s", list},
	{"map[string]%s", func(in interface{}, _ bool) interface{} {
		return obj{"type": "object", "additionalProperties": in, "nullable": true}
	}},
	{"[2]%s", func(in interface{}, _ bool) interface{} {
		return obj{"type": "array", "items": in, "maxItems": 2.}
	}},
	{"struct{ In %s }", func(in interface{}, _ bool) interface{} {
		return obj{"type": "object", "properties": obj{"In": in}}
	}},
	{"L%d", list}, // declared slice
}

// schemas of overrides; KEY is the type itself
var schemas = []string{
	`{"type":"string","format":"x","description":"d"}`,
	`{"type":"object","properties":{"p":{"$ref":"go://ex.com/b#/U"},"q":{"type":"array","items":{"$ref":"go://ex.com/b#/U"}}}}`,
	`{"$ref":"go://ex.com/b#/U"}`,
	`{"$ref":"#/components/schemas/Local"}`,
	`{"type":"array","items":{"$ref":"KEY"}}`,
	`{"type":"string","nullable":true}`,
	`{}`,
	`{"anyOf":[{"$ref":"go://ex.com/b#/U/Q"},{"type":"object","additionalProperties":{"$ref":"go://ex.com/b#/U"}}]}`,
}

func decode(x *m.X, s string) (out spec.Schema) {
	if err := json.Unmarshal([]byte(s), &out); err != nil {
		x.Fail("decode", "%s: %v", s, err)
	}
	return
}

// world of references
type env struct {
	comps map[string]string      // exported: key to component
	over  map[string]interface{} // overrides
	plain map[string]interface{} // schemas of types without override
}

// ref is the schema at a reference to the key
func (e env) ref(key string, path []string) interface{} {
	if c, ok := e.comps[key]; ok {
		return obj{"$ref": "#/components/schemas/" + c}
	}
	for _, p := range path {
		if p == key {
			return obj{} // is cut
		}
	}
	return e.content(key, path)
}

func (e env) content(key string, path []string) interface{} {
	path = append(append([]string{}, path...), key)
	if o, ok := e.over[key]; ok {
		return e.resolve(o, path)
	}
	p, ok := e.plain[key]
	if !ok {
		panic("no type " + key)
	}
	return p
}

func (e env) resolve(v interface{}, path []string) interface{} {
	switch v := v.(type) {
	case obj:
		if r, ok := v["$ref"].(string); ok && strings.Contains(r, "://") {
			return e.ref(r, path)
		}
		out := obj{}
		for k, w := range v {
			out[k] = e.resolve(w, path)
		}
		return out
	case arr:
		out := arr{}
		for _, w := range v {
			out = append(out, e.resolve(w, path))
		}
		return out
	}
	return v
}

func parse(s string) (v interface{}) {
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	return
}

func scan(x *m.X, a, b string, doc obj, opts ...oapi.Option) obj {
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Imports: []string{"time", pkgB}, Files: map[string]string{"a.go": a, "oapi.json": m.JS(doc)}}, m.Pkg{Path: pkgB, Files: map[string]string{"b.go": b}}), opts...)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "the scan fails: %v", r.Err)
	}
	return r.Doc
}

func equal(x *m.X, key string, got, want interface{}, what string) {
	if !reflect.DeepEqual(got, want) {
		x.Fail(key, "%s is %s, want %s", what, m.JS(got), m.JS(want))
	}
}

func base(refs ...string) obj {
	d := obj{"openapi": "3.0.3", "paths": obj{}, "components": obj{"schemas": obj{"Local": text}}}
	for i, r := range refs {
		d[fmt.Sprintf("x-%d", i)] = obj{"$ref": r}
	}
	return d
}

// the key of the override, or one that is near
var keys = []func(leaf) string{
	func(l leaf) string { return l.key },
	func(l leaf) string { return strings.Replace(l.key, "go:", "http:", 1) },
	func(l leaf) string { return l.key + "/X" },
	func(l leaf) string { return l.key + "2" },
	func(l leaf) string { return strings.Replace(l.key, "#/", "#", 1) },
	func(l leaf) string { return strings.Replace(l.key, "#", "/v2#", 1) },
	func(l leaf) string { return strings.ToUpper(l.key[:len(l.key)-1]) + l.key[len(l.key)-1:] },
	func(l leaf) string { return "go://ex.com/a#/H" },
	func(l leaf) string { return "go://ex.com/b#/U" },
}

func places(depth int, near bool) func(*m.X) {
	return func(x *m.X) {
		l := leaves[x.Choose(len(leaves), "type")]
		alike := x.Bool("a.T and b.T are alike")
		if near && alike {
			x.Prune()
		}
		text := schemas[x.Choose(len(schemas), "schema")]
		key := l.key
		if near {
			key = keys[1+x.Choose(len(keys)-1, "key")](l)
		}
		text = strings.ReplaceAll(text, "KEY", l.key)
		e := env{comps: map[string]string{}, over: map[string]interface{}{}, plain: map[string]interface{}{
			"go://ex.com/b#/U": obj{"type": "object", "properties": obj{"Q": obj{"type": "string"}}}, "go://ex.com/b#/U/Q": obj{"type": "string"},
		}}
		for _, o := range leaves {
			e.plain[o.key] = o.schema(alike)
		}
		delete(e.plain["go://ex.com/a#/Stamp"].(obj), "properties")
		a, b := srcA, srcB
		if alike {
			b = strings.Replace(b, "Y bool", "X string", 1)
		}
		overrides := map[string]spec.Schema{key: decode(x, text)}
		e.over[key] = parse(text)
		if x.Bool("override of U") {
			if key == "go://ex.com/b#/U" {
				x.Prune()
			}
			overrides["go://ex.com/b#/U"] = decode(x, `{"type":"boolean","title":"u"}`)
			e.over["go://ex.com/b#/U"] = obj{"type": "boolean", "title": "u"}
		}
		if x.Bool("export") {
			e.comps[l.key] = "Ex"
			a += "//openapi:schema Ex " + l.key + "\n\n"
		}
		if x.Bool("export of U") {
			e.comps["go://ex.com/b#/U"] = "ExU"
			b += "\n//openapi:schema ExU U\n"
		}
		// the type of the field, from the inside
		_, exported := e.comps[l.key]
		in, typ, decls := e.ref(l.key, nil), l.expr, ""
		ref := true
		if l.expr == "time.Time" && key != l.key {
			in, ref = obj{"type": "string"}, false // stated there
		}
		n := x.Choose(depth+1, "depth")
		for i := 0; i < n; i++ {
			w := wrappers[x.Choose(len(wrappers), "wrapper")]
			if strings.HasPrefix(typ, "*") && w.text == "*%s" {
				x.Prune() // see C01
			}
			t := ""
			switch w.text {
			case "L%d":
				t = fmt.Sprintf("L%d", i)
				decls += "type " + t + " []" + typ + "\n\n"
			default:
				t = fmt.Sprintf(w.text, typ)
			}
			in = w.wrap(in, ref)
			ref = strings.HasPrefix(t, "struct")
			typ = t
		}
		a += decls + "type H struct {\n\tF " + typ + "\n\tO1 T\n\tO2 b.T\n\tO3 D\n\tO4 *Stamp\n\tO5 []time.Time\n}\n"
		x.Case("override %s: %s; field %s, exports %v, %d overrides, alike %v", key, text, typ, e.comps, len(overrides), alike)
		if _, ok := overrides["go://ex.com/a#/H"]; ok {
			e.plain["go://ex.com/a#/H"] = nil
		}
		doc := scan(x, a, b, base(l.key, "go://#/H", "go://ex.com/a#/H/F"), oapi.WithOverride(overrides))
		x.Outcome("%s %s", text, m.JS(in))
		equal(x, "direct", doc["x-0"], e.ref(l.key, nil), "the reference to "+l.key)
		h := interface{}(nil)
		if key == "go://ex.com/a#/H" {
			h = e.ref(key, nil)
		} else {
			time := func() (interface{}, bool) {
				if _, ok := e.over["go://time#/Time"]; ok {
					return e.ref("go://time#/Time", nil), true
				}
				return obj{"type": "string"}, false
			}
			tm, _ := time()
			h = obj{"type": "object", "properties": obj{"F": in, "O1": e.ref("go://ex.com/a#/T", nil), "O2": e.ref("go://ex.com/b#/T", nil), "O3": e.ref("go://ex.com/a#/D", nil),
				"O4": obj{"anyOf": arr{e.ref("go://ex.com/a#/Stamp", nil), null}}, "O5": list(tm, true)}}
		}
		equal(x, "field", doc["x-1"], h, "H")
		// the place named: the override or export is meant for the type, it can be stated there as well
		got := doc["x-2"]
		if n > 0 {
			if !reflect.DeepEqual(got, in) {
				equal(x, "place", got, in, "H/F")
			}
		} else if !reflect.DeepEqual(got, in) && !reflect.DeepEqual(got, e.plain[l.key]) && !reflect.DeepEqual(got, e.content(l.key, nil)) {
			equal(x, "place", got, in, "H/F")
		}
		comps := doc["components"].(obj)["schemas"].(obj)
		if exported {
			equal(x, "component", comps["Ex"], e.content(l.key, nil), "component Ex")
		}
		if !reflect.DeepEqual(comps["Local"], obj{"type": "string"}) {
			x.Fail("local", "component Local is %s", m.JS(comps["Local"]))
		}
	}
}

// fields: what the tag of a field of such a type says
func fields(x *m.X) {
	k := x.Choose(4, "type")
	l := []leaf{leaves[0], leaves[1], leaves[2], leaves[3]}[k]
	text := schemas[x.Choose(len(schemas), "schema")]
	text = strings.ReplaceAll(text, "KEY", l.key)
	e := env{comps: map[string]string{}, over: map[string]interface{}{l.key: parse(text)}, plain: map[string]interface{}{
		"go://ex.com/b#/U": obj{"type": "object", "properties": obj{"Q": obj{"type": "string"}}}, "go://ex.com/b#/U/Q": obj{"type": "string"},
	}}
	a := srcA
	if x.Bool("export") {
		e.comps[l.key] = "Ex"
		a += "//openapi:schema Ex " + l.key + "\n\n"
	}
	ref := e.ref(l.key, nil)
	ptr := interface{}(obj{"anyOf": arr{ref, null}})
	type field struct {
		decl, name string
		want       interface{}
		required   bool
	}
	body := bodyA
	if l.expr == "b.T" {
		body = bodyB
	}
	inner, innerName := interface{}(nil), ""
	for n, v := range body["properties"].(obj) {
		inner, innerName = v, n
	}
	ff := []field{
		{"F %s", "F", ref, false},
		{"F %s `json:\"n\"`", "n", ref, false},
		{"F %s `json:\"n,omitempty\"`", "n", ref, false},
		{"F %s `oapi:\"n,required\"`", "n", ref, true},
		{"F %s `json:\"j\" oapi:\"n\"`", "n", ref, false},
		{"F %s `json:\"-\"`", "", nil, false},
		{"F %s `oapi:\"-\"`", "", nil, false},
		{"F %s `oapi:\",type:string\"`", "F", obj{"type": "string"}, false},
		{"F %s `oapi:\",nullable:false\"`", "F", ref, false},
		{"F *%s", "F", ptr, false},
		{"F *%s `oapi:\"n,required\"`", "n", ptr, true},
		{"F *%s `oapi:\",nullable:false\"`", "F", ref, false},
		{"F *%s `oapi:\",type:string\"`", "F", obj{"type": "string"}, false},
		{"F []%s `oapi:\",nullable:false,required\"`", "F", obj{"type": "array", "items": ref}, true},
		{"F []%s `oapi:\",minitems:2\"`", "F", obj{"type": "array", "items": ref, "nullable": true, "minItems": 2.}, false},
		{"f %s", "", nil, false},
		{"%s `json:\"n\"`", "n", ref, false},
		{"*%s `json:\"n\"`", "n", ptr, false},
		{"%s", innerName, inner, false},
		{"*%s", innerName, inner, false},
	}
	fl := ff[x.Choose(len(ff), "field")]
	if l.expr == "time.Time" && fl.name == innerName {
		x.Prune()
	}
	d := fmt.Sprintf(fl.decl, l.expr)
	switch x.Choose(3, "where") {
	case 0:
		a += "type H struct {\n\tFirst bool\n\t" + d + "\n}\n"
	case 1: // promoted
		a += "type H struct {\n\tFirst bool\n\tI\n}\n\ntype I struct {\n\t" + d + "\n}\n"
	case 2:
		a += "type H struct {\n\tFirst bool\n\t*I\n}\n\ntype I struct {\n\t" + d + "\n}\n"
	}
	props := obj{"First": obj{"type": "boolean"}}
	want := obj{"type": "object", "properties": props}
	if fl.name != "" {
		props[fl.name] = fl.want
		if fl.required {
			want["required"] = arr{fl.name}
		}
	}
	x.Case("override %s: %s; %s; exports %v", l.key, text, d, e.comps)
	doc := scan(x, a, srcB, base("go://#/H"), oapi.WithOverride(map[string]spec.Schema{l.key: decode(x, text)}))
	x.Outcome("%s", m.JS(want))
	equal(x, "tag", doc["x-0"], want, "H")
}

// without: types that have no schema get one by an override
func without(x *m.X) {
	def := m.Pick(x, "type", "struct{ F chan int }", "struct{ G struct{ F func() } }", "struct{ F []interface{} }", "chan int", "interface{ M() }", "interface{}", "func()", "[]chan int", "map[string]func()", "complex64", "struct{ F map[string]*C2 }")
	isStruct := strings.HasPrefix(def, "struct")
	field := m.Pick(x, "field", "", "C", "*C", "[]C", "map[string]*C", "b.T")
	text := schemas[x.Choose(4, "schema")]
	with := x.Bool("with")
	a := srcA + "type C2 chan int\n\ntype C " + def + "\n\n"
	ee := x.Bool("export")
	if ee {
		a += "//openapi:schema Ex C\n\n"
	}
	refs := []string{"go://#/C"}
	if field != "" {
		a += "type H struct {\n\tF " + field + "\n}\n"
		refs[0] = "go://#/H"
		if !isStruct && with {
			x.Prune() // is no reference
		}
		if x.Bool("direct as well") {
			refs = append(refs, "go://ex.com/a#/C")
		}
	}
	var opts []oapi.Option
	if with {
		opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/C": decode(x, text)}))
	}
	x.Case("type C %s; field %s; override %v %s; export %v", def, field, with, text, ee)
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Imports: []string{"time", pkgB}, Files: map[string]string{"a.go": a, "oapi.json": m.JS(base(refs...))}}, m.Pkg{Path: pkgB, Files: map[string]string{"b.go": srcB}}), opts...)
	x.Outcome("%s %s %v %v", def, field, with, r.Err != nil)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if !with {
		if r.Err == nil && (field != "b.T" || len(refs) > 1) {
			x.Fail("silent", "type C has no schema, the document is %s", r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "the scan fails: %v", r.Err)
	}
	e := env{comps: map[string]string{}, over: map[string]interface{}{"go://ex.com/a#/C": parse(text)}, plain: map[string]interface{}{
		"go://ex.com/b#/U": obj{"type": "object", "properties": obj{"Q": obj{"type": "string"}}}, "go://ex.com/b#/U/Q": obj{"type": "string"},
	}}
	if ee {
		e.comps["go://ex.com/a#/C"] = "Ex"
	}
	c := e.ref("go://ex.com/a#/C", nil)
	var want interface{}
	switch field {
	case "":
		want = c
	case "C":
		want = c
	case "*C":
		want = obj{"anyOf": arr{c, null}}
	case "[]C":
		want = list(c, true)
	case "map[string]*C":
		want = obj{"type": "object", "nullable": true, "additionalProperties": obj{"anyOf": arr{c, null}}}
	case "b.T":
		want = bodyB
	}
	if field != "" {
		want = obj{"type": "object", "properties": obj{"F": want}}
	}
	equal(x, "schema", r.Doc["x-0"], want, refs[0])
	if len(refs) > 1 {
		equal(x, "schema", r.Doc["x-1"], c, refs[1])
	}
}

// foreign: references nothing else resolves
func foreign(x *m.X) {
	refs := []string{"http://example.com/x.json#/S", "ftp://ex.com/a#/T", "go://ex.com/nowhere#/T", "go://ex.com/a#/Nope", "go://ex.com/a#/T/Nope", "https://ex.com#/a~1b"}
	r := refs[x.Choose(len(refs), "reference")]
	key := r
	exact := !x.Bool("another key")
	if !exact {
		key = refs[x.Choose(len(refs), "key")]
		if key == r {
			x.Prune()
		}
	}
	text := strings.ReplaceAll(schemas[x.Choose(len(schemas), "schema")], "KEY", key)
	k := x.Choose(3, "place")
	doc := base(r)
	var opts []oapi.Option
	switch k {
	case 1: // within a schema of the document
		doc["components"].(obj)["schemas"].(obj)["S"] = obj{"type": "array", "items": obj{"$ref": r}}
	case 2: // within another override
		doc["x-0"] = obj{"$ref": "go://#/T"}
	}
	over := map[string]spec.Schema{key: decode(x, text)}
	if k == 2 {
		over["go://ex.com/a#/T"] = decode(x, `{"properties":{"t":{"$ref":"`+r+`"}}}`)
	}
	opts = append(opts, oapi.WithOverride(over))
	x.Case("reference %s, override of %s: %s, place %d", r, key, text, k)
	res := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Imports: []string{"time", pkgB}, Files: map[string]string{"a.go": srcA, "oapi.json": m.JS(doc)}}, m.Pkg{Path: pkgB, Files: map[string]string{"b.go": srcB}}), opts...)
	x.Outcome("%v %v", exact, res.Err != nil)
	if res.Panic != "" {
		x.Fail("panic", "%s", res.Panic)
	}
	if !exact {
		if res.Err == nil {
			x.Fail("silent", "nothing resolves %s, the document is %s", r, res.JSON)
		}
		return
	}
	if res.Err != nil {
		x.Fail("error", "the scan fails: %v", res.Err)
	}
	e := env{comps: nil, over: map[string]interface{}{key: parse(text)}, plain: map[string]interface{}{
		"go://ex.com/b#/U": obj{"type": "object", "properties": obj{"Q": obj{"type": "string"}}}, "go://ex.com/b#/U/Q": obj{"type": "string"},
	}}
	want := e.ref(r, nil)
	if k == 2 {
		want = obj{"properties": obj{"t": want}}
	}
	equal(x, "foreign", res.Doc["x-0"], want, "x-0")
	if k == 1 {
		equal(x, "foreign", res.Doc["components"].(obj)["schemas"].(obj)["S"], obj{"type": "array", "items": want}, "S")
	}
}

// missing: overrides of what is not declared leave all else alone
func missing(x *m.X) {
	names := []string{"Nope", "Nope/X", "t", "init", "main", "unexported", "fn", "V", "C", "Z9"}
	n := m.Pick(x, "names", 1, 2, len(names))
	first := x.Choose(len(names)-n+1, "first")
	exp := x.Bool("export")
	schema := strings.ReplaceAll(schemas[x.Choose(m.N(3, len(schemas)), "schema")], "KEY", "go://ex.com/b#/U")
	over := map[string]spec.Schema{}
	for _, k := range names[first : first+n] {
		over["go://ex.com/a#/"+k] = decode(x, schema)
		over["go://ex.com/nowhere#/"+k] = decode(x, schema)
	}
	own := x.Bool("another override")
	a := srcA + "func init() {}\n\nfunc fn() {}\n\nvar V = 1\n\nconst C = 2\n\ntype unexported struct{ X int }\n\n"
	var refs []string
	var want []interface{}
	for i := 0; i < m.N(10, 14); i++ {
		a += fmt.Sprintf("type T%d struct{ X%d string }\n\n", i, i)
		w := interface{}(obj{"type": "object", "properties": obj{fmt.Sprintf("X%d", i): text}})
		if i == 3 && exp {
			a += "//openapi:schema Ex T3\n\n"
			w = obj{"$ref": "#/components/schemas/Ex"}
		}
		if i == 4 && own {
			over["go://ex.com/a#/T4"] = decode(x, `{"type":"number"}`)
			w = obj{"type": "number"}
		}
		refs = append(refs, fmt.Sprintf("go://ex.com/a#/T%d", i))
		want = append(want, w)
	}
	refs = append(refs, "go://ex.com/b#/T")
	want = append(want, bodyB)
	used := x.Bool("referenced")
	if used {
		e := env{over: map[string]interface{}{}, plain: map[string]interface{}{
			"go://ex.com/b#/U": obj{"type": "object", "properties": obj{"Q": obj{"type": "string"}}}, "go://ex.com/b#/U/Q": obj{"type": "string"},
		}}
		for _, k := range names[first : first+n] {
			for _, p := range []string{"a", "nowhere"} {
				key := "go://ex.com/" + p + "#/" + k
				e.over[key] = parse(schema)
				refs = append(refs, key)
				want = append(want, e.ref(key, nil))
			}
		}
	}
	x.Case("overrides %v, export %v", m.SortedKeys(over), exp)
	doc := base(refs...)
	for try := 0; try < 3; try++ { // the overrides are a map
		r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Imports: []string{"time", pkgB}, Files: map[string]string{"a.go": a, "oapi.json": m.JS(doc)}}, m.Pkg{Path: pkgB, Files: map[string]string{"b.go": srcB}}), oapi.WithOverride(over))
		x.Outcome("%v", r.Err)
		if r.Panic != "" {
			x.Fail("panic", "%s", r.Panic)
		}
		if r.Err != nil { // an override that denotes nothing can be refused
			for _, k := range names[first : first+n] {
				if !used && strings.Contains(r.Err.Error(), "#/"+k) {
					return
				}
			}
			x.Fail("missing", "the scan fails: %v", r.Err)
		}
		for i := range refs {
			equal(x, "missing", r.Doc[fmt.Sprintf("x-%d", i)], want[i], refs[i])
		}
	}
}

// local: references within the document are not overridden
func local(x *m.X) {
	key := m.Pick(x, "key", "#/components/schemas/Local", "components/schemas/Local", "Local", "", "#", "go://ex.com/a#/components/schemas/Local", "go://#/components/schemas/Local", "#/components/schemas/Ex")
	text := schemas[x.Choose(len(schemas), "schema")]
	text = strings.ReplaceAll(text, "KEY", "go://ex.com/a#/T")
	a := srcA
	want := interface{}(bodyA)
	if x.Bool("export") {
		a += "//openapi:schema Ex T\n"
		want = obj{"$ref": "#/components/schemas/Ex"}
	}
	doc := base("#/components/schemas/Local", "go://#/T")
	x.Case("override of %q: %s", key, text)
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Imports: []string{"time", pkgB}, Files: map[string]string{"a.go": a, "oapi.json": m.JS(doc)}}, m.Pkg{Path: pkgB, Files: map[string]string{"b.go": srcB}}), oapi.WithOverride(map[string]spec.Schema{key: decode(x, text)}))
	x.Outcome("%v", r.Err)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		return // a key that denotes nothing can be refused
	}
	equal(x, "local", r.Doc["x-0"], obj{"$ref": "#/components/schemas/Local"}, "the local reference")
	equal(x, "local", r.Doc["x-1"], want, "T")
	equal(x, "local", r.Doc["components"].(obj)["schemas"].(obj)["Local"], obj{"type": "string"}, "component Local")
	if len(want.(obj)) == 1 {
		equal(x, "local", r.Doc["components"].(obj)["schemas"].(obj)["Ex"], bodyA, "component Ex")
	}
}

func main() {
	m.Main(m.Check{
		ID: "C27", Level: "model_checking",
		Init: func(string) { world = m.NewWorld() },
		Spaces: []m.Space{
			{Name: "places", Bound: -1, Rule: "7 types (struct, imported, time.Time, declared from another, alias, ...) x 8 overrides x exports x override of a type within x fields of up to 2 (thorough 3) constructors", Run: places(m.N(2, 3), false)},
			{Name: "near", Bound: -1, Rule: "8 keys which denote something else x the same", Run: places(m.N(1, 2), true)},
			{Name: "fields", Bound: -1, Rule: "4 types x 8 overrides x exports x 20 fields with tags, also promoted ones", Run: fields},
			{Name: "without", Bound: -1, Rule: "11 types without schema x 6 fields x with and without override x exports", Run: without},
			{Name: "foreign", Bound: -1, Rule: "6 references nothing else resolves x 8 overrides x 3 places x the key or another", Run: foreign},
			{Name: "missing", Bound: -1, Rule: "overrides of up to 10 names which are not those of types, beside 11 (15) references, one of them exported, one overridden", Run: missing},
			{Name: "local", Bound: -1, Rule: "8 keys which denote no external reference x 8 overrides x export", Run: local},
		},
	})
}
