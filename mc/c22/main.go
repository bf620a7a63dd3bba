//go:build go1.21

// C22: any readable input gives a document or an error.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

type obj = map[string]interface{}

var world *m.World

// the package of the execution uses type parameters
var generic bool

// run scans and judges what every scan has to fulfil. want is the document the
// specification of package a holds (nil: not compared).
func run(x *m.X, dir string, want obj, opts ...oapi.Option) (doc obj, err error) {
	return runCtx(x, context.Background(), append([]oapi.Option{oapi.WithDir(dir)}, opts...), want)
}

func runCtx(x *m.X, ctx context.Context, opts []oapi.Option, want obj) (doc obj, err error) {
	defer func() { generic = false }()
	var o oapi.OAPI
	if pv, stack := m.Try(func() { o, err = oapi.Scan(ctx, opts...) }); pv != nil {
		if generic {
			x.Fail("generics", "the scan of a package with type parameters panicked: %v\n%s", pv, stack)
		}
		x.Fail("panic:"+site(stack), "the scan panicked: %v\n%s", pv, stack)
	}
	if err != nil {
		x.Outcome("error")
		if !reflect.DeepEqual(o, oapi.OAPI{}) {
			x.Fail("document with error", "the scan returned a document together with the error %v", err)
		}
		return
	}
	x.Outcome("document")
	var text []byte
	for _, f := range []string{"json", "yaml", "go", "json:pretty"} {
		var b []byte
		var ferr error
		if pv, stack := m.Try(func() { b, ferr = oapi.Format(f, o) }); pv != nil {
			x.Fail("panic:"+site(stack), "formatting (%s) panicked: %v\n%s", f, pv, stack)
		}
		if ferr != nil {
			x.Fail("not formatted", "the document can't be formatted as %s: %v", f, ferr)
		}
		if f == "json" {
			text = b
		}
	}
	if jerr := json.Unmarshal(text, &doc); jerr != nil || doc == nil {
		x.Fail("no object", "the document is no JSON object: %s", text)
	}
	if want == nil {
		return
	}
	if v, ok := want["openapi"]; ok && v != nil && !reflect.DeepEqual(v, doc["openapi"]) {
		x.Fail("version", "the document has the version %s, its specification says %s: %s", m.JS(doc["openapi"]), m.JS(v), text)
	}
	for _, k := range []string{"paths", "components"} {
		if v, ok := want[k]; ok && v != nil {
			if at := missing(v, doc[k]); at != "" {
				x.Fail("lost "+k, "%s%s of the specification is not in the document: %s", k, at, text)
			}
		}
	}
	return
}

// site is the innermost function of the module on the stack.
func site(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/buypal/oapi-go") && !strings.Contains(l, "verifmc") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "?"
}

// missing tells where something of v is not in got; objects with a reference
// are replaced.
func missing(v, got interface{}) string {
	if v == nil { // says nothing, may be completed
		return ""
	}
	switch v := v.(type) {
	case obj:
		if _, ok := v["$ref"]; ok {
			return ""
		}
		g, ok := got.(obj)
		if !ok {
			return " (an object)"
		}
		for _, k := range m.SortedKeys(v) {
			gk, ok := g[k]
			if !ok {
				return "." + k
			}
			if at := missing(v[k], gk); at != "" {
				return "." + k + at
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(v) {
			return " (a list)"
		}
		for i := range v {
			if at := missing(v[i], g[i]); at != "" {
				return fmt.Sprintf("[%d]%s", i, at)
			}
		}
		return ""
	}
	if !reflect.DeepEqual(norm(v), norm(got)) {
		return " (" + m.JS(v) + ")"
	}
	return ""
}

func norm(v interface{}) (n interface{}) {
	_ = json.Unmarshal([]byte(m.JS(v)), &n)
	return
}

const srcA = `package a

import "ex.com/b"

type T struct {
	X int
	S []b.U
	N *T
}
`
const srcB = "package b\n\ntype U struct { Z bool }\n"

func write(spec string, file string) string {
	return world.Write(pkgA,
		m.Pkg{Path: pkgA, Files: map[string]string{"x.go": srcA, file: spec}},
		m.Pkg{Path: pkgB, Files: map[string]string{"z.go": srcB}})
}

// ---- values at every position

func skeleton() obj {
	return obj{
		"openapi": "3.0.3",
		"info":    obj{"title": "t", "version": "v"},
		"paths": obj{"/a": obj{
			"summary":    "s",
			"parameters": []interface{}{obj{"name": "q", "in": "query", "schema": obj{"type": "string"}}},
			"get": obj{
				"operationId": "g", "tags": []interface{}{"x"},
				"responses": obj{"200": obj{"description": "d", "content": obj{"application/json": obj{"schema": obj{"$ref": "go://#/T"}}}}},
			}}},
		"components":   obj{"schemas": obj{"Q": obj{"type": "object", "properties": obj{"p": obj{"$ref": "go://ex.com/b#/U"}}}}},
		"servers":      []interface{}{obj{"url": "u"}},
		"security":     []interface{}{obj{"k": []interface{}{}}},
		"tags":         []interface{}{obj{"name": "n"}},
		"externalDocs": obj{"url": "u"},
		"x-e":          obj{"k": "v"},
	}
}

// every position of the skeleton, outermost first
var positions = func() (pp [][]interface{}) {
	var walk func(v interface{}, at []interface{})
	walk = func(v interface{}, at []interface{}) {
		if len(at) > 0 {
			pp = append(pp, append([]interface{}{}, at...))
		}
		switch v := v.(type) {
		case obj:
			for _, k := range m.SortedKeys(v) {
				walk(v[k], append(at, k))
			}
		case []interface{}:
			for i := range v {
				walk(v[i], append(at, i))
			}
		}
	}
	walk(skeleton(), nil)
	return
}()

func values() []interface{} {
	return []interface{}{
		nil, true, false, 0.0, -1.5, 3.0, "", "text", "3.1.0", "go://#/T", "go://#/T/N", "#/components/schemas/Q",
		[]interface{}{}, []interface{}{nil}, []interface{}{"go://#/T"}, []interface{}{obj{}, []interface{}{}},
		[]interface{}{obj{"$ref": "go://#/T"}, obj{"$ref": "go://#/T/N"}},
		obj{}, obj{"": nil}, obj{"k": nil}, obj{"get": nil}, obj{"get": obj{}, "/a": obj{}, "x-": nil},
		obj{"$ref": "go://#/T"}, obj{"$ref": "go://#/T/N"}, obj{"$ref": "go://ex.com/b#/U", "type": obj{"$ref": "go://#/T"}},
		obj{"$ref": "#/components/schemas/Q"}, obj{"$ref": ""}, obj{"$ref": "go://"}, obj{"$ref": "http://h/x.json#/a"},
		obj{"$ref": nil}, obj{"$ref": 1.0}, obj{"$ref": obj{"$ref": "go://#/T"}}, obj{"$ref": []interface{}{"go://#/T"}},
		obj{"schemas": nil}, obj{"schemas": []interface{}{}}, obj{"schemas": obj{"T": nil, "$ref": "go://#/T"}}, obj{"a.b": obj{"~1": obj{"$ref": "go://#/T"}}},
	}
}

// set returns the value with the place replaced; ok is false when there is no
// such place (any more).
func set(v interface{}, at []interface{}, to interface{}) bool {
	for i, k := range at {
		last := i == len(at)-1
		switch k := k.(type) {
		case string:
			o, isObj := v.(obj)
			if !isObj {
				return false
			}
			if last {
				if _, ok := o[k]; !ok {
					return false
				}
				o[k] = to
				return true
			}
			v = o[k]
		case int:
			l, isList := v.([]interface{})
			if !isList || k >= len(l) {
				return false
			}
			if last {
				l[k] = to
				return true
			}
			v = l[k]
		}
	}
	return false
}

// options of a scan which meets sections of the document
func config(x *m.X, n int) []oapi.Option {
	if n == 0 {
		return nil
	}
	var op spec.Operation
	var root spec.OpenAPI
	var sch spec.Schema
	must(json.Unmarshal([]byte(`{"summary":"s","responses":{"200":{"description":"x"},"default":{"description":"y","content":{"m":{"schema":{"$ref":"go://ex.com/a#/T"}}}}}}`), &op))
	must(json.Unmarshal([]byte(`{"openapi":"3.0.3","info":{"title":"R","version":"1"},"components":{"schemas":{"R":{"type":"string"}}},"servers":[{"url":"r"}],"tags":[{"name":"r"}],"security":[{"k":[]}],"externalDocs":{"url":"r"},"paths":{"/a":{"get":{"summary":"root","responses":{"200":{"description":"d"}}}}}}`), &root))
	must(json.Unmarshal([]byte(`{"type":"string"}`), &sch))
	return []oapi.Option{oapi.WithDefOps(map[string]spec.Operation{"*": op}), oapi.WithRootSchema(root),
		oapi.WithOverride(map[string]spec.Schema{"go://ex.com/b#/U": sch})}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func shapes(x *m.X) {
	doc := skeleton()
	cfg := x.Choose(2, "configuration")
	var what []string
	for _, p := range positions {
		if i := x.Deviate(len(values())+1, "value"); i > 0 {
			v := values()[i-1]
			if !set(doc, p, v) {
				x.Prune()
			}
			what = append(what, fmt.Sprintf("%v = %s", p, m.JS(v)))
		}
	}
	x.Case("configuration %d, %s", cfg, strings.Join(what, ", "))
	want := doc
	if cfg > 0 { // the root may complete or refuse, only crashes and what the specification says are judged
		want = doc
	}
	run(x, write(m.JS(doc), "oapi.json"), want, config(x, cfg)...)
}

// keys: the same values under keys which mean something
func keysAt(x *m.X) {
	keys := []string{"$ref", "", ".", "a.b", "~", "~0", "/", "*", "0", "-1", "get", "x-", "X-a", "schemas", "T", "paths", "openapi", "components", "#", "é", " "}
	doc := skeleton()
	n := x.Choose(len(positions)+1, "position")
	var o obj
	if n == 0 {
		o = doc
	} else {
		var v interface{} = doc
		for _, k := range positions[n-1] {
			switch k := k.(type) {
			case string:
				v = v.(obj)[k]
			case int:
				v = v.([]interface{})[k]
			}
		}
		var ok bool
		if o, ok = v.(obj); !ok {
			x.Prune()
		}
	}
	k := m.Pick(x, "key", keys...)
	v := m.Pick(x, "value", values()...)
	o[k] = v
	cfg := x.Choose(2, "configuration")
	var want obj = doc
	x.Case("key %q = %s in %v, configuration %d", k, m.JS(v), n, cfg)
	run(x, write(m.JS(doc), "oapi.json"), want, config(x, cfg)...)
}

// ---- strange texts

var texts = []string{
	"", " ", "\n", "\t", "\x00", "\ufeff", "\ufeffopenapi: 3.0.3\n", "null", "~", "---", "---\n---\n", "...", "[]", "{}", "{", "}", "[", "\"", "'", "%", "%YAML 1.2\n---\nopenapi: 3.0.3\n", "&a", "*a", "!!", "!x", "|", ">", "? ", ": ", "- ", "@", "`",
	"openapi", "openapi:", "openapi: ~", "openapi: 3", "openapi: 3.0", "openapi: 3.0.3", "openapi: '3.0.3'", "openapi: [3]", "openapi: {a: b}", "openapi: true", "openapi: .inf", "openapi: 2001-01-01", "openapi: !!binary aGk=", "openapi: !!str 3", "openapi: !!float 3", "openapi: !!int x", "openapi: |\n  3.0.3\n",
	"openapi: 3.0.3\nopenapi: 3.0.4\n", "openapi: 3.0.3\nx: .inf\n", "openapi: 3.0.3\nx: -.inf\n", "openapi: 3.0.3\nx: .nan\n", "openapi: 3.0.3\nx: 99999999999999999999999999\n", "openapi: 3.0.3\nx: 1e999\n", "openapi: 3.0.3\nx: 0x1F\n", "openapi: 3.0.3\nx: 2001-01-01T00:00:00Z\n", "openapi: 3.0.3\nx: !!binary \"//8=\"\n", "openapi: 3.0.3\nx: !!binary \"!\"\n", "openapi: 3.0.3\nx: !!set {a, b}\n", "openapi: 3.0.3\nx: !foo bar\n",
	"openapi: 3.0.3\n1: a\n", "openapi: 3.0.3\n1.5: a\n", "openapi: 3.0.3\ntrue: a\n", "openapi: 3.0.3\n~: a\n", "openapi: 3.0.3\n? [a, b]\n: c\n", "openapi: 3.0.3\n? {a: b}\n: c\n", "openapi: 3.0.3\npaths:\n  1:\n    get: {}\n", "openapi: 3.0.3\npaths:\n  ~:\n    ~: ~\n", "openapi: 3.0.3\n.inf: a\n", "openapi: 3.0.3\n? !!binary \"//8=\"\n: c\n", "openapi: 3.0.3\n2001-01-01: c\n", "openapi: 3.0.3\nx: {1: a, '1': b}\n", "openapi: 3.0.3\nx: {[a]: b}\n",
	"openapi: 3.0.3\nx: &a\n  y: *a\n", "openapi: 3.0.3\nx: &a [*a]\n", "openapi: 3.0.3\nx: &a 1\ny: *a\n", "openapi: 3.0.3\nx: *b\n", "openapi: 3.0.3\nx: &a {k: v}\ny:\n  <<: *a\n", "openapi: 3.0.3\ny:\n  <<: 1\n", "openapi: 3.0.3\ny:\n  <<: [{a: 1}, {b: 2}]\n", "openapi: 3.0.3\nx: &a {<<: *a}\n", "<<: {openapi: 3.0.3}\n", "openapi: 3.0.3\nx: &a {$ref: 'go://#/T'}\ny: *a\nz: [*a, *a]\n",
	"openapi: 3.0.3\na: &a [x,x]\nb: &b [*a,*a]\nc: &c [*b,*b]\nd: &d [*c,*c]\ne: &e [*d,*d]\nf: [*e,*e]\n",
	"openapi: 3.0.3\n---\nopenapi: 3.0.4\n", "openapi: 3.0.3\n...\nx", "openapi: 3.0.3\r\npaths: {}\r\n", "openapi: 3.0.3\rpaths: {}\r", "openapi: 3.0.3\n\tpaths: {}\n", "openapi: 3.0.3\n x: y\n", "openapi: \"3.0\\x00\"\n", "openapi: \"\\ud800\"\n", "openapi: \"\xff\"\n", "openapi: 3.0.3 # c\n#\n", "# openapi: 3.0.3\n", "- openapi: 3.0.3\n", "openapi: 3.0.3\npaths: ~\ncomponents: ~\ninfo: ~\n", "openapi: 3.0.3\npaths:\ncomponents:\n",
	`{"openapi":"3.0.3"}`, `{"openapi":"3.0.3"} `, `{"openapi":"3.0.3"}{}`, `{"openapi":"3.0.3"}x`, `{"openapi":"3.0.3",}`, `{"openapi":"3.0.3","openapi":1}`, `{"openapi":1e400}`, `{"openapi":"\ud800"}`, `{"openapi":"\u0000"}`, "{\"openapi\":\"\xff\"}", `{"openapi":3.0}`, `{"openapi":null}`, `{"openapi":null,"paths":null}`, `{"openapi":{}}`, `{"":""}`, `"openapi"`, `1`, `true`, `nul`, `[{"openapi":"3.0.3"}]`, "{\"openapi\":\n// c\n\"3.0.3\"}", `{'openapi':'3.0.3'}`, `{"openapi":"3.0.3","x":99999999999999999999999999,"y":1e999}`, `{"openapi":"3.0.3","x":-0}`, `{"openapi":"3.0.3","x":01}`,
	"openapi: 3.0.3\nx: " + strings.Repeat("[", 200) + strings.Repeat("]", 200) + "\n", "openapi: 3.0.3\nx: " + strings.Repeat("{a: ", 200) + "1" + strings.Repeat("}", 200) + "\n",
	`{"openapi":"3.0.3","x":` + strings.Repeat("[", 200) + strings.Repeat("]", 200) + `}`, `{"openapi":"3.0.3","x":` + strings.Repeat(`{"a":`, 200) + "1" + strings.Repeat("}", 200) + `}`,
	strings.Repeat("[", 11000), "openapi: 3.0.3\nx: \"" + strings.Repeat("a", 70000) + "\"\n", "openapi: 3.0.3\n" + strings.Repeat("k", 2000) + ": 1\n",
}

func strange(x *m.X) {
	file := m.Pick(x, "file", "oapi.yaml", "oapi.yml", "oapi.json")
	t := m.Pick(x, "text", texts...)
	other := x.Choose(3, "other specification")
	name := t
	if len(name) > 80 {
		name = name[:80] + "…"
	}
	x.Case("%s holds %q, other %d", file, name, other)
	a := m.Pkg{Path: pkgA, Files: map[string]string{"x.go": srcA, file: t}}
	b := m.Pkg{Path: pkgB, Files: map[string]string{"z.go": srcB}}
	const good = "openapi: 3.0.3\ninfo: {title: t, version: v}\npaths: {/b: {get: {summary: s}}}\ncomponents: {schemas: {Q: {$ref: 'go://#/U'}}}\n"
	var want obj
	switch other {
	case 1:
		b.Files["oapi.yml"] = good
		want = obj{"openapi": "3.0.3", "paths": obj{"/b": obj{"get": obj{"summary": "s"}}}, "components": obj{"schemas": obj{"Q": obj{"$ref": ""}}}}
	case 2:
		if file == "oapi.yaml" {
			x.Prune()
		}
		a.Files["oapi.yaml"] = strings.Replace(good, "#/U", "ex.com/b#/U", 1)
		want = obj{"openapi": "3.0.3", "paths": obj{"/b": obj{"get": obj{"summary": "s"}}}, "components": obj{"schemas": obj{"Q": obj{"$ref": ""}}}}
	}
	run(x, world.Write(pkgA, a, b), want, config(x, x.Choose(2, "configuration"))...)
}

// ---- references

var refChars = []string{"T", "X", "S", "N", "/", "#", ":", "~", "%", ".", "0", "*", " ", "go://", "ex.com/a", "?", "@", "\x00", "é"}

func refs(max func() int) func(x *m.X) {
	return func(x *m.X) {
		n := x.Choose(max()+1, "length")
		t := m.Pick(x, "start", "", "go://#/", "go://ex.com/a#/T/", "go://ex.com/a")
		for i := 0; i < n; i++ {
			t += m.Pick(x, "text", refChars...)
		}
		doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "components": obj{}}
		ref := obj{"$ref": t}
		where := x.Choose(3, "where")
		switch where {
		case 0:
			doc["x-r"] = ref
		case 1:
			doc["components"] = obj{"schemas": obj{"R": obj{"properties": obj{"p": ref}}}}
		case 2:
			doc["paths"] = obj{"/a": obj{"get": obj{"parameters": []interface{}{ref}}}}
		}
		x.Case("reference %q at %d", t, where)
		run(x, write(m.JS(doc), "oapi.json"), doc)
	}
}

// ---- declarations

// what can stand for a type expression, %s being other type expressions
var ctors = []string{"*%s", "[]%s", "[2]%s", "map[string]%s", "map[%s]int", "chan %s", "<-chan %s", "func(%s)", "func() %s", "interface{ M(%s) }", "struct{ F %s }", "struct{ F *%s }", "struct{ %s }", "struct{ *%s }", "struct{ F %s `oapi:\",inline\"` }", "[][0]%s", "struct{ F func(...%s) }"}

func recursive(x *m.X) {
	two := x.Choose(2, "second type")
	expr := func(self string, depth int) string {
		e := self
		for i := 0; i < depth; i++ {
			e = fmt.Sprintf(m.Pick(x, "constructor", ctors...), e)
		}
		return e
	}
	alias := m.Pick(x, "declaration", "type %s %s\n", "type %s = %s\n")
	src := "package a\n\n"
	if two == 1 {
		src += fmt.Sprintf(alias, "R", expr("Q", 1)) + "type Q " + expr("R", 1) + "\n"
	} else {
		src += fmt.Sprintf(alias, "R", expr("R", 1+x.Choose(m.N(2, 3), "depth")))
	}
	declared(x, src, []string{"R", "Q"}[:1+two], x.Choose(3, "export"))
}

// declared scans references to the declared types and to their parts.
func declared(x *m.X, src string, names []string, export int) {
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	if export > 0 {
		src += "\n//openapi:schema Ex" + names[0] + " " + names[0] + "\n"
	}
	if export != 2 {
		for i, n := range names {
			doc[fmt.Sprintf("x-%d", i)] = obj{"$ref": "go://#/" + n}
		}
	}
	x.Case("%s references %d", src, export)
	run(x, world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": src, "oapi.json": m.JS(doc)}}), doc)
}

type decl struct{ src, ref string }

var decls = []decl{
	{"package a\n", "T"}, {"", "T"}, {"package", "T"}, {"package a b", "T"}, {"package a_test\ntype T int", "T"}, {"package main\ntype T int\nfunc main(){}", "T"}, {"package a\n#", "T"}, {"package a\ntype T", "T"}, {"package a\ntype T int\ntype T string", "T"}, {"package a\ntype T U", "T"}, {"package a\ntype T T", "T"}, {"package a\ntype T U\ntype U T", "T"}, {"package a\ntype T = T", "T"}, {"package a\ntype T [2]T", "T"}, {"package a\ntype T struct { T }", "T"}, {"package a\ntype T struct { *T }", "T"}, {"package a\ntype T struct { F T }", "T"},
	{"package a\nimport . \"ex.com/b\"\ntype T U", "T"}, {"package a\nimport b2 \"ex.com/b\"\ntype T struct { b2.U; F *b2.U }", "T"}, {"package a\nimport _ \"ex.com/b\"\ntype T int", "T"}, {"package a\nimport \"ex.com/none\"\ntype T none.X", "T"}, {"package a\nimport \"ex.com/b\"\ntype T int", "T"}, {"package a\nimport \"ex.com/a\"\ntype T a.T", "T"}, {"package a\nimport \"C\"\ntype T C.int", "T"}, {"package a\nimport \"unsafe\"\ntype T unsafe.Pointer", "T"}, {"package a\nimport \"unsafe\"\ntype T [unsafe.Sizeof(0)]int", "T"}, {"package a\nimport \"io\"\ntype T io.Reader", "T"}, {"package a\nimport \"io\"\ntype T struct { io.Reader; R io.Writer }", "T"}, {"package a\nimport \"time\"\ntype T time.Time", "T"}, {"package a\nimport \"time\"\ntype T = time.Time", "T"}, {"package a\nimport \"time\"\ntype T struct { time.Time; D time.Duration; M time.Month }", "T"},
	{"package a\nvar T int", "T"}, {"package a\nconst T = 1", "T"}, {"package a\nfunc T() {}", "T"}, {"package a\nimport T \"ex.com/b\"\nvar _ T.U", "T"}, {"package a\nfunc f() { type T int; var _ T }", "T"}, {"package a\ntype t int", "t"}, {"package a\ntype T int\nfunc (T) M() {}", "T/M"}, {"package a\ntype T struct { F int }\nfunc (T) M() {}", "T/M"}, {"package a\ntype T struct { f int }", "T/f"}, {"package a\ntype T struct { _ int; __ int }", "T/_"}, {"package a\ntype _ struct { F int }\ntype _ int", "_"}, {"package a\ntype T interface { M() }", "T/M"}, {"package a\ntype T interface { error }", "T"}, {"package a\ntype T error", "T"}, {"package a\ntype T struct { error }", "T"}, {"package a\ntype T struct { E error `json:\"e\"` }", "T/E"}, {"package a\ntype T = error", "T"}, {"package a\ntype T interface{}", "T"}, {"package a\ntype T struct { I interface{}; interface{} }", "T"},
	{"package a\ntype int string\ntype T struct { F int }", "T"}, {"package a\ntype string struct { S string2 }\ntype string2 = []string\ntype T map[rune]string", "T"}, {"package a\ntype error struct { E int }\ntype T struct { F error }", "T"}, {"package a\ntype nil int\ntype T []nil", "T"}, {"package a\ntype bool = uint8\ntype T []bool", "T"},
	{"package a\ntype T [1<<40]int8", "T"}, {"package a\ntype T [0]int", "T"}, {"package a\nconst N = 3\ntype T [N][N][N]int", "T"}, {"package a\ntype T [-1]int", "T"}, {"package a\ntype T [1.5]int", "T"}, {"package a\nvar n = 1\ntype T [n]int", "T"}, {"package a\ntype T [len(x)]int\nvar x T", "T"}, {"package a\ntype T map[[2]int]struct{ A int }", "T"}, {"package a\ntype T map[struct{}]int", "T"}, {"package a\ntype T map[[]int]int", "T"}, {"package a\ntype T map[interface{}]int", "T"}, {"package a\ntype T map[*T]T", "T"}, {"package a\ntype T map[bool]map[float64]complex128", "T"}, {"package a\ntype T struct { C complex64; P uintptr; F func(); H chan int; I interface{} }", "T"},
	{"package a\ntype T struct { A int; A string }", "T"}, {"package a\ntype T struct { A struct { B struct { C struct { D int } } } }", "T/A/B/C/D"}, {"package a\ntype T struct { A []map[string]*[2]struct { D int } }", "T/A"}, {"package a\ntype T []struct { A int }", "T/A"}, {"package a\ntype T struct{ U }\ntype U struct { A int }", "T/A"}, {"package a\ntype T struct{ U }\ntype U struct { A int }", "T/U/A"}, {"package a\ntype T struct{ *U }\ntype U struct { *T; A *T }", "T/A/A/A"}, {"package a\ntype T = struct { A *T }", "T"}, {"package a\ntype T = *U\ntype U = *V\ntype V struct { A T }", "T/A"},
	{"package a\ntype T struct { A int `json` }", "T"}, {"package a\ntype T struct { A int `json:` }", "T"}, {"package a\ntype T struct { A int `json:\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\"\\x\"` }", "T"}, {"package a\ntype T struct { A int `\"` }", "T"}, {"package a\ntype T struct { A int ` ` }", "T"}, {"package a\ntype T struct { A int \"json:\\\"\\xff\\\"\" }", "T"}, {"package a\ntype T struct { A int `oapi:\"a,type:none\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\"a,min:x\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\",,,\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\"a,:\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\"a,inline\"` }", "T"}, {"package a\ntype T struct { A chan int `oapi:\"a,type:string\"` }", "T"}, {"package a\ntype T struct { A chan int `oapi:\"-\"` }", "T"}, {"package a\ntype T struct { A chan int `json:\"-\"`; B int }", "T"}, {"package a\ntype T struct { A int `oapi:\"b\"`; B int `oapi:\"b\"` }", "T"}, {"package a\ntype T struct { A int `oapi:\"$ref\"`; B string `json:\"a.b\"`; C bool `json:\"~1/\"`; D []T `json:\"\"` }", "T"}, {"package a\ntype T struct { A U `oapi:\"$ref\"` }\ntype U struct { B int `json:\"$ref\"` }", "T"}, {"package a\ntype T struct { A struct { S string `json:\"$ref\"` } `json:\"default\"` }", "T"}, {"package a\ntype T map[string]struct { Ref string `json:\"$ref\"`; Q *T }", "T"},
	{"package a\ntype É struct { Ü int }", "É"}, {"package a\ntype É struct { Ü int }", "%C3%89"}, {"package a\ntype T int // openapi:schema\n//openapi:schema\n", "T"}, {"package a\n//openapi:schema T\ntype T int", "T"}, {"package a\n//openapi:schema Q T\n//openapi:schema Q T\ntype T int", "T"}, {"package a\n//openapi:schema Q go://ex.com/b#/U\nimport \"ex.com/b\"\ntype T b.U", "T"}, {"package a\n/*openapi:schema*/\ntype T int", "T"}, {"package a\n//openapi:schema \x00\ntype T int", "T"}, {"package a\n//openapi:schema $ref T\ntype T struct { N []T }", "T"}, {"package a\n//openapi:schema a.b~1* T\ntype T struct { N []T }", "T"}, {"//go:build ignore\n\npackage a\ntype T int", "T"}, {"package a\nfunc init() {}\nfunc init() {}\ntype T int", "T"}, {"package a\ntype T int\nfunc f() { undefined() }", "T"}, {"package a\ntype T int\nvar x string = 1", "T"}, {"package a\ntype T[P any] struct { F P }", "T"}, {"package a\ntype T[P any] struct { F P }\ntype U T[int]\ntype V = T[string]", "U"}, {"package a\ntype T struct { F G[int] }\ntype G[P any] []P", "T"}, {"package a\ntype T = any", "T"}, {"package a\ntype T struct { C comparable }", "T"}, {"package a\ntype T interface { ~int | string }", "T"},
	{"package a\ntype (\n)\ntype T struct{}", "T"}, {"package a\ntype (\n\tT struct{ a, B, C int }\n\tU = T\n)", "U/B"}, {"package a\ntype T struct { A, B []T; C map[string]T; D *T; E [2]*T; F func(T) T; G chan T `oapi:\"-\"` }", "T/A"}, {"package a\ntype T struct {" + strings.Repeat("F struct{", 60) + strings.Repeat("}", 60) + "}", "T"}, {"package a\ntype T " + strings.Repeat("[]", 300) + "int", "T"}, {"package a\ntype T " + strings.Repeat("*", 300) + "int", "T"},
}

var (
	tails  = []string{"", "/", "/F", "/0", "/A", "/U", "/N/N/N/N", "//", "/items", "/properties/A", "/~0", "/M"}
	refsTo = []string{"go://#/", "go://ex.com/a#/"}
)

func declarations(x *m.X) {
	d := m.Pick(x, "declaration", decls...)
	tail := m.Pick(x, "tail", tails...)
	export := x.Choose(4, "export")
	over := x.Choose(2, "override")
	ref := m.Pick(x, "form", refsTo...) + d.ref + tail
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{"/a": obj{"get": obj{"responses": obj{"200": obj{"content": obj{"m": obj{"schema": obj{"$ref": ref}}}}}}}}}
	a := m.Pkg{Path: pkgA, Files: map[string]string{"x.go": d.src, "oapi.json": m.JS(doc)}}
	b := m.Pkg{Path: pkgB, Files: map[string]string{"z.go": srcB}}
	switch export {
	case 1:
		a.Files["y.go"] = "package a\n\n//openapi:schema Ex " + d.ref + "\n"
	case 2:
		a.Files["y.go"] = "package a\n\n//openapi:schema Ex " + ref + "\n"
	case 3:
		a.Files["y.go"] = "package a\n\n//openapi:schema " + d.ref + "\n//openapi:schema Two go://ex.com/b#/U\nimport _ \"ex.com/b\"\n"
	}
	var opts []oapi.Option
	if over == 1 {
		var s spec.Schema
		must(json.Unmarshal([]byte(`{"properties":{"p":{"$ref":`+m.JS(strings.Replace(ref, "go://#", "go://ex.com/a#", 1))+`}}}`), &s))
		opts = append(opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/b#/U": s, "go://ex.com/a#/" + d.ref: s}))
	}
	generic = strings.Contains(d.src, "[P any]") || strings.Contains(d.src, "comparable") || strings.Contains(d.src, "~int")
	x.Case("%q, reference %s, export %d, override %d", d.src, ref, export, over)
	want := doc
	run(x, world.Write(pkgA, a, b), want, opts...)
}

// ---- programs whose types refer to each other in many ways: the number of
// paths through the types grows exponentially, the time of the scan must not

const limit = 60 * time.Second

var stuck bool

func layers(x *m.X) {
	if stuck {
		x.Prune()
	}
	shape := m.Pick(x, "shape", "layers", "all", "own", "embedded", "unnamed")
	n := m.Pick(x, "types", []int{1, 3, 8, 14, 40}[:m.N(4, 5)]...)
	k := m.Pick(x, "fields", []int{1, 2, 3, 5}[:m.N(3, 4)]...)
	form := m.Pick(x, "form", "", "*", "[]", "map[string]", "[][]*")
	export := m.Pick(x, "exports", "all", "every second", "none")
	// without exports the document itself grows
	size, per := 1, k
	if shape == "all" {
		per = n
	}
	if shape == "unnamed" {
		per = 2 * k
	}
	// go/types takes exponential time to see that a type does not contain itself
	ways := 1.
	if shape == "unnamed" {
		ways = math.Pow(float64(k), float64(n))
	}
	if form == "" {
		ways = math.Pow(float64(per), float64(n))
	}
	if shape != "all" && ways > 5e6 || form == "" && (shape == "all" || shape == "embedded") && n > 8 {
		x.Prune()
	}
	for i := 0; i < n && size < 1e6; i++ {
		if export == "none" || export == "every second" && i%2 == 1 {
			size *= per
		} else if export != "none" {
			size = 1
		}
	}
	if size > 300 || export != "all" && (shape == "all" || shape == "embedded") && n > 3 {
		x.Prune()
	}
	src := "package a\n"
	for i := 0; i < n; i++ {
		if export == "all" || export == "every second" && i%2 == 0 {
			src += fmt.Sprintf("\n//openapi:schema T%d", i)
		}
		src += fmt.Sprintf("\ntype T%d struct {\n", i)
		if shape == "embedded" && i+1 < n {
			src += fmt.Sprintf("\tT%d\n", i+1)
		}
		for j := 0; j < k; j++ {
			var to []int
			switch shape {
			case "all":
				for q := 0; q < n; q++ {
					if form != "" || q > i {
						to = append(to, q)
					}
				}
			case "own": // and itself
				if i+1 < n {
					to = append(to, i+1)
				}
				if form != "" {
					to = append(to, i)
				}
			default:
				if i+1 < n {
					to = append(to, i+1)
				}
			}
			for _, q := range to {
				t := fmt.Sprintf("T%d", q)
				if shape == "unnamed" {
					t = fmt.Sprintf("struct{ X T%d; Y []struct{ Z %sT%d } }", q, form, q)
				}
				src += fmt.Sprintf("\tF%d_%d_%d %s%s\n", i, j, q, form, t)
			}
		}
		src += "}\n"
	}
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{},
		"components": obj{"schemas": obj{"X": obj{"$ref": "go://ex.com/a#/T0"}}}}
	x.Case("%s of %d types with %d fields of form %sT, exported: %s", shape, n, k, form, export)
	dir := world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": src, "oapi.json": m.JS(doc)}})
	type res struct {
		o   oapi.OAPI
		err error
	}
	done := make(chan res, 1)
	go func() {
		var r res
		if pv, _ := m.Try(func() { r.o, r.err = oapi.Scan(context.Background(), oapi.WithDir(dir)) }); pv != nil {
			r.err = fmt.Errorf("panic: %v", pv)
		}
		done <- r
	}()
	var r res
	select {
	case r = <-done:
	case <-time.After(limit):
		stuck = true
		x.Fail("time", "the scan of %d types did not end within %v:\n%s", n, limit, src)
	}
	if r.err != nil {
		x.Fail("layers", "the scan fails: %v", r.err)
	}
	b, err := oapi.Format("json", r.o)
	var got obj
	must(err)
	must(json.Unmarshal(b, &got))
	comps := got["components"].(obj)["schemas"].(obj)
	for i := 0; i < n; i++ {
		e := export == "all" || export == "every second" && i%2 == 0
		if _, ok := comps[fmt.Sprintf("T%d", i)]; ok != e {
			x.Fail("layers", "T%d is a component: %v, it is exported: %v", i, ok, e)
		}
	}
	x.Outcome("%d components, %d bytes", len(comps), len(b))
}

// ---- overrides and exports that refer to each other

func knots(x *m.X) {
	names := []string{"A", "B", "C"}[:m.N(2, 3)]
	src := "package a\n\n"
	over := map[string]spec.Schema{}
	what := ""
	for _, n := range names {
		switch k := x.Choose(4, "go type"); {
		case k == 0:
			src += "type " + n + " int\n"
		case k == 1:
			src += "type " + n + " struct { F []" + m.Pick(x, "to", names...) + " }\n"
		case k == 2:
			src += "type " + n + " []" + m.Pick(x, "to", names...) + "\n"
		case k == 3:
			src += "type " + n + " *" + m.Pick(x, "to", names...) + "\n"
		}
		if x.Bool("export") {
			src += "//openapi:schema Ex" + n + " " + n + "\n"
		}
		k := x.Choose(6, "override")
		var text string
		to := ""
		if k > 0 && k < 5 {
			to = m.Pick(x, "to", names...)
		}
		switch k {
		case 1:
			text = `{"$ref":"go://ex.com/a#/` + to + `"}`
		case 2:
			text = `{"properties":{"p":{"$ref":"go://ex.com/a#/` + to + `"}}}`
		case 3:
			text = `{"$ref":"#/components/schemas/Ex` + to + `"}`
		case 4:
			text = `{"allOf":[{"$ref":"go://ex.com/a#/` + to + `"},{"$ref":"go://ex.com/a#/` + to + `/F"}]}`
		case 5:
			text = `{}`
		}
		if text != "" {
			var s spec.Schema
			must(json.Unmarshal([]byte(text), &s))
			over["go://ex.com/a#/"+n] = s
			what += fmt.Sprintf("; override of %s: %s", n, text)
		}
	}
	doc := obj{"openapi": "3.0.3", "paths": obj{}, "x-0": obj{"$ref": "go://#/A"}, "x-1": []interface{}{obj{"$ref": "go://#/B"}}}
	x.Case("%s%s", src, what)
	run(x, world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": src, "oapi.json": m.JS(doc)}}), doc, oapi.WithOverride(over))
}

// ---- options

type printer struct{}

func (printer) Print(v ...interface{})            {}
func (printer) Printf(f string, v ...interface{}) {}

func options(x *m.X) {
	doc := skeleton()
	dir := write(m.JS(doc), "oapi.json")
	var opts []oapi.Option
	var what []string
	add := func(name string, o oapi.Option) {
		opts = append(opts, o)
		what = append(what, name)
	}
	want := doc
	ctx := context.Background()
	file := filepath.Join(dir, "x.go")
	dirs := []string{dir, dir + "/", dir + "/.", file, dir + "/none", "", "\x00", "./none/..", strings.Repeat("d", 300)}
	switch i := x.Deviate(len(dirs), "dir"); {
	case i >= 0:
		if dirs[i] != dir && dirs[i] != dir+"/" && dirs[i] != dir+"/." {
			want = nil
		}
		add(fmt.Sprintf("dir %q", dirs[i]), oapi.WithDir(dirs[i]))
	}
	switch x.Deviate(4, "log") {
	case 1:
		add("nil log", oapi.WithLog(nil))
	case 2:
		add("void log", oapi.WithLog(logging.Void()))
	case 3:
		var l logging.Printer
		add("nil log twice", oapi.WithLog(l))
		add("nil log twice", oapi.WithLog(l))
	}
	keys := []string{"", "#", "x", "go://", "go://#/T", "go://ex.com/a#/T", "go://ex.com/a#/T/", "go://ex.com/a#T", "http://h#/T", "%zz", "\xff", "go://ex.com/b#/U", " go://ex.com/b#/U"}
	schemas := []string{`{}`, `{"type":"string"}`, `{"$ref":""}`, `{"$ref":"#/x"}`, `{"$ref":"go://ex.com/a#/T"}`, `{"$ref":"go://ex.com/b#/U"}`, `{"$ref":"go://#/T"}`, `{"$ref":"%zz"}`, `{"$ref":"http://h/x"}`, `{"items":{"$ref":"go://ex.com/none#/T"}}`, `{"default":{"$ref":"go://ex.com/a#/T"}}`, `{"default":null,"enum":[null]}`}
	switch i := x.Deviate(2+len(keys), "override key"); {
	case i == 1:
		add("nil overrides", oapi.WithOverride(nil))
	case i > 1:
		j := x.Choose(len(schemas)+1, "override schema")
		var s spec.Schema
		text := "zero"
		if j > 0 {
			text = schemas[j-1]
			if err := json.Unmarshal([]byte(text), &s); err != nil {
				x.Prune()
			}
		}
		add(fmt.Sprintf("override %q %s", keys[i-2], text), oapi.WithOverride(map[string]spec.Schema{keys[i-2]: s}))
	}
	patterns := []string{"", "/", "*", "/a", "GET", "GET:", "get:/a", ":/a", "(", "[", "\\", "\xff", "{", "{}", "{id", "*{id}*", "GET:\xff*", "XX:/a", "/a\x00", "**", strings.Repeat("*", 200), strings.Repeat("{id}", 100), "a{1001}", "x(?:)"}
	ops := []string{`{}`, `{"responses":{}}`, `{"tags":["x"],"responses":{"200":{"description":"d"}}}`, `{"parameters":[{"$ref":"go://ex.com/a#/T"}],"responses":null}`, `{"responses":{"default":{"$ref":"go://ex.com/none#/T"}}}`, `{"responses":{"default":{"$ref":"%zz"}}}`, `{"callbacks":{"c":{"x":{"get":{}}}},"responses":{"2XX":{"description":"d","content":{"m":{"schema":{"$ref":"go://ex.com/a#/T/N"}}}}}}`}
	switch i := x.Deviate(2+len(patterns), "pattern"); {
	case i == 1:
		add("nil default operations", oapi.WithDefOps(nil))
	case i > 1:
		j := x.Choose(len(ops)+1, "operation")
		var o spec.Operation
		text := "zero"
		if j > 0 {
			text = ops[j-1]
			if err := json.Unmarshal([]byte(text), &o); err != nil {
				x.Prune()
			}
		}
		add(fmt.Sprintf("default operation %q %s", patterns[i-2], text), oapi.WithDefOps(map[string]spec.Operation{patterns[i-2]: o}))
	}
	roots := []string{`{}`, `{"openapi":""}`, `{"openapi":"3.0.3","paths":null}`, `{"openapi":"3.0.3","components":{}}`, `{"openapi":"3.0.3","components":{"schemas":{}}}`, `{"openapi":"3.0.3","components":{"schemas":{"W":{"$ref":"go://ex.com/a#/T"},"V":{"$ref":"%zz"}}}}`, `{"openapi":"3.0.3","paths":{"/a":{"$ref":"go://ex.com/a#/T"}}}`, `{"openapi":"3.0.3","paths":{"/r":{"get":{"responses":{"200":{"description":"d"}}}}}}`, `{"openapi":"9","info":{"title":"","version":""},"tags":[],"servers":[],"security":[]}`}
	switch i := x.Deviate(2+len(roots), "root"); {
	case i == 1:
		add("zero root", oapi.WithRootSchema(spec.OpenAPI{}))
	case i > 1:
		var r spec.OpenAPI
		if err := json.Unmarshal([]byte(roots[i-2]), &r); err != nil {
			x.Prune()
		}
		add("root "+roots[i-2], oapi.WithRootSchema(r))
	}
	switch x.Deviate(3, "context") {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
		what = append(what, "cancelled")
	case 2:
		add("failing option", func(*oapi.Options) error { return errors.New("option") })
	}
	if x.Deviate(2, "reverse") == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	x.Case("%s", strings.Join(what, ", "))
	runCtx(x, ctx, opts, want)
}

// ---- a scan that is told to stop

type lateContext struct {
	context.Context
	mu    sync.Mutex
	calls int
	at    int
	err   error
	done  chan struct{}
}

func (c *lateContext) call() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls++
	if c.calls == c.at {
		close(c.done)
	}
}

func (c *lateContext) Done() <-chan struct{} { c.call(); return c.done }

func (c *lateContext) Err() error {
	c.call()
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

func cancel(x *m.X) {
	dir := write(m.JS(skeleton()), "oapi.json")
	c := &lateContext{Context: context.Background(), done: make(chan struct{})}
	c.at = 1 + x.Choose(m.N(8, 20), "call")
	c.err = m.Pick(x, "error", context.Canceled, context.DeadlineExceeded, errors.New("other"))
	x.Case("the context ends at its call %d with %v", c.at, c.err)
	runCtx(x, c, []oapi.Option{oapi.WithDir(dir)}, skeleton())
}

// ---- formats of the zero document

func zeroDoc(x *m.X) {
	f := m.Pick(x, "format", "json", "yaml", "yml", "json:pretty", "go", "", "x")
	var err error
	x.Case("formatting the zero document as %s", f)
	if pv, stack := m.Try(func() { _, err = oapi.Format(f, oapi.OAPI{}) }); pv != nil {
		x.Fail("panic:"+site(stack), "formatting the zero document as %q panicked: %v", f, pv)
	}
	x.Outcome("%v", err)
}

// ---- what a package directory can hold

func directories(x *m.X) {
	kinds := []string{"absent", "file", "directory", "dangling link", "link", "link to itself", "unreadable"}
	names := []string{"oapi.yaml", "oapi.yml", "oapi.json"}
	const good = "openapi: 3.0.3\ninfo: {title: t, version: v}\npaths: {/b: {get: {summary: s}}}\n"
	files := map[string]string{"x.go": srcA}
	dir := world.Dir(pkgA)
	var made []string
	clean := func() {
		for _, f := range made {
			os.Remove(f)
		}
	}
	defer clean()
	what := []string{}
	want := obj{}
	for _, n := range names {
		k := x.Choose(len(kinds)-1, "kind")
		what = append(what, kinds[k])
		if k == 1 {
			if n == "oapi.json" {
				files[n] = `{"openapi":"3.0.3","paths":{"/j":{}}}`
			} else {
				files[n] = good
			}
			want["openapi"] = "3.0.3"
		}
	}
	world.Write(pkgA, m.Pkg{Path: pkgA, Files: files}, m.Pkg{Path: pkgB, Files: map[string]string{"z.go": srcB}})
	for i, n := range names {
		f := filepath.Join(dir, n)
		switch what[i] {
		case "directory":
			must(os.Mkdir(f, 0o755))
			made = append(made, f)
		case "dangling link":
			must(os.Symlink("nowhere", f))
			made = append(made, f)
		case "link":
			t := filepath.Join(dir, "target"+n)
			must(os.WriteFile(t, []byte(`{"openapi": "3.0.3"}`), 0o644))
			must(os.Symlink(t, f))
			made = append(made, f, t)
			want["openapi"] = "3.0.3"
		case "link to itself":
			must(os.Symlink(n, f))
			made = append(made, f)
		}
	}
	x.Case("%v are %v", names, what)
	run(x, dir, want)
}

// command: programs listed and loaded with the go command
func command(x *m.X) {
	prog := m.Pick(x, "program", "type T struct { X int }", "type T struct { X [2]string }", "import \"time\"\ntype T struct { X time.Duration }", "type T struct { X nope }", "type T struct { X int ", "type T struct { X map[string][]*T }", "import \"C\"\ntype T struct { X int }", "import \"ex.com/nowhere\"\ntype T struct { X nowhere.X }")
	dir, err := os.MkdirTemp("", "cmd")
	must(err)
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module ex.com/m\n\ngo 1.15\n"), 0o644))
	must(os.WriteFile(filepath.Join(dir, "x.go"), []byte("package m\n"+prog+"\n"), 0o644))
	must(os.WriteFile(filepath.Join(dir, "oapi.yaml"), []byte("openapi: 3.0.3\ninfo: {title: t, version: v}\npaths: {}\ncomponents: {schemas: {T: {$ref: 'go://#/T'}}}\n"), 0o644))
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BIN"), "oapi"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOPACKAGESDRIVER=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOPATH="+os.Getenv("MC_REALGOPATH"), "GOWORK=off")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	text := errs.String()
	x.Case("%s", strings.ReplaceAll(prog, "\n", "; "))
	x.Outcome("%v", err)
	if strings.Contains(text, "panic") || strings.Contains(text, "SIGSEGV") {
		key := "crash"
		if strings.Contains(text, "go/types.(*StdSizes).Sizeof(0x0") {
			key = "sizes"
		}
		if len(text) > 700 {
			text = text[:700]
		}
		x.Fail(key, "the command crashes: %s", text)
	}
	if (err == nil) != json.Valid(out.Bytes()) {
		x.Fail("command", "exit %v with %q", err, out.String())
	}
}

func main() {
	m.Main(m.Check{
		ID: "C22", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the packages are found through the driver protocol of go/packages", "a specification whose version is null may be taken or refused"},
		Spaces: []m.Space{
			{Name: "shapes", Bound: m.N(1, 2), Rule: fmt.Sprintf("a document with all sections, %d values at up to one (thorough: two) of its %d places x with or without configuration", len(values()), len(positions)), Run: shapes},
			{Name: "keys", Bound: -1, Rule: fmt.Sprintf("21 keys x %d values in every object of the document x with or without configuration", len(values())), Run: keysAt},
			{Name: "texts", Bound: -1, Rule: fmt.Sprintf("%d texts as specification file x 3 names x beside none or another specification x configuration", len(texts)), Run: strange},
			{Name: "refs", Bound: -1, Rule: fmt.Sprintf("references of up to 2 (thorough 3) of %d texts after 4 beginnings x 3 places", len(refChars)), Run: refs(func() int { return m.N(2, 3) })},
			{Name: "recursive", Bound: -1, Rule: fmt.Sprintf("types defined by up to 2 (thorough 3) of %d constructors over themselves, or two over each other, defined or alias x exported or not", len(ctors)), Run: recursive},
			{Name: "declarations", Bound: -1, Rule: fmt.Sprintf("%d Go files (also broken ones) x %d places below the type x 4 exports x override x form of the reference", len(decls), len(tails)), Run: declarations},
			{Name: "layers", Bound: -1, Rule: "programs of 1 to 14 (thorough 40) types, each refering to the next one, to the next and itself, to all, embedding the next or using it within unnamed structs, by 1 to 3 (5) fields of 5 forms, all, every second or none exported: within a minute", Run: layers},
			{Name: "knots", Bound: -1, Rule: "two (thorough three) types, exports and overrides referring to each other in every way", Run: knots},
			{Name: "options", Bound: m.N(2, 3), Rule: "values of dir, log, override, default operations, root and context, up to 2 (3) of them unusual", Run: options},
			{Name: "cancel", Bound: -1, Rule: "the context ends at any of the calls made to it with any of 3 errors", Run: cancel},
			{Name: "zero", Bound: -1, Rule: "formats of the zero document", Run: zeroDoc},
			{Name: "command", Bound: -1, Rule: "8 programs, two of them broken, loaded by the command with the help of the go command and the real standard library", Run: command},
			{Name: "directories", Bound: -1, Rule: "each specification file absent, a file, a directory or a link of four kinds", Run: directories},
		},
	})
}
