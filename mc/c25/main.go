//go:build go1.21

// C25: valid specifications give a valid OpenAPI document.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

var world *m.World

const pa, pb = "ex.com/a", "ex.com/b"

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// types which are referred to, by name
var types = []string{"Struct", "Int", "Text", "Flag", "Real", "List", "Map", "Ptr", "Bytes", "Loop", "Loops", "Mixed", "Tagged", "Struct/B", "Mixed/X", "Mixed/X/P", "Deep", "Empty", "Time", "Emb", "Alias", "Pair", "Tree", "Mixed/L/[]", "Quoted", "Hidden", "b"}

const source = `package a

import (
	"ex.com/b"
	"time"
)

%s
type Struct struct { A int; B string ` + "`json:\"b,omitempty\" oapi:\"b,required\"`" + ` }
%s
type Int int8
%s
type Text string
%s
type Flag bool
%s
type Real float32
%s
type List []Struct
%s
type Map map[string]*List
%s
type Ptr *Struct
%s
type Bytes []byte
%s
type Loop struct { Next *Loop; All []Loop; By map[string]Loop }
%s
type Loops []Loops
%s
type Mixed struct { X struct { P *Struct; Q []struct{ R uint8 } }; L []*Struct; M map[string]map[string]Int; b.B; Emb *Emb }
%s
type Tagged struct {
	A int ` + "`oapi:\"a,min:1,max:5,mulof:2,required\"`" + `
	B float64 ` + "`oapi:\"b,emin:0,emax:1.5,readonly\"`" + `
	C string ` + "`oapi:\"c,minlen:1,maxlen:3,format:date,pattern:'^a+$',deprecated\"`" + `
	D []string ` + "`oapi:\"d,minitems:1,maxitems:2,unique,nullable:false,writeonly\"`" + `
	E map[string]int ` + "`oapi:\"e,minprops:1,maxprops:2,required\"`" + `
	F chan int ` + "`oapi:\"f,type:uuid,required\"`" + `
	G *Struct ` + "`oapi:\"g,nullable:false,required\"`" + `
	H Struct ` + "`oapi:\"h,inline\"`" + `
	I *Int ` + "`oapi:\"i,type:object\"`" + `
}
%s
type Deep [][]map[string][]*struct{ V **Int; W map[Text][]Deep }
%s
type Empty struct{}
%s
type Time time.Time
%s
type Emb struct { *Struct; Empty; time.Time; Int }
%s
type Alias = Struct
%s
type Pair struct { First, Second Struct; Third, Fourth *Struct; Fifth, Sixth []Loop }
%s
type Tree struct { Nodes []Node; Root *Node }
%s
type Node struct { Tree *Tree; Kids []*Node; V interface{ } ` + "`oapi:\"-\"`" + ` }
%s
type Quoted struct { N int ` + "`json:\",string\"`" + `; P *bool ` + "`json:\"p,string\" oapi:\"p,required\"`" + ` }
%s
type Hidden struct { a int; b func(); C int ` + "`json:\"-\"`" + ` }
`

const sourceB = "package b\n\n%s\ntype B struct { V []B; W *C }\n\ntype C map[string]B\n"

// program with the exported types: 0 none, 1 all, 2 every second, 3 the other
func program(exports int) []m.Pkg {
	n := 0
	ex := func(name string) string {
		n++
		if exports == 1 || exports == 2 && n%2 == 0 || exports == 3 && n%2 == 1 {
			return "//openapi:schema " + name
		}
		return ""
	}
	var a []interface{}
	for _, l := range strings.Split(source, "%s\ntype ")[1:] {
		name := l[:strings.Index(l, " ")]
		if name == "Alias" {
			a = append(a, "")
			continue
		}
		a = append(a, ex(name))
	}
	return []m.Pkg{{Path: pa, Files: map[string]string{"a.go": fmt.Sprintf(source, a...)}}, {Path: pb, Files: map[string]string{"b.go": fmt.Sprintf(sourceB, ex("B"))}}}
}

func goRef(t string) string {
	if t == "b" {
		return "go://ex.com/b#/B"
	}
	return "go://ex.com/a#/" + t
}

// complete is a document with every kind of object, its schemas are made by s.
func complete(s func(slot string) obj) obj {
	media := func(slot string) obj {
		return obj{"application/json": obj{"schema": s(slot), "examples": obj{"e": obj{"$ref": "#/components/examples/Ex"}, "f": obj{"summary": "f", "value": arr{1., nil}}}}}
	}
	resp := func(slot string) obj {
		return obj{"description": "d", "content": media(slot), "headers": obj{"X-H": obj{"$ref": "#/components/headers/H"}, "X-I": obj{"schema": s(slot + " header"), "style": "simple"}}, "links": obj{"next": obj{"operationId": "opGet", "parameters": obj{"id": "$response.body#/id"}, "description": "l", "server": obj{"url": "/x"}}}}
	}
	return obj{
		"openapi":      "3.0.3",
		"info":         obj{"title": "t", "version": "1", "description": "d", "termsOfService": "http://x", "contact": obj{"name": "n", "url": "http://x", "email": "a@b.c"}, "license": obj{"name": "l", "url": "http://x"}},
		"servers":      arr{obj{"url": "http://{h}", "description": "s", "variables": obj{"h": obj{"default": "a", "enum": arr{"a", "b"}, "description": "v"}}}},
		"tags":         arr{obj{"name": "t1", "description": "d", "externalDocs": obj{"url": "http://x"}}, obj{"name": "t2"}},
		"externalDocs": obj{"url": "http://x", "description": "d"},
		"security":     arr{obj{"key": arr{}}, obj{"oauth": arr{"a"}}},
		"x-any":        obj{"$any": nil, "l": arr{nil, 1., "x"}},
		"paths": obj{
			"/a/{id}": obj{"summary": "s", "description": "d", "servers": arr{obj{"url": "/"}},
				"parameters": arr{obj{"name": "id", "in": "path", "required": true, "schema": s("path parameter")}, obj{"$ref": "#/components/parameters/Q"}},
				"get": obj{"tags": arr{"t1"}, "summary": "s", "description": "d", "operationId": "opGet", "externalDocs": obj{"url": "http://x"}, "deprecated": true, "security": arr{}, "servers": arr{obj{"url": "/g"}},
					"parameters": arr{obj{"name": "c", "in": "cookie", "schema": s("cookie parameter"), "style": "form", "explode": true, "example": 1.}, obj{"name": "X-P", "in": "header", "content": media("parameter content")}},
					"responses":  obj{"200": resp("response"), "4XX": obj{"$ref": "#/components/responses/R"}, "default": obj{"description": "e"}}},
				"post": obj{"operationId": "opPost", "requestBody": obj{"required": true, "description": "b", "content": obj{"multipart/form-data": obj{"schema": s("body"), "encoding": obj{"f": obj{"contentType": "text/plain", "headers": obj{"X-E": obj{"schema": s("encoding header")}}, "style": "form", "explode": true}}}}},
					"responses": obj{"201": obj{"$ref": "#/components/responses/R"}},
					"callbacks": obj{"done": obj{"{$request.body#/url}": obj{"post": obj{"requestBody": obj{"$ref": "#/components/requestBodies/B"}, "responses": obj{"200": resp("callback response")}}}}, "other": obj{"$ref": "#/components/callbacks/C"}}},
			},
			"/b": obj{"put": obj{"responses": obj{"default": resp("default response")}}, "x-y": 1.},
		},
		"components": obj{
			"schemas": obj{"Own": s("component"), "Obj": obj{"type": "object", "required": arr{"p"}, "properties": obj{"p": s("property"), "q": obj{"$ref": "#/components/schemas/Own"}}, "additionalProperties": s("additional"), "discriminator": obj{"propertyName": "p", "mapping": obj{"o": "#/components/schemas/Own"}}, "xml": obj{"name": "x"}, "externalDocs": obj{"url": "http://x"}},
				"Arr": obj{"type": "array", "items": s("items"), "minItems": 1., "uniqueItems": true, "default": arr{}, "example": arr{nil}},
				"All": obj{"allOf": arr{s("allOf"), obj{"$ref": "#/components/schemas/Obj"}}, "title": "t"}, "One": obj{"oneOf": arr{s("oneOf")}, "nullable": true}, "Any": obj{"anyOf": arr{s("anyOf"), obj{"type": "string", "enum": arr{"a", "b"}}}}, "Not": obj{"not": s("not")}},
			"responses":       obj{"R": resp("component response")},
			"parameters":      obj{"Q": obj{"name": "q", "in": "query", "schema": s("component parameter"), "allowEmptyValue": true}},
			"examples":        obj{"Ex": obj{"summary": "e", "value": obj{"a": 1.}}},
			"requestBodies":   obj{"B": obj{"content": media("component body")}},
			"headers":         obj{"H": obj{"description": "h", "required": true, "schema": s("component header")}},
			"securitySchemes": obj{"key": obj{"type": "apiKey", "name": "k", "in": "header"}, "http": obj{"type": "http", "scheme": "bearer", "bearerFormat": "jwt"}, "oauth": obj{"type": "oauth2", "flows": obj{"implicit": obj{"authorizationUrl": "http://x", "scopes": obj{"a": "b"}}, "authorizationCode": obj{"authorizationUrl": "http://x", "tokenUrl": "http://x", "refreshUrl": "http://x", "scopes": obj{}}}}, "oidc": obj{"type": "openIdConnect", "openIdConnectUrl": "http://x"}},
			"links":           obj{"L": obj{"operationRef": "#/paths/~1b/put"}},
			"callbacks":       obj{"C": obj{"http://x": obj{"get": obj{"responses": obj{"200": resp("component callback")}}}}},
		},
	}
}

// slots are the places of schemas in the complete document.
func slots() (out []string) {
	complete(func(s string) obj { out = append(out, s); return obj{} })
	return
}

var wraps = []string{"", "items", "allOf", "anyOf", "not", "properties", "additionalProperties"}

func wrap(how string, s obj) obj {
	switch how {
	case "items":
		return obj{"type": "array", "items": s}
	case "allOf", "anyOf":
		return obj{how: arr{s, obj{"type": "object"}}}
	case "not", "additionalProperties":
		return obj{how: s}
	case "properties":
		return obj{"type": "object", "properties": obj{"p": s, "x-p": s}, "required": arr{"p"}}
	}
	return s
}

// judge scans and validates; the specification, as one document, is valid.
func judge(x *m.X, specification string, pp []m.Pkg, opts ...oapi.Option) {
	var d obj
	must(json.Unmarshal([]byte(specification), &d))
	if errs := validate(d, true); d["paths"] != nil && d["info"] != nil && len(errs) > 0 {
		x.Fail("harness", "the specification itself is not valid: %s\n%s", strings.Join(errs, "\n"), specification)
	}
	dir := world.Write(pa, pp...)
	var o oapi.OAPI
	var err error
	if pv, stack := m.Try(func() {
		o, err = oapi.Scan(context.Background(), append([]oapi.Option{oapi.WithDir(dir)}, opts...)...)
	}); pv != nil {
		x.Fail("panic", "%v\n%s", pv, stack)
	}
	if err != nil {
		x.Fail("error", "the scan fails: %v", err)
	}
	b, err := oapi.Format("json", o)
	must(err)
	var doc obj
	must(json.Unmarshal(b, &doc))
	if errs := validate(doc, false); len(errs) > 0 {
		key := errs[0][strings.Index(errs[0], ": ")+2:]
		if at := errs[0][:strings.Index(errs[0], ": ")]; strings.HasSuffix(at, ".content") {
			key = "content " + key
		}
		x.Fail(key, "the document is not valid:\n%s\n%s", strings.Join(errs, "\n"), b)
	}
	x.Outcome("%s", b)

	// the document is a specification itself
	file, text := "oapi.json", b
	if len(b)%2 == 0 {
		file = "oapi.yaml"
		text, err = oapi.Format("yaml", o)
		must(err)
	}
	dir = world.Write("ex.com/out", m.Pkg{Path: "ex.com/out", Files: map[string]string{"x.go": "package out\n", file: string(text)}})
	var again []byte
	if pv, stack := m.Try(func() {
		o, err = oapi.Scan(context.Background(), oapi.WithDir(dir))
		if err == nil {
			again, err = oapi.Format("json", o)
		}
	}); pv != nil {
		x.Fail("scanned again panic", "%v\n%s", pv, stack)
	}
	if err != nil {
		x.Fail("scanned again error", "the document can't be scanned: %v\n%s", err, text)
	}
	if string(again) != string(b) {
		x.Fail("scanned again", "the document scanned again (%s) becomes\n%s\ninstead of\n%s", file, again, b)
	}
}

// places: every type at every place of a schema
func places(x *m.X) {
	all := slots()
	slot := m.Pick(x, "place", all...)
	how := m.Pick(x, "within", wraps[:m.N(4, len(wraps))]...)
	t := m.Pick(x, "type", types...)
	exports := x.Choose(m.N(2, 4), "exports")
	pp := program(exports)
	pp[0].Files["oapi.json"] = m.JS(complete(func(s string) obj {
		if s == slot {
			return wrap(how, obj{"$ref": goRef(t)})
		}
		return obj{"type": "string"}
	}))
	x.Case("%s (%s) refers to %s, exports %d", slot, how, t, exports)
	judge(x, pp[0].Files["oapi.json"], pp)
}

// everywhere: every place refers to a type, the same or another one
func everywhere(x *m.X) {
	exports := x.Choose(4, "exports")
	from := x.Choose(len(types), "type")
	step := x.Choose(m.N(4, 8), "step")
	how := m.Pick(x, "within", wraps...)
	n := from
	pp := program(exports)
	doc := complete(func(s string) obj {
		n += step
		return wrap(how, obj{"$ref": goRef(types[n%len(types)])})
	})
	pp[0].Files["oapi.json"] = m.JS(doc)
	x.Case("all places refer to types, %s and each %dth, %s, exports %d", types[from], step, how, exports)
	judge(x, pp[0].Files["oapi.json"], pp)
}

// split: the sections of the document in two packages
func split(x *m.X) {
	exports := x.Choose(2, "exports")
	from := x.Choose(4, "type")
	t := from
	doc := complete(func(s string) obj {
		t++
		return obj{"$ref": goRef(types[t%len(types)])}
	})
	sections := []string{"servers", "tags", "externalDocs", "security", "x-any", "info", "components", "paths"}
	other := obj{"openapi": "3.0.3"}
	what, n := "", 0
	move := func(d, o obj, k string) {
		if n == m.N(2, 4) {
			return
		}
		n++
		switch x.Choose(3, k) {
		case 1:
			o[k] = d[k]
			delete(d, k)
		case 2: // said by both
			o[k] = d[k]
		default:
			n--
			return
		}
		what += " " + k
	}
	full := m.JS(doc)
	switch part := x.Choose(3, "part"); part {
	case 0:
		for _, s := range sections {
			move(doc, other, s)
		}
	default:
		k := sections[len(sections)-part]
		d, o := doc[k].(obj), obj{}
		for _, s := range m.SortedKeys(d) {
			move(d, o, s)
		}
		other[k] = o
	}
	pp := program(exports)
	pp[0].Files["oapi.json"] = m.JS(doc)
	pp[1].Files["oapi.json"] = m.JS(other)
	x.Case("in b:%s, exports %d, types from %d", what, exports, from)
	judge(x, full, pp)
}

// options: a root document and default operations complete a specification
func options(x *m.X) {
	full := complete(func(s string) obj { return obj{"$ref": goRef(types[len(s)%len(types)])} })
	doc := obj{"openapi": "3.0.3", "info": full["info"], "paths": obj{
		"/o/{id}": obj{"parameters": arr{obj{"name": "id", "in": "path", "required": true, "schema": obj{"type": "string"}}}, "get": obj{"operationId": "o", "responses": obj{"200": obj{"description": "d"}}},
			"post": obj{"parameters": arr{obj{"name": "q", "in": "query", "schema": obj{"type": "string"}}}, "responses": obj{"default": obj{"description": "d", "content": obj{"text/plain": obj{}}}}}},
		"/p": obj{"summary": "p", "put": obj{"responses": obj{"201": obj{"description": "d"}}, "requestBody": obj{"content": obj{"a/b": obj{"schema": obj{"$ref": goRef("Loop")}}}}}}}}
	what := ""
	root := obj{}
	n := 0
	if x.Bool("specification with all sections") {
		full["paths"] = doc["paths"]
		doc = full
		for k, v := range doc["components"].(obj) {
			if k == "callbacks" || k == "links" {
				delete(doc["components"].(obj), k)
			}
			_ = v
		}
		full = complete(func(s string) obj { return obj{"$ref": goRef(types[len(s)%len(types)])} })
		what = "all sections"
	}
	comps := full["components"].(obj)
	take := func(k string, v interface{}, into obj) {
		if n < m.N(1, 2) && x.Bool(k) {
			n++
			into[k] = v
			what += " " + k
		}
	}
	for _, k := range []string{"info", "servers", "tags", "externalDocs"} {
		take(k, full[k], root)
	}
	sub := obj{}
	for _, k := range m.SortedKeys(comps) {
		if k == "securitySchemes" {
			// the scopes of flows are lost, see C20
			take(k, obj{"basic": obj{"type": "http", "scheme": "basic"}, "k2": obj{"type": "apiKey", "name": "n", "in": "query"}}, sub)
			continue
		}
		if k == "callbacks" || k == "links" {
			take(k, comps[k], sub)
			continue
		}
		v := obj{}
		for n, e := range comps[k].(obj) {
			v["Root"+n] = e
			if k == "schemas" && n != "Own" { // refers to the others
				delete(v, "Root"+n)
			}
		}
		take(k, v, sub)
	}
	if len(sub) > 0 {
		// what the sections refer to
		for _, k := range []string{"headers", "examples"} {
			if sub[k] == nil {
				sub[k] = obj{}
			}
			for n, e := range comps[k].(obj) {
				if d, ok := doc["components"].(obj); ok && d[k] != nil {
					continue
				}
				sub[k].(obj)[n] = e
			}
		}
		root["components"] = sub
	}
	if sec, ok := sub["securitySchemes"]; ok && x.Bool("security") {
		_ = sec
		root["security"] = arr{obj{"basic": arr{}}}
	}
	ops := []obj{
		{"responses": obj{"500": obj{"description": "e", "content": obj{"a/b": obj{"schema": obj{"$ref": goRef("Struct")}}}}}},
		{"responses": obj{"default": obj{"description": "only", "headers": obj{"X-D": obj{"schema": obj{"$ref": goRef("Int")}}}, "content": obj{"a/b": obj{}}}}},
		{"parameters": arr{obj{"name": "X-T", "in": "header", "required": true, "schema": obj{"$ref": goRef("Text")}}}, "responses": obj{"404": obj{"description": "n", "content": obj{"a/b": obj{}}}}},
		{"summary": "s", "description": "d", "tags": arr{"t1"}, "deprecated": true, "externalDocs": obj{"url": "http://x"}, "servers": arr{obj{"url": "/d"}}, "responses": obj{"401": obj{"description": "n", "content": obj{"a/b": obj{"schema": obj{"$ref": goRef("Mixed/X")}}}}}},
		{"requestBody": obj{"required": true, "content": obj{"a/b": obj{"schema": obj{"$ref": goRef("Tree")}}}}, "responses": obj{"200": obj{"description": "o", "content": obj{"a/b": obj{"schema": obj{"$ref": goRef("Tagged")}}}}}},
		{"parameters": arr{obj{"name": "q", "in": "query", "schema": obj{"$ref": goRef("Flag")}}, obj{"name": "id", "in": "path", "required": true, "schema": obj{"type": "string"}}}, "tags": arr{"t1", "t2"}, "security": arr{}, "servers": arr{obj{"url": "/g"}}, "responses": obj{"200": obj{"description": "other", "content": obj{"a/b": obj{}}}, "default": obj{"description": "e", "content": obj{"text/plain": obj{"schema": obj{"$ref": goRef("Real")}}}}}},
		{"summary": "response without content", "responses": obj{"503": obj{"description": "e"}}},
	}
	patterns := []string{"*", "get:*", "/o/*", "POST:/o/{id}", "/p"}
	defs := map[string]obj{}
	for i := 0; i < m.N(1, 2); i++ {
		if c := x.Choose(len(patterns)+1, "pattern"); c > 0 {
			k := x.Choose(len(ops), "operation")
			defs[patterns[c-1]] = ops[k]
			what += fmt.Sprintf(" %s:%d", patterns[c-1], k)
		}
	}
	exports := x.Choose(2, "exports")
	var opts []oapi.Option
	var r spec.OpenAPI
	must(json.Unmarshal([]byte(m.JS(root)), &r))
	if len(root) > 0 {
		opts = append(opts, oapi.WithRootSchema(r))
	}
	if len(defs) > 0 {
		var d map[string]spec.Operation
		must(json.Unmarshal([]byte(m.JS(defs)), &d))
		opts = append(opts, oapi.WithDefOps(d))
	}
	pp := program(exports)
	pp[0].Files["oapi.json"] = m.JS(doc)
	x.Case("root and default operations:%s, exports %d", what, exports)
	judge(x, pp[0].Files["oapi.json"], pp, opts...)
}

func main() {
	m.Main(m.Check{
		ID: "C25", Level: "model_checking",
		Init: func(string) { world = m.NewWorld() },
		Assume: []string{
			"the validator knows what the text of OpenAPI 3.0.3 says about fields, their kinds and the targets of references, not the syntax of addresses, mails and expressions",
		},
		Spaces: []m.Space{
			{Name: "places", Bound: -1, Rule: fmt.Sprintf("%d places of schemas in a document with every kind of object x within up to 7 (quick 4) other schemas x %d Go types x 2 (thorough 4) sets of exports", len(slots()), len(types)), Run: places},
			{Name: "everywhere", Bound: -1, Rule: "every place refers to a type: same or each nth, within 7 other schemas x 4 sets of exports", Run: everywhere},
			{Name: "split", Bound: -1, Rule: "the sections, components or paths of a document in one, the other (up to 2, thorough 4, of them) or both of two packages x types x exports", Run: split},
			{Name: "options", Bound: -1, Rule: "up to 1 (thorough 2) sections of a root document x up to 1 (2) default operations of 7 for 5 patterns x specification with or without all sections x exports", Run: options},
		},
	})
}
