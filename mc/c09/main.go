//go:build go1.21

// C09: root document.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA = "ex.com/a"

type obj = map[string]interface{}
type arr = []interface{}

var world *m.World

// reference ------------------------------------------------------------------

// fill adds to dst what it lacks of src.
func fill(dst, src obj) {
	for k, v := range src {
		d, ok := dst[k]
		if !ok {
			dst[k] = f.Deep(v)
			continue
		}
		dm, ok1 := d.(obj)
		sm, ok2 := v.(obj)
		if ok1 && ok2 {
			fill(dm, sm)
		}
	}
}

// union adds src to dst; differ tells that a place holds different values,
// same that a place holds the same value in both.
func union(dst, src obj) (differ, same bool) {
	for k, v := range src {
		d, ok := dst[k]
		if !ok {
			dst[k] = f.Deep(v)
			continue
		}
		dm, ok1 := d.(obj)
		sm, ok2 := v.(obj)
		switch {
		case ok1 && ok2:
			a, b := union(dm, sm)
			differ, same = differ || a, same || b
		case reflect.DeepEqual(d, v):
			same = true
		default:
			differ = true
		}
	}
	return
}

// override sets in dst what src gives.
func override(dst, src obj) {
	for k, v := range src {
		dm, ok1 := dst[k].(obj)
		sm, ok2 := v.(obj)
		switch {
		case ok1 && ok2:
			override(dm, sm)
		case ok2:
			c := obj{}
			override(c, sm)
			dst[k] = c
		case v != "":
			dst[k] = f.Deep(v)
		}
	}
}

type sect int

const (
	sInfo sect = iota
	sStrict
	sKeep
	sList
)

var kinds = map[string]sect{"info": sInfo, "components": sStrict, "paths": sKeep, "externalDocs": sKeep, "servers": sList, "security": sList, "tags": sList}

// merge is the expected document; fails: the scan has to fail, may: it may.
func merge(doc, root obj) (want obj, fails, may bool) {
	want = f.Deep(interface{}(doc)).(obj)
	for k, r := range root {
		kind, ok := kinds[k]
		if !ok {
			continue // openapi: the specification decides
		}
		d, has := want[k]
		if !has || d == nil {
			if kind == sInfo {
				c := obj{}
				override(c, r.(obj))
				want[k] = c
			} else {
				want[k] = f.Deep(r)
			}
			continue
		}
		dm, ok1 := d.(obj)
		rm, ok2 := r.(obj)
		switch {
		case kind == sInfo && ok1:
			override(dm, rm)
		case kind == sInfo:
			want[k] = f.Deep(r)
			may = true
		case kind == sStrict && ok1:
			a, b := union(dm, rm)
			fails, may = fails || a, may || b
		case kind == sStrict:
			fails = true
		case kind == sKeep && ok1 && ok2:
			fill(dm, rm)
		}
	}
	return
}

// required fields are always written, even if they are empty
func dropEmpty(got, want interface{}) {
	g, ok1 := got.(obj)
	w, ok2 := want.(obj)
	if !ok1 || !ok2 {
		return
	}
	for _, k := range []string{"title", "version", "name"} {
		if _, ok := w[k]; !ok && g[k] == "" {
			delete(g, k)
		}
	}
	for k := range g {
		dropEmpty(g[k], w[k])
	}
}

// ------------------------------------------------------------------------------

func run(x *m.X, doc, root obj) {
	var o spec.OpenAPI
	if err := json.Unmarshal([]byte(m.JS(root)), &o); err != nil {
		x.Fail("config", "%v", err)
	}
	want, fails, may := merge(doc, root)
	x.Case("document %s root %s", m.JS(doc), m.JS(root))
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": "package a\n", "oapi.yaml": m.JS(doc)}}), oapi.WithRootSchema(o))
	x.Outcome("%v %s", r.Err != nil, r.JSON)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		if !fails && !may {
			x.Fail("error", "%v", r.Err)
		}
		return
	}
	if fails {
		x.Fail("accepted", "components collide but the scan gives %s", r.JSON)
	}
	got := f.Deep(interface{}(r.Doc)).(obj)
	dropEmpty(got["info"], want["info"])
	if !reflect.DeepEqual(interface{}(got), interface{}(want)) {
		x.Fail("document", "got %s, want %s", m.JS(got), m.JS(want))
	}
}

// values a section can have in the document (first is absent) and in the root
var inDoc = map[string]arr{
	"info":         {nil, obj{}, obj{"title": "t", "version": "1"}, obj{"title": "t", "version": "1", "description": "own", "contact": obj{"name": "n", "x-c": 1.}, "x-i": "i"}, obj{"contact": "text", "title": 1.}, "null"},
	"components":   {nil, obj{}, obj{"schemas": obj{"A": obj{"type": "string"}}}, obj{"schemas": obj{"A": obj{"type": "object", "properties": obj{"a": obj{"type": "string"}}}, "B.c": obj{}}, "x-y": 1.}, obj{"responses": obj{"A": obj{"description": "d"}}, "schemas": nil}, obj{"schemas": obj{"A": obj{"enum": arr{"x"}}}}, "null"},
	"paths":        {nil, obj{}, obj{"/a": obj{"get": obj{"summary": "own"}}}, obj{"/a": obj{"get": obj{"responses": obj{"200": obj{"description": "own"}}, "tags": arr{}}}, "/z.y": obj{}}, "null"},
	"externalDocs": {nil, obj{}, obj{"url": "own"}, obj{"description": "own"}, obj{"url": "own", "description": ""}, "null"},
	"servers":      {nil, arr{}, arr{obj{"url": "own"}}, arr{obj{"url": "own1"}, obj{"url": "own2", "description": "o"}}, "null"},
	"security":     {nil, arr{}, arr{obj{"own": arr{"s"}}}, arr{obj{}}, "null"},
	"tags":         {nil, arr{}, arr{obj{"name": "own"}}, arr{obj{"name": "a"}, obj{"name": "b", "description": "o"}}, "null"},
}

var inRoot = map[string]arr{
	"info":         {nil, obj{"title": "root", "version": "2"}, obj{"title": "", "version": "", "description": "rd", "contact": obj{"name": "rn", "email": "e"}}, obj{"title": "rt", "version": "", "license": obj{"name": "MIT", "url": "u"}, "termsOfService": "tos"}, obj{"contact": obj{"name": "", "url": "u"}}},
	"components":   {nil, obj{"schemas": obj{"A": obj{"type": "string"}}}, obj{"schemas": obj{"A": obj{"type": "integer"}}}, obj{"schemas": obj{"B.c": obj{"type": "object", "properties": obj{"a": obj{"type": "string"}}}, "C": obj{"type": "boolean"}}}, obj{"schemas": obj{"A": obj{"description": "more"}}}, obj{"responses": obj{"A": obj{"description": "d2", "content": obj{"m": obj{}}}}, "securitySchemes": obj{"K": obj{"type": "apiKey", "name": "k", "in": "header"}}}, obj{"schemas": obj{"A": obj{"enum": arr{"x", "y"}}}}},
	"paths":        {nil, obj{"/a": obj{"get": obj{"summary": "root", "description": "rd"}}}, obj{"/a": obj{"get": obj{"responses": obj{"200": obj{"description": "rd", "content": obj{"m": obj{}}}, "500": obj{"description": "re", "content": obj{"m": obj{}}}}, "tags": arr{"r"}}, "put": obj{"summary": "r"}}}, obj{"/b": obj{"post": obj{"operationId": "r"}}, "/z.y": obj{"get": obj{"summary": "z"}}}},
	"externalDocs": {nil, obj{"url": "root", "description": "root"}, obj{"description": "root"}},
	"servers":      {nil, arr{obj{"url": "root"}}, arr{obj{"url": "b"}, obj{"url": "a", "description": "r", "variables": obj{"v": obj{"default": "x"}}}}},
	"security":     {nil, arr{obj{"root": arr{}}}, arr{obj{"r1": arr{"x"}}, obj{"r2": arr{"y"}}}},
	"tags":         {nil, arr{obj{"name": "root"}}, arr{obj{"name": "z"}, obj{"name": "a", "description": "r"}}},
}

func set(o obj, k string, v interface{}) {
	if v == "null" {
		o[k] = nil
	} else if v != nil {
		o[k] = f.Deep(v)
	}
}

// sections enumerates n sections at once; the others are fixed.
func sections(n int, full bool) func(*m.X) {
	return func(x *m.X) {
		names := m.SortedKeys(kinds)
		doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "x-own": obj{"info": 1.}}
		root := obj{}
		switch x.Choose(3, "openapi of root") {
		case 1:
			root["openapi"] = "3.0.0"
		case 2:
			root["openapi"] = "3.0.3"
		}
		last := -1
		for i := 0; i < n; i++ {
			c := x.Choose(len(names), "section")
			if c <= last {
				x.Prune()
			}
			last = c
			k := names[c]
			d := inDoc[k][x.Choose(len(inDoc[k]), "in the document")]
			r := inRoot[k][x.Choose(len(inRoot[k]), "in the root")]
			delete(doc, k)
			set(doc, k, d)
			set(root, k, r)
		}
		if doc["paths"] == nil && root["paths"] == nil {
			x.Prune() // not a document
		}
		if full && x.Bool("other sections in the root") {
			for _, k := range names {
				if _, ok := root[k]; !ok && doc[k] == nil {
					root[k] = f.Deep(inRoot[k][1])
				}
			}
		}
		run(x, doc, root)
	}
}

// infos enumerates every field of the information section.
func infos(x *m.X) {
	doc := obj{"openapi": "3.0.3", "paths": obj{}}
	di, ri := obj{}, obj{}
	for _, k := range []string{"title", "version", "description", "termsOfService"} {
		set(di, k, m.Pick(x, k, nil, interface{}("d-"+k), interface{}("")))
		set(ri, k, m.Pick(x, k+" of root", nil, interface{}("r-"+k), interface{}("")))
	}
	set(di, "contact", m.Pick(x, "contact", nil, interface{}(obj{"name": "dn"}), interface{}(obj{"url": "du", "x-k": "v"})))
	set(ri, "contact", m.Pick(x, "contact of root", nil, interface{}(obj{"name": "rn", "url": "ru"})))
	doc["info"] = di
	run(x, doc, obj{"info": ri})
}

// shapes puts values of the wrong kind into the document.
func shapes(x *m.X) {
	names := m.SortedKeys(kinds)
	k := names[x.Choose(len(names), "section")]
	v := m.Pick[interface{}](x, "value", interface{}("text"), 1., true, obj{}, arr{}, obj{"a": obj{"b": 1.}}, arr{nil}, arr{arr{}}, obj{"": nil}, 0., false, "")
	r := inRoot[k][1+x.Choose(len(inRoot[k])-1, "in the root")]
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	doc[k] = v
	if _, ok := v.(obj); k == "paths" && !ok {
		x.Prune()
	}
	if w, ok := v.(obj); ok && k == "paths" && w[""] == nil && len(w) == 1 {
		if _, has := w[""]; has {
			x.Prune() // null is no path item
		}
	}
	root := obj{k: f.Deep(r)}
	run(x, doc, root)
}

// elements of lists; telling ones: they look like defaults or like nothing
var elements = map[string]arr{
	"servers":  {obj{"url": "/"}, obj{"url": ""}, obj{"url": "http://a"}, obj{"url": "http://a", "description": "d"}, obj{"url": "/", "variables": obj{"v": obj{"default": ""}}}},
	"security": {obj{}, obj{"a": arr{}}, obj{"a": arr{"s"}}, obj{"a": arr{}, "b": arr{}}, obj{"": arr{}}},
	"tags":     {obj{"name": "default"}, obj{"name": ""}, obj{"name": "a"}, obj{"name": "a", "description": "d"}, obj{"name": "A"}},
}

// lists gives all short lists to both sides.
func lists(x *m.X) {
	k := m.Pick(x, "section", "servers", "security", "tags")
	list := func(max int, side string) arr {
		var a arr
		for n := x.Choose(max+1, side); n > 0; n-- {
			a = append(a, f.Deep(elements[k][x.Choose(len(elements[k]), "element")]))
		}
		return a
	}
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	root := obj{}
	if l := list(m.N(2, 3), "elements in the document"); l != nil {
		doc[k] = l
	}
	if l := list(2, "elements in the root"); l != nil {
		root[k] = l
	}
	run(x, doc, root)
}

// many makes sections large.
func many(x *m.X) {
	sizes := []int{0, 1, 9, 10, 11, 17, 33, 65, 100, 129}
	if m.Thorough() {
		sizes = append(sizes, 257, 513, 1025)
	}
	k := m.Pick(x, "section", "servers", "security", "tags", "components", "paths", "x")
	nd, nr := m.Pick(x, "size in the document", sizes...), m.Pick(x, "size in the root", sizes...)
	name := m.Pick(x, "names", "apart", "shared")
	side := func(n int, s string) interface{} {
		own := s
		if name == "shared" {
			own = ""
		}
		switch k {
		case "components":
			c := obj{}
			for i := 0; i < n; i++ {
				c[fmt.Sprintf("N%s%d", own, i)] = obj{"type": "string", "description": s}
			}
			return obj{"schemas": c}
		case "paths":
			c := obj{}
			for i := 0; i < n; i++ {
				c[fmt.Sprintf("/%s%d", own, i)] = obj{"get": obj{"description": s}}
			}
			return c
		case "x":
			c := obj{"title": "t", "version": "v"}
			if s == "root" {
				c["description"] = s // a configuration knows no extensions
				return c
			}
			for i := 0; i < n; i++ {
				c[fmt.Sprintf("x-%s%d", own, i)] = s
			}
			return c
		}
		l := arr{}
		for i := 0; i < n; i++ {
			switch k {
			case "servers":
				l = append(l, obj{"url": fmt.Sprintf("%s/%d", own, i), "description": s})
			case "security":
				l = append(l, obj{fmt.Sprintf("%s%d", own, i): arr{s}})
			case "tags":
				l = append(l, obj{"name": fmt.Sprintf("%s%d", own, i), "description": s})
			}
		}
		return l
	}
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	root := obj{}
	key := k
	if k == "x" {
		key = "info"
	}
	if nd > 0 {
		doc[key] = side(nd, "doc")
	}
	if nr > 0 {
		root[key] = side(nr, "root")
	}
	run(x, doc, root)
}

func main() {
	m.Main(m.Check{
		ID: "C09", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the objects of a configuration survive decoding (C20)", "required texts of the information section (title, version, name) may be written as empty text when nobody gives them", "a component defined in the same way in both may be refused or accepted"},
		Spaces: []m.Space{
			{Name: "single", Bound: -1, Rule: "every section: all values in the document x all values in the root x version of the root x other sections in the root", Run: sections(1, true)},
			{Name: "pairs", Bound: -1, Rule: "all pairs of sections x all values in the document x all values in the root", Run: sections(2, false)},
			{Name: "info", Bound: -1, Rule: "every field of the information section absent, given or empty on both sides", Run: infos},
			{Name: "shapes", Bound: -1, Rule: "values of the wrong kind in the document x values in the root", Run: shapes},
			{Name: "lists", Bound: -1, Rule: "lists of up to 2 (3) of 5 telling elements in the document x lists of up to 2 in the root x servers, security, tags", Run: lists},
			{Name: "many", Bound: -1, Rule: "sections of 0 to 129 (1025) entries on both sides, with names apart and shared", Run: many},
			{Name: "triples", Bound: -1, ThoroughOnly: true, Rule: "all triples of sections", Run: sections(3, false)},
		},
	})
}
