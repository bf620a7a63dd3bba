//go:build go1.21

// C10: default operations.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA = "ex.com/a"

type obj = map[string]interface{}
type arr = []interface{}

var world *m.World

// reference ------------------------------------------------------------------

// fill adds to dst what it lacks of src.
func fill(dst, src obj) {
	for k, v := range src {
		d, ok := dst[k]
		if !ok {
			dst[k] = f.Deep(v)
			continue
		}
		dm, ok1 := d.(obj)
		sm, ok2 := v.(obj)
		if ok1 && ok2 {
			fill(dm, sm)
		}
	}
}

// match tells if the pattern describes the route.
func match(pattern, method, path string) bool {
	if i := strings.Index(pattern, ":"); i > 0 {
		switch p := strings.ToLower(pattern[:i]); p {
		case "get", "put", "post", "delete", "options", "head", "patch", "trace", "lock", "connect":
			if p != strings.ToLower(method) {
				return false
			}
			pattern = pattern[i+1:]
		}
	}
	return reads(pattern, path)
}

func reads(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if reads(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if p[0] == '{' {
		if e := strings.IndexByte(p, '}'); e > 2 && variable(p[1:e]) {
			for i := 1; i <= len(s) && s[i-1] != '/'; i++ {
				if reads(p[e+1:], s[i:]) {
					return true
				}
			}
			return false
		}
	}
	return s != "" && s[0] == p[0] && reads(p[1:], s[1:])
}

func variable(n string) bool {
	for i, c := range n {
		if !(c >= 'a' && c <= 'z' || i > 0 && (c >= 'A' && c <= 'Z' || c >= '0' && c <= '9')) {
			return false
		}
	}
	return true
}

// permute calls fn with every order of n things until it returns true.
func permute(n int, fn func([]int) bool) bool {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n > 6 {
		return fn(p) // only where the order makes no difference
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return fn(p)
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			if rec(k + 1) {
				return true
			}
			p[k], p[i] = p[i], p[k]
		}
		return false
	}
	return rec(0)
}

var methods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// ------------------------------------------------------------------------------

type def struct {
	pattern string
	op      obj
}

func run(x *m.X, doc obj, defs []def) {
	opts := map[string]spec.Operation{}
	for _, d := range defs {
		var o spec.Operation
		if err := json.Unmarshal([]byte(m.JS(d.op)), &o); err != nil {
			x.Fail("config", "%v", err)
		}
		opts[d.pattern] = o
	}
	dir := world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": "package a\ntype T struct { X int }\n", "oapi.yaml": m.JS(doc)}})
	r := f.Scan(dir, oapi.WithDefOps(opts))
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	// every operation has to be filled in some order of the matching defaults,
	// everything else is as written
	rest := f.Deep(interface{}(doc)).(obj)
	got := f.Deep(interface{}(r.Doc)).(obj)
	changed := 0
	wp, _ := rest["paths"].(obj)
	gp, _ := got["paths"].(obj)
	for path, it := range wp {
		item, ok := it.(obj)
		gitem, ok2 := gp[path].(obj)
		if !ok || !ok2 || strings.HasPrefix(path, "x-") {
			continue
		}
		for _, k := range m.SortedKeys(item) {
			if !methods[strings.ToLower(k)] {
				continue
			}
			var ds []def
			for _, d := range defs {
				if match(d.pattern, k, path) {
					ds = append(ds, d)
				}
			}
			if len(ds) == 0 {
				continue
			}
			changed++
			ok := permute(len(ds), func(p []int) bool {
				w, _ := f.Deep(item[k]).(obj)
				if w == nil {
					w = obj{}
				}
				for _, i := range p {
					fill(w, ds[i].op)
				}
				return (&f.Env{}).MatchTree(gitem[k], resolveT(w)) == nil
			})
			if !ok {
				w, _ := f.Deep(item[k]).(obj)
				for _, d := range ds {
					fill(w, d.op)
				}
				x.Fail("operation", "%s %s with the defaults %v is %s, want %s", k, path, ds, m.JS(gitem[k]), m.JS(w))
			}
			delete(item, k)
			delete(gitem, k)
		}
	}
	x.Outcome("%d %s", changed, r.JSON)
	if !reflect.DeepEqual(interface{}(got), interface{}(rest)) {
		x.Fail("other", "outside of the operations that match: got %s, want %s", m.JS(got), m.JS(rest))
	}
}

var typT = &f.Type{K: f.Named, Pkg: pkgA, Name: "T", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: &f.Type{K: f.Basic, Text: "int"}}}}}

func resolveT(v interface{}) interface{} {
	switch t := v.(type) {
	case obj:
		if s, _ := t["$ref"].(string); strings.HasPrefix(s, "go://") {
			return &f.RefTo{T: typT}
		}
		for k := range t {
			t[k] = resolveT(t[k])
		}
	case arr:
		for i := range t {
			t[i] = resolveT(t[i])
		}
	}
	return v
}

func base(paths obj) obj {
	return obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": paths}
}

// overlap: one operation and one default, every kind of overlap.
func overlap(x *m.X) {
	type spot struct {
		path     []interface{}
		def      interface{}
		other    []interface{} // what the operation states
		skipnull bool
	}
	spots := []spot{
		{path: []interface{}{"summary"}, def: "default", other: []interface{}{"own", "", obj{"a": "b"}}},
		{path: []interface{}{"tags"}, def: arr{"d1", "d2"}, other: []interface{}{arr{"o"}, arr{}, "text"}},
		{path: []interface{}{"responses", "500"}, def: obj{"description": "dd", "content": obj{"m/x.y": obj{"schema": obj{"type": "string", "enum": arr{1., "a"}}}}},
			other: []interface{}{obj{"description": "own"}, obj{"content": obj{"m/x.y": obj{"schema": obj{"type": "integer"}}, "n": obj{}}}, obj{"content": arr{}, "x-a": nil}, obj{"$ref": "#/components/responses/R"}}},
		{path: []interface{}{"responses", "default.~1/"}, def: obj{"description": "dx", "content": obj{"k": obj{"schema": obj{"$ref": "go://ex.com/a#/T"}}}}, other: []interface{}{obj{}, nil}},
		{path: []interface{}{"externalDocs"}, def: obj{"url": "http://d", "description": "e"}, other: []interface{}{obj{"url": "http://own"}, obj{"x": obj{"$ref": "go://#/T"}}}},
		{path: []interface{}{"deprecated"}, def: true, other: []interface{}{false, nil}},
		{path: []interface{}{"parameters"}, def: arr{obj{"name": "p", "in": "query", "explode": false, "schema": obj{"type": "string"}}}, other: []interface{}{arr{obj{"name": "q", "in": "header"}}}},
		{path: []interface{}{"x-own"}, other: []interface{}{obj{"description": "o"}}},
		{path: []interface{}{"security"}, def: arr{obj{"key": arr{"s"}}}, other: []interface{}{arr{}, arr{obj{}}}},
	}
	op, d := obj{}, obj{}
	n := x.Choose(len(spots), "first")
	k := x.Choose(len(spots), "second")
	if k <= n {
		x.Prune()
	}
	third := -1
	if m.Thorough() {
		if third = x.Choose(len(spots), "third"); third <= k {
			x.Prune()
		}
	}
	for i, s := range spots {
		if i != n && i != k && i != third {
			continue
		}
		if s.def != nil && x.Bool("default") {
			f.Put(interface{}(d), f.Deep(s.def), s.path...)
		}
		c := x.Choose(len(s.other)+2, "own")
		switch {
		case c == 1 && s.def != nil:
			f.Put(interface{}(op), f.Deep(s.def), s.path...)
		case c > 1:
			f.Put(interface{}(op), f.Deep(s.other[c-2]), s.path...)
		}
	}
	if _, ok := op["responses"]; !ok && x.Bool("responses of another shape") {
		op["responses"] = m.Pick(x, "shape", interface{}(nil), interface{}("x"), interface{}(arr{obj{}}), interface{}(obj{}))
	}
	doc := base(obj{"/a": obj{"get": op, "description": "d"}})
	x.Case("operation %s default %s", m.JS(op), m.JS(d))
	run(x, doc, []def{{"*", d}})
}

var patterns = []string{"*", "/a", "/a/{id}", "get:/a", "POST:*", "/a*", "/{x1}", "/a/{id}/*", "get:/a/{iD}", "/a.b", "/aXb", "lock:*", "", "/A", "/*/{id}", "nope:/a", "/a/{ID}", "/a/{id}x", "Get:/{v1}.b", "/"}

func pathsAndPatterns(x *m.X) {
	all := []string{"/a", "/a/{id}", "/a.b", "/", "/a/b/c", "/aXb", "/a/{ID}"}
	i := x.Choose(len(all), "path")
	k := x.Choose(len(all)+1, "other path")
	if k <= i {
		x.Prune()
	}
	paths := obj{}
	for _, n := range []int{i, k} {
		if n == len(all) {
			continue
		}
		item := obj{}
		mask := 1 + x.Choose(3, "methods")
		if mask&1 != 0 {
			item["get"] = obj{"summary": "own " + all[n]}
		}
		if mask&2 != 0 {
			item["post"] = obj{"responses": obj{"200": obj{"description": "own"}}}
		}
		paths[all[n]] = item
	}
	p := x.Choose(len(patterns), "pattern")
	q := x.Choose(len(patterns)+1, "other pattern")
	if q <= p {
		x.Prune()
	}
	if !m.Thorough() && q < len(patterns) && k < len(all) && (i+k+p+q)%3 != 0 {
		x.Prune() // quick: a third of the pairs of pairs
	}
	defs := []def{{patterns[p], obj{"summary": "d1", "description": "d1"}}}
	if q < len(patterns) {
		defs = append(defs, def{patterns[q], obj{"responses": obj{"500": obj{"description": "d2", "content": obj{"m": obj{}}}}, "operationId": "d2", "summary": "d2"}})
	}
	x.Case("paths %s, patterns %q", m.JS(paths), defs)
	run(x, base(paths), defs)
}

// texts: any text as path against any text as pattern
func texts(x *m.X) {
	chars := []string{"a", "A", "/", ".", "%", " ", "{", "~", "*", "?", ":", "é", "}", "\\", "#", "+"}
	chars = chars[:m.N(9, len(chars))]
	text := func(what string) (s string) {
		for i := 0; i < 2; i++ {
			c := x.Choose(len(chars)+1, what)
			if c == 0 {
				break
			}
			s += chars[c-1]
		}
		return
	}
	path := "/" + text("path")
	pattern := "/" + text("pattern")
	if !x.Bool("slash in front") {
		path = "b" + path
		pattern = "b" + pattern
	} else if x.Bool("method") {
		pattern = "get:" + pattern
	}
	x.Case("path %q, pattern %q", path, pattern)
	run(x, base(obj{path: obj{"get": obj{"summary": "own"}}}), []def{{pattern, obj{"description": "d"}}})
}

// places which are no operations
func places(x *m.X) {
	item := obj{"get": obj{"summary": "own"}}
	nested := obj{"get": obj{"x": "y"}, "post": obj{}}
	spots := []struct {
		path []interface{}
		v    interface{}
	}{
		{[]interface{}{"summary"}, "s"},
		{[]interface{}{"description"}, ""},
		{[]interface{}{"parameters"}, arr{obj{"name": "n", "in": "query"}}},
		{[]interface{}{"servers"}, arr{}},
		{[]interface{}{"x-get"}, nested},
		{[]interface{}{"x"}, nested},
		{[]interface{}{"gets"}, obj{}},
		{[]interface{}{"connect"}, obj{}},
		{[]interface{}{"$ref"}, "#/x"},
		{[]interface{}{"GET"}, obj{"description": "upper"}},
		{[]interface{}{"Trace"}, obj{}},
		{[]interface{}{"delete"}, nil},
		{[]interface{}{"get", "callbacks"}, obj{"cb": obj{"{$url}": nested}}},
		{[]interface{}{"get", "get"}, obj{"get": obj{}}},
		{[]interface{}{"get", "x"}, obj{"/a": nested}},
		{[]interface{}{""}, obj{}},
	}
	a := x.Choose(len(spots), "spot")
	b := x.Choose(len(spots), "other spot")
	f.Put(interface{}(item), f.Deep(spots[a].v), spots[a].path...)
	if b != a {
		f.Put(interface{}(item), f.Deep(spots[b].v), spots[b].path...)
	}
	name := m.Pick(x, "path", "/a", "/a.b~1", "", "/x-a", "get")
	doc := base(obj{name: item})
	switch x.Choose(7, "elsewhere") {
	case 1:
		doc["components"] = obj{"callbacks": obj{"get": nested}, "schemas": obj{"get": obj{"type": "object"}}, "pathItems": obj{"/a": nested}}
	case 2:
		doc["x-paths"] = obj{"/a": nested}
	case 3:
		doc["paths"].(obj)["x-ext"] = nested
	case 4:
		doc["paths"].(obj)["x-ext"] = "text"
	case 5:
		doc["webhooks"] = obj{"get": nested}
		doc["get"] = obj{"get": obj{}}
	case 6:
		doc["paths"].(obj)["x-list"] = arr{nested}
	}
	pat := m.Pick(x, "pattern", "*", "/a*", "trace:*")
	d := def{pat, obj{"summary": "d", "tags": arr{"t"}, "responses": obj{"200": obj{"description": "r", "content": obj{"m": obj{}}}}}}
	x.Case("%s pattern %q", m.JS(doc), pat)
	run(x, doc, []def{d})
}

// every: all methods, and keys which nearly are
func every(x *m.X) {
	keys := append(m.SortedKeys(methods), "connect", "lock", "gets", "pat", "query", "x-put", "get ")
	letters := []func(string) string{strings.ToLower, strings.ToUpper, func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }}
	k := letters[x.Choose(3, "case")](keys[x.Choose(len(keys), "key")])
	item := obj{k: obj{"summary": "own"}}
	if other := x.Choose(len(methods)+1, "other"); other > 0 {
		o := m.SortedKeys(methods)[other-1]
		if o == strings.ToLower(k) {
			x.Prune()
		}
		item[o] = obj{"description": "other"}
	}
	pat := "/a"
	if c := x.Choose(len(keys)+2, "prefix"); c == 1 {
		pat = "*"
	} else if c > 1 {
		// keys with blanks and dashes are no methods of a pattern
		if n := keys[c-2]; methods[n] {
			pat = letters[x.Choose(2, "case of prefix")](n) + m.Pick(x, "separator", ":", " ") + "/a"
		} else {
			x.Prune()
		}
	}
	x.Case("%s pattern %q", m.JS(item), pat)
	run(x, base(obj{"/a": item}), []def{{pat, obj{"description": "d", "tags": arr{"t"}}}})
}

// many: many paths and many defaults, none of which says what another says
func many(x *m.X) {
	paths := m.Pick(x, "paths", 1, 9, 17, 65, m.N(129, 257))
	n := m.Pick(x, "defaults", 1, 9, 17, m.N(33, 129))
	form := m.Pick(x, "patterns", "of one path", "of all paths", "of some paths", "of a method", "all forms")
	per := m.Pick(x, "methods", 1, 3, 8)
	if paths*per*n > m.N(2500, 100000) {
		x.Prune()
	}
	own := x.Bool("own responses")
	long := m.Pick(x, "segments", 1, 20)
	docPaths := obj{}
	name := func(i int) string { return strings.Repeat("/s", long) + fmt.Sprintf("/p%d", i) }
	for i := 0; i < paths; i++ {
		item := obj{}
		for _, k := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}[:per] {
			item[k] = obj{"summary": fmt.Sprint(i)}
			if own {
				item[k].(obj)["responses"] = obj{"200": obj{"description": "own"}}
			}
		}
		docPaths[name(i)] = item
	}
	var defs []def
	for j := 0; j < n; j++ {
		r := obj{"responses": obj{fmt.Sprint(100 + j): obj{"description": fmt.Sprint(j), "content": obj{"a": obj{"schema": obj{"$ref": "go://ex.com/a#/T"}}}}}}
		switch k := j; {
		case form == "of one path" || form == "all forms" && j%4 == 0:
			defs = append(defs, def{name(j), r})
		case form == "of all paths" || form == "all forms" && j%4 == 1:
			defs = append(defs, def{fmt.Sprintf("/{a%d}*", k), r})
		case form == "of some paths" || form == "all forms" && j%4 == 2:
			defs = append(defs, def{fmt.Sprintf("*/p%d*", j), r})
		default:
			defs = append(defs, def{fmt.Sprintf("%s:/{a%d}*", []string{"get", "PUT", "post"}[j%3], j), r})
		}
	}
	x.Case("%d paths of %d segments, %d methods, %d defaults, %s", paths, long, per, n, form)
	run(x, base(docPaths), defs)
}

func main() {
	m.Main(m.Check{
		ID: "C10", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"where several defaults state different values for the same place, any of them may be taken (C06 demands that it is always the same one)", "the objects of a configuration survive decoding (C20)"},
		Spaces: []m.Space{
			{Name: "overlap", Bound: -1, Rule: "all pairs (thorough: triples) of nine parts of an operation x absent, same, other or oddly shaped in the operation x absent or present in the default", Run: overlap},
			{Name: "patterns", Bound: -1, Rule: "up to two of 7 paths x sets of methods x up to two of 20 patterns (quick: a third of the pairs of two paths and two patterns)", Run: pathsAndPatterns},
			{Name: "texts", Bound: -1, Rule: "texts of up to 2 of 9 (thorough 16) characters as path x as pattern x begin x method prefix", Run: texts},
			{Name: "many", Bound: -1, Rule: "1 to 129 (257) paths of 2 or 21 segments with 1 to 8 methods x 1 to 33 (129) defaults for one, some or all paths or one method", Run: many},
			{Name: "methods", Bound: -1, Rule: "every method and 7 other keys, in three cases, beside every method x patterns for all, any or one of the methods", Run: every},
			{Name: "places", Bound: -1, Rule: "all pairs of 16 keys of a path item x path names x things elsewhere in the document x patterns", Run: places},
		},
	})
}
