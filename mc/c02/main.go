//go:build go1.21

// C02: object properties of structs.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA = "ex.com/a"

var world *m.World

/* ------------------------------------------------ which fields there are */

// decl is a struct declaration, fld one of its fields.
type decl struct {
	name string
	flds []fld
}

type fld struct {
	name     string // Go name, type name when embedded
	embedded bool
	ptr      bool
	typ      string // Go type when it is not a struct
	st       *decl  // struct type
	json     string // content of the json tag, "" for none
	oapi     string
}

func (a fld) src() string {
	t := a.typ
	if a.st != nil {
		t = a.st.name
	}
	if a.ptr {
		t = "*" + t
	}
	var tags []string
	if a.json != "" {
		tags = append(tags, fmt.Sprintf("json:%q", a.json))
	}
	if a.oapi != "" {
		tags = append(tags, fmt.Sprintf("oapi:%q", a.oapi))
	}
	s := t
	if !a.embedded {
		s = a.name + " " + t
	}
	if len(tags) > 0 {
		s += " `" + strings.Join(tags, " ") + "`"
	}
	return s
}

func (d *decl) src(done map[string]bool) string {
	if done[d.name] {
		return ""
	}
	done[d.name] = true
	s := "type " + d.name + " struct {\n"
	rest := ""
	for _, a := range d.flds {
		s += "\t" + a.src() + "\n"
		if a.st != nil {
			rest += a.st.src(done)
		}
	}
	return s + "}\n" + rest
}

// prop is a candidate property.
type prop struct {
	name   string
	depth  int
	tagged bool
	fld    fld
	req    bool
}

func exported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

// collect applies the rules of encoding/json, with the inline option of both
// tags and names of the oapi tag on top.
func collect(d *decl, depth int, onPath map[*decl]bool, out *[]prop) {
	if onPath[d] {
		return
	}
	onPath[d] = true
	defer delete(onPath, d)
	for _, a := range d.flds {
		jn := strings.Split(a.json, ",")
		on := strings.Split(a.oapi, ",")
		if a.json == "-" || on[0] == "-" {
			continue
		}
		name, tagged := "", false
		if jn[0] != "" {
			name, tagged = jn[0], true
		}
		if on[0] != "" {
			name, tagged = on[0], true
		}
		inline := a.embedded && !tagged && a.st != nil
		for _, o := range append(append([]string{}, jn[1:]...), on[1:]...) {
			switch o {
			case "inline", "inline:true":
				inline = a.st != nil
			case "inline:false":
				inline = false
			}
		}
		if !exported(a.name) && !a.embedded {
			continue
		}
		if inline {
			collect(a.st, depth+1, onPath, out)
			continue
		}
		if !exported(a.name) {
			continue
		}
		if !tagged {
			name = a.name
		}
		req := false
		for _, o := range on[1:] {
			req = req || o == "required"
		}
		*out = append(*out, prop{name: name, depth: depth, tagged: tagged, fld: a, req: req})
	}
}

// dominant resolves conflicts like encoding/json.
func dominant(ps []prop) (out []prop) {
	by := map[string][]prop{}
	for _, p := range ps {
		by[p.name] = append(by[p.name], p)
	}
	for _, p := range ps {
		var best []prop
		for _, q := range by[p.name] {
			if len(best) == 0 || q.depth < best[0].depth || (q.depth == best[0].depth && q.tagged && !best[0].tagged) {
				best = []prop{q}
			} else if q.depth == best[0].depth && q.tagged == best[0].tagged {
				best = append(best, q)
			}
		}
		if len(best) == 1 && reflect.DeepEqual(best[0], p) {
			out = append(out, p)
		}
	}
	return
}

func schemaOf(a fld) interface{} {
	if a.st != nil {
		s := object(a.st)
		if a.ptr {
			return map[string]interface{}{"anyOf": []interface{}{s, map[string]interface{}{"type": "object", "nullable": true, "enum": []interface{}{nil}}}}
		}
		return s
	}
	t := a.typ
	switch t {
	case "I":
		t = "int16"
	case "i":
		t = "uint16"
	}
	for _, o := range strings.Split(a.json, ",")[1:] {
		if o == "string" && quotable(t) {
			t = "string"
		}
	}
	out := map[string]interface{}{}
	for k, v := range f.Basics[t] {
		out[k] = v
	}
	if a.ptr {
		out["nullable"] = true
	}
	return out
}

func object(d *decl) interface{} {
	var ps []prop
	collect(d, 0, map[*decl]bool{}, &ps)
	ps = dominant(ps)
	out := map[string]interface{}{"type": "object"}
	props := map[string]interface{}{}
	var req []interface{}
	for _, p := range ps {
		props[p.name] = schemaOf(p.fld)
		if p.req {
			req = append(req, p.name)
		}
	}
	if len(props) > 0 {
		out["properties"] = props
	}
	if len(req) > 0 {
		out["required"] = req
	}
	return out
}

func scanDecl(x *m.X, src string) map[string]interface{} {
	src = "package a\n" + src
	dir := world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"a.go": src, "oapi.yaml": f.Spec("{$ref: 'go://ex.com/a#/T'}")}})
	x.Case("%s", strings.ReplaceAll(strings.ReplaceAll(src, "\n", " "), "\t", ""))
	r := f.Scan(dir)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "scan failed: %v", r.Err)
	}
	s, _ := f.SpecSchema(r.Doc, 0).(map[string]interface{})
	return s
}

func sortReq(s interface{}) {
	switch v := s.(type) {
	case map[string]interface{}:
		if r, ok := v["required"].([]interface{}); ok {
			sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
		}
		for _, e := range v {
			sortReq(e)
		}
	case []interface{}:
		for _, e := range v {
			sortReq(e)
		}
	}
}

func checkDecl(x *m.X, d *decl) {
	src := d.src(map[string]bool{})
	for n, t := range map[string]string{"I": "int16", "i": "uint16"} {
		if strings.Contains(src, "\t"+n+"\n") || strings.Contains(src, "\t"+n+" `") || strings.Contains(src, "\t*"+n+"\n") {
			src += "type " + n + " " + t + "\n"
		}
	}
	got := scanDecl(x, src)
	x.Outcome("%s", m.JS(got))
	want := object(d)
	sortReq(want)
	sortReq(interface{}(got))
	if !reflect.DeepEqual(interface{}(got), want) {
		x.Fail("properties", "got %s\nwant %s", m.JS(got), m.JS(want))
	}
}

// tag alphabet for names
var jsonTags = []string{"", "A", "B", "n", "-", "-,", ",omitempty", "n,omitempty", ",string", "a.b", "n:m", "a b"}
var oapiTags = []string{"", "A", "n", "-", "m,required", ",required", ",deprecated:false", ",omitempty"}

func names(x *m.X) {
	d := &decl{name: "T"}
	nf := m.N(2, 3)
	for i, n := range []string{"A", "B", "C"}[:nf] {
		a := fld{name: n, typ: []string{"int", "string", "bool"}[i]}
		a.json = jsonTags[x.Choose(len(jsonTags), "json")]
		if i < 2 {
			a.oapi = oapiTags[x.Choose(len(oapiTags), "oapi")]
		}
		d.flds = append(d.flds, a)
	}
	if x.Bool("unexported") {
		d.flds = append(d.flds, fld{name: "a", typ: "chan int", json: "A"})
	}
	checkDecl(x, d)
}

// embedded structs with promotion and conflicts
func promotion(x *m.X) {
	d := &decl{name: "T"}
	switch x.Choose(4, "outer") {
	case 1:
		d.flds = append(d.flds, fld{name: "A", typ: "bool"})
	case 2:
		d.flds = append(d.flds, fld{name: "B", typ: "bool", json: "A"})
	case 3:
		d.flds = append(d.flds, fld{name: "C", typ: "bool", oapi: "A,required"})
	}
	for i := 1; i <= 2; i++ {
		kind := x.Choose(12, "embed")
		if kind == 0 {
			continue
		}
		e := &decl{name: fmt.Sprintf("E%d", i)}
		if kind == 3 || kind == 4 {
			e.name = fmt.Sprintf("e%d", i)
		}
		if kind < 10 {
			switch x.Choose(6, "content") {
			case 0:
				e.flds = []fld{{name: "A", typ: "int"}}
			case 1:
				e.flds = []fld{{name: "A", typ: "int", json: "A"}}
			case 2:
				e.flds = []fld{{name: "B", typ: "string", json: "A"}, {name: "C", typ: "int", oapi: "m,required"}}
			case 3:
				e.flds = []fld{{name: "a", typ: "string", json: "A"}, {name: "B", typ: "float64"}}
			case 4:
				in := &decl{name: fmt.Sprintf("G%d", i), flds: []fld{{name: "A", typ: "int64"}, {name: "D", typ: "int64", oapi: ",required"}}}
				e.flds = []fld{{name: in.name, embedded: true, st: in}, {name: "B", typ: "int"}}
			case 5:
				in := &decl{name: fmt.Sprintf("g%d", i), flds: []fld{{name: "A", typ: "int64", json: "A"}}}
				e.flds = []fld{{name: "A", typ: "string"}, {name: in.name, embedded: true, ptr: true, st: in}}
			}
		}
		a := fld{name: e.name, embedded: true, st: e}
		switch kind {
		case 2, 4:
			a.ptr = true
		case 5:
			a.json = "emb"
		case 6:
			a.json = "-"
		case 7:
			a.oapi = ",inline:false"
		case 8:
			a = fld{name: fmt.Sprintf("S%d", i), st: e, oapi: ",inline"}
		case 9:
			a = fld{name: fmt.Sprintf("S%d", i), st: e, ptr: true, json: "s"}
		case 10:
			if i == 2 {
				x.Prune()
			}
			a = fld{name: "I", embedded: true, typ: "I"}
		case 11:
			if i == 2 {
				x.Prune()
			}
			a = fld{name: "i", embedded: true, typ: "i"}
		}
		d.flds = append(d.flds, a)
	}
	if x.Bool("last") {
		d.flds = append(d.flds, fld{name: "Z", typ: "uint8", oapi: ",required"})
	}
	checkDecl(x, d)
}

// recursive embedding
// large: embedding many levels deep, and many fields
func large(x *m.X) {
	depths := []int{0, 7, 9, 17, 33}
	widths := []int{1, 12, 65}
	if m.Thorough() {
		depths = []int{0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65}
		widths = []int{1, 2, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 100, 129}
	}
	depth := m.Pick(x, "depth", depths...)
	width := m.Pick(x, "fields", widths...)
	if depth*width > 600 {
		x.Prune()
	}
	names := m.Pick(x, "names", "all differ", "same at every level", "three in turn", "case")
	if width > 1 && names == "case" {
		x.Prune()
	}
	ptr := depth > 0 && x.Bool("pointers")
	tags := m.Pick(x, "tags", "none", "every second level", "required")
	var level func(chain string, k, n int) *decl
	level = func(chain string, k, n int) *decl {
		d := &decl{name: fmt.Sprintf("%s%d", chain, k)}
		for j := 0; j < width; j++ {
			a := fld{name: fmt.Sprintf("F%d", j), typ: []string{"int", "string", "bool", "float64", "int16"}[k%5]}
			switch names {
			case "all differ":
				a.name = fmt.Sprintf("F%sx%dx%d", chain, k, j)
			case "three in turn":
				a.name = fmt.Sprintf("F%dx%d", k%3, j)
			case "case":
				a.name = "F" + []string{"a", "A", "aa", "aA"}[k%4]
			}
			switch {
			case tags == "every second level" && k%2 == 1:
				a.json = a.name
			case tags == "required":
				a.oapi = ",required"
			}
			d.flds = append(d.flds, a)
		}
		if k < n {
			e := level(chain, k+1, n)
			d.flds = append(d.flds, fld{name: e.name, embedded: true, ptr: ptr, st: e})
		}
		return d
	}
	d := &decl{name: "T"}
	if depth == 0 {
		d.flds = level("L", 0, 0).flds
		checkDecl(x, d)
		return
	}
	l := level("L", 1, depth)
	d.flds = append(d.flds, fld{name: l.name, embedded: true, ptr: ptr, st: l})
	if other := m.Pick(x, "other chain", 0, depth-1, depth, depth+1); other > 0 {
		r := level("R", 1, other)
		d.flds = append(d.flds, fld{name: r.name, embedded: true, ptr: !ptr, st: r})
	}
	if x.Bool("outer") {
		d.flds = append(d.flds, fld{name: "F0", typ: "uint8"}, fld{name: "Z", typ: "uint8"})
	}
	checkDecl(x, d)
}

func recursion(x *m.X) {
	t := &decl{name: "T"}
	e := &decl{name: "E"}
	own := fld{name: "A", typ: "int"}
	t.flds = []fld{own}
	e.flds = []fld{{name: "B", typ: "string"}}
	switch x.Choose(3, "te") {
	case 0:
		t.flds = append(t.flds, fld{name: "E", embedded: true, ptr: true, st: e})
	case 1:
		t.flds = append([]fld{{name: "E", embedded: true, st: e}}, t.flds...)
	case 2:
		t.flds = append(t.flds, fld{name: "T", embedded: true, ptr: true, st: t})
		e = nil
	}
	if e != nil {
		switch x.Choose(4, "et") {
		case 1:
			e.flds = append(e.flds, fld{name: "T", embedded: true, ptr: true, st: t})
		case 2:
			e.flds = append(e.flds, fld{name: "E", embedded: true, ptr: true, st: e})
		case 3:
			e.flds = append([]fld{{name: "T", embedded: true, ptr: true, st: t}}, e.flds...)
		}
	}
	checkDecl(x, t)
}

/* --------------------------------------------------- attributes of fields */

type opt struct {
	text string
	typ  bool
}

var opts = []string{
	"", "required", "readonly", "writeonly", "deprecated", "nullable", "nullable:false", "format:fmt", "min:1.5", "max:9", "emin:2", "emax:8",
	"mulof:3", "minlen:1", "maxlen:7", "pattern:^a$", "minitems:1", "maxitems:9", "unique", "minprops:1", "maxprops:6",
	"type:string", "type:int64", "type:uint8", "type:number", "type:float", "type:object", "type:uuid", "type:base64", "type:password", "type:bool", "required:false", "omitempty",
}

var fieldTypes = []string{"int", "uint8", "float64", "string", "bool", "[]string", "[]int", "[2]string", "[]*S", "map[string]int", "map[string][]string", "*int", "*string", "S", "*S", "time.Time", "*time.Time", "[][]uint16", "*[]string", "interface{}", "struct{}", "[]byte", "*[]byte", "[][]byte", "[2]byte"}

type attrs map[string]string

func parseOpts(os []string) attrs {
	a := attrs{}
	for _, o := range os {
		if o == "" {
			continue
		}
		kv := strings.SplitN(o, ":", 2)
		if len(kv) == 1 {
			kv = append(kv, "true")
		}
		a[kv[0]] = kv[1]
	}
	return a
}

func num(s string) float64 {
	var v float64
	fmt.Sscanf(s, "%g", &v)
	return v
}

type js = map[string]interface{}

func basicAttrs(kind string, a attrs) js {
	s := js{}
	for k, v := range f.Basics[kind] {
		s[k] = v
	}
	set := func(o, k string) {
		if v, ok := a[o]; ok {
			s[k] = num(v)
		}
	}
	switch s["type"] {
	case "integer", "number":
		set("min", "minimum")
		set("max", "maximum")
		set("mulof", "multipleOf")
		if v, ok := a["emin"]; ok {
			s["minimum"], s["exclusiveMinimum"] = num(v), true
		}
		if v, ok := a["emax"]; ok {
			s["maximum"], s["exclusiveMaximum"] = num(v), true
		}
	case "string":
		set("minlen", "minLength")
		set("maxlen", "maxLength")
		if v, ok := a["pattern"]; ok {
			s["pattern"] = v
		}
	}
	return s
}

func overrideType(kind string, a attrs) js {
	switch kind {
	case "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "bool", "float32", "float64":
		return basicAttrs(kind, a)
	case "float":
		return basicAttrs("float32", a)
	case "double":
		return basicAttrs("float64", a)
	case "integer":
		return basicAttrs("int32", a)
	case "number":
		s := basicAttrs("float64", a)
		delete(s, "format")
		return s
	case "object":
		return js{"type": "object"}
	}
	s := basicAttrs("string", a)
	s["format"] = map[string]string{"uuid": "uuid", "base64": "binary", "password": "password"}[kind]
	return s
}

var sSchema = js{"type": "object", "properties": js{"X": js{"type": "integer", "format": "int32"}}}

// typed is the schema of a Go type with attributes; ref tells that it is a
// reference to an object.
func typed(t string, a attrs) (s js, ref bool) {
	null := func(s js, def bool) {
		if v, ok := a["nullable"]; ok {
			def = v == "true"
		}
		if def {
			s["nullable"] = true
		}
	}
	items := func(s js) {
		if v, ok := a["minitems"]; ok {
			s["minItems"] = num(v)
		}
		if v, ok := a["maxitems"]; ok {
			s["maxItems"] = num(v)
		}
		if a["unique"] == "true" {
			s["uniqueItems"] = true
		}
	}
	switch {
	case t == "S":
		return sSchema, true
	case t == "struct{}":
		return js{"type": "object"}, true
	case t == "time.Time":
		return js{"type": "string"}, false
	case t == "[]byte":
		s = basicAttrs("string", a)
		s["format"] = "byte"
		null(s, true)
		return s, false
	case strings.HasPrefix(t, "[]"):
		e, _ := typed(t[2:], a)
		s = js{"type": "array", "items": e}
		items(s)
		null(s, true)
		return s, false
	case strings.HasPrefix(t, "[2]"):
		e, _ := typed(t[3:], a)
		s = js{"type": "array", "items": e}
		items(s)
		s["maxItems"] = 2.
		null(s, false)
		return s, false
	case strings.HasPrefix(t, "map[string]"):
		e, _ := typed(t[len("map[string]"):], a)
		s = js{"type": "object", "additionalProperties": e}
		if v, ok := a["minprops"]; ok {
			s["minProperties"] = num(v)
		}
		if v, ok := a["maxprops"]; ok {
			s["maxProperties"] = num(v)
		}
		null(s, true)
		return s, false
	case strings.HasPrefix(t, "*"):
		e, ref := typed(t[1:], a)
		if ref {
			if a["nullable"] == "false" {
				return e, true
			}
			return js{"anyOf": []interface{}{e, js{"type": "object", "nullable": true, "enum": []interface{}{nil}}}}, false
		}
		c := js{}
		for k, v := range e {
			c[k] = v
		}
		delete(c, "nullable")
		null(c, true)
		return c, false
	}
	return basicAttrs(t, a), false
}

// quotable types are those the string option of the json tag has a say in.
func quotable(t string) bool {
	_, ok := f.Basics[strings.TrimPrefix(t, "*")]
	return ok
}

func propSchema(t string, a attrs) js {
	var s js
	var ref bool
	if k, ok := a["type"]; ok {
		s = overrideType(k, a)
	} else if a["quoted"] != "" && quotable(t) {
		s = basicAttrs("string", a)
		if t[0] == '*' {
			s["nullable"] = true
		}
	} else {
		s, ref = typed(t, a)
	}
	if ref {
		return s
	}
	for o, k := range map[string]string{"readonly": "readOnly", "writeonly": "writeOnly", "deprecated": "deprecated"} {
		if a[o] == "true" {
			s[k] = true
		}
	}
	if v, ok := a["format"]; ok {
		s["format"] = v
	}
	if v, ok := a["nullable"]; ok {
		delete(s, "nullable")
		if v == "true" {
			s["nullable"] = true
		}
	}
	return s
}

func attributes(n func() int) func(*m.X) {
	return func(x *m.X) {
		t := fieldTypes[x.Choose(len(fieldTypes), "type")]
		var os []string
		last := 0
		for i := 0; i < n(); i++ {
			// increasing, except that the last may come first in the tag
			k := x.Choose(len(opts)-last, "opt") + last
			if k != 0 && (k == last || samename(opts[k], os)) {
				x.Prune()
			}
			if k == 0 && last != 0 {
				x.Prune()
			}
			last = k
			os = append(os, opts[k])
		}
		if len(os) > 1 && x.Bool("reverse") {
			os[0], os[len(os)-1] = os[len(os)-1], os[0]
		}
		var used []string
		for _, o := range os {
			if o != "" {
				used = append(used, o)
			}
		}
		a := parseOpts(used)
		name := x.Choose(2, "name")
		tag := []string{"", "f"}[name]
		for _, o := range used {
			tag += "," + o
		}
		src := ""
		if strings.Contains(t, "time.") {
			src += "import \"time\"\n"
		}
		h := t
		if t == "interface{}" {
			h = "string"
		}
		src += fmt.Sprintf("type S struct { X int }\ntype T struct {\n\tF %s `oapi:%q`\n\tG string\n\tH %s\n}\n", t, tag, h)
		if _, ok := a["type"]; !ok && t == "interface{}" {
			x.Prune()
		}
		if (quotable(t) || len(used) == 0) && x.Bool("quoted") {
			a["quoted"] = "yes"
			src = strings.Replace(src, "`oapi:", "`json:\",string\" oapi:", 1)
		}
		got := scanDecl(x, src)
		fn := []string{"F", "f"}[name]
		want := js{"type": "object", "properties": js{
			fn:  propSchema(t, a),
			"G": js{"type": "string"},
			"H": propSchema(h, attrs{}),
		}}
		if a["required"] == "true" {
			want["required"] = []interface{}{fn}
		}
		x.Outcome("%s", m.JS(got))
		if m.JS(got) != m.JS(want) {
			x.Fail("attributes", "got %s\nwant %s", m.JS(got), m.JS(want))
		}
	}
}

// typenames: every name of a type in a tag, which takes the place of the type
// of the field
func typenames(x *m.X) {
	names := []string{"string", "float32", "float", "float64", "double", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "integer", "int64", "bool", "base64", "uuid", "password", "number", "object",
		"String", "boolean", "float16", "array", "int128", "byte", "date", "integers", "uint 8", "null"}
	const known = 22
	n := x.Choose(len(names), "name")
	t := fieldTypes[x.Choose(len(fieldTypes), "type")]
	o := opts[x.Choose(m.N(21, len(opts)), "opt")]
	if strings.HasPrefix(o, "type") || n >= known && o != "" {
		x.Prune()
	}
	typ := names[n]
	if n < known && o == "" && x.Bool("quotes") {
		typ = "'" + typ + "'"
	}
	tag := ",type:" + typ
	a := attrs{"type": names[n]}
	if o != "" {
		a = parseOpts([]string{"type:" + names[n], o})
		if x.Bool("first") {
			tag = "," + o + tag
		} else {
			tag += "," + o
		}
	}
	src := ""
	if strings.Contains(t, "time.") {
		src += "import \"time\"\n"
	}
	src += fmt.Sprintf("type S struct { X int }\ntype T struct {\n\tF %s `oapi:%q`\n\tG string\n}\n", t, tag)
	x.Case("%s", src)
	if n >= known {
		spec := m.JS(map[string]interface{}{"openapi": "3.0.3", "x-r": map[string]interface{}{"$ref": "go://#/T"}})
		r := f.Scan(world.Write("ex.com/a", m.Pkg{Path: "ex.com/a", Files: map[string]string{"x.go": "package a\n\n" + src, "oapi.json": spec}}))
		x.Outcome("%v", r.Err != nil)
		if r.Panic != "" || r.Err == nil {
			x.Fail("unknown type", "the type %q is taken: %s %s", names[n], r.Panic, r.JSON)
		}
		return
	}
	got := scanDecl(x, src)
	want := js{"type": "object", "properties": js{"F": propSchema(t, a), "G": js{"type": "string"}}}
	if a["required"] == "true" {
		want["required"] = []interface{}{"F"}
	}
	x.Outcome("%s", m.JS(got))
	if m.JS(got) != m.JS(want) {
		x.Fail("type names", "got %s\nwant %s", m.JS(got), m.JS(want))
	}
}

func samename(o string, os []string) bool {
	n := strings.SplitN(o, ":", 2)[0]
	for _, p := range os {
		if strings.SplitN(p, ":", 2)[0] == n {
			return true
		}
	}
	return false
}

func main() {
	m.Main(m.Check{
		ID: "C02",
		Spaces: []m.Space{
			{Name: "names", Bound: -1, Run: names, Rule: "structs of two (thorough: three) fields with every combination of 12 json and 8 oapi tags, with and without an unexported field"},
			{Name: "promotion", Bound: -1, Run: promotion, Rule: "an outer field in four forms, two embedded or inlined members in twelve forms each with six contents including nested embedding, a last field"},
			{Name: "recursion", Bound: -1, Run: recursion, Rule: "all ways two structs embed each other and themselves by pointer"},
			{Name: "large", Bound: -1, Run: large, Rule: "one or two chains of structs embedded by value or pointer up to 33 (65) levels deep with up to 65 (129) fields each whose names differ, are equal or recur, with and without tags"},
			{Name: "attributes", Bound: -1, Run: attributes(func() int { return 2 }), Rule: "a field of 25 types with every set of up to two (in both orders) of 33 tag options, with and without the string option of the json tag, beside fields without"},
			{Name: "typenames", Bound: -1, Run: typenames, Rule: "a field of 25 types whose tag names each of 22 types (and 10 which do not exist), alone, quoted and with each of 21 (thorough 33) other options in both orders"},
		},
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the rules of encoding/json for promotion and conflicts as stated in its documentation"},
	})
}
