//go:build go1.21

// C23: the schema of a type accepts the values of the type.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

var typesSrc string // types.go

var world *m.World

// ---- OpenAPI 3.0.3 schema validation, as far as schemas of types go

type obj = map[string]interface{}

// problem is a value its schema does not accept.
type problem struct{ key, at, text string }

func (p *problem) Error() string { return fmt.Sprintf("at %q: %s: %s", p.at, p.key, p.text) }

func no(key, at, format string, args ...interface{}) *problem {
	return &problem{key, at, fmt.Sprintf(format, args...)}
}

func number(v interface{}) *big.Rat {
	r, _ := new(big.Rat).SetString(fmt.Sprint(v))
	return r
}

func kind(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []interface{}:
		return "array"
	case obj:
		return "object"
	case json.Number:
		if number(x).IsInt() {
			return "integer"
		}
		return "number"
	}
	panic("kind")
}

var keywords = map[string]bool{"type": true, "format": true, "nullable": true, "properties": true, "required": true, "additionalProperties": true,
	"items": true, "minItems": true, "maxItems": true, "minimum": true, "maximum": true, "exclusiveMinimum": true, "exclusiveMaximum": true,
	"multipleOf": true, "minLength": true, "maxLength": true, "pattern": true, "enum": true, "oneOf": true, "anyOf": true, "allOf": true, "not": true,
	"uniqueItems": true, "minProperties": true, "maxProperties": true, "deprecated": true, "readOnly": true, "writeOnly": true, "description": true, "title": true}

func validate(doc, schema, v interface{}, at string, fuel int) *problem {
	if fuel == 0 {
		return no("endless", at, "references without end")
	}
	s, ok := schema.(obj)
	if !ok {
		return no("no schema", at, "%s", m.JS(schema))
	}
	if ref, ok := s["$ref"].(string); ok {
		if !strings.HasPrefix(ref, "#/") {
			return no("reference left", at, "%s", ref)
		}
		to := f.Get(doc, strings.Split(ref[2:], "/")...)
		if to == nil {
			return no("dangling reference", at, "%s", ref)
		}
		return validate(doc, to, v, at, fuel-1)
	}
	for k := range s {
		if !keywords[k] {
			return no("unknown keyword", at, "%s", k)
		}
	}
	k := kind(v)
	if t, ok := s["type"].(string); ok {
		switch {
		case k == "null" && s["nullable"] == true:
		case k == t, t == "number" && k == "integer":
		default:
			return no(fmt.Sprintf("%s is no %s", k, t), at, "%s, schema %s", m.JS(v), m.JS(s))
		}
	}
	if e, ok := s["enum"].([]interface{}); ok {
		found := false
		for _, x := range e {
			found = found || m.JS(x) == m.JS(v)
		}
		if !found {
			return no("not in enum", at, "%s, schema %s", m.JS(v), m.JS(s))
		}
	}
	bound := func(key string, n int, less bool) *problem {
		b, ok := s[key]
		if !ok {
			return nil
		}
		c := big.NewRat(int64(n), 1).Cmp(number(b))
		if less && c > 0 || !less && c < 0 {
			return no(key, at, "%s, schema %s", m.JS(v), m.JS(s))
		}
		return nil
	}
	var pp []*problem
	switch x := v.(type) {
	case json.Number:
		n := number(x)
		if b, ok := s["minimum"]; ok {
			if c := n.Cmp(number(b)); c < 0 || c == 0 && s["exclusiveMinimum"] == true {
				return no("minimum", at, "%s, schema %s", x, m.JS(s))
			}
		}
		if b, ok := s["maximum"]; ok {
			if c := n.Cmp(number(b)); c > 0 || c == 0 && s["exclusiveMaximum"] == true {
				return no("maximum", at, "%s, schema %s", x, m.JS(s))
			}
		}
		if b, ok := s["multipleOf"]; ok && !new(big.Rat).Quo(n, number(b)).IsInt() {
			return no("multipleOf", at, "%s, schema %s", x, m.JS(s))
		}
	case string:
		pp = append(pp, bound("minLength", len([]rune(x)), false), bound("maxLength", len([]rune(x)), true))
		if p, ok := s["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(x) {
			return no("pattern", at, "%s, schema %s", x, m.JS(s))
		}
	case []interface{}:
		pp = append(pp, bound("minItems", len(x), false), bound("maxItems", len(x), true))
		if s["uniqueItems"] == true {
			seen := map[string]bool{}
			for _, e := range x {
				if seen[m.JS(e)] {
					return no("uniqueItems", at, "%s", m.JS(v))
				}
				seen[m.JS(e)] = true
			}
		}
		if it, ok := s["items"]; ok {
			for i, e := range x {
				if err := validate(doc, it, e, fmt.Sprintf("%s/%d", at, i), fuel); err != nil {
					return err
				}
			}
		}
	case obj:
		pp = append(pp, bound("minProperties", len(x), false), bound("maxProperties", len(x), true))
		if req, ok := s["required"].([]interface{}); ok {
			for _, r := range req {
				if _, ok := x[r.(string)]; !ok {
					return no("required", at, "%v, schema %s", r, m.JS(s))
				}
			}
		}
		props, has := s["properties"].(obj)
		for _, n := range m.SortedKeys(x) {
			if p, ok := props[n]; ok {
				if err := validate(doc, p, x[n], at+"/"+n, fuel); err != nil {
					return err
				}
				continue
			}
			switch a := s["additionalProperties"].(type) {
			case bool:
				if !a {
					return no("additionalProperties", at, "%s", n)
				}
			case obj:
				if err := validate(doc, a, x[n], at+"/"+n, fuel); err != nil {
					return err
				}
			case nil:
				// not forbidden by the standard, but then the schema says
				// less than the type
				if has || s["type"] == "object" && len(s) == 1 {
					return no("not described", at, "%s, schema %s", n, m.JS(s))
				}
			}
		}
	}
	for _, p := range pp {
		if p != nil {
			return p
		}
	}
	count := func(key string) (n int, all []interface{}, first *problem) {
		all, _ = s[key].([]interface{})
		for _, e := range all {
			// what one of them does not describe another one does
			err := validate(doc, e, v, at, fuel-1)
			if err == nil || err.key == "not described" && len(all) > 1 {
				n++
			} else if first == nil {
				first = err
			}
		}
		return
	}
	if n, all, first := count("oneOf"); all != nil && n != 1 {
		if n == 0 {
			return first
		}
		return no("several of oneOf", at, "%s, schema %s", m.JS(v), m.JS(s))
	}
	if n, all, first := count("anyOf"); all != nil && n == 0 {
		return first
	}
	if n, all, first := count("allOf"); n != len(all) {
		return first
	}
	if e, ok := s["not"]; ok && validate(doc, e, v, at, fuel-1) == nil {
		return no("not", at, "%s, schema %s", m.JS(v), m.JS(s))
	}
	return nil
}

// ---- values

var basicTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"byte": reflect.TypeOf(byte(0)), "rune": reflect.TypeOf(rune(0)), "float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
}

type definedTime time.Time

type reflectType = reflect.Type

func of(v interface{}) reflect.Type { return reflect.TypeOf(v) }

// typeOf is the Go type; defined types are replaced by what they are defined as,
// which encoding/json does not notice as they have no methods.
func typeOf(t *f.Type) reflect.Type {
	switch t.K {
	case f.Basic:
		return basicTypes[t.Text]
	case f.Time:
		return reflect.TypeOf(time.Time{})
	case f.Slice:
		return reflect.SliceOf(typeOf(t.Elem))
	case f.Array:
		return reflect.ArrayOf(t.Len, typeOf(t.Elem))
	case f.Map:
		return reflect.MapOf(basicTypes[t.Key], typeOf(t.Elem))
	case f.Ptr:
		return reflect.PtrTo(typeOf(t.Elem))
	case f.Named:
		if !t.Alias && t.Under().K == f.Time {
			return reflect.TypeOf(definedTime{})
		}
		return typeOf(t.Def)
	case f.Struct:
		var ff []reflect.StructField
		for _, x := range t.Fields {
			sf := reflect.StructField{Name: x.Name, Type: typeOf(x.Type), Tag: reflect.StructTag(x.Tag)}
			ft := x.Type
			for ft.K == f.Named && ft.Alias {
				ft = ft.Def
			}
			if ft.K == f.Named && ft.Under().K == f.Ptr {
				// encoding/json ignores the option on defined pointer
				// types and would not on what they are defined as
				sf.Tag = reflect.StructTag(strings.Replace(x.Tag, ",string", "", 1))
			}
			if x.Name[0] >= 'a' {
				sf.PkgPath = pkgA
				sf.Type = basicTypes["int"]
			}
			ff = append(ff, sf)
		}
		return reflect.StructOf(ff)
	}
	panic("kind")
}

// values of a type, every shape up to depth of recursion.
func values(t reflect.Type, depth int) (vv []reflect.Value) {
	add := func(set func(v reflect.Value)) {
		v := reflect.New(t).Elem()
		set(v)
		vv = append(vv, v)
	}
	zero := func(reflect.Value) {}
	if t == reflect.TypeOf(time.Time{}) {
		add(zero)
		add(func(v reflect.Value) { v.Set(reflect.ValueOf(time.Unix(1e9, 5))) })
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		add(zero)
		add(func(v reflect.Value) { v.SetBool(true) })
	case reflect.String:
		for _, s := range []string{"", "a", "é<\u2028\x01", "\xff"} {
			s := s
			add(func(v reflect.Value) { v.SetString(s) })
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		max := int64(1)<<(t.Bits()-1) - 1
		for _, n := range []int64{0, 7, max, -max - 1} {
			n := n
			add(func(v reflect.Value) { v.SetInt(n) })
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, n := range []uint64{0, 7, math.MaxUint64 >> (64 - t.Bits())} {
			n := n
			add(func(v reflect.Value) { v.SetUint(n) })
		}
	case reflect.Float32, reflect.Float64:
		for _, n := range []float64{0, 0.5, -1e30, math.MaxFloat32} {
			n := n
			add(func(v reflect.Value) { v.SetFloat(n) })
		}
	case reflect.Ptr:
		add(zero)
		if depth > 0 {
			for _, e := range values(t.Elem(), depth-1) {
				e := e
				add(func(v reflect.Value) { v.Set(reflect.New(t.Elem())); v.Elem().Set(e) })
			}
		}
	case reflect.Slice:
		add(zero)
		add(func(v reflect.Value) { v.Set(reflect.MakeSlice(t, 0, 0)) })
		if depth > 0 {
			ee := values(t.Elem(), depth-1)
			for _, e := range ee {
				e := e
				add(func(v reflect.Value) { v.Set(reflect.Append(v, e)) })
			}
			add(func(v reflect.Value) { v.Set(reflect.Append(v, ee...)) })
		}
	case reflect.Array:
		if t.Len() == 0 {
			add(zero)
			return
		}
		ee := values(t.Elem(), depth)
		for i := range ee {
			i := i
			add(func(v reflect.Value) {
				for j := 0; j < t.Len(); j++ {
					v.Index(j).Set(ee[(i+j)%len(ee)])
				}
			})
		}
	case reflect.Map:
		add(zero)
		add(func(v reflect.Value) { v.Set(reflect.MakeMap(t)) })
		if depth > 0 {
			for i, e := range values(t.Elem(), depth-1) {
				kk := values(t.Key(), 0)
				k, e := kk[i%len(kk)], e
				add(func(v reflect.Value) { v.Set(reflect.MakeMap(t)); v.SetMapIndex(k, e) })
			}
		}
	case reflect.Struct:
		add(zero)
		last := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			i := i
			if t.Field(i).PkgPath != "" {
				continue
			}
			ee := values(t.Field(i).Type, depth)
			for _, e := range ee {
				e := e
				add(func(v reflect.Value) { v.Field(i).Set(e) })
			}
			last.Field(i).Set(ee[len(ee)-1])
		}
		vv = append(vv, last)
	default:
		panic(t.String())
	}
	return
}

// accepts checks all values of t against the schema.
func accepts(x *m.X, doc, schema interface{}, t reflect.Type, depth int) {
	n := 0
	kinds := map[string]bool{}
	seen := map[string]bool{}
	for _, v := range values(t, depth) {
		data, err := json.Marshal(v.Interface())
		if err != nil {
			continue // value has no json
		}
		if seen[string(data)] {
			continue
		}
		seen[string(data)] = true
		dec := json.NewDecoder(strings.NewReader(string(data)))
		dec.UseNumber()
		var d interface{}
		if err := dec.Decode(&d); err != nil {
			x.Fail("harness", "%v", err)
		}
		n++
		if p := validate(doc, schema, d, "", 50); p != nil && !kinds[p.key] {
			kinds[p.key] = true
			x.Report(p.key, "%s is not accepted: %v", data, p)
		}
	}
	x.Outcome("%d values", n)
}

func scan(x *m.X, name string, files ...m.Pkg) (doc, schema interface{}) {
	dir := world.Write(pkgA, files...)
	r := f.Scan(dir)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "scan failed: %v", r.Err)
	}
	return r.Doc, f.SpecSchema(r.Doc, 0)
}

// ---- generated types

type gen struct {
	x      *m.X
	n      int
	leaves []string
	tags   bool
}

func (g *gen) name(pkg, p string, def *f.Type, alias bool) *f.Type {
	g.n++
	return &f.Type{K: f.Named, Pkg: pkg, Name: p + string(rune('0'+g.n)), Def: def, Alias: alias}
}

func basic(s string) *f.Type { return &f.Type{K: f.Basic, Text: s} }

func (g *gen) leaf() *f.Type {
	i := g.x.Choose(len(g.leaves)+4, "leaf")
	if i < len(g.leaves) {
		return basic(g.leaves[i])
	}
	two := &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: basic("int64")}, {Name: "y", Type: basic("int"), Skip: true}, {Name: "Z", Type: basic("string"), Tag: `json:"z,omitempty"`, Prop: "z"}}}
	switch i - len(g.leaves) {
	case 0:
		return two
	case 1:
		return g.name(pkgB, "S", two, false)
	case 2:
		return &f.Type{K: f.Time}
	}
	return &f.Type{K: f.Struct}
}

var fieldTags = []string{"", `json:"n"`, `json:",omitempty"`, `json:"-"`, `json:"-,"`, `json:",string"`, `oapi:"F,required"`, `json:"a/b~c"`}

func (g *gen) typ(depth int) *f.Type {
	if depth == 0 {
		return g.leaf()
	}
	switch g.x.Choose(11, "con") {
	case 0:
		return g.leaf()
	case 1:
		return &f.Type{K: f.Slice, Elem: g.typ(depth - 1)}
	case 2:
		return &f.Type{K: f.Array, Len: 2, Elem: g.typ(depth - 1)}
	case 3:
		return &f.Type{K: f.Array, Len: 1, Elem: g.typ(depth - 1)}
	case 4:
		return &f.Type{K: f.Map, Key: "string", Elem: g.typ(depth - 1)}
	case 5:
		return &f.Type{K: f.Map, Key: "int8", Elem: g.typ(depth - 1)}
	case 6:
		return &f.Type{K: f.Ptr, Elem: g.typ(depth - 1)}
	case 7:
		return g.name(pkgA, "N", g.typ(depth-1), false)
	case 8:
		return g.name(pkgA, "L", g.typ(depth-1), true)
	case 9:
		return &f.Type{K: f.Struct, Fields: []f.Field{{Name: "F", Tag: fieldTags[g.x.Choose(len(fieldTags), "tag")], Type: g.typ(depth - 1)}}}
	}
	return &f.Type{K: f.Array, Len: 0, Elem: g.typ(depth - 1)}
}

func types(depth func() int, leaves []string) func(*m.X) {
	return func(x *m.X) {
		g := &gen{x: x, leaves: leaves}
		t := g.typ(depth())
		p := f.NewProgram()
		p.Declare(&f.Type{K: f.Named, Pkg: pkgA, Name: "T", Def: t})
		if x.Bool("export") {
			p.Extra(pkgA, "\n//openapi:schema T\n")
		}
		pkgs := p.Pkgs(map[string]string{pkgA + "/oapi.yaml": f.Spec("{$ref: 'go://" + pkgA + "#/T'}")})
		x.Case("%s", strings.ReplaceAll(p.Source(pkgA), "\n", " "))
		doc, s := scan(x, "T", pkgs...)
		rt, u := typeOf(t), t
		for u.K == f.Named {
			u = u.Def
		}
		if u.K == f.Time {
			rt = reflect.TypeOf(definedTime{}) // type T time.Time
		}
		accepts(x, doc, s, rt, 4)
	}
}

// declared types of types.go
func declared(x *m.X) {
	d := decls[x.Choose(len(decls), "type")]
	src := "package a\n" + typesSrc[strings.Index(typesSrc, "import \"time\""):strings.Index(typesSrc, "// end")]
	if e := x.Choose(3, "export"); e == 1 {
		src += "\n//openapi:schema " + d.Name() + "\n"
	} else if e == 2 {
		for _, o := range decls {
			src += "\n//openapi:schema " + o.Name() + "\n"
		}
	}
	place := ""
	if d.Kind() == reflect.Struct {
		var ok []string
		for i := 0; i < d.NumField(); i++ {
			if fl := d.Field(i); fl.PkgPath == "" && !fl.Anonymous {
				ok = append(ok, fl.Name)
			}
		}
		if i := x.Choose(len(ok)+1, "place"); i > 0 {
			place = ok[i-1]
		}
	}
	spec := f.Spec("{$ref: 'go://" + pkgA + "#/" + d.Name() + strings.TrimSuffix("/"+place, "/") + "'}")
	x.Case("%s/%s", d.Name(), place)
	doc, s := scan(x, d.Name(), m.Pkg{Path: pkgA, Files: map[string]string{"x.go": src, "oapi.yaml": spec}})
	t := d
	if place != "" {
		fl, _ := d.FieldByName(place)
		if strings.Contains(fl.Tag.Get("json"), ",string") {
			x.Prune() // the place itself is not the property
		}
		t = fl.Type
	}
	accepts(x, doc, s, t, 4)
}

func main() {
	all := []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "float32", "float64"}
	m.Main(m.Check{
		ID: "C23",
		Spaces: []m.Space{
			{Name: "depth2", Bound: -1, Run: types(func() int { return 2 }, all), Rule: "every type of up to two constructors (slice, arrays of 0, 1 and 2, maps by string and int, pointer, defined type, alias, struct with 8 tags) over 16 basic kinds, structs and time.Time, exported or not, x all shapes of values"},
			{Name: "depth3", Bound: -1, Run: types(func() int { return m.N(3, 4) }, []string{"int", "string"}), Rule: "the same with up to three (thorough: four) constructors over reduced leaves"},
			{Name: "declared", Bound: -1, Run: declared, Rule: fmt.Sprintf("%d declared types (recursive, embedding, renaming, quoting), whole or one field, with no, one or all types exported x all shapes of values to depth 4", len(decls))},
		},
		Init: func(string) {
			world = m.NewWorld()
			b, err := os.ReadFile(os.Getenv("MC_VERIF") + "/mc/c23/types.go")
			if err != nil {
				panic(err)
			}
			typesSrc = string(b)
		},
		Assume: []string{"encoding/json of the Go release the check is built with writes the values", "formats of schemas say nothing about validity"},
	})
}
