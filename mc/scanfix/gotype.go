//go:build go1.21

package scanfix

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/buypal/oapi-go/internal/verifmc/mclib"
)

// Kind of a modelled Go type.
type Kind int

// Kinds.
const (
	Basic Kind = iota
	Slice
	Array
	Map
	Ptr
	Struct
	Named
	Time  // time.Time
	Unsup // no schema
)

// Type is a Go type of a generated program. It knows how to be written as Go
// source and which schemas denote it.
type Type struct {
	K      Kind
	Text   string // Basic and Unsup: source text
	Len    int
	Key    string // Map: key type
	Elem   *Type
	Fields []Field
	Pkg    string // Named: package path
	Name   string
	Def    *Type
	Alias  bool
}

// Field of a struct.
type Field struct {
	Name string
	Type *Type
	Tag  string
	Prop string // property name, "" for Name
	Skip bool   // not a property
	Req  bool
}

// Under is the underlying type.
func (t *Type) Under() *Type {
	for t.K == Named {
		t = t.Def
	}
	return t
}

// Expr is the type expression as seen from package pkg; named types are added
// to decls and imports.
func (t *Type) Expr(pkg string, p *Program) string {
	switch t.K {
	case Basic, Unsup:
		return t.Text
	case Slice:
		return "[]" + t.Elem.Expr(pkg, p)
	case Array:
		return fmt.Sprintf("[%d]%s", t.Len, t.Elem.Expr(pkg, p))
	case Map:
		return "map[" + t.Key + "]" + t.Elem.Expr(pkg, p)
	case Ptr:
		return "*" + t.Elem.Expr(pkg, p)
	case Time:
		p.imports(pkg, "time")
		return "time.Time"
	case Struct:
		var b strings.Builder
		b.WriteString("struct {\n")
		for _, f := range t.Fields {
			fmt.Fprintf(&b, "\t%s %s", f.Name, f.Type.Expr(pkg, p))
			if f.Tag != "" {
				fmt.Fprintf(&b, " `%s`", f.Tag)
			}
			b.WriteString("\n")
		}
		b.WriteString("}")
		return b.String()
	case Named:
		p.declare(t)
		if t.Pkg != pkg {
			p.imports(pkg, t.Pkg)
			return t.Pkg[strings.LastIndex(t.Pkg, "/")+1:] + "." + t.Name
		}
		return t.Name
	}
	panic("kind")
}

// Program collects the declarations of generated packages.
type Program struct {
	decls map[string]map[string]string
	imps  map[string]map[string]bool
	extra map[string]string
}

// NewProgram is empty.
func NewProgram() *Program {
	return &Program{decls: map[string]map[string]string{}, imps: map[string]map[string]bool{}, extra: map[string]string{}}
}

func (p *Program) imports(pkg, imp string) {
	if p.imps[pkg] == nil {
		p.imps[pkg] = map[string]bool{}
	}
	p.imps[pkg][imp] = true
}

// Import makes pkg import imp.
func (p *Program) Import(pkg, imp string) { p.imports(pkg, imp) }

// Extra adds raw source to a package.
func (p *Program) Extra(pkg, src string) {
	if p.decls[pkg] == nil {
		p.decls[pkg] = map[string]string{}
	}
	p.extra[pkg] += src + "\n"
}

func (p *Program) declare(t *Type) {
	d := p.decls[t.Pkg]
	if d == nil {
		d = map[string]string{}
		p.decls[t.Pkg] = d
	}
	if _, ok := d[t.Name]; ok {
		return
	}
	d[t.Name] = "" // recursion
	eq := " "
	if t.Alias {
		eq = " = "
	}
	d[t.Name] = "type " + t.Name + eq + t.Def.Expr(t.Pkg, p)
}

// Declare adds a named type.
func (p *Program) Declare(t *Type) { p.declare(t) }

// Source of a package.
func (p *Program) Source(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", pkg[strings.LastIndex(pkg, "/")+1:])
	own := ""
	for _, n := range mclib.SortedKeys(p.decls[pkg]) {
		own += p.decls[pkg][n] + "\n"
	}
	own += p.extra[pkg]
	for _, i := range mclib.SortedKeys(p.imps[pkg]) {
		name := i[strings.LastIndex(i, "/")+1:]
		if strings.Contains(own, name+".") {
			fmt.Fprintf(&b, "import %q\n", i)
		} else {
			fmt.Fprintf(&b, "import _ %q\n", i)
		}
	}
	b.WriteString(own)
	return b.String()
}

// Pkgs are all packages, each with one file x.go and the given extra files
// ("pkg path/file name").
func (p *Program) Pkgs(files map[string]string) []mclib.Pkg {
	var out []mclib.Pkg
	for _, path := range mclib.SortedKeys(p.decls) {
		pk := mclib.Pkg{Path: path, Files: map[string]string{"x.go": p.Source(path)}}
		for _, f := range mclib.SortedKeys(files) {
			if i := strings.LastIndex(f, "/"); f[:i] == path {
				pk.Files[f[i+1:]] = files[f]
			}
		}
		out = append(out, pk)
	}
	return out
}

// Basics maps basic kinds to the schema keys they denote.
var Basics = map[string]map[string]interface{}{
	"bool":    {"type": "boolean"},
	"string":  {"type": "string"},
	"int":     {"type": "integer", "format": "int32"},
	"int8":    {"type": "integer", "format": "int32"},
	"int16":   {"type": "integer", "format": "int32"},
	"int32":   {"type": "integer", "format": "int32"},
	"int64":   {"type": "integer", "format": "int64"},
	"uint":    {"type": "integer", "format": "int32", "minimum": 0.},
	"uint8":   {"type": "integer", "format": "int32", "minimum": 0.},
	"uint16":  {"type": "integer", "format": "int32", "minimum": 0.},
	"uint32":  {"type": "integer", "format": "int32", "minimum": 0.},
	"uint64":  {"type": "integer", "format": "int64", "minimum": 0.},
	"byte":    {"type": "integer", "format": "int32", "minimum": 0.},
	"rune":    {"type": "integer", "format": "int32"},
	"float32": {"type": "number", "format": "float"},
	"float64": {"type": "number", "format": "double"},
}

// Env is what the scan was told besides the types.
type Env struct {
	Exports   map[*Type]string      // exported named types and their components
	Overrides map[*Type]interface{} // schema denoted by overridden types
	Used      map[string]bool       // components referenced
	// Strict demands that a recursive occurrence of a named struct is cut right
	// there, not expanded once more.
	Strict bool
	soft   *Type // start of the path was named by a place, not as a type
}

// Match checks that schema s denotes type t. Direct tells that s stands at a
// place referring to t itself.
func (e *Env) Match(s interface{}, t *Type) error {
	return e.match(s, t, nil, "", true)
}

// MatchDef checks the definition of an exported component.
func (e *Env) MatchDef(s interface{}, t *Type) error {
	if ov, ok := e.Overrides[t]; ok {
		return e.matchTree(s, ov, "")
	}
	return e.matchUnder(s, t, []*Type{t}, "")
}

func equal(s, want interface{}, at string) error {
	if !reflect.DeepEqual(s, want) {
		return fmt.Errorf("at %q: got %s, want %s", at, mclib.JS(s), mclib.JS(want))
	}
	return nil
}

func (e *Env) match(s interface{}, t *Type, path []*Type, at string, direct bool) error {
	m, ok := s.(map[string]interface{})
	if !ok {
		return fmt.Errorf("at %q: %s is not a schema", at, mclib.JS(s))
	}
	if t.K == Named && t.Alias {
		return e.match(s, t.Def, path, at, direct)
	}
	if t.K == Named {
		isRef := direct || t.Under().K == Struct
		if comp, ok := e.Exports[t]; ok {
			want := map[string]interface{}{"$ref": "#/components/schemas/" + escape(comp)}
			if reflect.DeepEqual(s, interface{}(want)) {
				if e.Used != nil {
					e.Used[comp] = true
				}
				return nil
			}
			if isRef {
				return fmt.Errorf("at %q: got %s, want %s", at, mclib.JS(s), mclib.JS(want))
			}
		} else if ov, ok := e.Overrides[t]; ok && isRef {
			return e.matchTree(s, ov, at)
		}
		if len(m) == 0 {
			for _, o := range path {
				if o == t {
					return nil // recursive occurrence is cut
				}
			}
			return fmt.Errorf("at %q: schema of %s is missing", at, t.Name)
		}
		for i, o := range path {
			if e.Strict && o == t && t.Under().K == Struct && !(i == 0 && t == e.soft) {
				return fmt.Errorf("at %q: recursive occurrence of %s is not cut", at, t.Name)
			}
		}
		path = append(append([]*Type{}, path...), t)
		return e.matchUnder(s, t, path, at)
	}
	switch t.K {
	case Struct, Slice, Array, Map, Ptr:
		if t.K == Struct && len(t.Fields) == 0 {
			break
		}
		// an unnamed type can hold itself by way of a named one, and a named
		// one on the way can have it as its definition
		ref, _ := m["$ref"].(string)
		for _, o := range path {
			if (len(m) == 0 || len(m) == 1 && ref != "") && Identical(o.Under(), t) {
				if len(m) == 0 {
					return nil
				}
				if comp, ok := e.Exports[o]; ok && ref == "#/components/schemas/"+escape(comp) {
					if e.Used != nil {
						e.Used[comp] = true
					}
					return nil
				}
			}
		}
		path = append(append([]*Type{}, path...), t)
	}
	return e.matchUnder(s, t, path, at)
}

// Identical tells if two types are the same.
func Identical(a, b *Type) bool {
	for a != nil && a.K == Named && a.Alias {
		a = a.Def
	}
	for b != nil && b.K == Named && b.Alias {
		b = b.Def
	}
	if a == b {
		return true
	}
	if a == nil || b == nil || a.K != b.K || a.K == Named || a.Text != b.Text || a.Len != b.Len || a.Key != b.Key || len(a.Fields) != len(b.Fields) {
		return false
	}
	for i, x := range a.Fields {
		y := b.Fields[i]
		if x.Name != y.Name || x.Tag != y.Tag || !Identical(x.Type, y.Type) {
			return false
		}
	}
	return Identical(a.Elem, b.Elem)
}

func (e *Env) matchUnder(s interface{}, t *Type, path []*Type, at string) error {
	m, ok := s.(map[string]interface{})
	if !ok {
		return fmt.Errorf("at %q: %s is not a schema", at, mclib.JS(s))
	}
	def := false
	for t.K == Named { // type A B: B is not visible, only its structure
		def = def || !t.Alias
		t = t.Def
	}
	if t.K == Time && def {
		t = &Type{K: Struct} // a defined type is not the time itself
	}
	switch t.K {
	case Basic:
		return equal(s, interface{}(Basics[t.Text]), at)
	case Time:
		return equal(s, interface{}(map[string]interface{}{"type": "string"}), at)
	case Slice:
		if u := t.Elem.Under(); u.K == Basic && (u.Text == "byte" || u.Text == "uint8") {
			// encoding/json writes bytes as text
			return equal(s, interface{}(map[string]interface{}{"type": "string", "format": "byte", "nullable": true}), at)
		}
		want := map[string]interface{}{"type": "array", "nullable": true, "items": m["items"]}
		if err := equal(s, interface{}(want), at); err != nil {
			return err
		}
		return e.match(m["items"], t.Elem, path, at+".items", false)
	case Array:
		want := map[string]interface{}{"type": "array", "items": m["items"]}
		if t.Len > 0 {
			want["maxItems"] = float64(t.Len)
		}
		if err := equal(s, interface{}(want), at); err != nil {
			return err
		}
		return e.match(m["items"], t.Elem, path, at+".items", false)
	case Map:
		want := map[string]interface{}{"type": "object", "nullable": true, "additionalProperties": m["additionalProperties"]}
		if err := equal(s, interface{}(want), at); err != nil {
			return err
		}
		return e.match(m["additionalProperties"], t.Elem, path, at+".additionalProperties", false)
	case Ptr:
		return e.matchPtr(m, t, path, at)
	case Struct:
		want := map[string]interface{}{"type": "object"}
		props, _ := m["properties"].(map[string]interface{})
		if len(props) > 0 {
			want["properties"] = m["properties"]
		}
		var req []interface{}
		var names, got []string
		for _, f := range t.Fields {
			if f.Skip {
				continue
			}
			n := f.Prop
			if n == "" {
				n = f.Name
			}
			names = append(names, n)
			if f.Req {
				req = append(req, n)
			}
		}
		if len(req) > 0 {
			want["required"] = interface{}(req)
		}
		if err := equal(s, interface{}(want), at); err != nil {
			return err
		}
		for n := range props {
			got = append(got, n)
		}
		sort.Strings(names)
		sort.Strings(got)
		if strings.Join(names, ",") != strings.Join(got, ",") {
			return fmt.Errorf("at %q: properties are %v, want %v", at, got, names)
		}
		for _, f := range t.Fields {
			if f.Skip {
				continue
			}
			n := f.Prop
			if n == "" {
				n = f.Name
			}
			if err := e.match(props[n], f.Type, path, at+"."+n, false); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("at %q: got %s for a type without schema", at, mclib.JS(s))
}

func (e *Env) matchPtr(m map[string]interface{}, t *Type, path []*Type, at string) error {
	el := t.Elem
	one, isOne := m["anyOf"].([]interface{})
	if isOne {
		if len(one) != 2 {
			return fmt.Errorf("at %q: got %s", at, mclib.JS(m))
		}
		null := map[string]interface{}{"type": "object", "nullable": true, "enum": []interface{}{nil}}
		if err := equal(one[1], interface{}(null), at+".anyOf.1"); err != nil {
			return err
		}
		// further pointers may add nullable again
		for k, v := range m {
			if k != "anyOf" && !(k == "nullable" && v == true) {
				return fmt.Errorf("at %q: unexpected key %s in %s", at, k, mclib.JS(m))
			}
		}
		for el.K == Ptr {
			el = el.Elem
		}
		if el.Under().K == Ptr && el.K == Named {
			// named pointer: either the reference to it or its pointee
			if e.match(one[0], el, path, at+".anyOf.0", false) == nil {
				return nil
			}
			npath := append(append([]*Type{}, path...), el)
			return e.matchPtr(m, el.Under(), npath, at)
		}
		return e.match(one[0], el, path, at+".anyOf.0", false)
	}
	if m["nullable"] != true {
		return fmt.Errorf("at %q: pointer is not nullable: %s", at, mclib.JS(m))
	}
	switch el.Under().K {
	case Ptr, Slice, Map:
		return e.match(m, el, path, at, false)
	}
	rest := map[string]interface{}{}
	for k, v := range m {
		if k != "nullable" {
			rest[k] = v
		}
	}
	return e.match(rest, el, path, at, false)
}

// Supported tells if the type has a schema. Recursion counts as supported.
func (t *Type) Supported() bool { return t.supported(map[*Type]bool{}) }

func (t *Type) supported(seen map[*Type]bool) bool {
	switch t.K {
	case Unsup:
		return false
	case Slice, Array, Map, Ptr:
		return t.Elem.supported(seen)
	case Named:
		if seen[t] {
			return true
		}
		seen[t] = true
		return t.Def.supported(seen)
	case Struct:
		for _, f := range t.Fields {
			if !f.Skip && !f.Type.supported(seen) {
				return false
			}
		}
	}
	return true
}

// Spec is a minimal specification with one GET operation per schema source.
func Spec(schemas ...string) string {
	var b strings.Builder
	b.WriteString("openapi: 3.0.3\ninfo: {title: t, version: v}\npaths:\n")
	for i, s := range schemas {
		fmt.Fprintf(&b, "  /p%d:\n    get:\n      responses:\n        '200':\n          description: d\n          content: {application/json: {schema: %s}}\n", i, s)
	}
	return b.String()
}

// Get walks a decoded JSON value.
func Get(v interface{}, path ...string) interface{} {
	for _, p := range path {
		switch x := v.(type) {
		case map[string]interface{}:
			v = x[p]
		case []interface{}:
			i := 0
			fmt.Sscanf(p, "%d", &i)
			if i >= len(x) {
				return nil
			}
			v = x[i]
		default:
			return nil
		}
	}
	return v
}

// SpecSchema is the schema of operation i of Spec.
func SpecSchema(doc map[string]interface{}, i int) interface{} {
	return Get(interface{}(doc), "paths", fmt.Sprintf("/p%d", i), "get", "responses", "200", "content", "application/json", "schema")
}
