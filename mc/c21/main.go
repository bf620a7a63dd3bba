//go:build go1.21

// C21: builders of schemas and other objects change what they are named after.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

// op is one builder call: what is called and what it should do to the object.
type op struct {
	name string
	call func(o interface{}, a *args) interface{}
	eff  func(o interface{})
}

// args are the slices and objects passed to the calls of a history.
type args struct {
	now, before []interface{}
}

func (a *args) watch(v interface{}) {
	a.now = append(a.now, v)
	a.before = append(a.before, clone(v))
}

// clone copies a value with everything it points to.
func clone(v interface{}) interface{} {
	return deep(reflect.ValueOf(v)).Interface()
}

func deep(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(deep(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deep(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, deep(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		out.Set(v) // fields which are not exported
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deep(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// differ names the first place where two values differ; empty lists and maps
// are the same as none.
func differ(a, b reflect.Value, at string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return at
		}
		if !a.IsNil() {
			return differ(a.Elem(), b.Elem(), at)
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return at
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return at
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return at
			}
			if d := differ(a.MapIndex(k), v, fmt.Sprintf("%s[%v]", at, k)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if d := differ(a.Field(i), b.Field(i), at+"."+f.Name); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return at
		}
	}
	return ""
}

func same(a, b interface{}) string {
	return differ(reflect.ValueOf(a), reflect.ValueOf(b), "value")
}

// ---- the surface

func schemaA() *spec.Schema { return &spec.Schema{Type: "string", Title: "A"} }
func schemaB() *spec.Schema { return &spec.Schema{Type: "object", Title: "B", Nullable: true} }

func i64(n int64) *int64     { return &n }
func f64(n float64) *float64 { return &n }

func schemaOps() (oo []op) {
	s := func(name string, call func(*spec.Schema, *args) *spec.Schema, eff func(*spec.Schema)) {
		oo = append(oo, op{name, func(o interface{}, a *args) interface{} { return call(o.(*spec.Schema), a) }, func(o interface{}) { eff(o.(*spec.Schema)) }})
	}
	for _, t := range []string{"t", ""} {
		t := t
		s("WithTitle "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithTitle(t) }, func(o *spec.Schema) { o.Title = t })
		s("WithDescription "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithDescription(t) }, func(o *spec.Schema) { o.Description = t })
		s("WithFormat "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithFormat(t) }, func(o *spec.Schema) { o.Format = t })
		s("WithPattern "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithPattern(t) }, func(o *spec.Schema) { o.Pattern = t })
		s("WithType "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithType(spec.TypeInteger, t) }, func(o *spec.Schema) { o.Type, o.Format = "integer", t })
		s("WithXMLName "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithXMLName(t) }, func(o *spec.Schema) { xml(o).Name = t })
		s("WithXMLNamespace "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithXMLNamespace(t) }, func(o *spec.Schema) { xml(o).Namespace = t })
		s("WithXMLPrefix "+t, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithXMLPrefix(t) }, func(o *spec.Schema) { xml(o).Prefix = t })
		for _, u := range []string{"u", ""} {
			u := u
			s("WithExternalDocs "+t+","+u, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithExternalDocs(t, u) }, func(o *spec.Schema) {
				o.ExternalDocs = nil
				if t != "" || u != "" {
					o.ExternalDocs = &spec.ExternalDocumentation{Description: t, URL: u}
				}
			})
		}
	}
	for _, n := range []int64{0, 7} {
		n := n
		l := fmt.Sprint(" ", n)
		s("WithMaxProperties"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMaxProperties(n) }, func(o *spec.Schema) { o.MaxProperties = i64(n) })
		s("WithMinProperties"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMinProperties(n) }, func(o *spec.Schema) { o.MinProperties = i64(n) })
		s("WithMaxLength"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMaxLength(n) }, func(o *spec.Schema) { o.MaxLength = i64(n) })
		s("WithMinLength"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMinLength(n) }, func(o *spec.Schema) { o.MinLength = i64(n) })
		s("WithMaxItems"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMaxItems(n) }, func(o *spec.Schema) { o.MaxItems = i64(n) })
		s("WithMinItems"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMinItems(n) }, func(o *spec.Schema) { o.MinItems = i64(n) })
		v := float64(n) - 1.5
		s("WithMultipleOf"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMultipleOf(v) }, func(o *spec.Schema) { o.MultipleOf = f64(v) })
		ex := n == 7
		s("WithMaximum"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMaximum(v, ex) }, func(o *spec.Schema) { o.Maximum, o.ExclusiveMaximum = f64(v), ex })
		s("WithMinimum"+l, func(o *spec.Schema, _ *args) *spec.Schema { return o.WithMinimum(v, ex) }, func(o *spec.Schema) { o.Minimum, o.ExclusiveMinimum = f64(v), ex })
		var any spec.Any
		if ex {
			any = spec.Any(`{"a":1}`)
		}
		s("WithDefault"+l, func(o *spec.Schema, a *args) *spec.Schema { a.watch(any); return o.WithDefault(any) }, func(o *spec.Schema) { o.Default = any })
		s("WithExample"+l, func(o *spec.Schema, a *args) *spec.Schema { a.watch(any); return o.WithExample(any) }, func(o *spec.Schema) { o.Example = any })
	}
	for _, texts := range [][]string{nil, {"p"}, {"p", "q"}, {"q", "p", "q"}} {
		texts := texts
		l := fmt.Sprint(" ", texts)
		s("WithRequired"+l, func(o *spec.Schema, a *args) *spec.Schema {
			t := append([]string{}, texts...)
			a.watch(t)
			return o.WithRequired(t...)
		}, func(o *spec.Schema) { o.Required = append([]string{}, texts...) })
		s("AddRequired"+l, func(o *spec.Schema, a *args) *spec.Schema {
			t := append([]string{}, texts...)
			a.watch(t)
			return o.AddRequired(t...)
		}, func(o *spec.Schema) { o.Required = append(append([]string{}, o.Required...), texts...) })
		s("WithEnum"+l, func(o *spec.Schema, a *args) *spec.Schema {
			t := anys(texts)
			a.watch(t)
			return o.WithEnum(t...)
		}, func(o *spec.Schema) { o.Enum = anys(texts) })
		list := func() (ss []*spec.Schema) {
			for _, t := range texts {
				if t == "p" {
					ss = append(ss, schemaA())
				} else {
					ss = append(ss, schemaB())
				}
			}
			return
		}
		s("WithAllOf"+l, func(o *spec.Schema, a *args) *spec.Schema { t := list(); a.watch(t); return o.WithAllOf(t...) }, func(o *spec.Schema) { o.AllOf = list() })
		s("AddToAllOf"+l, func(o *spec.Schema, a *args) *spec.Schema { t := list(); a.watch(t); return o.AddToAllOf(t...) }, func(o *spec.Schema) { o.AllOf = append(append([]*spec.Schema{}, o.AllOf...), list()...) })
	}
	s("WithProperties", func(o *spec.Schema, a *args) *spec.Schema {
		return o.WithProperties(map[string]*spec.Schema{"p": schemaB()})
	}, func(o *spec.Schema) { o.Properties = map[string]*spec.Schema{"p": schemaB()} })
	s("WithProperties nil", func(o *spec.Schema, a *args) *spec.Schema { return o.WithProperties(nil) }, func(o *spec.Schema) { o.Properties = nil })
	for _, n := range []string{"p", "q", ""} {
		n := n
		s("WithProperty "+n, func(o *spec.Schema, a *args) *spec.Schema {
			t := schemaA()
			a.watch(t)
			return o.WithProperty(n, t)
		}, func(o *spec.Schema) {
			if o.Properties == nil {
				o.Properties = map[string]*spec.Schema{}
			}
			o.Properties[n] = schemaA()
		})
	}
	s("UniqueValues", func(o *spec.Schema, _ *args) *spec.Schema { return o.UniqueValues() }, func(o *spec.Schema) { o.UniqueItems = true })
	s("AllowDuplicates", func(o *spec.Schema, _ *args) *spec.Schema { return o.AllowDuplicates() }, func(o *spec.Schema) { o.UniqueItems = false })
	s("AsReadOnly", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsReadOnly() }, func(o *spec.Schema) { o.ReadOnly = true })
	s("AsWritable", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsWritable() }, func(o *spec.Schema) { o.ReadOnly = false })
	s("AsXMLAttribute", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsXMLAttribute() }, func(o *spec.Schema) { xml(o).Attribute = true })
	s("AsXMLElement", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsXMLElement() }, func(o *spec.Schema) { xml(o).Attribute = false })
	s("AsWrappedXML", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsWrappedXML() }, func(o *spec.Schema) { xml(o).Wrapped = true })
	s("AsUnwrappedXML", func(o *spec.Schema, _ *args) *spec.Schema { return o.AsUnwrappedXML() }, func(o *spec.Schema) { xml(o).Wrapped = false })
	return
}

func xml(o *spec.Schema) *spec.XML {
	if o.XML == nil {
		o.XML = &spec.XML{}
	}
	return o.XML
}

func anys(texts []string) (out []spec.Any) {
	for _, t := range texts {
		out = append(out, spec.Any(`"`+t+`"`))
	}
	return
}

func responseOps() (oo []op) {
	s := func(name string, call func(*spec.Response, *args) *spec.Response, eff func(*spec.Response)) {
		oo = append(oo, op{name, func(o interface{}, a *args) interface{} { return call(o.(*spec.Response), a) }, func(o interface{}) { eff(o.(*spec.Response)) }})
	}
	for _, t := range []string{"t", ""} {
		t := t
		s("WithDescription "+t, func(o *spec.Response, _ *args) *spec.Response { return o.WithDescription(t) }, func(o *spec.Response) { o.Description = t })
	}
	for _, n := range []string{"p", "q"} {
		n := n
		h := func() *spec.Header { return &spec.Header{Description: "new", Required: true} }
		c := func() *spec.MediaType { return &spec.MediaType{Schema: schemaB()} }
		l := func() *spec.Link { return &spec.Link{OperationID: "new"} }
		s("AddHeader "+n, func(o *spec.Response, a *args) *spec.Response { v := h(); a.watch(v); return o.AddHeader(n, v) }, func(o *spec.Response) {
			if o.Headers == nil {
				o.Headers = map[string]*spec.Header{}
			}
			o.Headers[n] = h()
		})
		s("AddContent "+n, func(o *spec.Response, a *args) *spec.Response { v := c(); a.watch(v); return o.AddContent(n, v) }, func(o *spec.Response) {
			if o.Content == nil {
				o.Content = map[string]*spec.MediaType{}
			}
			o.Content[n] = c()
		})
		s("AddLink "+n, func(o *spec.Response, a *args) *spec.Response { v := l(); a.watch(v); return o.AddLink(n, v) }, func(o *spec.Response) {
			if o.Links == nil {
				o.Links = map[string]*spec.Link{}
			}
			o.Links[n] = l()
		})
		s("RemoveHeader "+n, func(o *spec.Response, _ *args) *spec.Response { return o.RemoveHeader(n) }, func(o *spec.Response) { delete(o.Headers, n) })
		s("RemoveContent "+n, func(o *spec.Response, _ *args) *spec.Response { return o.RemoveContent(n) }, func(o *spec.Response) { delete(o.Content, n) })
		s("RemoveLink "+n, func(o *spec.Response, _ *args) *spec.Response { return o.RemoveLink(n) }, func(o *spec.Response) { delete(o.Links, n) })
		// nothing added is something removed
		s("AddHeader nil "+n, func(o *spec.Response, _ *args) *spec.Response { return o.AddHeader(n, nil) }, func(o *spec.Response) { delete(o.Headers, n) })
		s("AddContent nil "+n, func(o *spec.Response, _ *args) *spec.Response { return o.AddContent(n, nil) }, func(o *spec.Response) { delete(o.Content, n) })
		s("AddLink nil "+n, func(o *spec.Response, _ *args) *spec.Response { return o.AddLink(n, nil) }, func(o *spec.Response) { delete(o.Links, n) })
	}
	return
}

func parameterOps() (oo []op) {
	s := func(name string, call func(*spec.Parameter, *args) *spec.Parameter, eff func(*spec.Parameter)) {
		oo = append(oo, op{name, func(o interface{}, a *args) interface{} { return call(o.(*spec.Parameter), a) }, func(o interface{}) { eff(o.(*spec.Parameter)) }})
	}
	for _, t := range []string{"t", "cookie", ""} {
		t := t
		s("WithDescription "+t, func(o *spec.Parameter, _ *args) *spec.Parameter { return o.WithDescription(t) }, func(o *spec.Parameter) { o.Description = t })
		s("WithName "+t, func(o *spec.Parameter, _ *args) *spec.Parameter { return o.WithName(t) }, func(o *spec.Parameter) { o.Name = t })
		s("WithLocation "+t, func(o *spec.Parameter, _ *args) *spec.Parameter { return o.WithLocation(t) }, func(o *spec.Parameter) { o.In = t })
	}
	s("WithSchema", func(o *spec.Parameter, a *args) *spec.Parameter { v := schemaB(); a.watch(v); return o.WithSchema(v) }, func(o *spec.Parameter) { o.Schema = schemaB() })
	s("WithSchema nil", func(o *spec.Parameter, a *args) *spec.Parameter { return o.WithSchema(nil) }, func(o *spec.Parameter) { o.Schema = nil })
	s("AllowsEmptyValues", func(o *spec.Parameter, _ *args) *spec.Parameter { return o.AllowsEmptyValues() }, func(o *spec.Parameter) { o.AllowEmptyValue = true })
	s("NoEmptyValues", func(o *spec.Parameter, _ *args) *spec.Parameter { return o.NoEmptyValues() }, func(o *spec.Parameter) { o.AllowEmptyValue = false })
	s("AsOptional", func(o *spec.Parameter, _ *args) *spec.Parameter { return o.AsOptional() }, func(o *spec.Parameter) { o.Required = false })
	return
}

func headerOps() (oo []op) {
	s := func(name string, call func(*spec.Header) *spec.Header, eff func(*spec.Header)) {
		oo = append(oo, op{name, func(o interface{}, a *args) interface{} { return call(o.(*spec.Header)) }, func(o interface{}) { eff(o.(*spec.Header)) }})
	}
	for _, t := range []string{"t", ""} {
		t := t
		s("WithDescription "+t, func(o *spec.Header) *spec.Header { return o.WithDescription(t) }, func(o *spec.Header) { o.Description = t })
	}
	s("AllowsEmptyValues", func(o *spec.Header) *spec.Header { return o.AllowsEmptyValues() }, func(o *spec.Header) { o.AllowEmptyValue = true })
	s("NoEmptyValues", func(o *spec.Header) *spec.Header { return o.NoEmptyValues() }, func(o *spec.Header) { o.AllowEmptyValue = false })
	s("AsOptional", func(o *spec.Header) *spec.Header { return o.AsOptional() }, func(o *spec.Header) { o.Required = false })
	return
}

func xmlOps() (oo []op) {
	s := func(name string, call func(*spec.XML) *spec.XML, eff func(*spec.XML)) {
		oo = append(oo, op{name, func(o interface{}, a *args) interface{} { return call(o.(*spec.XML)) }, func(o interface{}) { eff(o.(*spec.XML)) }})
	}
	for _, t := range []string{"t", ""} {
		t := t
		s("WithName "+t, func(o *spec.XML) *spec.XML { return o.WithName(t) }, func(o *spec.XML) { o.Name = t })
		s("WithNamespace "+t, func(o *spec.XML) *spec.XML { return o.WithNamespace(t) }, func(o *spec.XML) { o.Namespace = t })
		s("WithPrefix "+t, func(o *spec.XML) *spec.XML { return o.WithPrefix(t) }, func(o *spec.XML) { o.Prefix = t })
	}
	s("AsAttribute", func(o *spec.XML) *spec.XML { return o.AsAttribute() }, func(o *spec.XML) { o.Attribute = true })
	s("AsElement", func(o *spec.XML) *spec.XML { return o.AsElement() }, func(o *spec.XML) { o.Attribute = false })
	s("AsWrapped", func(o *spec.XML) *spec.XML { return o.AsWrapped() }, func(o *spec.XML) { o.Wrapped = true })
	s("AsUnwrapped", func(o *spec.XML) *spec.XML { return o.AsUnwrapped() }, func(o *spec.XML) { o.Wrapped = false })
	return
}

// ---- histories

type class struct {
	name  string
	ops   []op
	fresh func() interface{}
}

var classes = []class{
	{"Schema", schemaOps(), func() interface{} { return &spec.Schema{} }},
	{"Response", responseOps(), func() interface{} { return &spec.Response{} }},
	{"Parameter", parameterOps(), func() interface{} { return &spec.Parameter{} }},
	{"Header", headerOps(), func() interface{} { return &spec.Header{} }},
	{"XML", xmlOps(), func() interface{} { return &spec.XML{} }},
}

// fill sets every field: texts to what is given, numbers to 3, flags to true,
// lists and maps to one element.
func fill(v reflect.Value, text string, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 0 && v.Type().Elem().Name() != "Pointer" {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), text, depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), text, depth)
			}
		}
	case reflect.Slice:
		if depth == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(`"` + text + `"`))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fill(v.Index(0), text, depth-1)
	case reflect.Map:
		if depth == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		e := reflect.New(v.Type().Elem()).Elem()
		fill(e, text, depth-1)
		v.SetMapIndex(reflect.ValueOf("p").Convert(v.Type().Key()), e)
	case reflect.String:
		v.SetString(text)
	case reflect.Int64:
		v.SetInt(3)
	case reflect.Float64:
		v.SetFloat(3)
	case reflect.Bool:
		v.SetBool(true)
	}
}

var starts = []string{"fresh", "full"}

func start(c class, how string) interface{} {
	o := c.fresh()
	if how == "full" {
		fill(reflect.ValueOf(o).Elem(), "old", 3)
	}
	return o
}

func history(n int) func(x *m.X) {
	return func(x *m.X) {
		c := classes[x.Choose(len(classes), "class")]
		how := m.Pick(x, "start", starts...)
		o := start(c, how)
		want := clone(o)
		var a args
		var names []string
		for i := 0; i < n; i++ {
			op := c.ops[x.Choose(len(c.ops), "call")]
			names = append(names, op.name)
			x.Case("%s %s: %s", how, c.name, strings.Join(names, "; "))
			ret := op.call(o, &a)
			op.eff(want)
			if ret != o {
				x.Fail(c.name+" "+op.name+" returns another object", "%s: %p is returned for %p", strings.Join(names, "; "), ret, o)
			}
			if d := same(want, o); d != "" {
				x.Fail(c.name+" "+strings.TrimSuffix(strings.TrimSuffix(op.name, " p"), " q")+" at "+strings.TrimPrefix(d, "value"), "%s %s after %s differs at %s\nwant %s\ngot  %s", how, c.name, strings.Join(names, "; "), d, m.JS(want), m.JS(o))
			}
		}
		for i := range a.now {
			if d := same(a.before[i], a.now[i]); d != "" || reflect.ValueOf(a.before[i]).Kind() == reflect.Slice && reflect.ValueOf(a.before[i]).Len() != reflect.ValueOf(a.now[i]).Len() {
				x.Fail(c.name+" changes argument", "%s: an argument was changed: %s instead of %s", strings.Join(names, "; "), m.JS(a.now[i]), m.JS(a.before[i]))
			}
		}
		x.Outcome("%s %s", c.name, m.JS(o))
	}
}

// twins: two objects, built by calls with the same arguments, stay independent.
func twins(x *m.X) {
	kind := m.Pick(x, "attribute", "required", "allOf")
	slack := x.Choose(3, "slack")
	base := x.Choose(3, "base")
	names := make([]string, base, base+slack)
	schemas := make([]*spec.Schema, base, base+slack)
	for i := range names {
		names[i] = fmt.Sprint("n", i)
		schemas[i] = &spec.Schema{Title: names[i]}
	}
	a, b := &spec.Schema{}, &spec.Schema{}
	wantA, wantB := &spec.Schema{}, &spec.Schema{}
	var did []string
	for i := 0; i < m.N(4, 5); i++ {
		o, w, label := a, wantA, "a"
		if x.Bool("object") {
			o, w, label = b, wantB, "b"
		}
		t := fmt.Sprint(label, i)
		switch act := m.Pick(x, "call", "with", "add"); kind + act {
		case "requiredwith":
			did = append(did, label+".WithRequired")
			o.WithRequired(names...)
			w.Required = append([]string{}, names...)
		case "requiredadd":
			did = append(did, label+".AddRequired")
			o.AddRequired(t)
			w.Required = append(append([]string{}, w.Required...), t)
		case "allOfwith":
			did = append(did, label+".WithAllOf")
			o.WithAllOf(schemas...)
			w.AllOf = append([]*spec.Schema{}, schemas...)
		case "allOfadd":
			did = append(did, label+".AddToAllOf")
			o.AddToAllOf(&spec.Schema{Title: t})
			w.AllOf = append(append([]*spec.Schema{}, w.AllOf...), &spec.Schema{Title: t})
		}
		x.Case("%s of two schemas, %d values with room for %d more: %s", kind, base, slack, strings.Join(did, "; "))
		if same(wantA, a) != "" || same(wantB, b) != "" {
			key := kind + " of two schemas"
			if slack > 0 {
				key += " sharing room"
			}
			x.Fail(key, "%s: a is %s, want %s; b is %s, want %s", strings.Join(did, "; "), m.JS(a), m.JS(wantA), m.JS(b), m.JS(wantB))
		}
	}
	x.Outcome("%s %s", m.JS(a), m.JS(b))
}

// ---- constructors

type made struct {
	name string
	got  func() interface{}
	want interface{}
}

func constructors() (mm []made) {
	add := func(name string, want interface{}, got func() interface{}) { mm = append(mm, made{name, got, want}) }
	typed := func(name, typ, format string, fn func() *spec.Schema) {
		add(name, &spec.Schema{Type: spec.OAPIType(typ), Format: format}, func() interface{} { return fn() })
	}
	typed("BooleanProperty", "boolean", "", spec.BooleanProperty)
	typed("Float64Property", "number", "double", spec.Float64Property)
	typed("Float32Property", "number", "float", spec.Float32Property)
	typed("Int8Property", "integer", "int8", spec.Int8Property)
	typed("Int16Property", "integer", "int16", spec.Int16Property)
	typed("Int32Property", "integer", "int32", spec.Int32Property)
	typed("Int64Property", "integer", "int64", spec.Int64Property)
	typed("StringProperty", "string", "", spec.StringProperty)
	typed("ByteProperty", "string", "byte", spec.ByteProperty)
	typed("BinaryProperty", "string", "binary", spec.BinaryProperty)
	typed("PasswordProperty", "string", "password", spec.PasswordProperty)
	for _, f := range []string{"", "x"} {
		f := f
		typed("FloatFmtProperty "+f, "number", f, func() *spec.Schema { return spec.FloatFmtProperty(f) })
		typed("IntFmtProperty "+f, "integer", f, func() *spec.Schema { return spec.IntFmtProperty(f) })
		typed("StrFmtProperty "+f, "string", f, func() *spec.Schema { return spec.StrFmtProperty(f) })
	}
	dated := func(name, format string, fn func() *spec.Schema) {
		add(name, &spec.Schema{Type: "string", Format: format}, func() interface{} {
			o := fn()
			o.Example = nil // any date may be the example
			return o
		})
	}
	dated("DateProperty", "date", spec.DateProperty)
	dated("DateTimeProperty", "date-time", spec.DateTimeProperty)
	for _, s := range []*spec.Schema{nil, schemaA(), schemaB()} {
		s := s
		l := " " + m.JS(s)
		add("MapProperty"+l, &spec.Schema{Type: "object", AdditionalProperties: s}, func() interface{} { return spec.MapProperty(s) })
		add("ArrayProperty"+l, &spec.Schema{Type: "array", Items: s}, func() interface{} { return spec.ArrayProperty(s) })
		add("NotSchema"+l, &spec.Schema{Not: s}, func() interface{} { return spec.NotSchema(s) })
		for mime, fns := range map[string][2]interface{}{
			"application/json":                  {spec.JSONResponse, spec.JSONRequestBody},
			"application/xml":                   {spec.XMLResponse, spec.XMLRequestBody},
			"text/plain":                        {spec.TextPlainResponse, spec.TextPlainRequestBody},
			"application/octet-stream":          {spec.OctetStreamResponse, spec.OctetStreamRequestBody},
			"application/x-www-form-urlencoded": {spec.URLEncodedResponse, spec.URLEncodedRequestBody},
			"multipart/form-data":               {spec.FormDataResponse, spec.FormDataRequestBody},
		} {
			fns := fns
			content := map[string]*spec.MediaType{mime: {Schema: s}}
			add("response "+mime+l, &spec.Response{Content: content}, func() interface{} { return fns[0].(func(*spec.Schema) *spec.Response)(s) })
			add("request body "+mime+l, &spec.RequestBody{Content: content}, func() interface{} { return fns[1].(func(*spec.Schema) *spec.RequestBody)(s) })
		}
		other := map[string]*spec.MediaType{"a/b": {Schema: s}}
		add("NewResponse"+l, &spec.Response{Content: other}, func() interface{} { return spec.NewResponse("a/b", s) })
		add("NewRequestBody"+l, &spec.RequestBody{Content: other}, func() interface{} { return spec.NewRequestBody("a/b", s) })
		for _, n := range []string{"", "n"} {
			n := n
			add("QueryParam "+n+l, &spec.Parameter{Name: n, In: "query", Schema: s}, func() interface{} { return spec.QueryParam(n, s) })
			add("CookieParam "+n+l, &spec.Parameter{Name: n, In: "cookie", Schema: s}, func() interface{} { return spec.CookieParam(n, s) })
			add("HeaderParam "+n+l, &spec.Parameter{Name: n, In: "header", Schema: s}, func() interface{} { return spec.HeaderParam(n, s) })
			add("PathParam "+n+l, &spec.Parameter{Name: n, In: "path", Schema: s, Required: true}, func() interface{} { return spec.PathParam(n, s) })
		}
	}
	for _, ss := range [][]*spec.Schema{{}, {schemaA()}, {schemaB(), schemaA()}} {
		ss := ss
		l := " " + m.JS(ss)
		add("AllSchema"+l, &spec.Schema{AllOf: ss}, func() interface{} { return spec.AllSchema(ss...) })
		add("OneSchema"+l, &spec.Schema{OneOf: ss}, func() interface{} { return spec.OneSchema(ss...) })
		add("AnySchema"+l, &spec.Schema{AnyOf: ss}, func() interface{} { return spec.AnySchema(ss...) })
	}
	add("BasicAuth", &spec.SecurityScheme{Type: "http", Scheme: "basic"}, func() interface{} { return spec.BasicAuth() })
	for _, t := range []string{"", "t"} {
		t := t
		add("BearerAuth "+t, &spec.SecurityScheme{Type: "http", Scheme: "bearer", BearerFormat: t}, func() interface{} { return spec.BearerAuth(t) })
		add("APIKeyAuth "+t, &spec.SecurityScheme{Type: "apiKey", Name: t, In: "header"}, func() interface{} { return spec.APIKeyAuth(t, "header") })
		add("OAuth2Implicit", &spec.SecurityScheme{Type: "oauth2", Flows: &spec.OAuthFlows{Implicit: &spec.OAuthFlow{AuthorizationURL: t}}}, func() interface{} { return spec.OAuth2Implicit(t) })
		add("OAuth2Password", &spec.SecurityScheme{Type: "oauth2", Flows: &spec.OAuthFlows{Password: &spec.OAuthFlow{TokenURL: t}}}, func() interface{} { return spec.OAuth2Password(t) })
		add("OAuth2AuthorizationCode", &spec.SecurityScheme{Type: "oauth2", Flows: &spec.OAuthFlows{AuthorizationCode: &spec.OAuthFlow{TokenURL: t}}}, func() interface{} { return spec.OAuth2AuthorizationCode(t) })
		add("OAuth2ClientCredentials", &spec.SecurityScheme{Type: "oauth2", Flows: &spec.OAuthFlows{ClientCredentials: &spec.OAuthFlow{AuthorizationURL: t, TokenURL: "u"}}}, func() interface{} { return spec.OAuth2ClientCredentials(t, "u") })
	}
	add("NewComponents", &spec.Components{}, func() interface{} { return spec.NewComponents() })
	for _, v := range []interface{}{nil, "t", "", 1, -1.5, true, []interface{}{1, "a"}, map[string]interface{}{"a": nil}} {
		v := v
		add("NewAny "+m.JS(v), jsonOf(v), func() interface{} { return jsonOf(spec.NewAny(v)) })
	}
	kind := func(want string, e spec.Entiter) {
		add("key of "+want, &want, func() interface{} { k := e.Entity().Key(); return &k })
		frag, path := "#/components/"+want, "components."+want
		if want != "paths" && want != "*" {
			add("path of "+want, &path, func() interface{} { p := e.Entity().Path(); return &p })
			add("fragment of "+want, &frag, func() interface{} {
				f := e.Entity().Fragment()
				p := "#" + strings.TrimPrefix(f.String(), "#")
				return &p
			})
		}
	}
	kind("schemas", spec.Schema{})
	kind("responses", spec.Response{})
	kind("parameters", spec.Parameter{})
	kind("examples", spec.Example{})
	kind("requestBodies", spec.RequestBody{})
	kind("headers", spec.Header{})
	kind("securitySchemes", spec.SecurityScheme{})
	kind("links", spec.Link{})
	kind("callbacks", spec.Callback{})
	kind("paths", spec.PathItem{})
	sort.SliceStable(mm, func(i, j int) bool { return mm[i].name < mm[j].name })
	return
}

func jsonOf(v interface{}) *string {
	b, err := json.Marshal(v)
	s := fmt.Sprint(string(b), err)
	return &s
}

var built = constructors()

func construct(x *m.X) {
	c := built[x.Choose(len(built), "constructor")]
	x.Case("%s", c.name)
	before := clone(c.want)
	var objs [2]interface{}
	for i := range objs { // twice: the second is not the first
		pv, stack := m.Try(func() { objs[i] = c.got() })
		if pv != nil {
			x.Fail(c.name+" panics", "%v\n%s", pv, stack)
		}
		if d := same(c.want, objs[i]); d != "" {
			x.Fail(c.name+" at "+strings.TrimPrefix(d, "value"), "got %s, want %s", m.JS(objs[i]), m.JS(c.want))
		}
	}
	if objs[0] == objs[1] {
		x.Fail(c.name+" shared", "two calls return the same object")
	}
	if o := reflect.ValueOf(objs[0]).Elem(); o.Kind() == reflect.Struct {
		// what is done to the fields of one object does not show in the other
		for i := 0; i < o.NumField(); i++ {
			f := o.Field(i)
			if f.Kind() == reflect.Map && f.CanSet() && !f.IsNil() {
				f.SetMapIndex(reflect.ValueOf("verif").Convert(f.Type().Key()), reflect.Zero(f.Type().Elem()))
			} else if f.CanSet() && f.Kind() != reflect.Struct {
				f.Set(reflect.Zero(f.Type()))
			}
		}
		if d := same(before, objs[1]); d != "" {
			x.Fail(c.name+" shared at "+strings.TrimPrefix(d, "value"), "changing one object changes the next one")
		}
	}
	x.Outcome("%s", m.JS(objs[1]))
}

// operations of a path item: those given, in the order of the field list
func operations(x *m.X) {
	var p spec.PathItem
	v := reflect.ValueOf(&p).Elem()
	var want []string
	for _, n := range []string{"Get", "Put", "Post", "Delete", "Options", "Head", "Patch", "Trace"} {
		if x.Bool(n) {
			v.FieldByName(n).Set(reflect.ValueOf(&spec.Operation{OperationID: n}))
			want = append(want, n)
		}
	}
	x.Case("operations %v", want)
	var got []string
	for _, o := range p.Operations() {
		got = append(got, o.OperationID)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		x.Fail("operations", "want %v, got %v", want, got)
	}
	x.Outcome("%v", got)
}

// ---- servers

var uris = []string{"/", "http://b.com", "https://a.com:8080/v1", "http://b.com:8080/", "//c.com/v2", "http://localhost", "v3", "", "http://[::1]:80/v1", "http://%zz", "https://u:p@d.com/x?y=z#f"}

func servers(x *m.X) {
	n := x.Choose(m.N(4, 5), "number")
	slack := x.Choose(2, "slack")
	list := make([]string, n, n+slack)
	for i := range list {
		list[i] = uris[x.Choose(len(uris), "uri")]
	}
	x.Case("servers %q, room for %d more", list, slack)
	whole := list[:n+slack]
	before := append([]string{}, whole...)
	got, err := spec.NewServers(list...)
	bad := false
	given := map[string]bool{"/": true}
	parts := map[string]map[string]bool{"scheme": {"http://": true, "https://": true}, "host": {"localhost": true}, "port": {"": true}, "path": {"/": true}}
	for _, u := range before[:n] {
		given[u] = true
		p, err := url.Parse(u)
		if err != nil {
			bad = true
			continue
		}
		if p.Hostname() != "" {
			parts["host"][p.Hostname()] = true
		}
		if p.Port() != "" {
			parts["port"][":"+p.Port()] = true
		}
		if p.Path != "" {
			parts["path"][p.Path] = true
		}
	}
	defer func() {
		if fmt.Sprintf("%q", before) != fmt.Sprintf("%q", whole) {
			x.Report("NewServers changes its arguments", "%q became %q", before, whole)
		}
	}()
	if bad {
		if err == nil {
			x.Fail("NewServers bad", "%q: no error", before[:n])
		}
		x.Outcome("error")
		return
	}
	if err != nil {
		x.Fail("NewServers error", "%q: %v", before[:n], err)
	}
	seen := map[string]int{}
	for _, s := range got {
		if s.Variables == nil {
			seen[s.URL]++
			continue
		}
		seen["*"]++
		if s.URL != "{scheme}{host}{port}{path}" {
			x.Fail("NewServers template", "%s", m.JS(s))
		}
		if len(s.Variables) != len(parts) {
			x.Fail("NewServers variables", "%s", m.JS(s))
		}
		for n, want := range parts {
			v := s.Variables[n]
			if v == nil {
				x.Fail("NewServers variables", "no %s in %s", n, m.JS(s))
			}
			enum := map[string]bool{}
			for _, e := range v.Enum {
				if enum[e] {
					x.Fail("NewServers twice", "%s %q twice in %s", n, e, m.JS(s))
				}
				enum[e] = true
			}
			if !reflect.DeepEqual(enum, want) {
				x.Fail("NewServers "+n, "want %s, got %s", m.JS(want), m.JS(v))
			}
			if !enum[v.Default] {
				x.Fail("NewServers default", "%s", m.JS(v))
			}
		}
	}
	for u := range given {
		if seen[u] != 1 {
			x.Fail("NewServers list", "%q is listed %d times for %q", u, seen[u], before[:n])
		}
	}
	if len(seen) != len(given)+1 || seen["*"] != 1 {
		x.Fail("NewServers list", "%q gives %s", before[:n], m.JS(got))
	}
	x.Outcome("%s", m.JS(got))
}

func main() {
	m.Main(m.Check{
		ID: "C21", Level: "model_checking",
		Assume: []string{"objects given to a builder become part of the object built; lists given stay the caller's"},
		Spaces: []m.Space{
			{Name: "pairs", Bound: -1, Rule: "every history of two builder calls (complete surface of Schema, Response, Parameter, Header and XML, up to 4 argument values each) on a fresh and on a full object", Run: history(2)},
			{Name: "triples", Bound: -1, ThoroughOnly: true, Rule: "every history of three builder calls", Run: history(3)},
			{Name: "twins", Bound: -1, Rule: "every history of four (thorough: five) calls on two schemas sharing arguments with spare room", Run: twins},
			{Name: "constructors", Bound: -1, Rule: "every constructor with every argument, twice", Run: construct},
			{Name: "operations", Bound: -1, Rule: "every subset of the eight operations of a path item", Run: operations},
			{Name: "servers", Bound: -1, Rule: "every list of up to three (thorough: four) of 11 server addresses, with and without spare room", Run: servers},
		},
	})
}
