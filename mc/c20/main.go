//go:build go1.21

// C20: OpenAPI objects survive decoding and encoding.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

type obj = map[string]interface{}
type list = []interface{}

// ---- the object model of OpenAPI 3.0.3

// typ of a field: a basic one, or "K" (object kind), "[]K", "map:K".
type field struct {
	name string
	typ  string
	req  bool
	def  interface{} // default: stating it says nothing
}

type kind struct {
	fields []field
	target func() interface{}
	ref    bool     // may be a reference object instead
	any    string   // kind of the values under arbitrary keys
	keys   []string // some of these keys
}

func f(name, typ string) field                  { return field{name: name, typ: typ} }
func r(name, typ string) field                  { return field{name: name, typ: typ, req: true} }
func d(name, typ string, def interface{}) field { return field{name: name, typ: typ, def: def} }
func flag(name string) field                    { return d(name, "bool", false) }

var kinds map[string]*kind

func init() {
	ops := func() (ff []field) {
		for _, n := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
			ff = append(ff, f(n, "Operation"))
		}
		return
	}
	param := func(explode field) []field {
		return append([]field{f("description", "str"), flag("required"), flag("deprecated"), flag("allowEmptyValue"), f("style", "style"), explode, flag("allowReserved"),
			f("schema", "Schema"), f("example", "any"), f("examples", "map:Example"), f("content", "map:MediaType")})
	}
	kinds = map[string]*kind{
		"OpenAPI": {fields: []field{r("openapi", "version"), r("info", "Info"), f("servers", "[]Server"), r("paths", "Paths"), f("components", "Components"), f("security", "[]SecurityRequirement"), f("tags", "[]Tag"), f("externalDocs", "ExternalDocumentation")},
			target: func() interface{} { return &spec.OpenAPI{} }},
		"Info":           {fields: []field{r("title", "str"), f("description", "str"), f("termsOfService", "str"), f("contact", "Contact"), f("license", "License"), r("version", "str")}, target: func() interface{} { return &spec.Info{} }},
		"Contact":        {fields: []field{f("name", "str"), f("url", "str"), f("email", "str")}, target: func() interface{} { return &spec.Contact{} }},
		"License":        {fields: []field{r("name", "str"), f("url", "str")}, target: func() interface{} { return &spec.License{} }},
		"Server":         {fields: []field{r("url", "str"), f("description", "str"), f("variables", "map:ServerVariable")}, target: func() interface{} { return &spec.Server{} }},
		"ServerVariable": {fields: []field{f("enum", "[]str"), r("default", "str"), f("description", "str")}, target: func() interface{} { return &spec.ServerVariable{} }},
		"Components": {fields: []field{f("schemas", "map:Schema"), f("responses", "map:Response"), f("parameters", "map:Parameter"), f("examples", "map:Example"), f("requestBodies", "map:RequestBody"), f("headers", "map:Header"), f("securitySchemes", "map:SecurityScheme"), f("links", "map:Link"), f("callbacks", "map:Callback")},
			target: func() interface{} { return &spec.Components{} }},
		"Paths":    {any: "PathItem", keys: []string{"/", "/a/{id}"}, target: func() interface{} { return &spec.Paths{} }},
		"PathItem": {fields: append([]field{f("$ref", "ref"), f("summary", "str"), f("description", "str"), f("servers", "[]Server"), f("parameters", "[]Parameter")}, ops()...), target: func() interface{} { return &spec.PathItem{} }},
		"Operation": {fields: []field{f("tags", "[]str"), f("summary", "str"), f("description", "str"), f("externalDocs", "ExternalDocumentation"), f("operationId", "str"), f("parameters", "[]Parameter"), f("requestBody", "RequestBody"), r("responses", "Responses"), f("callbacks", "map:Callback"), flag("deprecated"), f("security", "[]SecurityRequirement"), f("servers", "[]Server")},
			target: func() interface{} { return &spec.Operation{} }},
		"ExternalDocumentation": {fields: []field{f("description", "str"), r("url", "str")}, target: func() interface{} { return &spec.ExternalDocumentation{} }},
		"Parameter":             {fields: append(param(f("explode", "bool")), r("name", "str"), r("in", "in")), ref: true, target: func() interface{} { return &spec.Parameter{} }},
		"Header":                {fields: param(flag("explode")), ref: true, target: func() interface{} { return &spec.Header{} }},
		"RequestBody":           {fields: []field{f("description", "str"), r("content", "map:MediaType"), flag("required")}, ref: true, target: func() interface{} { return &spec.RequestBody{} }},
		"MediaType":             {fields: []field{f("schema", "Schema"), f("example", "any"), f("examples", "map:Example"), f("encoding", "map:Encoding")}, target: func() interface{} { return &spec.MediaType{} }},
		"Encoding":              {fields: []field{f("contentType", "str"), f("headers", "map:Header"), f("style", "style"), f("explode", "bool"), flag("allowReserved")}, target: func() interface{} { return &spec.Encoding{} }},
		"Responses":             {any: "Response", keys: []string{"default", "200", "4XX"}},
		"Response":              {fields: []field{r("description", "str"), f("headers", "map:Header"), f("content", "map:MediaType"), f("links", "map:Link")}, ref: true, target: func() interface{} { return &spec.Response{} }},
		"Callback":              {any: "PathItem", keys: []string{"{$request.body#/url}", "http://a/b?c={$url}"}, ref: true, target: func() interface{} { return &spec.Callback{} }},
		"Example":               {fields: []field{f("summary", "str"), f("description", "str"), f("value", "any"), f("externalValue", "str")}, ref: true, target: func() interface{} { return &spec.Example{} }},
		"Link":                  {fields: []field{f("operationRef", "str"), f("operationId", "str"), f("parameters", "map:any"), f("requestBody", "any"), f("description", "str"), f("server", "Server")}, ref: true, target: func() interface{} { return &spec.Link{} }},
		"Tag":                   {fields: []field{r("name", "str"), f("description", "str"), f("externalDocs", "ExternalDocumentation")}, target: func() interface{} { return &spec.Tag{} }},
		"Schema": {fields: []field{f("title", "str"), f("multipleOf", "pos"), f("maximum", "num"), flag("exclusiveMaximum"), f("minimum", "num"), flag("exclusiveMinimum"), f("maxLength", "nat"), d("minLength", "nat", 0.0), f("pattern", "str"), f("maxItems", "nat"), d("minItems", "nat", 0.0), flag("uniqueItems"), f("maxProperties", "nat"), d("minProperties", "nat", 0.0), f("required", "[]str"), f("enum", "[]any"), f("type", "type"),
			f("allOf", "[]Schema"), f("oneOf", "[]Schema"), f("anyOf", "[]Schema"), f("not", "Schema"), f("items", "Schema"), f("properties", "map:Schema"), f("additionalProperties", "boolOrSchema"), f("description", "str"), f("format", "str"), f("default", "any"), flag("nullable"), f("discriminator", "Discriminator"), flag("readOnly"), flag("writeOnly"), f("xml", "XML"), f("externalDocs", "ExternalDocumentation"), f("example", "any"), flag("deprecated")},
			ref: true, target: func() interface{} { return &spec.Schema{} }},
		"Discriminator":       {fields: []field{r("propertyName", "str"), f("mapping", "map:str")}, target: func() interface{} { return &spec.Discriminator{} }},
		"XML":                 {fields: []field{f("name", "str"), f("namespace", "str"), f("prefix", "str"), flag("attribute"), flag("wrapped")}, target: func() interface{} { return &spec.XML{} }},
		"SecurityScheme":      {fields: []field{r("type", "sectype"), f("description", "str"), f("name", "str"), f("in", "in"), f("scheme", "str"), f("bearerFormat", "str"), f("flows", "OAuthFlows"), f("openIdConnectUrl", "str")}, ref: true, target: func() interface{} { return &spec.SecurityScheme{} }},
		"OAuthFlows":          {fields: []field{f("implicit", "OAuthFlow"), f("password", "OAuthFlow"), f("clientCredentials", "OAuthFlow"), f("authorizationCode", "OAuthFlow")}, target: func() interface{} { return &spec.OAuthFlows{} }},
		"OAuthFlow":           {fields: []field{f("authorizationUrl", "str"), f("tokenUrl", "str"), f("refreshUrl", "str"), r("scopes", "map:str")}, target: func() interface{} { return &spec.OAuthFlow{} }},
		"SecurityRequirement": {any: "[]str", keys: []string{"key", "oauth"}, target: func() interface{} { return &map[string]spec.SecurityRequirement{} }},
	}
	for _, k := range m.SortedKeys(kinds) {
		if kinds[k].target != nil {
			roots = append(roots, k)
		}
	}
}

var roots []string

var anys = list{"s", 0.0, -1.5, json.Number("9007199254740993"), json.Number("1.0"), true, false, list{}, list{1.0, nil, obj{"a": list{}}}, obj{}, obj{"$ref": "go://a/b#/T"}, obj{"a.b": obj{"": nil}}, nil, "", "$request.body", "<a>&\u2028"}

// values of a basic type or of an object at the given depth of nesting; the
// first ones are the plainest.
func values(typ string, depth int) (vv list) {
	switch typ {
	case "str":
		return list{"s", "", "<é \"\\\n&>"}
	case "version":
		return list{"3.0.3"}
	case "bool":
		return list{true, false}
	case "any":
		return anys
	case "ref":
		return list{"#/components/x/y"}
	case "style":
		return list{"form", "simple"}
	case "in":
		return list{"query", "path", "header", "cookie"}
	case "type":
		return list{"object", "integer", "string", "array", "number", "boolean"}
	case "sectype":
		return list{"apiKey", "http", "oauth2", "openIdConnect"}
	case "num":
		return list{0.0, -1.5, 1e21, json.Number("9007199254740991"), json.Number("0.1")}
	case "pos":
		return list{0.01, 3.0}
	case "nat":
		return list{0.0, 7.0, json.Number("9007199254740991")}
	case "boolOrSchema":
		return append(list{false, true}, values("Schema", depth)...)
	}
	if strings.HasPrefix(typ, "[]") {
		el := values(typ[2:], depth)
		vv = list{list{el[0]}, list{}, list{el[0], el[len(el)-1]}}
		for _, e := range el[1:] {
			vv = append(vv, list{e})
		}
		return
	}
	if strings.HasPrefix(typ, "map:") {
		el := values(typ[4:], depth)
		vv = list{obj{"k": el[0]}, obj{}, obj{"a/b": el[0], "": el[len(el)-1]}, obj{"$x.y": el[0]}}
		for _, e := range el[1:] {
			vv = append(vv, obj{"k": e})
		}
		return
	}
	k := kinds[typ]
	if k == nil {
		panic(typ)
	}
	vv = list{base(typ)}
	if k.ref {
		vv = append(vv, obj{"$ref": "#/components/x/y"}, obj{"$ref": "go://ex.com/a#/T"}, obj{"$ref": "other.json#/a"})
	}
	if k.any != "" {
		vv = append(vv, obj{})
		if depth > 0 {
			for _, v := range values(k.any, depth-1) {
				vv = append(vv, obj{k.keys[0]: v})
			}
		}
		return
	}
	if depth > 0 {
		for _, fl := range k.fields {
			for _, v := range values(fl.typ, depth-1) {
				b := base(typ)
				b[fl.name] = v
				vv = append(vv, b)
			}
		}
	}
	return
}

// base is the object with the required fields only.
func base(typ string) obj {
	o := obj{}
	k := kinds[typ]
	if k.any != "" {
		return obj{k.keys[0]: values(k.any, 0)[0]}
	}
	for _, fl := range k.fields {
		if fl.req {
			o[fl.name] = values(fl.typ, 0)[0]
		}
	}
	return o
}

// ---- comparison

type diff struct{ key, what string }

// compare walks both values along the object model.
func compare(typ, at string, want, got interface{}, out *[]diff) {
	if want == nil && got == nil {
		return
	}
	add := func(format string, args ...interface{}) {
		*out = append(*out, diff{at + " " + fmt.Sprintf(format, args...), ""})
	}
	if typ == "boolOrSchema" {
		if _, ok := want.(obj); ok {
			typ = "Schema"
		}
	}
	k := kinds[typ]
	switch {
	case k == nil && strings.HasPrefix(typ, "[]") && typ != "[]str" && typ != "[]any":
		w, ok1 := want.(list)
		g, ok2 := got.(list)
		if !ok1 || !ok2 || len(w) != len(g) {
			add("%s became %s", class(want), class(got))
			return
		}
		for i := range w {
			compare(typ[2:], typ[2:], w[i], g[i], out)
		}
		return
	case k == nil && strings.HasPrefix(typ, "map:"):
		w, ok1 := want.(obj)
		g, ok2 := got.(obj)
		if !ok1 || !ok2 {
			add("%s became %s", class(want), class(got))
			return
		}
		maps(typ[4:], at+"/*", w, g, out)
		return
	case k == nil:
		if !reflect.DeepEqual(want, got) {
			add("%s became %s", class(want), class(got))
		}
		return
	}
	w, ok1 := want.(obj)
	g, ok2 := got.(obj)
	if !ok1 || !ok2 {
		add("%s became %s", class(want), class(got))
		return
	}
	if k.any != "" {
		if _, ok := w["$ref"]; !ok {
			maps(k.any, typ+"/*", w, g, out)
			return
		}
	}
	names := map[string]field{}
	for _, fl := range k.fields {
		names[fl.name] = fl
	}
	if _, ok := w["$ref"]; ok && k.ref {
		names = map[string]field{"$ref": f("$ref", "ref")}
		typ += "(reference)"
	}
	for _, n := range m.SortedKeys(w) {
		fl, known := names[n]
		gv, there := g[n]
		if !there {
			if known && nothing(fl, w[n]) {
				continue
			}
			key := typ + "." + n + " lost " + class(w[n])
			if !known {
				key = "extensions lost"
			}
			*out = append(*out, diff{key, m.JS(w[n])})
			continue
		}
		if !known { // an extension
			if !reflect.DeepEqual(w[n], gv) {
				*out = append(*out, diff{"extension changed", m.JS(gv)})
			}
			continue
		}
		compare(fl.typ, typ+"."+n, w[n], gv, out)
	}
	if strings.HasSuffix(typ, "(reference)") {
		return // what stands beside a reference is ignored
	}
	for _, n := range m.SortedKeys(g) {
		if _, there := w[n]; !there {
			if fl, ok := names[n]; ok && nothing(fl, g[n]) {
				continue
			}
			*out = append(*out, diff{typ + "." + n + " added " + class(g[n]), m.JS(g[n])})
		}
	}
}

func maps(typ, at string, w, g obj, out *[]diff) {
	for _, n := range m.SortedKeys(w) {
		gv, there := g[n]
		if !there {
			*out = append(*out, diff{at + " lost", m.JS(w[n])})
			continue
		}
		compare(typ, at, w[n], gv, out)
	}
	for _, n := range m.SortedKeys(g) {
		if _, there := w[n]; !there {
			*out = append(*out, diff{at + " added", m.JS(g[n])})
		}
	}
}

// nothing tells if the value of the field says no more than leaving it out.
func nothing(fl field, v interface{}) bool {
	if fl.req {
		return false
	}
	if fl.def != nil && reflect.DeepEqual(decode([]byte(m.JS(fl.def))), v) {
		return true
	}
	switch {
	case fl.typ == "str":
		return v == ""
	case fl.name == "security":
		return false // an empty list lifts the requirements of the document
	case strings.HasPrefix(fl.typ, "[]"):
		l, ok := v.(list)
		return ok && len(l) == 0
	case strings.HasPrefix(fl.typ, "map:"):
		o, ok := v.(obj)
		return ok && len(o) == 0
	}
	return false
}

func class(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool, string:
		return m.JS(v)
	case num:
		return "number"
	case list:
		if len(v) == 0 {
			return "[]"
		}
		return "list"
	case obj:
		if len(v) == 0 {
			return "{}"
		}
		if _, ok := v["$ref"]; ok && len(v) == 1 {
			return "reference"
		}
		return "object"
	}
	return "?"
}

// ---- ways of decoding and encoding

var ways = []string{"json", "value", "container", "again", "config"}

func trip(x *m.X, k string, v interface{}, way string) (got interface{}, ok bool) {
	t := kinds[k].target()
	text := m.JS(v)
	fail := func(err error) (interface{}, bool) {
		key := k + " refused: " + err.Error()
		if strings.Contains(key, "cannot unmarshal bool into Go struct field") && strings.Contains(key, "additionalProperties of type spec.Schema") {
			key = "boolean additionalProperties refused"
		}
		x.Report(key, "decoding %s as %s: %v", text, k, err)
		return nil, false
	}
	if way == "config" {
		// as part of the default operation, override or root of a configuration
		section, wrap := "", interface{}(nil)
		switch k {
		case "Schema":
			section, wrap = "overrides", obj{"go://a/b#/T": v}
		case "Operation":
			section, wrap = "operations", obj{"/a": v}
		default:
			x.Prune()
		}
		c, err := config.ReadJSON([]byte(m.JS(obj{section: wrap})))
		if err != nil {
			return fail(err)
		}
		if k == "Schema" {
			t = c.Overrides["go://a/b#/T"]
		} else {
			t = c.Operations["/a"]
		}
		b, err := json.Marshal(t)
		if err != nil {
			return fail(err)
		}
		return decode(b), true
	}
	if err := json.Unmarshal([]byte(text), t); err != nil {
		return fail(err)
	}
	var b []byte
	var err error
	switch way {
	case "json":
		b, err = json.Marshal(t)
	case "value":
		b, err = json.Marshal(reflect.ValueOf(t).Elem().Interface())
	case "container":
		var c container.Container
		if c, err = container.Make(t); err == nil {
			b, err = c.MarshalJSON()
		}
	case "again":
		if b, err = json.Marshal(t); err == nil {
			t2 := kinds[k].target()
			if err = json.Unmarshal(b, t2); err == nil {
				var b2 []byte
				b2, err = json.Marshal(t2)
				if err == nil {
					report(x, k, decode(b), decode(b2))
				}
				b = b2
			}
		}
	}
	if err != nil {
		return fail(err)
	}
	return decode(b), true
}

// num is a number, written as a fraction.
type num string

func decode(b []byte) (v interface{}) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil || d.More() {
		return "no JSON: " + string(b)
	}
	return exact(v)
}

func exact(v interface{}) interface{} {
	switch v := v.(type) {
	case json.Number:
		q, ok := new(big.Rat).SetString(string(v))
		if !ok {
			return "no number: " + string(v)
		}
		return num(q.RatString())
	case obj:
		for k, e := range v {
			v[k] = exact(e)
		}
	case list:
		for i, e := range v {
			v[i] = exact(e)
		}
	}
	return v
}

func check(x *m.X, k string, v interface{}, way string) {
	x.Case("%s by %s: %s", k, way, m.JS(v))
	got, ok := trip(x, k, v, way)
	if !ok {
		return
	}
	report(x, k, decode([]byte(m.JS(v))), got)
	x.Outcome("%s %s", k, m.JS(got))
}

func report(x *m.X, k string, want, got interface{}) {
	var out []diff
	compare(k, k, want, got, &out)
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	for _, d := range out {
		x.Report(d.key, "%s %s: %s becomes %s", d.key, d.what, m.JS(want), m.JS(got))
	}
}

func single(x *m.X) {
	k := m.Pick(x, "kind", roots...)
	way := m.Pick(x, "way", ways...)
	vv := values(k, m.N(2, 3))
	check(x, k, vv[x.Choose(len(vv), "value")], way)
}

func pairs(x *m.X) {
	k := m.Pick(x, "kind", roots...)
	ff := kinds[k].fields
	if len(ff) < 2 {
		x.Prune()
	}
	i := x.Choose(len(ff), "field")
	j := x.Choose(len(ff), "field")
	if j <= i {
		x.Prune()
	}
	o := base(k)
	for _, n := range []int{i, j} {
		vv := values(ff[n].typ, 0)
		if len(vv) > m.N(4, 8) {
			vv = vv[:m.N(4, 8)]
		}
		o[ff[n].name] = vv[x.Choose(len(vv), "value")]
	}
	check(x, k, o, "json")
}

func triples(x *m.X) {
	k := m.Pick(x, "kind", roots...)
	ff := kinds[k].fields
	if len(ff) < 3 {
		x.Prune()
	}
	i := x.Choose(len(ff)-2, "field")
	j := i + 1 + x.Choose(len(ff)-2-i, "field")
	l := j + 1 + x.Choose(len(ff)-1-j, "field")
	o := base(k)
	for _, n := range []int{i, j, l} {
		vv := values(ff[n].typ, 0)
		if len(vv) > 3 {
			vv = vv[:3]
		}
		o[ff[n].name] = vv[x.Choose(len(vv), "value")]
	}
	check(x, k, o, "again")
}

// full: all fields at once, and all but one
func full(x *m.X) {
	k := m.Pick(x, "kind", roots...)
	ff := kinds[k].fields
	without := x.Choose(len(ff)+1, "without") - 1
	second := x.Choose(3, "values")
	o := base(k)
	for n, fl := range ff {
		if n == without && !fl.req || k == "PathItem" && fl.name == "$ref" {
			continue
		}
		vv := values(fl.typ, 1)
		o[fl.name] = vv[(second*(n+1))%len(vv)]
		if second == 0 {
			o[fl.name] = vv[0]
		}
	}
	check(x, k, o, m.Pick(x, "way", ways[:4]...))
}

func extensions(x *m.X) {
	k := m.Pick(x, "kind", roots...)
	o := base(k)
	if kinds[k].any != "" && k != "Paths" {
		x.Prune()
	}
	v := m.Pick(x, "value", list{1.0, "s", obj{"a": 1.0}}...)
	o["x-e"] = v
	if k == "Paths" {
		x.Prune()
	}
	check(x, k, o, "json")
}

func main() {
	m.Main(m.Check{
		ID: "C20", Level: "model_checking",
		Assume: []string{"the object model of OpenAPI 3.0.3 as written in the harness", "leaving out a field that states its default, or an empty text, list or map that says nothing, is no change"},
		Spaces: []m.Space{
			{Name: "single", Bound: -1, Rule: "every kind of object: every field with every value, nested objects with every field of theirs, x 5 ways of decoding and encoding", Run: single},
			{Name: "pairs", Bound: -1, Rule: "every kind of object: every pair of fields x up to 4 (thorough 8) values each", Run: pairs},
			{Name: "triples", Bound: -1, ThoroughOnly: true, Rule: "every kind of object: every three fields x up to 3 values each, through two rounds", Run: triples},
			{Name: "full", Bound: -1, Rule: "every kind of object with all fields and with all but one, three sets of values, x 4 ways", Run: full},
			{Name: "extensions", Bound: -1, Rule: "every kind of object with an extension", Run: extensions},
		},
	})
}
