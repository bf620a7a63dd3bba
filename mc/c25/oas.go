//go:build go1.21

package main

import (
	"fmt"
	"regexp"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

type obj = map[string]interface{}
type arr = []interface{}

// oas reads a document as the OpenAPI Specification 3.0.3 does and collects
// what is not allowed.
type oas struct {
	doc      obj
	external bool // references to Go types are allowed in place of schemas
	errs     []string
	ids      map[string]string
}

func validate(doc obj, external bool) []string {
	v := &oas{doc: doc, external: external, ids: map[string]string{}}
	v.openapi(doc)
	return v.errs
}

func (v *oas) bad(at, f string, a ...interface{}) {
	v.errs = append(v.errs, at+": "+fmt.Sprintf(f, a...))
}

// rule of a field; required ones have a name ending in !
type rule func(at string, x interface{})

func (v *oas) object(at string, x interface{}, fields map[string]rule, patterns ...interface{}) (obj, bool) {
	o, ok := x.(obj)
	if !ok {
		v.bad(at, "is no object: %s", m.JS(x))
		return nil, false
	}
	for _, f := range m.SortedKeys(fields) {
		n := strings.TrimSuffix(f, "!")
		if _, ok := o[n]; !ok && n != f {
			v.bad(at, "%s is missing", n)
		}
	}
	for _, k := range m.SortedKeys(o) {
		r := fields[k]
		if r == nil {
			r = fields[k+"!"]
		}
		for i := 0; r == nil && i < len(patterns); i += 2 {
			if patterns[i].(*regexp.Regexp).MatchString(k) {
				r = patterns[i+1].(rule)
			}
		}
		if r == nil {
			if !strings.HasPrefix(k, "x-") {
				v.bad(at, "has no field %q", k)
			}
			continue
		}
		r(at+"."+k, o[k])
	}
	return o, true
}

func (v *oas) text(at string, x interface{}) {
	if _, ok := x.(string); !ok {
		v.bad(at, "is no text: %s", m.JS(x))
	}
}

func (v *oas) boolean(at string, x interface{}) {
	if _, ok := x.(bool); !ok {
		v.bad(at, "is neither true nor false: %s", m.JS(x))
	}
}

func (v *oas) number(at string, x interface{}) {
	if _, ok := x.(float64); !ok {
		v.bad(at, "is no number: %s", m.JS(x))
	}
}

func (v *oas) count(at string, x interface{}) {
	if f, ok := x.(float64); !ok || f < 0 || f != float64(int64(f)) {
		v.bad(at, "is no count: %s", m.JS(x))
	}
}

func (v *oas) any(at string, x interface{}) {}

func (v *oas) regex(at string, x interface{}) {
	s, ok := x.(string)
	if _, err := regexp.Compile(s); err != nil || !ok {
		v.bad(at, "is no regular expression: %s", m.JS(x))
	}
}

func (v *oas) one(of ...string) rule {
	return func(at string, x interface{}) {
		for _, s := range of {
			if x == s {
				return
			}
		}
		v.bad(at, "%s is none of %v", m.JS(x), of)
	}
}

func (v *oas) list(r rule, least int, unique bool) rule {
	return func(at string, x interface{}) {
		l, ok := x.(arr)
		if !ok {
			v.bad(at, "is no list: %s", m.JS(x))
			return
		}
		if len(l) < least {
			v.bad(at, "needs %d elements", least)
		}
		seen := map[string]bool{}
		for i, e := range l {
			r(fmt.Sprintf("%s[%d]", at, i), e)
			if unique && seen[m.JS(e)] {
				v.bad(at, "holds %s twice", m.JS(e))
			}
			seen[m.JS(e)] = true
		}
	}
}

var (
	anyKey   = regexp.MustCompile(``)
	compKey  = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)
	pathKey  = regexp.MustCompile(`^/`)
	respKey  = regexp.MustCompile(`^(default|[1-5](\d\d|XX))$`)
	version  = regexp.MustCompile(`^3\.0\.\d+(-.+)?$`)
	template = regexp.MustCompile(`\{([^}]*)\}`)
)

// maps of something
func (v *oas) entries(key *regexp.Regexp, r rule) rule {
	return func(at string, x interface{}) {
		o, ok := x.(obj)
		if !ok {
			v.bad(at, "is no object: %s", m.JS(x))
			return
		}
		for _, k := range m.SortedKeys(o) {
			if !key.MatchString(k) {
				v.bad(at, "key %q is not allowed", k)
			}
			r(at+"."+k, o[k])
		}
	}
}

// ref allows a reference to a component of the section.
func (v *oas) ref(section string, r rule) rule {
	return func(at string, x interface{}) {
		o, ok := x.(obj)
		if ok {
			if s, ok := o["$ref"].(string); ok {
				v.target(at, s, section)
				return
			}
		}
		r(at, x)
	}
}

func (v *oas) target(at, s, section string) {
	if strings.HasPrefix(s, "go://") && v.external && section == "schemas" {
		return
	}
	if !strings.HasPrefix(s, "#/") {
		v.bad(at, "reference %q leaves the document", s)
		return
	}
	var cur interface{} = v.doc
	parts := strings.Split(s[2:], "/")
	for _, p := range parts {
		p = strings.Replace(strings.Replace(p, "~1", "/", -1), "~0", "~", -1)
		o, ok := cur.(obj)
		if !ok || o[p] == nil {
			v.bad(at, "reference %q leads to nothing", s)
			return
		}
		cur = o[p]
	}
	if parts[0] == "components" && (len(parts) < 3 || len(parts) == 3 && parts[1] != section) {
		v.bad(at, "reference %q leads to something else than one of the %s", s, section)
	}
}

func (v *oas) openapi(doc obj) {
	v.object("doc", doc, map[string]rule{
		"openapi!": func(at string, x interface{}) {
			if s, ok := x.(string); !ok || !version.MatchString(s) {
				v.bad(at, "is no version: %s", m.JS(x))
			}
		},
		"info!": func(at string, x interface{}) {
			v.object(at, x, map[string]rule{"title!": v.text, "version!": v.text, "description": v.text, "termsOfService": v.text,
				"contact": func(at string, x interface{}) {
					v.object(at, x, map[string]rule{"name": v.text, "url": v.text, "email": v.text})
				},
				"license": func(at string, x interface{}) { v.object(at, x, map[string]rule{"name!": v.text, "url": v.text}) }})
		},
		"servers": v.list(v.server, 0, false),
		"paths!": func(at string, x interface{}) {
			v.object(at, x, nil, pathKey, rule(v.pathItem))
			shapes := map[string]string{}
			if o, ok := x.(obj); ok {
				for _, k := range m.SortedKeys(o) {
					t := template.ReplaceAllString(k, "{}")
					if shapes[t] != "" {
						v.bad(at, "%s and %s are the same", k, shapes[t])
					}
					shapes[t] = k
				}
			}
		},
		"components":   v.components,
		"security":     v.list(v.requirement, 0, false),
		"tags":         v.tags,
		"externalDocs": v.external3,
	})
}

func (v *oas) tags(at string, x interface{}) {
	names := map[string]bool{}
	v.list(func(at string, x interface{}) {
		o, _ := v.object(at, x, map[string]rule{"name!": v.text, "description": v.text, "externalDocs": v.external3})
		n := m.JS(o["name"])
		if names[n] {
			v.bad(at, "tag %s is there twice", n)
		}
		names[n] = true
	}, 0, false)(at, x)
}

func (v *oas) external3(at string, x interface{}) {
	v.object(at, x, map[string]rule{"url!": v.text, "description": v.text})
}

func (v *oas) server(at string, x interface{}) {
	v.object(at, x, map[string]rule{"url!": v.text, "description": v.text, "variables": v.entries(anyKey, func(at string, x interface{}) {
		v.object(at, x, map[string]rule{"default!": v.text, "description": v.text, "enum": v.list(v.text, 1, false)})
	})})
}

func (v *oas) components(at string, x interface{}) {
	v.object(at, x, map[string]rule{
		"schemas":         v.entries(compKey, v.schema),
		"responses":       v.entries(compKey, v.ref("responses", v.response)),
		"parameters":      v.entries(compKey, v.ref("parameters", v.parameter)),
		"examples":        v.entries(compKey, v.ref("examples", v.example)),
		"requestBodies":   v.entries(compKey, v.ref("requestBodies", v.requestBody)),
		"headers":         v.entries(compKey, v.ref("headers", v.header)),
		"securitySchemes": v.entries(compKey, v.ref("securitySchemes", v.securityScheme)),
		"links":           v.entries(compKey, v.ref("links", v.link)),
		"callbacks":       v.entries(compKey, v.ref("callbacks", v.callback)),
	})
}

func (v *oas) pathItem(at string, x interface{}) {
	f := map[string]rule{"$ref": v.text, "summary": v.text, "description": v.text, "servers": v.list(v.server, 0, false), "parameters": v.parameters}
	for _, k := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
		f[k] = v.operation
	}
	v.object(at, x, f)
}

func (v *oas) parameters(at string, x interface{}) {
	seen := map[string]bool{}
	v.list(func(at string, x interface{}) {
		v.ref("parameters", v.parameter)(at, x)
		o, _ := x.(obj)
		if o["$ref"] == nil {
			k := m.JS(arr{o["name"], o["in"]})
			if seen[k] {
				v.bad(at, "parameter %s is there twice", k)
			}
			seen[k] = true
		}
	}, 0, true)(at, x)
}

func (v *oas) operation(at string, x interface{}) {
	v.object(at, x, map[string]rule{"tags": v.list(v.text, 0, false), "summary": v.text, "description": v.text, "externalDocs": v.external3,
		"operationId": func(at string, x interface{}) {
			v.text(at, x)
			if o := v.ids[m.JS(x)]; o != "" {
				v.bad(at, "%s is the id of %s too", m.JS(x), o)
			}
			v.ids[m.JS(x)] = at
		},
		"parameters": v.parameters, "requestBody": v.ref("requestBodies", v.requestBody), "responses!": v.responses,
		"callbacks": v.entries(anyKey, v.ref("callbacks", v.callback)), "deprecated": v.boolean, "security": v.list(v.requirement, 0, false), "servers": v.list(v.server, 0, false)})
}

func (v *oas) responses(at string, x interface{}) {
	o, ok := v.object(at, x, nil, respKey, v.ref("responses", v.response))
	if ok && len(o) == 0 {
		v.bad(at, "needs a response")
	}
}

func (v *oas) response(at string, x interface{}) {
	v.object(at, x, map[string]rule{"description!": v.text, "headers": v.entries(anyKey, v.ref("headers", v.header)), "content": v.content, "links": v.entries(compKey, v.ref("links", v.link))})
}

func (v *oas) content(at string, x interface{}) {
	v.entries(anyKey, func(at string, x interface{}) {
		v.object(at, x, map[string]rule{"schema": v.schema, "example": v.any, "examples": v.entries(anyKey, v.ref("examples", v.example)),
			"encoding": v.entries(anyKey, func(at string, x interface{}) {
				v.object(at, x, map[string]rule{"contentType": v.text, "headers": v.entries(anyKey, v.ref("headers", v.header)), "style": v.one("form", "spaceDelimited", "pipeDelimited", "deepObject"), "explode": v.boolean, "allowReserved": v.boolean})
			})})
	})(at, x)
}

func (v *oas) parameter(at string, x interface{}) {
	o, ok := v.object(at, x, map[string]rule{"name!": v.text, "in!": v.one("query", "header", "path", "cookie"), "description": v.text, "required": v.boolean, "deprecated": v.boolean, "allowEmptyValue": v.boolean,
		"style": v.one("matrix", "label", "form", "simple", "spaceDelimited", "pipeDelimited", "deepObject"), "explode": v.boolean, "allowReserved": v.boolean, "schema": v.schema, "example": v.any,
		"examples": v.entries(anyKey, v.ref("examples", v.example)), "content": v.content})
	if ok && o["in"] == "path" && o["required"] != true {
		v.bad(at, "parameter of the path is not required")
	}
	v.shape(at, o)
}

func (v *oas) shape(at string, o obj) {
	_, s := o["schema"]
	_, c := o["content"]
	if s == c {
		v.bad(at, "needs either schema or content")
	}
	if c, ok := o["content"].(obj); ok && len(c) != 1 {
		v.bad(at, "content needs one entry")
	}
}

func (v *oas) header(at string, x interface{}) {
	o, _ := v.object(at, x, map[string]rule{"description": v.text, "required": v.boolean, "deprecated": v.boolean, "allowEmptyValue": v.boolean, "style": v.one("simple"), "explode": v.boolean, "allowReserved": v.boolean, "schema": v.schema, "example": v.any,
		"examples": v.entries(anyKey, v.ref("examples", v.example)), "content": v.content})
	v.shape(at, o)
}

func (v *oas) requestBody(at string, x interface{}) {
	v.object(at, x, map[string]rule{"description": v.text, "content!": v.content, "required": v.boolean})
}

func (v *oas) example(at string, x interface{}) {
	v.object(at, x, map[string]rule{"summary": v.text, "description": v.text, "value": v.any, "externalValue": v.text})
}

func (v *oas) link(at string, x interface{}) {
	v.object(at, x, map[string]rule{"operationRef": v.text, "operationId": v.text, "parameters": v.entries(anyKey, v.any), "requestBody": v.any, "description": v.text, "server": v.server})
}

func (v *oas) callback(at string, x interface{}) {
	v.object(at, x, nil, anyKey, rule(v.pathItem))
}

func (v *oas) securityScheme(at string, x interface{}) {
	o, _ := x.(obj)
	f := map[string]rule{"type!": v.one("apiKey", "http", "oauth2", "openIdConnect"), "description": v.text}
	switch o["type"] {
	case "apiKey":
		f["name!"], f["in!"] = v.text, v.one("query", "header", "cookie")
	case "http":
		f["scheme!"], f["bearerFormat"] = v.text, v.text
	case "oauth2":
		flow := func(fields ...string) rule {
			return func(at string, x interface{}) {
				f := map[string]rule{"refreshUrl": v.text, "scopes!": v.entries(anyKey, v.text)}
				for _, n := range fields {
					f[n+"!"] = v.text
				}
				v.object(at, x, f)
			}
		}
		f["flows!"] = func(at string, x interface{}) {
			v.object(at, x, map[string]rule{"implicit": flow("authorizationUrl"), "password": flow("tokenUrl"), "clientCredentials": flow("tokenUrl"), "authorizationCode": flow("authorizationUrl", "tokenUrl")})
		}
	case "openIdConnect":
		f["openIdConnectUrl!"] = v.text
	}
	v.object(at, x, f)
}

func (v *oas) requirement(at string, x interface{}) {
	v.entries(anyKey, v.list(v.text, 0, false))(at, x)
	o, _ := x.(obj)
	for _, k := range m.SortedKeys(o) {
		c, _ := v.doc["components"].(obj)
		s, _ := c["securitySchemes"].(obj)
		if s[k] == nil {
			v.bad(at, "there is no security scheme %s", k)
		}
	}
}

func (v *oas) schema(at string, x interface{}) {
	v.ref("schemas", v.inline)(at, x)
}

func (v *oas) inline(at string, x interface{}) {
	o, ok := v.object(at, x, map[string]rule{
		"title": v.text, "multipleOf": v.number, "maximum": v.number, "exclusiveMaximum": v.boolean, "minimum": v.number, "exclusiveMinimum": v.boolean,
		"maxLength": v.count, "minLength": v.count, "pattern": v.regex, "maxItems": v.count, "minItems": v.count, "uniqueItems": v.boolean, "maxProperties": v.count, "minProperties": v.count,
		"required": v.list(v.text, 1, true), "enum": v.list(v.any, 1, true),
		"type":  v.one("string", "number", "integer", "boolean", "array", "object"),
		"allOf": v.list(v.schema, 1, false), "oneOf": v.list(v.schema, 1, false), "anyOf": v.list(v.schema, 1, false), "not": v.schema,
		"items": v.schema, "properties": v.entries(anyKey, v.schema),
		"additionalProperties": func(at string, x interface{}) {
			if _, ok := x.(bool); !ok {
				v.schema(at, x)
			}
		},
		"description": v.text, "format": v.text, "default": v.any, "nullable": v.boolean,
		"discriminator": func(at string, x interface{}) {
			v.object(at, x, map[string]rule{"propertyName!": v.text, "mapping": v.entries(anyKey, v.text)})
		},
		"readOnly": v.boolean, "writeOnly": v.boolean,
		"xml": func(at string, x interface{}) {
			v.object(at, x, map[string]rule{"name": v.text, "namespace": v.text, "prefix": v.text, "attribute": v.boolean, "wrapped": v.boolean})
		},
		"externalDocs": v.external3, "example": v.any, "deprecated": v.boolean,
	})
	if !ok {
		return
	}
	if _, items := o["items"]; o["type"] == "array" && !items {
		v.bad(at, "array without items")
	}
	if o["readOnly"] == true && o["writeOnly"] == true {
		v.bad(at, "can be neither read nor written")
	}
	if n, ok := o["multipleOf"].(float64); ok && n <= 0 {
		v.bad(at, "multipleOf is not positive")
	}
	for _, k := range []string{"exclusiveMaximum", "exclusiveMinimum"} {
		if o[k] == true && o["m"+k[10:]] == nil {
			v.bad(at, "%s without limit", k)
		}
	}
}
