//go:build go1.21

// C24: the document depends on nothing but what its specifications refer to.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	"github.com/buypal/oapi-go/internal/verifmc/scanfix"
	"gopkg.in/yaml.v2"
)

type obj = map[string]interface{}
type arr = []interface{}

var world *m.World

// ---- programs

type file struct {
	name, head, tail string
	decls            []string
	alias            map[string]string // names of imported packages
	blank            []string          // blank imports
	group            bool              // declarations of types in parentheses
	sep              string
}

type pack struct {
	path, name string
	files      []*file
	other      map[string]string
	spec       obj
	form       string // of the specification file
}

type prog struct {
	packs   map[string]*pack
	opts    []oapi.Option
	dir     string
	command string
}

const (
	pa = "ex.com/a"
	pb = "ex.com/b"
	pc = "ex.com/c"
)

func ref(s string) obj { return obj{"$ref": s} }

func body(s obj) obj {
	return obj{"200": obj{"description": "d", "content": obj{"application/json": obj{"schema": s}}}}
}

// base is the program edits are made to, exports tells which types are.
func base(exports int) *prog {
	ex := func(names ...string) string {
		out := ""
		for _, n := range names {
			if exports == 2 || exports == 1 && (n == "U" || n == "B" || n == "C1") {
				out += "//openapi:schema " + n + "\n"
			}
		}
		return out
	}
	a := &pack{path: pa, name: "a", files: []*file{{name: "x.go", decls: []string{
		ex("T") + "type T struct {\n\tID ID `json:\"id\" oapi:\"id,required\"`\n\tU U\n\tV *V `json:\"v,omitempty\"`\n\tW []W\n\tM map[string]b.B\n\tC b.C\n\tX struct {\n\t\tP int\n\t\tQ *U\n\t}\n\tAt time.Time\n\tE\n}",
		"type ID string",
		ex("U") + "type U struct {\n\tA, B int\n\tNext *U\n}",
		ex("V") + "type V struct {\n\tS string `json:\"s\" oapi:\"s,minLen:1\"`\n}",
		ex("W") + "type W map[string][]U",
		"type E struct {\n\tF1 string\n\tF2 []E2\n}",
		ex("E2") + "type E2 struct {\n\tZ bool\n}",
	}}}}
	a.spec = obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"},
		"paths": obj{
			"/t": obj{"get": obj{"summary": "s", "responses": body(ref("go://#/T"))}},
			"/x": obj{"post": obj{"summary": "x", "requestBody": obj{"content": obj{"application/json": obj{"schema": ref("go://#/T/X")}}}, "responses": body(ref("go://ex.com/b#/C"))}},
		},
		"components": obj{"schemas": obj{"Own": obj{"type": "array", "items": ref("go://#/U")}, "Plain": obj{"type": "string", "enum": arr{"a", "b"}}}}}
	b := &pack{path: pb, name: "b", files: []*file{{name: "y.go", decls: []string{
		ex("B") + "type B struct {\n\tN *B\n\tC c.C1\n\tK Kind\n}",
		"type Kind int",
		ex("C") + "type C struct {\n\tD []c.D\n\tK *Kind\n}",
	}}}}
	b.spec = obj{"openapi": "3.0.3", "paths": obj{"/b": obj{"get": obj{"summary": "b", "responses": body(ref("go://#/B"))}}}}
	c := &pack{path: pc, name: "c", files: []*file{{name: "z.go", decls: []string{
		ex("C1") + "type C1 struct {\n\tQ float64\n}",
		"type D struct {\n\tR uint8\n}",
	}}}}
	return &prog{packs: map[string]*pack{pa: a, pb: b, pc: c}}
}

var imports = map[string]string{"b": pb, "c": pc, "time": "time", "io": "io", "d": "ex.com/d", "h": "ex.com/h-1"}
var qualifiers = regexp.MustCompile(`\b(b|c|d|h|io|time)\.[A-Z]`)

func (f *file) source(p *pack) string {
	sep := f.sep
	if sep == "" {
		sep = "\n\n"
	}
	var text string
	var types []string
	for _, d := range f.decls {
		if f.group && strings.HasPrefix(d, "type ") {
			types = append(types, strings.TrimPrefix(d, "type "))
			continue
		}
		text += d + sep
	}
	if len(types) > 0 {
		text += "type (\n" + strings.Join(types, "\n") + "\n)" + sep
	}
	used := map[string]bool{}
	for _, q := range qualifiers.FindAllStringSubmatch(text, -1) {
		used[q[1]] = true
	}
	head := f.head + "package " + p.name + "\n\n"
	for _, q := range m.SortedKeys(used) {
		name := f.alias[q]
		head += "import " + name + " \"" + imports[q] + "\"\n"
		switch name {
		case "":
		case ".":
			text = regexp.MustCompile(`\b`+q+`\.([A-Z])`).ReplaceAllString(text, "$1")
		default:
			text = regexp.MustCompile(`\b`+q+`\.([A-Z])`).ReplaceAllString(text, name+".$1")
		}
	}
	for _, s := range f.blank {
		head += "import _ \"" + s + "\"\n"
	}
	return head + "\n" + text + f.tail
}

func reversed(v interface{}) interface{} {
	switch v := v.(type) {
	case obj:
		var out yaml.MapSlice
		kk := m.SortedKeys(v)
		sort.Sort(sort.Reverse(sort.StringSlice(kk)))
		for _, k := range kk {
			out = append(out, yaml.MapItem{Key: k, Value: reversed(v[k])})
		}
		return out
	case arr:
		var out arr
		for _, e := range v {
			out = append(out, reversed(e))
		}
		return out
	}
	return v
}

// flow writes v as YAML with keys in reverse order, without quotes or with.
func flow(v interface{}, quote, nl string) string {
	switch v := v.(type) {
	case obj:
		kk := m.SortedKeys(v)
		sort.Sort(sort.Reverse(sort.StringSlice(kk)))
		var out []string
		for _, k := range kk {
			out = append(out, quote+k+quote+": "+flow(v[k], quote, nl))
		}
		return "{" + nl + strings.Join(out, ","+nl) + nl + "}"
	case arr:
		var out []string
		for _, e := range v {
			out = append(out, flow(e, quote, nl))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case string:
		return quote + v + quote
	}
	return m.JS(v)
}

func (p *pack) specFile() (name, text string) {
	y := func(v interface{}) string { b, err := yaml.Marshal(v); must(err); return string(b) }
	switch p.form {
	case "", "yaml":
		return "oapi.yaml", y(p.spec)
	case "yml reversed":
		return "oapi.yml", y(reversed(p.spec))
	case "json":
		return "oapi.json", m.JS(p.spec)
	case "json in yaml":
		return "oapi.yaml", m.JS(p.spec)
	case "json reversed":
		return "oapi.json", flow(p.spec, `"`, "\n\t ")
	case "comments":
		return "oapi.yml", "# comment\n---\n# go://#/None\n" + strings.Replace(y(p.spec), "\n", " # $ref: go://#/None\n", -1) + "# end\n"
	case "quotes":
		return "oapi.yaml", flow(p.spec, "'", " ")
	case "crlf":
		return "oapi.yaml", strings.Replace(y(p.spec), "\n", "\r\n", -1)
	case "anchors":
		return "oapi.yaml", strings.Replace(y(p.spec), "description: d", "description: *d", -1) + "x-d: &d d\n"
	}
	panic(p.form)
}

func (p *prog) write() string {
	var pp []m.Pkg
	for _, path := range m.SortedKeys(p.packs) {
		k := p.packs[path]
		files := map[string]string{}
		for n, s := range k.other {
			files[n] = s
		}
		for _, f := range k.files {
			files[f.name] = f.source(k)
		}
		if k.spec != nil {
			n, s := k.specFile()
			files[n] = s
		}
		pp = append(pp, m.Pkg{Path: path, Files: files})
	}
	return world.Write(pa, pp...)
}

// ---- edits

type edit struct {
	name string
	excl string // edits of one group are not combined
	do   func(p *prog) bool
}

func each(path string, fn func(k *pack) bool) func(*prog) bool {
	return func(p *prog) bool { return fn(p.packs[path]) }
}

var starts = regexp.MustCompile(`\n+((//openapi.*\n)?(type|func|var|const) )`)

// first file of the package
func add(path, where, decl string) func(*prog) bool {
	return each(path, func(k *pack) bool {
		f := k.files[0]
		decls := strings.Split(starts.ReplaceAllString("\n"+decl, "\x00$1"), "\x00")
		if decls[0] == "" {
			decls = decls[1:]
		}
		switch where {
		case "first":
			f.decls = append(decls, f.decls...)
		case "last":
			f.decls = append(f.decls, decls...)
		case "between":
			f.decls = append(append(append([]string{}, f.decls[:1]...), decls...), f.decls[1:]...)
		default:
			k.files = append(k.files, &file{name: where, decls: decls})
		}
		return true
	})
}

func replace(path, old, new string) func(*prog) bool {
	return each(path, func(k *pack) bool {
		done := false
		for _, f := range k.files {
			for i, d := range f.decls {
				if strings.Contains(d, old) {
					f.decls[i] = strings.Replace(d, old, new, 1)
					done = true
				}
			}
		}
		return done
	})
}

func other(path, name, text string) func(*prog) bool {
	return each(path, func(k *pack) bool {
		if k.other == nil {
			k.other = map[string]string{}
		}
		k.other[name] = text
		return true
	})
}

func edits() (out []edit) {
	on := func(name, excl string, do func(*prog) bool) { out = append(out, edit{name, excl, do}) }

	// declarations nobody refers to
	decls := []struct{ name, text string }{
		{"struct", "type Zz struct {\n\tA, B int\n\tZ *Zz\n}"},
		{"unsupported", "type Zc chan func()\ntype Zi interface{ M() }\ntype Zs struct{ C Zc; F func(Zi) }"},
		{"lower", "type zz struct{ a, b int }\nvar zv = zz{1, 2}"},
		{"function", "func Zf(a int) (b string) {\n\ttype T struct{ Q int }\n\ttype U = T\n\tvar v struct{ X struct{ P int } }\n\t_, _ = v, U{}\n\treturn\n}"},
		{"values", "const Zk, Zl = 1, \"go://#/T\"\n\nvar Zm, Zn = map[string]int{\"$ref\": 1}, struct{ P int }{2}"},
		{"comments", "// general comment\n// see openapi:schema T\n// go://#/None\n\n/* openapi */"},
		{"unused export", "//openapi:schema Zu\ntype Zu struct {\n\tA string\n}"},
		{"same as before", "type Zt struct {\n\tX struct {\n\t\tP int\n\t}\n\tQ float64\n\tZ bool\n}"},
	}
	for _, d := range decls {
		for _, path := range []string{pa, pb, pc} {
			for _, where := range []string{"first", "between", "last", "a.go", "zz.go"} {
				if where == "between" && path != pa || where == "a.go" && path == pb || d.name == "comments" && strings.HasSuffix(where, ".go") {
					continue
				}
				on(fmt.Sprintf("%s %s in %s", d.name, where, path), d.name+path, add(path, where, strings.Replace(d.text, "Zu", "Zu"+path[len(path)-1:], -1)))
			}
		}
	}
	on("methods", "", func(p *prog) bool {
		k := p.packs[pa]
		k.files = append(k.files, &file{name: "methods.go", decls: []string{"func (T) String() string { return \"\" }", "func (u *U) Set(n int) *U { type U int; return u }", "func (v V) X() (x T) { return }", "func (w W) A() []U { return w[\"\"] }", "func (ID) B() (d b.C) { return }"}})
		return true
	})
	on("methods of b", "Kind", add(pb, "last", "func (b B) Get() (x c.D) { return }\nfunc (k Kind) String() string { return \"\" }"))

	// the same declarations written in another way
	for _, path := range []string{pa, pb, pc} {
		on("reverse the declarations of "+path, "", each(path, func(k *pack) bool {
			d := k.files[0].decls
			for i := 0; i < len(d)/2; i++ {
				d[i], d[len(d)-1-i] = d[len(d)-1-i], d[i]
			}
			return true
		}))
		on("one file for each declaration of "+path, "", each(path, func(k *pack) bool {
			var ff []*file
			for _, f := range k.files {
				for i, d := range f.decls {
					ff = append(ff, &file{name: fmt.Sprintf("d%d%s", i, f.name), decls: []string{d}, alias: f.alias, blank: f.blank, head: f.head})
				}
			}
			k.files = ff
			return true
		}))
		on("grouped declarations of "+path, "", each(path, func(k *pack) bool { k.files[0].group = true; return true }))
		on("other file name in "+path, "", each(path, func(k *pack) bool { k.files[0].name = "Other-name.x.go"; return true }))
		on("other package name of "+path, "name", func(p *prog) bool {
			k := p.packs[path]
			old := k.name
			k.name = "named"
			for _, o := range p.packs {
				for _, f := range o.files {
					if f.alias == nil {
						f.alias = map[string]string{}
					}
					if f.alias[old] == "" {
						f.alias[old] = old
					}
				}
			}
			return true
		})
		if path == pa {
			on("package main", "name", each(path, func(k *pack) bool {
				k.name = "main"
				k.files[0].decls = append(k.files[0].decls, "func main() {}")
				return true
			}))
		}
		on("package comment of "+path, "", each(path, func(k *pack) bool {
			k.files[0].head = "// Package x\n//\n//\topenapi:schema U\npackage_comment:\n/* more */"
			k.files[0].head = "// Package x has a comment.\n//\n//\topenapi:schema U\n/* more */\n"
			return true
		}))
		on("byte order mark and crlf in "+path, "", each(path, func(k *pack) bool {
			f := k.files[0]
			f.head = "\ufeff" + f.head
			f.sep = "\r\n\r\n\t \r\n"
			return true
		}))
		on("comments in the declarations of "+path, "", each(path, func(k *pack) bool {
			for _, f := range k.files {
				for i, d := range f.decls {
					if strings.HasPrefix(d, "type ") || strings.HasPrefix(d, "//openapi") {
						f.decls[i] = strings.Replace(strings.Replace(d, "{\n", "{ // openapi:schema X\n\t// comment\n", 1), "\n}", " // last\n\n\t/* end\n\topenapi:schema U */\n}", 1)
					}
				}
			}
			return true
		}))
		on("comments of the declarations of "+path, "", each(path, func(k *pack) bool {
			for _, f := range k.files {
				for i, d := range f.decls {
					f.decls[i] = "// D is declared here.\n//\n// More.\n" + d + " // openapi"
				}
			}
			return true
		}))
		on("test file in "+path, "", func(p *prog) bool {
			k := p.packs[path]
			return other(path, "x_test.go", "package "+k.name+"\n\n//openapi:schema Tt\ntype Tt struct{ A int }\n\n//openapi:schema U Tt\n")(p)
		})
		on("excluded files in "+path, "", func(p *prog) bool {
			k := p.packs[path]
			text := "package " + k.name + "\n\n//openapi:schema Xx\ntype T struct{ Xx int }\ntype U T\ntype B T\ntype C1 T\n"
			return other(path, "_x.go", text)(p) && other(path, ".x.go", text)(p)
		})
		for _, n := range []string{"README.md", "oapi.yaml.bak", "oapi.yaml~", "openapi.yaml", "Oapi.json", "oapi.yaml.d/oapi.yaml", "sub/oapi.yaml", "testdata/oapi.json", "vendor/oapi.yml", ".oapi.yaml", "oapi", "oapi.toml", "oapi.txt"} {
			on(n+" in "+path, "", other(path, n, `{"openapi":"9","paths":{"/other":{"get":{"summary":"other","responses":{"200":{"description":"o"}}}}},"components":{"schemas":{"O":{"$ref":"go://#/None"}}}}`))
		}
	}
	on("files of a directory above and beside", "", func(p *prog) bool {
		return other(pa, "../oapi.yaml", `{"paths":{"/above":{}}}`)(p) && other(pa, "../beside/oapi.json", `{"paths":{"/beside":{}}}`)(p) && other(pa, "../beside/x.go", "package beside\n\n//openapi:schema U\ntype U int\n")(p)
	})

	// struct types
	on("unexported field", "", replace(pa, "\tU U\n", "\tU U\n\thidden, Hidden2 chan int `json:\"-\"`\n\tlower struct{ X int }\n"))
	on("blank field", "", replace(pa, "\tF1 string\n", "\t_ func()\n\tF1 string\n\t_, _ int\n"))
	on("ignored field", "", replace(pa, "type U struct {\n", "type U struct {\n\tIgn func() `oapi:\"-\"`\n"))
	on("ignored field of c", "", replace(pc, "\tQ float64\n", "\tQ float64\n\tIgn complex128 `json:\"-\"`\n\tlow chan int\n"))
	on("other tags", "", replace(pa, "\tAt time.Time\n", "\tAt time.Time `xml:\"at,attr\" db:\"created_at\" validate:\"required\"`\n"))
	on("tags of a promoted field", "", replace(pa, "\tF1 string\n", "\tF1 string `yaml:\"-\" bson:\"f1\"`\n"))
	on("omitempty", "", replace(pa, "\tW []W\n", "\tW []W `json:\",omitempty\"`\n"))
	on("name which is the default", "", replace(pa, "\tC b.C\n", "\tC b.C `json:\"C\"`\n"))
	on("fields apart", "", replace(pa, "\tA, B int\n", "\tA int\n\n\tB int\n"))
	on("fields together", "", replace(pb, "\tN *B\n\tC c.C1\n", "\tN *B; C c.C1\n"))
	on("order of fields", "", replace(pa, "\tU U\n\tV *V `json:\"v,omitempty\"`\n", "\tV *V `json:\"v,omitempty\"`\n\tU U\n"))
	on("order of fields of b", "", replace(pb, "\tD []c.D\n\tK *Kind\n", "\tK *Kind\n\tD []c.D\n"))
	on("embedded first", "", func(p *prog) bool {
		return replace(pa, "\tAt time.Time\n\tE\n", "\tAt time.Time\n")(p) && replace(pa, "type T struct {\n", "type T struct {\n\tE\n")(p)
	})
	on("pointer to embedded", "", replace(pa, "\tE\n}", "\t*E\n}"))
	on("parentheses", "", replace(pa, "\tW []W\n", "\tW [](W)\n"))
	on("raw and quoted tags", "", replace(pa, "`json:\"s\" oapi:\"s,minLen:1\"`", "\"json:\\\"s\\\" oapi:\\\"s,minLen:1\\\"\""))
	on("key of a map", "", replace(pa, "\tM map[string]b.B\n", "\tM map[ID]b.B\n"))

	// types by other names
	on("alias of U", "", func(p *prog) bool {
		return replace(pa, "\tU U\n", "\tU Alias\n")(p) && add(pa, "last", "type Alias = U")(p)
	})
	on("alias of alias", "", func(p *prog) bool {
		return replace(pa, "\tV *V ", "\tV Al1 ")(p) && add(pa, "first", "type Al1 = *Al2\n\ntype Al2 = V")(p)
	})
	on("alias of an unnamed type", "", func(p *prog) bool {
		return replace(pa, "\tM map[string]b.B\n", "\tM Map\n")(p) && add(pa, "map.go", "type Map = map[string]b.B")(p)
	})
	on("alias of package b", "", func(p *prog) bool {
		return replace(pa, "\tC b.C\n", "\tC b.Al\n")(p) && add(pb, "last", "type Al = C")(p)
	})
	on("alias of the embedded", "", func(p *prog) bool {
		return replace(pa, "\tE\n}", "\tAlE\n}")(p) && add(pa, "last", "type AlE = E")(p)
	})
	on("alias of a predeclared type", "", func(p *prog) bool {
		return replace(pa, "\tA, B int\n", "\tA, B number\n")(p) && add(pa, "last", "type number = int")(p)
	})
	on("defined predeclared type", "", func(p *prog) bool {
		return replace(pc, "\tQ float64\n", "\tQ Number\n")(p) && add(pc, "last", "type Number float64")(p)
	})
	on("other name of a predeclared type", "", replace(pc, "\tR uint8\n", "\tR byte\n"))
	on("other name of Kind", "Kind", func(p *prog) bool {
		return replace(pb, "type Kind int", "type Sort int")(p) && replace(pb, "\tK Kind\n", "\tK Sort\n")(p) && replace(pb, "\tK *Kind\n", "\tK *Sort\n")(p)
	})
	on("other name of the embedded", "", func(p *prog) bool {
		return replace(pa, "type E struct", "type base struct")(p) && replace(pa, "\tE\n}", "\tbase\n}")(p)
	})
	on("embedded within embedded", "", func(p *prog) bool {
		return replace(pa, "type E struct {\n", "type E struct {\n\tF0\n")(p) && replace(pa, "\tF1 string\n", "")(p) && add(pa, "last", "type F0 struct{ F1 string }")(p)
	})

	// imports
	for _, n := range []string{"other", ".", "time2"} {
		for _, path := range []string{pa, pb} {
			on("import named "+n+" in "+path, "import", each(path, func(k *pack) bool {
				f := k.files[0]
				if f.alias == nil {
					f.alias = map[string]string{}
				}
				f.alias[map[string]string{pa: "b", pb: "c"}[path]] = n
				return true
			}))
		}
	}
	on("import of time named", "", each(pa, func(k *pack) bool {
		f := k.files[0]
		if f.alias == nil {
			f.alias = map[string]string{}
		}
		f.alias["time"] = "t_"
		return true
	}))
	for _, path := range []string{pa, pb, pc} {
		for _, twice := range []bool{false, true} {
			on(fmt.Sprintf("import of a package without specification by %s (%v)", path, twice), "d", func(p *prog) bool {
				k := p.packs[path]
				k.files[len(k.files)-1].blank = append(k.files[len(k.files)-1].blank, "ex.com/d")
				d := &pack{path: "ex.com/d", name: "d", files: []*file{{name: "d.go", decls: []string{"//openapi:schema Dd\ntype Dd struct{ T, U int }", "type T struct{ None int }", "type B T", "type C1 struct{ Q string }"}}}}
				if twice {
					d.files[0].blank = []string{"ex.com/e"}
					p.packs["ex.com/e"] = &pack{path: "ex.com/e", name: "e", files: []*file{{name: "e.go", decls: []string{"type U struct{ None chan int }"}}}}
				}
				p.packs["ex.com/d"] = d
				return true
			})
		}
	}
	on("c imported by a too", "", each(pa, func(k *pack) bool {
		k.files[len(k.files)-1].blank = append(k.files[len(k.files)-1].blank, pc)
		return true
	}))
	on("use of io", "", add(pa, "last", "func Copy(w, r io.Reader) {}"))

	// specifications
	for _, path := range []string{pa, pb} {
		for _, form := range []string{"json", "yml reversed", "json in yaml", "json reversed", "comments", "quotes", "crlf"} {
			on("specification of "+path+" as "+form, "form"+path, each(path, func(k *pack) bool { k.form = form; return true }))
		}
	}
	on("references with package", "", func(p *prog) bool {
		p.packs[pa].spec = rewrite(p.packs[pa].spec, "go://#", "go://ex.com/a#").(obj)
		return true
	})
	on("references of b with package", "", func(p *prog) bool {
		if p.packs[pb].spec == nil {
			return false
		}
		p.packs[pb].spec = rewrite(p.packs[pb].spec, "go://#", "go://ex.com/b#").(obj)
		return true
	})
	on("specification of b in a", "specs", func(p *prog) bool {
		s := rewrite(p.packs[pb].spec, "go://#", "go://ex.com/b#").(obj)
		p.packs[pb].spec = nil
		p.packs[pa].spec["paths"].(obj)["/b"] = s["paths"].(obj)["/b"]
		return true
	})
	on("components in c", "specs", func(p *prog) bool {
		s := p.packs[pa].spec
		p.packs[pc].spec = obj{"openapi": "3.0.3", "components": rewrite(s["components"], "go://#", "go://ex.com/a#")}
		delete(s, "components")
		return true
	})
	on("path in c", "specs", func(p *prog) bool {
		s := p.packs[pa].spec["paths"].(obj)
		p.packs[pc].spec = obj{"openapi": "3.0.3", "paths": obj{"/x": rewrite(s["/x"], "go://#", "go://ex.com/a#")}}
		delete(s, "/x")
		return true
	})
	on("path in a package behind others", "specs", func(p *prog) bool {
		s := p.packs[pa].spec["paths"].(obj)
		k := p.packs[pc]
		k.files[len(k.files)-1].blank = append(k.files[len(k.files)-1].blank, "ex.com/f")
		p.packs["ex.com/f"] = &pack{path: "ex.com/f", name: "f", files: []*file{{name: "f.go", blank: []string{"ex.com/g/v2", "io"}}}}
		p.packs["ex.com/g/v2"] = &pack{path: "ex.com/g/v2", name: "g", files: []*file{{name: "g.go", decls: []string{"type G struct{}"}}},
			spec: obj{"openapi": "3.0.3", "paths": obj{"/x": rewrite(s["/x"], "go://#", "go://ex.com/a#")}}}
		delete(s, "/x")
		return true
	})
	on("type of a package behind others", "Kind", func(p *prog) bool {
		k := p.packs[pb]
		p.packs["ex.com/h-1"] = &pack{path: "ex.com/h-1", name: "h", files: []*file{{name: "h.go", decls: []string{"type Num float64"}}}}
		for _, f := range k.files {
			for i, d := range f.decls {
				if strings.Contains(d, "type Kind int") {
					p.packs["ex.com/h-1"].files[0].decls[0] = "type Num int"
					f.decls[i] = strings.Replace(d, "type Kind int", "type Kind h.Num", 1)
					return true
				}
			}
		}
		return false
	})
	on("info in b", "info", func(p *prog) bool {
		s, t := p.packs[pa].spec, p.packs[pb].spec
		if t == nil {
			return false
		}
		t["info"] = s["info"]
		delete(s, "info")
		return true
	})
	on("specifications saying the same", "info", func(p *prog) bool {
		t := p.packs[pb].spec
		if t == nil {
			return false
		}
		t["info"] = obj{"title": "t"}
		return true
	})

	// options which concern nothing
	on("override of a type not used", "", func(p *prog) bool {
		p.opts = append(p.opts, oapi.WithOverride(map[string]spec.Schema{"go://ex.com/a#/None": {Type: "string"}, "go://ex.com/d#/T": {Type: "string"}, "go://#/T": {Type: "string"}}))
		return true
	})
	on("default operations of no path", "", func(p *prog) bool {
		p.opts = append(p.opts, oapi.WithDefOps(map[string]spec.Operation{"put:/t": {Summary: "no"}, "/t/x": {Summary: "no"}, "/": {Summary: "no"}}))
		return true
	})
	on("empty root", "", func(p *prog) bool { p.opts = append(p.opts, oapi.WithRootSchema(spec.OpenAPI{})); return true })
	on("log", "", func(p *prog) bool { p.opts = append(p.opts, oapi.WithLog(logging.Void())); return true })
	on("directory with dot", "dir", func(p *prog) bool { p.dir = "dot"; return true })
	on("relative directory", "dir", func(p *prog) bool { p.dir = "relative"; return true })
	on("link to directory", "dir", func(p *prog) bool { p.dir = "link"; return true })
	on("working directory", "dir", func(p *prog) bool { p.dir = "cwd"; return true })
	on("no directory", "dir", func(p *prog) bool { p.dir = "none"; return true })
	return
}

func rewrite(v interface{}, old, new string) interface{} {
	switch v := v.(type) {
	case obj:
		out := obj{}
		for k, e := range v {
			out[k] = rewrite(e, old, new)
		}
		return out
	case arr:
		var out arr
		for _, e := range v {
			out = append(out, rewrite(e, old, new))
		}
		return out
	case string:
		return strings.Replace(v, old, new, 1)
	}
	return v
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var (
	baseline = map[int]string{}
	scratch  string
	links    int
)

// scan of a program
func scan(p *prog) scanfix.Result {
	dir := p.write()
	switch p.dir {
	case "dot":
		dir = filepath.Dir(dir) + "/./../" + filepath.Base(filepath.Dir(dir)) + "/" + filepath.Base(dir) + "/."
	case "relative":
		must(os.Chdir(filepath.Dir(filepath.Dir(dir))))
		dir = filepath.Base(filepath.Dir(dir)) + "/" + filepath.Base(dir)
	case "cwd":
		must(os.Chdir(dir))
		dir = "."
	case "none":
		must(os.Chdir(dir))
		dir = ""
	case "link":
		l := filepath.Join(filepath.Dir(filepath.Dir(dir)), "link")
		os.Remove(l)
		must(os.Symlink(dir, l))
		dir = l
	}
	defer os.Chdir("/")
	opts := p.opts
	if dir == "" { // the default
		var r scanfix.Result
		pv, stack := m.Try(func() {
			var o oapi.OAPI
			o, r.Err = oapi.Scan(context.Background(), opts...)
			if r.Err == nil {
				var b []byte
				b, r.Err = oapi.Format("json", o)
				r.JSON = string(b)
			}
		})
		if pv != nil {
			r.Panic = fmt.Sprint(pv, stack)
		}
		return r
	}
	return scanfix.Scan(dir, opts...)
}

func run(n func() int) func(x *m.X) {
	ee := edits()
	return func(x *m.X) {
		exports := 1
		if n() == 1 || m.Thorough() {
			exports = x.Choose(3, "exports")
		}
		want, ok := baseline[exports]
		if !ok {
			r := scan(base(exports))
			if r.Err != nil || r.Panic != "" {
				x.Fail("base", "the program as it is: %v %s", r.Err, r.Panic)
			}
			want = r.JSON
			baseline[exports] = want
		}
		p := base(exports)
		var names []string
		groups := map[string]bool{}
		from := 0
		key := ""
		for i := 0; i < n(); i++ {
			c := x.Choose(len(ee)-from, "edit") + from
			e := ee[c]
			if e.excl != "" {
				if groups[e.excl] {
					x.Prune()
				}
				groups[e.excl] = true
			}
			names = append(names, e.name)
			key = e.name
			if !e.do(p) {
				x.Prune()
			}
			from = c + 1
			if from == len(ee) && i+1 < n() {
				x.Prune()
			}
		}
		x.Case("%d: %s", exports, strings.Join(names, " + "))
		r := scan(p)
		if r.Panic != "" {
			x.Fail(key, "panic: %s\n%s", r.Panic, p.text())
		}
		if r.Err != nil {
			x.Fail(key, "the scan fails: %v\n%s", r.Err, p.text())
		}
		x.Outcome("%d", exports)
		if r.JSON != want {
			x.Fail(key, "the document became\n%s\ninstead of\n%s\nby\n%s", r.JSON, want, p.text())
		}
	}
}

func (p *prog) text() (s string) {
	for _, path := range m.SortedKeys(p.packs) {
		for _, f := range p.packs[path].files {
			s += "== " + path + "/" + f.name + "\n" + f.source(p.packs[path]) + "\n"
		}
	}
	return
}

func main() {
	m.Main(m.Check{
		ID: "C24", Level: "model_checking",
		Init: func(string) { world = m.NewWorld() },
		Assume: []string{
			"the packages are found through the driver protocol of go/packages, which leaves out test files and the files Go ignores",
		},
		Spaces: []m.Space{
			{Name: "one", Bound: -1, Rule: fmt.Sprintf("each of %d edits that change nothing the specifications refer to, made to a program of 3 packages with 3 sets of exports: the same bytes", len(edits())), Run: run(func() int { return 1 })},
			{Name: "two", Bound: -1, Rule: "every two of the edits (quick: with the second set of exports)", Run: run(func() int { return 2 })},
		},
	})
}
