//go:build go1.21

// C16: export comments.
package main

import (
	"fmt"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB = "ex.com/a", "ex.com/b"

type obj = map[string]interface{}

var world *m.World

func basic(s string) *f.Type { return &f.Type{K: f.Basic, Text: s} }

// prog is a fixed program: a.T {X int; Us []b.U}, a.V {Y string}, b.U {Z bool}.
type prog struct {
	T, U, V, X *f.Type
	env        *f.Env
	files      [3]string // a/x.go, a/y.go, b/z.go
}

const (
	srcA = `%[1]spackage a%[2]s
%[3]s
import "ex.com/b"
%[4]s
%[5]stype T struct {%[6]s
	%[7]sX int %[8]s
	Us []b.U
	%[9]s
}%[10]s
%[11]s
func fn(a int) {%[12]s
	%[13]s
	_ = "//openapi:schema StrLit T" %[14]s
	_ = ` + "`\n//openapi:schema RawLit T\n`" + `
	for {
		%[15]s
	}
}
var v = T{
	%[16]s
	X: 1,
}
%[17]s`
	holes = 17
	srcY  = "package a\n%s\ntype V struct { Y string }\n"
	srcB  = "package b\n%s\ntype U struct { Z bool }\n"
)

// lineEnd tells for each hole if a comment there ends the line already.
var needNL = map[int]bool{1: true, 5: true, 7: true}

func newProg() *prog {
	g := &prog{env: &f.Env{Exports: map[*f.Type]string{}, Overrides: map[*f.Type]interface{}{}, Used: map[string]bool{}}}
	g.X = basic("int")
	g.U = &f.Type{K: f.Named, Pkg: pkgB, Name: "U", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "Z", Type: basic("bool")}}}}
	g.V = &f.Type{K: f.Named, Pkg: pkgA, Name: "V", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "Y", Type: basic("string")}}}}
	g.T = &f.Type{K: f.Named, Pkg: pkgA, Name: "T", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: "X", Type: g.X}, {Name: "Us", Type: &f.Type{K: f.Slice, Elem: g.U}}}}}
	g.files = [3]string{srcOfA(nil), fmt.Sprintf(srcY, ""), fmt.Sprintf(srcB, "")}
	return g
}

func srcOfA(at map[int]string) string {
	args := make([]interface{}, holes)
	for i := range args {
		args[i] = at[i+1]
		if at[i+1] != "" && needNL[i+1] {
			args[i] = at[i+1] + "\n"
		}
	}
	return fmt.Sprintf(srcA, args...)
}

func (g *prog) typ(ref string) *f.Type {
	switch ref {
	case "go://ex.com/a#/T":
		return g.T
	case "go://ex.com/a#/V":
		return g.V
	case "go://ex.com/a#/T/X":
		return g.X
	case "go://ex.com/b#/U":
		return g.U
	}
	return nil
}

func (g *prog) scan() f.Result {
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{},
		"x-0": obj{"$ref": "go://#/T"}, "x-1": obj{"$ref": "go://ex.com/b#/U"}, "x-2": obj{"$ref": "go://#/T/X"}, "x-3": obj{"$ref": "go://#/V"}}
	return f.Scan(world.Write(pkgA,
		m.Pkg{Path: pkgA, Files: map[string]string{"x.go": g.files[0], "y.go": g.files[1], "oapi.yaml": m.JS(doc)}},
		m.Pkg{Path: pkgB, Files: map[string]string{"z.go": g.files[2]}}))
}

// judge compares a successful scan with the exports of the environment.
func (g *prog) judge(r f.Result) error {
	if r.Panic != "" {
		return fmt.Errorf("panic: %s", r.Panic)
	}
	if r.Err != nil {
		return fmt.Errorf("the scan failed: %v", r.Err)
	}
	want := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{},
		"x-0": &f.RefTo{T: g.T}, "x-1": &f.RefTo{T: g.U}, "x-2": &f.RefTo{T: g.X}, "x-3": &f.RefTo{T: g.V}}
	got := f.Deep(interface{}(r.Doc)).(obj)
	comps, _ := f.Get(interface{}(got), "components", "schemas").(obj)
	delete(got, "components")
	g.env.Used = map[string]bool{}
	if err := g.env.MatchTree(interface{}(got), interface{}(want)); err != nil {
		return fmt.Errorf("%v in %s", err, r.JSON)
	}
	if err := g.env.Closure(comps); err != nil {
		return fmt.Errorf("%v in %s", err, r.JSON)
	}
	if len(comps) > 0 {
		return fmt.Errorf("components %q nobody refers to in %s", m.SortedKeys(comps), r.JSON)
	}
	return nil
}

// verdict of the directive grammar
type verdict int

const (
	ordinary  verdict = iota // no effect
	export                   // registers
	fails                    // malformed, the scan fails
	notExport                // fails or no effect
	maybe                    // fails or registers
)

var prefixes = []string{"//openapi", "// openapi", "//\topenapi", "//OpenAPI", "//oapi", "///openapi", "//.openapi", "//-openapi", "// //openapi"}
var commands = []string{":schema", "", ":root", ":Schema", ":schemas", "schema", ":", ":schema:", ".schema", ":paths"}
var tokens = []string{"T", "V", "go://ex.com/a#/T", "go://#/T", "go://ex.com/b#/U", "T/X", "Na.me-1_", "", "#/T", "go://ex.com/a#T", "go://ex.com/a", "%zz", "://T", "x#/T", "go://#", "go://ex.com/a#/Nope", "go://ex.com/a#/"}

// source of an export: absolute reference, or "" when it denotes nothing that
// can be referenced; bad tells that it is malformed.
func source(tok, pkg string) (ref string, bad bool) {
	switch tok {
	case "", "#/T", "go://ex.com/a#T", "%zz", "://T", "x#/T", "go://ex.com/a", "go://#", "go://ex.com/a#/":
		return "", true
	case "go://#/T":
		return "go://" + pkg + "#/T", false
	}
	if strings.HasPrefix(tok, "go://") {
		return tok, false
	}
	return "go://" + pkg + "#/" + tok, false
}

func goodName(n string) bool { return n != "" && !strings.ContainsAny(n, ":/#%") }

func classify(prefix, cmd string, args []string, pkg string) (v verdict, name, ref string) {
	if prefix != "//openapi" {
		return ordinary, "", ""
	}
	for len(args) > 0 && args[len(args)-1] == "" {
		args = args[:len(args)-1]
	}
	switch cmd {
	case ":schema":
	case "":
		return ordinary, "", ""
	case "schema", ".schema", ":root":
		return notExport, "", ""
	default:
		return fails, "", ""
	}
	var compact []string
	for _, a := range args {
		if a != "" {
			compact = append(compact, a)
		}
	}
	v = export
	if len(compact) != len(args) {
		v = maybe
	}
	bad := false
	switch len(compact) {
	case 1:
		ref, bad = source(compact[0], pkg)
		name = ref[strings.LastIndex(ref, "/")+1:]
	case 2:
		name = compact[0]
		ref, bad = source(compact[1], pkg)
		if !goodName(name) && !bad {
			v = maybe
		}
	default:
		return fails, "", ""
	}
	if bad {
		return fails, "", ""
	}
	return
}

// apply judges a scan of a program holding one directive.
func (g *prog) apply(x *m.X, r f.Result, v verdict, name, ref string) {
	x.Outcome("%v %v", v, r.Err != nil)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	switch v {
	case fails:
		if r.Err == nil {
			x.Fail("accepted", "malformed comment is accepted: %s", r.JSON)
		}
		return
	case ordinary:
		if err := g.judge(r); err != nil {
			x.Fail("ordinary", "ordinary comment has an effect: %v", err)
		}
		return
	case notExport:
		if r.Err == nil {
			if err := g.judge(r); err != nil {
				x.Fail("ordinary", "ordinary comment has an effect: %v", err)
			}
		}
		return
	case maybe:
		if r.Err != nil {
			return
		}
	}
	t := g.typ(ref)
	if t == nil { // exports something that is not there
		if r.Err == nil {
			if err := g.judge(r); err != nil {
				x.Fail("missing", "export of a missing type: %v", err)
			}
		}
		return
	}
	g.env.Exports[t] = name
	if err := g.judge(r); err != nil {
		x.Fail("export", "%v", err)
	}
}

func texts(x *m.X) {
	g := newProg()
	prefix := prefixes[x.Choose(len(prefixes), "prefix")]
	cmd := commands[x.Choose(len(commands), "command")]
	max := m.N(2, 3)
	if prefix != "//openapi" || cmd != ":schema" {
		max = 1
	}
	var args []string
	for i := 0; i < max; i++ {
		c := x.Choose(len(tokens)+1, "argument")
		if c == 0 {
			break
		}
		args = append(args, tokens[c-1])
	}
	if max == 2 && len(args) == 2 && x.Bool("third argument") {
		args = append(args, "V")
	}
	trail := m.Pick(x, "trail", "", " ", "   ")
	where := x.Choose(2, "package")
	text := prefix + cmd
	for _, a := range args {
		text += " " + a
	}
	text += trail
	pkg := pkgA
	if where == 0 {
		g.files[1] = fmt.Sprintf(srcY, text)
	} else {
		g.files[2] = fmt.Sprintf(srcB, text)
		pkg = pkgB
	}
	x.Case("%q in %s", text, pkg)
	v, name, ref := classify(prefix, cmd, args, pkg)
	g.apply(x, g.scan(), v, name, ref)
}

var good = []struct{ text, name, ref string }{
	{"//openapi:schema T", "T", "go://ex.com/a#/T"},
	{"//openapi:schema Na.me-1_ V", "Na.me-1_", "go://ex.com/a#/V"},
	{"//openapi:schema go://ex.com/b#/U", "U", "go://ex.com/b#/U"},
	{"//openapi:schema UU go://ex.com/b#/U", "UU", "go://ex.com/b#/U"},
	{"//openapi:schema TX T/X", "TX", "go://ex.com/a#/T/X"},
	{"//openapi:schema go://#/V", "V", "go://ex.com/a#/V"},
}

// around puts a comment into a comment group.
func around(x *m.X, text string) string {
	switch x.Choose(5, "group") {
	case 1:
		return "// ordinary\n" + text
	case 2:
		return text + "\n// ordinary"
	case 3:
		return "// a\n\n/* openapi:schema V */\n" + text + "\n//\n//go:generate x"
	case 4:
		return "/*\n//openapi:schema T\nopenapi:schema V\n*/ " + text
	}
	return text
}

func positions(x *m.X) {
	g := newProg()
	d := good[x.Choose(len(good), "directive")]
	text := around(x, d.text)
	hole := 1 + x.Choose(holes, "position")
	other := x.Choose(3, "other comments")
	at := map[int]string{hole: text}
	if other > 0 {
		for i := 1; i <= holes; i++ {
			if i != hole {
				at[i] = [3]string{"", "// openapi:schema T", "//openap:schema V"}[other]
			}
		}
	}
	g.files[0] = srcOfA(at)
	crlf := x.Bool("crlf")
	if crlf {
		g.files[0] = strings.ReplaceAll(g.files[0], "\n", "\r\n")
	}
	x.Case("%q at position %d, crlf %v, other comments %d", text, hole, crlf, other)
	g.apply(x, g.scan(), export, d.name, d.ref)
}

// pairs of directives
func pairs(n func() int) func(x *m.X) {
	return func(x *m.X) {
		g := newProg()
		type dir struct{ text, name, ref string }
		all := []dir{}
		for _, d := range good {
			all = append(all, dir(d))
		}
		all = append(all, dir{"//openapi:schema V", "V", "go://ex.com/a#/V"}, dir{"//openapi:schema T V", "T", "go://ex.com/a#/V"}, dir{"//openapi:schema T go://ex.com/b#/U", "T", "go://ex.com/b#/U"},
			dir{"//openapi:schema W go://ex.com/a#/T", "W", "go://ex.com/a#/T"}, dir{"//openapi:schema w go://ex.com/a#/V", "w", "go://ex.com/a#/V"},
			dir{"// openapi:schema T", "", ""}, dir{"//openapi:schema", "!", "!"}, dir{"//openapi", "", ""})
		var text [3]string
		what := ""
		names, refs := map[string]bool{}, map[string]bool{}
		bad := false
		for i := 0; i < n(); i++ {
			d := all[x.Choose(len(all), "directive")]
			w := x.Choose(3, "file")
			if w == 2 && !strings.Contains(d.text, "://e") && d.name != "" {
				// relative to package b
				if d.ref != "!" {
					d.ref = "go://ex.com/b#" + d.ref[strings.Index(d.ref, "#")+1:]
				}
			}
			text[w] += d.text + "\n"
			what += fmt.Sprintf("%q in file %d; ", d.text, w)
			if d.name == "!" {
				bad = true
			} else if d.name != "" {
				if names[d.name] || refs[d.ref] {
					bad = true
				}
				names[d.name], refs[d.ref] = true, true
				if t := g.typ(d.ref); t != nil {
					g.env.Exports[t] = d.name
				}
			}
		}
		g.files[0] = srcOfA(map[int]string{17: text[0]})
		g.files[1] = fmt.Sprintf(srcY, text[1])
		g.files[2] = fmt.Sprintf(srcB, text[2])
		x.Case("%s", what)
		r := g.scan()
		x.Outcome("%v %v %d", bad, r.Err != nil, len(g.env.Exports))
		if r.Panic != "" {
			x.Fail("panic", "%s", r.Panic)
		}
		if bad {
			if r.Err == nil {
				x.Fail("accepted", "the scan succeeds with %s", r.JSON)
			}
			return
		}
		if err := g.judge(r); err != nil {
			x.Fail("export", "%v", err)
		}
	}
}

// packages: comments in packages named alike
// many: many exports, in one file or several, of many types
func many(x *m.X) {
	sizes := []int{5, 9, 17, 65}
	if m.Thorough() {
		sizes = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 100, 129, 257}
	}
	n := m.Pick(x, "types", sizes...)
	place := m.Pick(x, "place", "behind each type", "one group", "file each", "within a function", "package b")
	how := m.Pick(x, "names", "own", "other", "letter case", "prefixes", "dots")
	every := m.Pick(x, "exported", 1, 2, n-1)
	last := m.Pick(x, "last", "good", "name again", "type again")
	env := &f.Env{Exports: map[*f.Type]string{}, Overrides: map[*f.Type]interface{}{}, Used: map[string]bool{}}
	filesA, filesB := map[string]string{}, map[string]string{"z.go": "package b\ntype U struct { Z bool }\n"}
	decls, group := "", ""
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	want := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	var first, end string
	bad := false
	for i := 0; i < n; i++ {
		tn := fmt.Sprintf("T%d", i)
		t := &f.Type{K: f.Named, Pkg: pkgA, Name: tn, Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: fmt.Sprintf("X%d", i), Type: basic("int")}}}}
		decl := fmt.Sprintf("type %s struct { X%d int }\n", tn, i)
		doc[fmt.Sprintf("x-%d", i)] = obj{"$ref": "go://" + pkgA + "#/" + tn}
		want[fmt.Sprintf("x-%d", i)] = &f.RefTo{T: t}
		dir := ""
		if i%every == every-1 {
			name := map[string]string{"own": tn, "other": fmt.Sprintf("N%d", n-i), "letter case": strings.Repeat("a", i/2+1) + []string{"b", "B"}[i%2],
				"prefixes": strings.Repeat("T", i+1), "dots": fmt.Sprintf("a.b-%d_", i)}[how]
			arg := " go://" + pkgA + "#/" + tn
			if place != "package b" && i%2 == 0 {
				arg = " " + tn
			}
			if i == n-1 && first != "" && last == "name again" {
				name, bad = first, true
			}
			dir = "//openapi:schema " + name + arg + "\n"
			if i == n-1 && first != "" && last == "type again" {
				dir, bad = dir+"//openapi:schema Again"+strings.Replace(dir[len("//openapi:schema "+name):], tn, end, 1), true
			}
			if first == "" {
				first, end = name, tn
			}
			env.Exports[t] = name
		}
		switch place {
		case "behind each type":
			decls += decl + dir
		case "file each":
			filesA[fmt.Sprintf("f%d.go", i)] = "package a\n" + decl + dir
		default:
			decls += decl
			group += dir
		}
	}
	switch place {
	case "one group":
		decls += group
	case "within a function":
		decls += "func fn() {\n" + group + "}\n"
	case "package b":
		filesB["y.go"] = "package b\n" + group
	}
	filesA["x.go"] = "package a\nimport _ \"" + pkgB + "\"\n" + decls
	filesA["oapi.yaml"] = m.JS(doc)
	x.Case("%d types, every %d exported %s as %s, last %s", n, every, place, how, last)
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Files: filesA}, m.Pkg{Path: pkgB, Files: filesB}))
	x.Outcome("%v %d", r.Err != nil, len(env.Exports))
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if bad {
		if r.Err == nil {
			x.Fail("accepted", "the scan succeeds with %s", r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	got := f.Deep(interface{}(r.Doc)).(obj)
	comps, _ := f.Get(interface{}(got), "components", "schemas").(obj)
	delete(got, "components")
	if err := env.MatchTree(interface{}(got), interface{}(want)); err != nil {
		x.Fail("export", "%v in %s", err, r.JSON)
	}
	if err := env.Closure(comps); err != nil {
		x.Fail("export", "%v in %s", err, r.JSON)
	}
	if len(comps) > 0 {
		x.Fail("export", "components %q nobody refers to", m.SortedKeys(comps))
	}
}

func packages(x *m.X) {
	paths := []string{pkgA, "ex.com/x/v", "ex.com/y/v", "ex.com/x/v/v"}
	names := m.Pick(x, "names", "a v v v", "main main v main", "v v v v", "a v V v2", "a_test v w _v")
	comments := []string{"", "//openapi:schema T", "//openapi:schema Own%d T", "//openapi:schema Two%d\n\n//openapi:schema T%[1]d Two%[1]d", "//openapi:schema From%d go://ex.com/y/v#/Three"}
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	want := map[string]string{} // reference, component
	used := map[string]bool{}
	types := []string{"T", "Two%d", "Three"}
	var pkgs []m.Pkg
	what := names + ":"
	bad := false
	export := func(name, ref string) {
		if used[name] || want[ref] != "" {
			bad = true
		}
		used[name], want[ref] = true, name
	}
	for i, p := range paths {
		c := x.Choose(len(comments), "comment")
		text := comments[c]
		if strings.Contains(text, "%") {
			text = fmt.Sprintf(text, i)
		}
		what += fmt.Sprintf(" %q", text)
		switch c {
		case 1:
			export("T", "go://"+p+"#/T")
		case 2:
			export(fmt.Sprintf("Own%d", i), "go://"+p+"#/T")
		case 3:
			export(fmt.Sprintf("Two%d", i), fmt.Sprintf("go://%s#/Two%d", p, i))
			// a second name for the same type
			export(fmt.Sprintf("T%d", i), fmt.Sprintf("go://%s#/Two%d", p, i))
		case 4:
			export(fmt.Sprintf("From%d", i), "go://ex.com/y/v#/Three")
		}
		src := "package " + strings.Fields(names)[i] + "\n"
		if i == 0 {
			src += "import (\n"
			for j, q := range paths[1:] {
				src += fmt.Sprintf("\ti%d %q\n", j, q)
			}
			src += ")\nvar (\n\t_ i0.T\n\t_ i1.T\n\t_ i2.T\n)\n"
		}
		src += text + "\n\n"
		for j, t := range types {
			if strings.Contains(t, "%") {
				t = fmt.Sprintf(t, i)
			}
			src += fmt.Sprintf("type %s struct { F%d%d int }\n", t, i, j)
			doc[fmt.Sprintf("x-%d%d", i, j)] = obj{"$ref": "go://" + p + "#/" + t}
		}
		pkgs = append(pkgs, m.Pkg{Path: p, Files: map[string]string{"x.go": src}})
	}
	pkgs[0].Files["oapi.yaml"] = m.JS(doc)
	for _, q := range paths[1:] {
		pkgs[0].Imports = append(pkgs[0].Imports, q)
	}
	x.Case("%s", what)
	r := f.Scan(world.Write(pkgA, pkgs...))
	x.Outcome("%v %v", bad, r.Err != nil)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if bad {
		if r.Err == nil {
			x.Fail("accepted", "the scan succeeds with %s", r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	exp := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
	comps := obj{}
	for i, p := range paths {
		for j, t := range types {
			if strings.Contains(t, "%") {
				t = fmt.Sprintf(t, i)
			}
			s := obj{"type": "object", "properties": obj{fmt.Sprintf("F%d%d", i, j): obj{"type": "integer", "format": "int32"}}}
			if n := want["go://"+p+"#/"+t]; n != "" {
				comps[n] = s
				s = obj{"$ref": "#/components/schemas/" + n}
			}
			exp[fmt.Sprintf("x-%d%d", i, j)] = s
		}
	}
	if len(comps) > 0 {
		exp["components"] = obj{"schemas": comps}
	}
	if m.JS(r.Doc) != m.JS(exp) {
		x.Fail("export", "got %s\nwant %s", m.JS(r.Doc), m.JS(exp))
	}
}

// sources: names and heads of the file the comment is in
func sources(x *m.X) {
	names := []string{"x.go", "doc.go", "x.pb.go", "zz_generated.go", "generated.go", "x_gen.go", "mock_x.go", "main.go", "a.go", "x_linux.go", "x_amd64.go", "vendor.go", "oapi.go", "x.y.go", "X.GO.go", "test.go", "xtest.go", "é.go", "bindata.go", "x_string.go"}
	heads := []string{"", "// Code generated by x. DO NOT EDIT.\n\n", "// Code generated by x. DO NOT EDIT.\n", "/* Code generated by x. DO NOT EDIT. */\n\n", "// Copyright (c) someone\n\n", "// Package a is there.\n", "// +build linux\n\n", "//go:build linux\n\n", "//go:generate x\n\n", "// Deprecated: no.\n", "//nolint\n",
		"// +build ignore\n\n", "//line y.go:1\n", "/*line y.y:1*/", "\ufeff", "// Code generated by x. DO NOT EDIT.\n\n// Package a\n", "\n\n\n", "// openapi\n\n", "// @generated\n\n", "//lint:file-ignore U1000 x\n\n"}
	g := newProg()
	name := names[x.Choose(len(names), "name")]
	head := heads[x.Choose(len(heads), "head")]
	both := x.Choose(3, "what") // the type, the comment, both
	src := head + "package a\n"
	decl, dir := "type Q struct { QX int }\n", "//openapi:schema Qq Q\n"
	other := "package a\n"
	if both != 1 {
		src += decl
	} else {
		other += decl
	}
	if both != 0 {
		src += dir
	} else {
		other += dir
	}
	filesA := map[string]string{"p.go": g.files[0], name: src, "q.go": other}
	if name == "x.go" || name == "a.go" {
		filesA["p.go"], filesA["q.go"] = g.files[0], other
	}
	filesA["oapi.yaml"] = m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "x-q": obj{"$ref": "go://" + pkgA + "#/Q"}})
	x.Case("%s %q %d", name, head, both)
	r := f.Scan(world.Write(pkgA, m.Pkg{Path: pkgA, Files: filesA}, m.Pkg{Path: pkgB, Files: map[string]string{"z.go": g.files[2]}}))
	x.Outcome("%v", r.Err != nil)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	want := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "x-q": obj{"$ref": "#/components/schemas/Qq"},
		"components": obj{"schemas": obj{"Qq": obj{"type": "object", "properties": obj{"QX": obj{"type": "integer", "format": "int32"}}}}}}
	if m.JS(r.Doc) != m.JS(want) {
		x.Fail("export", "got %s\nwant %s", m.JS(r.Doc), m.JS(want))
	}
}

func main() {
	m.Main(m.Check{
		ID: "C16", Level: "model_checking",
		Init:   func(string) { world = m.NewWorld() },
		Assume: []string{"the packages are found through the driver protocol of go/packages", "a comment with a misspelled prefix is an ordinary one; one with several blanks between its words may be refused", "an export of a type that does not exist may be refused or ignored"},
		Spaces: []m.Space{
			{Name: "texts", Bound: -1, Rule: "9 prefixes x 10 commands x up to two (three) of 17 arguments x trailing blanks x package", Run: texts},
			{Name: "positions", Bound: -1, Rule: "6 forms x 17 places in a source file x 5 comment groups x ordinary comments at all other places x line ends", Run: positions},
			{Name: "sources", Bound: -1, Rule: "20 names x 20 heads of the file the comment, the type or both are in", Run: sources},
			{Name: "packages", Bound: -1, Rule: "4 packages with 5 choices of package names (equal, main, case) x 5 comments in each", Run: packages},
			{Name: "many", Bound: -1, Rule: "5 to 65 (4 to 257) types, all, half or one of them exported at 5 kinds of places under names of 5 kinds, the last one good or naming the first name or type again", Run: many},
			{Name: "pairs", Bound: -1, Rule: "all ordered pairs of 14 comments x the file each is in", Run: pairs(func() int { return 2 })},
			{Name: "triples", Bound: -1, ThoroughOnly: true, Rule: "all ordered triples of 14 comments x the file each is in", Run: pairs(func() int { return 3 })},
		},
	})
}
