//go:build go1.21

// C18: flags, configuration and inherited configuration.
package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"strings"

	cli "github.com/buypal/oapi-go/internal/verifmc/clifix"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

type obj = map[string]interface{}
type arr = []interface{}

var tree *cli.Tree

// all directories are packages; the document tells which one was scanned
var dirs = []string{"cwd", "cwd/rel", "cwd/conf", "conf", "conf/rel", "ext", "ext/rel", "abs1", "abs2", "abs3", "rel", "ext2", "ext2/rel", "cwd/rel/rel"}

func spec(dir string) obj {
	return obj{"openapi": "3.0.3", "info": obj{"version": "-"}, "paths": obj{"/" + dir: obj{"get": obj{"responses": obj{"200": obj{"description": "d", "content": obj{"m": obj{"schema": obj{"$ref": "go://#/T"}}}}}}}}}
}

func scanned(doc obj) string {
	p, _ := doc["paths"].(obj)
	for k := range p {
		return strings.TrimPrefix(k, "/")
	}
	return ""
}

func text(kind string, v obj) string {
	if kind == "json" {
		return m.JS(v)
	}
	var b strings.Builder
	for _, k := range m.SortedKeys(v) {
		fmt.Fprintf(&b, "%s: %s\n", k, m.JS(v[k])) // flow style
	}
	return b.String()
}

// layers is a chain of configuration files: each extends the next one.
type layers struct {
	vals  []obj
	files []string // relative to the tree
	rel   []bool   // how the next one is named
}

func (l layers) write(kind string) {
	for i := range l.vals {
		v := f.Deep(interface{}(l.vals[i])).(obj)
		if i+1 < len(l.vals) {
			if l.rel[i] {
				r, err := filepath.Rel(filepath.Dir(l.files[i]), l.files[i+1])
				if err != nil {
					panic(err)
				}
				v["extends"] = r
			} else {
				v["extends"] = tree.Path(l.files[i+1])
			}
		}
		tree.Write(l.files[i], text(kind, v))
	}
}

// expect is the outcome of a run.
type expect struct {
	dirs    []string // scanned directory, any of these
	format  string
	outputs []string // "stdout", "stderr" or a path in the tree, for each of dirs
}

func run(x *m.X, args []string) (cli.Result, map[string]string) {
	before := tree.Files()
	r := cli.Run(cli.Cmd{Dir: tree.Path("cwd"), Args: args})
	after := tree.Files()
	for k, v := range before {
		if after[k] == v {
			delete(after, k)
		} else if _, ok := after[k]; !ok {
			after[k] = "REMOVED"
		}
	}
	return r, after
}

func judge(x *m.X, args []string, e expect) obj {
	r, files := run(x, args)
	x.Outcome("%d %d %d %v", r.Code, len(r.Stdout), len(r.Stderr), m.SortedKeys(files))
	if r.Code != 0 {
		x.Fail("exit", "exit status %d: %s %s", r.Code, r.Stdout, r.Stderr)
	}
	got := map[string]string{}
	if r.Stdout != "" {
		got["stdout"] = r.Stdout
	}
	if r.Stderr != "" {
		got["stderr"] = r.Stderr
	}
	for k, v := range files {
		got[k] = v
	}
	if len(got) != 1 {
		x.Fail("output", "outputs are %v, want %v", m.SortedKeys(got), e.outputs)
	}
	for at, s := range got {
		format, doc := cli.Format(s)
		dir := scanned(doc)
		ok := false
		for i, d := range e.dirs {
			if d == dir {
				ok = true
				if e.outputs[i] != at {
					x.Fail("output", "the output is %s, want %s", at, e.outputs[i])
				}
			}
		}
		if !ok {
			x.Fail("dir", "the directory scanned is %q, want %v\n%s", dir, e.dirs, s)
		}
		if format != e.format {
			x.Fail("format", "the format is %s, want %s\n%s", format, e.format, s)
		}
		return doc
	}
	return nil
}

var places = []string{"conf/c", "cwd/c", "cwd/conf/c"}

// pick chooses a value of a setting in a layer
func pick(x *m.X, what string, n int) int { return x.Choose(n, what) }

type setting struct {
	val string // "" not set
	abs bool
}

// dirOf gives the tree path of a directory value relative to base
func join(base string, s setting) string {
	if s.abs {
		return s.val
	}
	return filepath.Join(base, s.val)
}

func value(s setting) string {
	if s.abs {
		return tree.Path(s.val)
	}
	return s.val
}

// directory and output together
func paths(x *m.X) {
	tree.Reset("out", "abs1/out")
	place := places[x.Choose(m.N(2, 3), "place of configuration")]
	kind := []string{"yaml", "json", "yml"}[x.Choose(m.N(1, 3), "kind of configuration")]
	relConf := x.Bool("relative --config")
	dirVals := func(abs string) []setting {
		return []setting{{}, {val: "rel"}, {val: abs, abs: true}, {val: "../rel"}}
	}
	outVals := func(n string) []setting {
		return []setting{{}, {val: n + ".out"}, {val: "abs1/" + n + ".out", abs: true}, {val: "stdout"}, {val: "stderr"}, {val: "../" + n + ".up"}}
	}
	three := x.Choose(m.N(2, 3), "layers") // configuration alone or with extended ones
	l := layers{files: []string{place + "." + kind, "ext/e." + kind, "ext2/f." + kind}[:three+1], rel: []bool{x.Bool("absolute extends"), false}}
	l.rel[0] = !l.rel[0]
	l.rel[1] = l.rel[0]
	nd, no := m.N(3, 4), m.N(5, 6)
	fdir := dirVals("abs1")[x.Choose(nd, "--dir")]
	fout := outVals("flag")[x.Choose(no, "--output")]
	var ds, os []setting
	for i := 0; i <= three; i++ {
		d := dirVals(fmt.Sprintf("abs%d", i+1))[x.Choose(nd, "dir")]
		o := outVals(fmt.Sprintf("conf%d", i))[x.Choose(no, "output")]
		if !m.Thorough() && three > 0 && (d.val != "" && o.val != "" && i > 0) {
			x.Prune()
		}
		ds, os = append(ds, d), append(os, o)
		v := obj{}
		if d.val != "" {
			v["dir"] = value(d)
		}
		if o.val != "" {
			v["output"] = value(o)
		}
		l.vals = append(l.vals, v)
	}
	if !m.Thorough() && three > 0 && (fdir.val != "" && fout.val != "") {
		x.Prune()
	}
	l.write(kind)
	var args []string
	conf := tree.Path(l.files[0])
	if relConf {
		conf, _ = filepath.Rel(tree.Path("cwd"), conf)
	}
	args = append(args, "--config", conf)
	if fdir.val != "" {
		args = append(args, "--dir", value(fdir))
	}
	if fout.val != "" {
		args = append(args, "--output", value(fout))
	}
	x.Case("%s; %v; in %s", strings.Join(args, " "), l.vals, l.files)
	e := expect{format: "json:pretty"}
	switch {
	case fdir.val != "":
		e.dirs = []string{join("cwd", fdir)}
	default:
		e.dirs = []string{"cwd"}
		for i, d := range ds {
			if d.val != "" {
				e.dirs = []string{join(filepath.Dir(l.files[0]), d)}
				if i > 0 { // inherited: relative to either configuration
					e.dirs = append(e.dirs, join(filepath.Dir(l.files[i]), d))
				}
				break
			}
		}
	}
	for _, d := range e.dirs {
		out := "stdout"
		set := func(base string, s setting) {
			if s.val == "stdout" || s.val == "stderr" {
				out = s.val
				return
			}
			out = join(base, s)
		}
		if fout.val != "" {
			set("cwd", fout)
		} else {
			for _, o := range os {
				if o.val != "" {
					set(d, o)
					break
				}
			}
		}
		e.outputs = append(e.outputs, out)
	}
	judge(x, args, e)
}

var formats = []string{"", "json", "json:pretty", "yaml", "yml", "go"}

func shown(f string) string {
	switch f {
	case "":
		return "json:pretty"
	case "yml":
		return "yaml"
	}
	return f
}

// format in flag and up to three configurations, or none
func format(x *m.X) {
	tree.Reset()
	n := x.Choose(4, "configurations")
	flag := formats[x.Choose(len(formats), "--format")]
	l := layers{files: []string{"conf/c.yaml", "ext/e.yaml", "ext2/f.yaml"}[:n], rel: []bool{true, true}}
	want := flag
	for i := 0; i < n; i++ {
		v := formats[x.Choose(len(formats), "format")]
		o := obj{"version": "1"}
		if v != "" {
			o["format"] = v
			if want == "" {
				want = v
			}
		}
		l.vals = append(l.vals, o)
	}
	if n > 0 {
		l.write("yaml")
	}
	var args []string
	eq := x.Bool("flag=value")
	add := func(name, v string) {
		if eq {
			args = append(args, name+"="+v)
		} else {
			args = append(args, name, v)
		}
	}
	if n > 0 {
		add("--config", "../conf/c.yaml")
	}
	if flag != "" {
		add("--format", flag)
	}
	x.Case("%v %v", args, l.vals)
	judge(x, args, expect{dirs: []string{"cwd"}, outputs: []string{"stdout"}, format: shown(want)})
}

// no configuration at all
func flags(x *m.X) {
	tree.Reset()
	var args []string
	e := expect{format: "json:pretty", dirs: []string{"cwd"}, outputs: []string{"stdout"}}
	d := []setting{{}, {val: "rel"}, {val: "."}, {val: "../abs1"}, {val: "abs2", abs: true}, {val: "rel/rel"}, {val: "./rel/"}}[x.Choose(7, "--dir")]
	if d.val != "" {
		args = append(args, "--dir", value(d))
		e.dirs[0] = join("cwd", d)
	}
	o := []setting{{}, {val: "o.json"}, {val: "rel/o"}, {val: "../abs1/o.yaml"}, {val: "abs2/o", abs: true}, {val: "stdout"}, {val: "stderr"}, {val: "./stdout"}, {val: "stdout.json"}, {val: "sp ace"}}[x.Choose(10, "--output")]
	if o.val != "" {
		args = append(args, "--output", value(o))
		e.outputs[0] = join("cwd", o)
		if o.val == "stdout" || o.val == "stderr" {
			e.outputs[0] = o.val
		}
	}
	fm := formats[x.Choose(len(formats), "--format")]
	if fm != "" {
		args = append(args, "--format", fm)
		e.format = shown(fm)
	}
	if x.Bool("--loglevel") {
		args = append(args, "--loglevel", "error")
	}
	if x.Bool("flags first to last") {
		for i, j := 0, len(args)-2; i < j; i, j = i+2, j-2 {
			args[i], args[i+1], args[j], args[j+1] = args[j], args[j+1], args[i], args[i+1]
		}
	}
	x.Case("%v", args)
	judge(x, args, e)
}

// sections of the configuration ------------------------------------------------

// each section has the values A and B, and what both together give
type section struct {
	key        string
	a, b, both interface{}
	apply      func(doc obj, v interface{})
}

func set(key string) func(doc obj, v interface{}) {
	return func(doc obj, v interface{}) { doc[key] = v }
}

func op(doc obj) obj {
	for _, p := range doc["paths"].(obj) {
		return p.(obj)["get"].(obj)
	}
	return nil
}

func schemaT(doc obj) obj {
	return op(doc)["responses"].(obj)["200"].(obj)["content"].(obj)["m"].(obj)
}

var sections = []section{
	{"info", obj{"title": "A", "version": "1"}, obj{"title": "B", "version": "2", "description": "b"}, obj{"title": "A", "version": "1", "description": "b"},
		func(doc obj, v interface{}) { doc["info"] = v }},
	{"servers", arr{obj{"url": "http://a"}}, arr{obj{"url": "http://b"}, obj{"url": "http://c", "description": "c"}}, arr{obj{"url": "http://a"}}, set("servers")},
	{"security", arr{obj{"k": arr{}}}, arr{obj{"l": arr{"s"}}}, arr{obj{"k": arr{}}}, set("security")},
	{"tags", arr{obj{"name": "a"}, obj{"name": "z"}}, arr{obj{"name": "b"}}, arr{obj{"name": "a"}, obj{"name": "z"}}, set("tags")},
	{"externalDocs", obj{"url": "http://a", "description": "d"}, obj{"url": "http://b", "description": "e"}, obj{"url": "http://a", "description": "d"}, set("externalDocs")},
	{"components", obj{"schemas": obj{"S": obj{"type": "string"}}}, obj{"schemas": obj{"S": obj{"type": "number"}, "U": obj{"type": "integer"}}, "responses": obj{"R": obj{"description": "r", "content": obj{"m": obj{}}}}},
		obj{"schemas": obj{"S": obj{"type": "string"}, "U": obj{"type": "integer"}}, "responses": obj{"R": obj{"description": "r", "content": obj{"m": obj{}}}}}, set("components")},
	{"overrides", obj{"go://w/cwd#/T": obj{"type": "string"}}, obj{"go://w/cwd#/T": obj{"type": "boolean", "title": "b"}, "go://w/cwd#/U": obj{"type": "number"}}, obj{"go://w/cwd#/T": obj{"type": "string", "title": "b"}},
		func(doc obj, v interface{}) { schemaT(doc)["schema"] = v.(obj)["go://w/cwd#/T"] }},
	{"operations", obj{"*": obj{"summary": "A", "responses": obj{"400": obj{"description": "a", "content": obj{"m": obj{}}}}}}, obj{"*": obj{"summary": "B", "operationId": "b"}, "get:*": obj{"deprecated": true}},
		obj{"*": obj{"summary": "A", "operationId": "b", "responses": obj{"400": obj{"description": "a", "content": obj{"m": obj{}}}}}, "get:*": obj{"deprecated": true}},
		func(doc obj, v interface{}) {
			for _, d := range v.(obj) {
				for k, e := range d.(obj) {
					if k == "responses" {
						for c, r := range e.(obj) {
							op(doc)["responses"].(obj)[c] = r
						}
						continue
					}
					op(doc)[k] = e
				}
			}
		}},
}

func sectionsOf(x *m.X) {
	tree.Reset()
	n := 1 + x.Choose(3, "configurations")
	l := layers{files: []string{"cwd/c.yaml", "ext/e.yaml", "ext2/f.yaml"}[:n], rel: []bool{true, true}}
	for i := 0; i < n; i++ {
		l.vals = append(l.vals, obj{"version": "1"})
	}
	want := spec("cwd")
	op(want)["responses"].(obj)["200"].(obj)["content"].(obj)["m"].(obj)["schema"] = obj{"type": "object", "properties": obj{"X": obj{"type": "integer", "format": "int32"}}}
	what := ""
	for _, s := range sections {
		// where value a and value b are given; b behind a
		type at struct{ a, b int }
		alts := []at{{-1, -1}, {0, -1}}
		if n > 1 {
			alts = append(alts, at{1, -1}, at{0, 1})
		}
		if n > 2 {
			alts = append(alts, at{2, -1}, at{0, 2}, at{1, 2})
		}
		c := alts[x.Deviate(len(alts), s.key)]
		if c.a >= 0 {
			l.vals[c.a][s.key] = s.a
		}
		if c.b >= 0 {
			l.vals[c.b][s.key] = s.b
		}
		what += fmt.Sprint(" ", s.key, c)
		if c.b >= 0 {
			s.apply(want, f.Deep(s.both))
		} else if c.a >= 0 {
			s.apply(want, f.Deep(s.a))
		}
	}
	kind := []string{"yaml", "json"}[x.Choose(2, "kind")]
	for i := range l.files {
		l.files[i] = strings.TrimSuffix(l.files[i], "yaml") + kind
	}
	l.write(kind)
	x.Case("%d configurations,%s", n, what)
	doc := judge(x, []string{"--config", "c." + kind, "--format", "json"}, expect{dirs: []string{"cwd"}, outputs: []string{"stdout"}, format: "json"})
	strip(doc)
	strip(want)
	if !reflect.DeepEqual(interface{}(doc), interface{}(want)) {
		x.Fail("document", "the document is %s, want %s", m.JS(doc), m.JS(want))
	}
}

// strip removes the parts of types the check does not look at (see C01).
func strip(doc obj) {
	if s, ok := schemaT(doc)["schema"].(obj); ok && s["type"] == "object" {
		schemaT(doc)["schema"] = "T"
	}
}

// empties: lists and objects which are given and empty
func empties(x *m.X) {
	tree.Reset()
	n := 2 + x.Choose(2, "configurations")
	l := layers{files: []string{"cwd/c.yaml", "ext/e.yaml", "ext2/f.yaml"}[:n], rel: []bool{true, true}}
	for i := 0; i < n; i++ {
		l.vals = append(l.vals, obj{"version": "1"})
	}
	want := spec("cwd")
	op(want)["responses"].(obj)["200"].(obj)["content"].(obj)["m"].(obj)["schema"] = "T"
	what := ""
	for _, key := range []string{"servers", "security", "tags"} {
		full := arr{obj{"name": "a"}}
		switch key {
		case "servers":
			full = arr{obj{"url": "http://a"}}
		case "security":
			full = arr{obj{"k": arr{}}}
		}
		done := false
		for i := 0; i < n; i++ {
			c := x.Choose(3, key)
			if c == 0 {
				continue
			}
			v := []arr{nil, {}, full}[c]
			l.vals[i][key] = v
			if !done && c == 2 {
				want[key] = full
			}
			done = true
			what += fmt.Sprintf(" %s %v in %d", key, v, i)
		}
		if !m.Thorough() && key == "servers" && x.Bool("just servers") {
			break
		}
		if !m.Thorough() && n > 2 && key == "security" {
			break
		}
	}
	// objects of another section
	c, d := x.Choose(3, "operations"), x.Choose(3, "extended operations")
	given := []interface{}{nil, obj{}, obj{"*": obj{"summary": "A"}}}
	if c > 0 {
		l.vals[0]["operations"] = given[c]
	}
	if d > 0 {
		l.vals[1]["operations"] = given[d]
	}
	if c == 2 || d == 2 { // objects are joined
		op(want)["summary"] = "A"
	}
	l.write("yaml")
	x.Case("%d configurations,%s, operations %v over %v", n, what, given[c], given[d])
	doc := judge(x, []string{"--config", "c.yaml", "--format", "json"}, expect{dirs: []string{"cwd"}, outputs: []string{"stdout"}, format: "json"})
	strip(doc)
	for _, key := range []string{"servers", "security", "tags"} {
		if l, ok := doc[key].(arr); ok && len(l) == 0 { // may be written or left out
			delete(doc, key)
		}
	}
	if !reflect.DeepEqual(interface{}(doc), interface{}(want)) {
		x.Fail("empty", "the document is %s, want %s", m.JS(doc), m.JS(want))
	}
}

func main() {
	m.Main(m.Check{
		ID: "C18", Level: "model_checking",
		Init: func(string) {
			tree = cli.New()
			for _, d := range dirs {
				tree.Package(d, m.JS(spec(d)))
			}
		},
		Assume: []string{
			"a relative directory which is inherited may be resolved against either configuration file",
			"the sections exclude, openapi and version, which the command does not use, and the log level are not looked at",
			"empty texts and nulls are no settings and are not tried",
		},
		Spaces: []m.Space{
			{Name: "flags", Bound: -1, Rule: "7 values of --dir x 10 of --output x 6 of --format x --loglevel x order, without configuration", Run: flags},
			{Name: "format", Bound: -1, Rule: "6 values of --format x 6 values of format in each of up to 3 configurations", Run: format},
			{Name: "paths", Bound: -1, Rule: "values of dir and output in flags and in each of up to 2 (thorough 3) configurations x places, kinds and names of the configuration", Run: paths},
			{Name: "sections", Bound: m.N(2, 3), Rule: "8 sections, each in none, one or two of up to 3 configurations, up to 2 (thorough 3) sections present", Run: sectionsOf},
			{Name: "empty", Bound: -1, Rule: "servers, security, tags and operations not given, empty or given in each of 2 and 3 configurations", Run: empties},
		},
	})
}
