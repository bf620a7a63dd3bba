//go:build go1.21

// C28: scans one after another.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

type obj = map[string]interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- programs: several directories with packages of the same paths

var programs = []string{"one", "two", "three", "other", "broken", "failing"}

// versions of a file of program one: the first is there at the beginning
type file struct {
	name     string
	versions []string
}

const mainPath, libPath, otherPath = "ex.com/a", "ex.com/b", "ex.com/c"

func goMain(body, more string) string {
	return "package a\n\nimport (\n\t\"time\"\n\n\t\"ex.com/b\"\n)\n\nvar _ time.Time\n\n" + more + "type T " + body + "\n\ntype U struct{ B b.T }\n"
}

func doc(title, ref string) string {
	return `{"openapi":"3.0.3","info":{"title":"` + title + `","version":"1"},"paths":{"/` + title + `/{id}":{"get":{"responses":{"200":{"description":"d","content":{"m":{"schema":{"$ref":"` + ref + `"}}}}}},"post":{"responses":{}}}},"components":{"schemas":{"S":{"$ref":"go://#/U"},"At":{"$ref":"go://time#/Time"}}}}`
}

var sources = map[string][]file{
	"one": {
		{"a.go", []string{goMain("struct{ X string; At time.Time }", ""), goMain("struct{ X []int; At *time.Time }", "//openapi:schema T\n")}},
		{"oapi.json", []string{doc("one", "go://#/T"), doc("uno", "go://ex.com/b#/T")}},
		{"b/b.go", []string{"package b\n\ntype T struct{ Y bool }\n"}},
		{"b/oapi.yaml", []string{"openapi: 3.0.3\ncomponents: {schemas: {B: {$ref: 'go://#/T'}}}\n", "a: no specification\n"}},
	},
	"two": {
		{"a.go", []string{goMain("struct{ Z map[string]T }", "//openapi:schema T\n//openapi:schema UU U\n")}},
		{"oapi.json", []string{doc("two", "go://#/T")}},
		{"b/b.go", []string{"package b\n\ntype T struct{ W int64 }\n"}},
	},
	"three": { // the same without exports
		{"a.go", []string{goMain("struct{ Z map[string]T }", "")}},
		{"oapi.json", []string{doc("two", "go://#/T")}},
		{"b/b.go", []string{"package b\n\n//openapi:schema S2 T\ntype T struct{ W int64 }\n"}},
	},
	"other": { // packages of other paths
		{"c.go", []string{"package c\n\nimport \"time\"\n\n//openapi:schema T\ntype T struct{ V, W time.Time }\n\n//openapi:schema S2 U\ntype U struct{ V T }\n"}},
		{"oapi.json", []string{doc("other", "go://#/T")}},
	},
	"broken": {
		{"a.go", []string{goMain("struct{ Y Missing }", "")}},
		{"oapi.json", []string{doc("four", "go://#/T")}},
		{"b/b.go", []string{"package b\n\ntype T int\n"}},
	},
	"failing": {
		{"a.go", []string{goMain("struct{ Y int; At time.Time }", "//openapi:schema T\n")}},
		{"oapi.json", []string{doc("five", "go://#/Nope")}},
		{"b/b.go", []string{"package b\n\ntype T int\n"}},
	},
}

var root string

func write(rel, text string) {
	p := filepath.Join(root, rel)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(text), 0o644))
}

func setup() {
	for _, p := range programs {
		for _, f := range sources[p] {
			write(filepath.Join(p, f.name), f.versions[0])
		}
		pkg := func(path, file, name string, imports map[string]string) obj {
			f := filepath.Join(root, p, file)
			return obj{"ID": path, "Name": name, "PkgPath": path, "GoFiles": []string{f}, "CompiledGoFiles": []string{f}, "Imports": imports}
		}
		std := filepath.Join(m.StdStub(), "time", "time.go")
		roots, pkgs := []string{mainPath}, []obj{
			pkg(mainPath, "a.go", "a", map[string]string{libPath: libPath, "time": "time"}), pkg(libPath, "b/b.go", "b", nil)}
		if p == "other" {
			roots, pkgs = []string{otherPath}, []obj{pkg(otherPath, "c.go", "c", map[string]string{"time": "time"})}
		}
		pkgs = append(pkgs, obj{"ID": "time", "Name": "time", "PkgPath": "time", "GoFiles": []string{std}, "CompiledGoFiles": []string{std}})
		b, err := json.Marshal(obj{"Sizes": obj{"WordSize": 8, "MaxAlign": 8}, "Roots": roots, "Packages": pkgs})
		must(err)
		write(filepath.Join(p, ".verif-pkgs.json"), string(b))
	}
}

func files() string {
	var sb strings.Builder
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(&sb, "%s\n%s\n", p, b)
		}
		return nil
	})
	return sb.String()
}

// ---- options: the same values are given to all scans of a history

type options struct {
	Root spec.OpenAPI
	Over map[string]spec.Schema
	Defs map[string]spec.Operation
	list [][]oapi.Option
	name []string
}

func fresh() *options {
	o := &options{}
	must(json.Unmarshal([]byte(`{"info":{"title":"root","version":"r","contact":{"name":"c"}},"servers":[{"url":"https://h/{v}","variables":{"v":{"default":"1"}}},{"url":"/"}],"tags":[{"name":"t"},{"name":"s"}],"components":{"schemas":{"Root":{"type":"array","items":{"$ref":"go://ex.com/a#/T"}},"RootAt":{"$ref":"go://time#/Time"}}},"security":[{"k":["w","r"]},{}]}`), &o.Root))
	must(json.Unmarshal([]byte(`{"go://time#/Time":{"type":"string","format":"date-time"},"go://ex.com/b#/T":{"type":"object","properties":{"o":{"$ref":"go://time#/Time"}}}}`), &o.Over))
	must(json.Unmarshal([]byte(`{"GET:/one/*":{"responses":{"400":{"description":"bad","content":{"m":{"schema":{"$ref":"go://ex.com/a#/U"}}}}}},"/two/{id}":{"tags":["x","w"],"parameters":[{"name":"id","in":"path","required":true,"schema":{"type":"string"}}]},"*":{"responses":{"default":{"description":"other"}}}}`), &o.Defs))
	ov, de, ro := oapi.WithOverride(o.Over), oapi.WithDefOps(o.Defs), oapi.WithRootSchema(o.Root)
	o.list = [][]oapi.Option{nil, {ov}, {de}, {ro}, {ov, de, ro}}
	o.name = []string{"", "override", "defaults", "root", "all"}
	return o
}

// spoil changes everything reachable in the options
func spoil(o *options) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("spoiled")
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Uint8:
			if v.CanSet() {
				v.SetUint(v.Uint() ^ 1)
			}
		}
	}
	walk(reflect.ValueOf(&o.Root))
	walk(reflect.ValueOf(o.Over))
	walk(reflect.ValueOf(o.Defs))
}

// ---- one scan

var formats = []string{"json", "yaml"}

type result struct {
	Err  string
	Text []string // by format
}

func formatted(o oapi.OAPI, formats ...string) (out []string) {
	for _, f := range formats {
		b, err := oapi.Format(f, o)
		if err != nil {
			b = []byte("error " + err.Error())
		}
		out = append(out, string(b))
	}
	return
}

func scan(p string, opts []oapi.Option) (o oapi.OAPI, r result) {
	o, err := oapi.Scan(context.Background(), append([]oapi.Option{oapi.WithDir(filepath.Join(root, p))}, opts...)...)
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.Text = formatted(o, formats...)
	return
}

// ---- reference: every scan in a process of its own, in every state of the files

// the files which are edited
var edits = []int{0, 1, 3}

func setState(state []int) {
	for i, e := range edits {
		f := sources["one"][e]
		write(filepath.Join("one", f.name), f.versions[state[i]])
	}
}

var reference map[string]result

func refKey(p string, opt int, state []int) string {
	if p != "one" {
		return fmt.Sprint(p, opt)
	}
	return fmt.Sprint(p, opt, state)
}

func states() (out [][]int) {
	for i := 0; i < 1<<len(edits); i++ {
		var s []int
		for k := range edits {
			s = append(s, i>>k&1)
		}
		out = append(out, s)
	}
	return
}

// child prints the result of one scan or the report of a history
func child(arg string) {
	var a struct {
		Root, Program string
		Opt           int
		History       []action
	}
	must(json.Unmarshal([]byte(arg), &a))
	root = a.Root
	var v interface{}
	if len(a.History) > 0 {
		b, err := os.ReadFile(root + ".reference")
		must(err)
		must(json.Unmarshal(b, &reference))
		n, bad := perform(a.History, make([]int, len(edits)))
		v = report{n, bad}
	} else {
		_, v = scan(a.Program, fresh().list[a.Opt])
	}
	b, err := json.Marshal(v)
	must(err)
	os.Stdout.Write(b)
}

// process runs child, which gives nothing if it dies.
func process(arg obj) []byte {
	b, err := json.Marshal(arg)
	must(err)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_C28="+string(b))
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		b, _ := json.Marshal(obj{"Err": "the process dies: " + err.Error(), "Problems": []problem{{"dies", err.Error()}}})
		return b
	}
	return out
}

func refer() {
	reference = map[string]result{}
	one := func(p string, opt int, state []int) {
		var r result
		must(json.Unmarshal(process(obj{"Root": root, "Program": p, "Opt": opt}), &r))
		reference[refKey(p, opt, state)] = r
	}
	for _, s := range states() {
		setState(s)
		for opt := range fresh().list {
			one("one", opt, s)
		}
	}
	setState(make([]int, len(edits)))
	for _, p := range programs[1:] {
		for opt := range fresh().list {
			one(p, opt, nil)
		}
	}
	b, err := json.Marshal(reference)
	must(err)
	must(os.WriteFile(root+".reference", b, 0o644))
}

// ---- histories

// actions of all: programs without a document are scanned with fewer options
func all() (out []action) {
	for _, p := range programs {
		for opt := range fresh().list {
			if opt == 0 || opt == 4 || p != "broken" && p != "failing" {
				out = append(out, action{Program: p, Opt: opt})
			}
		}
	}
	return
}

// action is a scan, or the edit of a file if that is not 0
type action struct {
	Program string
	Opt     int
	Edit    int
}

func (a action) String() string {
	if a.Edit > 0 {
		return "edit " + sources["one"][edits[a.Edit-1]].name
	}
	return strings.TrimSpace("scan " + a.Program + " " + fresh().name[a.Opt])
}

// contaminated tells that this process fails in what a new one does well: an
// earlier history left something behind, so histories get processes of their own.
var contaminated bool

func histories(n int, scans []action) func(*m.X) {
	return func(x *m.X) {
		var hist []action
		state := make([]int, len(edits))
		for i := 0; i < n; i++ {
			a := x.Choose(len(scans)+len(edits), "action")
			if a < len(scans) {
				hist = append(hist, scans[a])
				continue
			}
			hist = append(hist, action{Edit: a - len(scans) + 1})
		}
		x.Case("%v", hist)
		var docs int
		var bad []problem
		if !contaminated {
			docs, bad = perform(hist, state)
		}
		if contaminated || len(bad) > 0 {
			var rep report
			must(json.Unmarshal(process(obj{"Root": root, "History": hist}), &rep))
			contaminated = contaminated || len(rep.Problems) == 0
			docs, bad = rep.Documents, rep.Problems
		}
		x.Outcome("%d documents", docs)
		for _, b := range bad {
			x.Report(b.Key, "%s", b.Text)
		}
	}
}

type problem struct{ Key, Text string }

type report struct {
	Documents int
	Problems  []problem
}

// perform does the actions in this process.
func perform(hist []action, state []int) (n int, bad []problem) {
	report := func(key, format string, args ...interface{}) {
		bad = append(bad, problem{key, fmt.Sprintf(format, args...)})
	}
	setState(state)
	o := fresh()
	wd, _ := os.Getwd()
	env := strings.Join(os.Environ(), "\n")
	type kept struct {
		what string
		doc  oapi.OAPI
		text []string
	}
	var docs []kept
	for i, a := range hist {
		if a.Edit > 0 {
			k := a.Edit - 1
			state[k] = 1 - state[k]
			setState(state)
			continue
		}
		before := files()
		d, r := scan(a.Program, o.list[a.Opt])
		want := reference[refKey(a.Program, a.Opt, state)]
		if !reflect.DeepEqual(r, want) {
			report("result", "%v: the last scan gives %s %s, alone in a process it gives %s %s", hist[:i+1], r.Err, first(r, want), want.Err, first(want, r))
			return
		}
		if files() != before {
			report("files", "the scan changes files")
		}
		if r.Err == "" {
			docs = append(docs, kept{a.Program, d, r.Text})
		}
	}
	pristine := fresh()
	if !reflect.DeepEqual(o.Root, pristine.Root) || !reflect.DeepEqual(o.Over, pristine.Over) || !reflect.DeepEqual(o.Defs, pristine.Defs) {
		report("options", "the options are changed: %s, they were %s", m.JS([]interface{}{o.Root, o.Over, o.Defs}), m.JS([]interface{}{pristine.Root, pristine.Over, pristine.Defs}))
	}
	if d, _ := os.Getwd(); d != wd {
		report("directory", "the working directory is %s, it was %s", d, wd)
	}
	if e := strings.Join(os.Environ(), "\n"); e != env {
		report("environment", "the environment is changed")
	}
	for round := 0; round < 2; round++ {
		for _, k := range docs {
			// the first is enough: the texts differ only in how they are written
			if now := formatted(k.doc, formats[0]); now[0] != k.text[0] {
				report("document", "the document of %s changes (round %d): %s, it was %s", k.what, round, first(result{Text: now}, result{Text: k.text}), first(result{Text: k.text}, result{Text: now}))
				return
			}
		}
		spoil(o) // what was given is not what was got
	}
	return len(docs), bad
}

// first text that differs
func first(a, b result) string {
	for i, t := range a.Text {
		if i >= len(b.Text) || t != b.Text[i] {
			return t
		}
	}
	return ""
}

func main() {
	if a := os.Getenv("MC_C28"); a != "" {
		child(a)
		return
	}
	m.Main(m.Check{
		ID: "C28", Level: "model_checking",
		Init: func(string) {
			root = filepath.Join(m.NewWorld().Root, "w")
			setup()
			refer()
		},
		Assume: []string{"a scan alone in a process of its own is the reference: what it gives is the subject of the other properties"},
		Spaces: []m.Space{
			{Name: "histories", Bound: -1, Rule: "every sequence of 3 of 27 actions: scans of 6 programs, most with packages of the same paths, two of them failing, with 5 sets of options, edits of 3 files; its documents formatted as json and as yaml, and again after the last", Run: histories(3, all())},
			{Name: "longer", ThoroughOnly: true, Bound: -1, Rule: "every sequence of 5 of 9 of these actions: scans of 4 programs, one of them failing, without options or with all of them, edits of 3 files", Run: histories(5, []action{{"one", 0, 0}, {"one", 4, 0}, {"two", 0, 0}, {"two", 4, 0}, {"other", 0, 0}, {"failing", 4, 0}})},
		},
	})
}
