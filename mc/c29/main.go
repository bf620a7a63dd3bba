//go:build go1.21

// C29: scans at the same time.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	"github.com/buypal/oapi-go/internal/verifmc/vsync"
)

type obj = map[string]interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- programs: packages of the same paths in directories of their own

const mainPath, libPath = "ex.com/a", "ex.com/b"

var programs = map[string]map[string]string{
	"one": {
		"a.go":      "package a\n\nimport (\n\t\"time\"\n\n\t\"ex.com/b\"\n)\n\ntype T struct {\n\tX string\n\tAt time.Time\n\tN *T\n}\n\n//openapi:schema U\ntype U struct{ B b.T }\n",
		"oapi.json": doc("one", "go://#/T"),
		"b/b.go":    "package b\n\ntype T struct{ Y bool }\n",
	},
	"two": {
		"a.go":      "package a\n\nimport (\n\t\"time\"\n\n\t\"ex.com/b\"\n)\n\n//openapi:schema T\ntype T struct{ At map[string]time.Time }\n\ntype U struct{ B []b.T }\n",
		"oapi.json": doc("two", "go://#/T"),
		"b/b.go":    "package b\n\ntype T struct{ W int64 }\n",
	},
	"failing": {
		"a.go":      "package a\n\nimport (\n\t\"time\"\n\n\t\"ex.com/b\"\n)\n\ntype T time.Time\n\ntype U b.T\n",
		"oapi.json": doc("one", "go://#/Nope"),
		"b/b.go":    "package b\n\n//openapi:schema U T\ntype T int\n",
	},
}

func doc(title, ref string) string {
	return `{"openapi":"3.0.3","info":{"title":"` + title + `","version":"1"},"paths":{"/` + title + `/{id}":{"get":{"responses":{"200":{"description":"d","content":{"m":{"schema":{"$ref":"` + ref + `"}}}}}}}},"components":{"schemas":{"S":{"$ref":"go://#/U"}}}}`
}

var root string

func setup() {
	for p, ff := range programs {
		dir := filepath.Join(root, p)
		for name, text := range ff {
			f := filepath.Join(dir, name)
			must(os.MkdirAll(filepath.Dir(f), 0o755))
			must(os.WriteFile(f, []byte(text), 0o644))
		}
		pkg := func(path, file, name string, imports map[string]string) obj {
			f := filepath.Join(dir, file)
			return obj{"ID": path, "Name": name, "PkgPath": path, "GoFiles": []string{f}, "CompiledGoFiles": []string{f}, "Imports": imports}
		}
		std := filepath.Join(m.StdStub(), "time", "time.go")
		b, err := json.Marshal(obj{"Sizes": obj{"WordSize": 8, "MaxAlign": 8}, "Roots": []string{mainPath}, "Packages": []obj{
			pkg(mainPath, "a.go", "a", map[string]string{libPath: libPath, "time": "time"}), pkg(libPath, "b/b.go", "b", nil),
			{"ID": "time", "Name": "time", "PkgPath": "time", "GoFiles": []string{std}, "CompiledGoFiles": []string{std}},
		}})
		must(err)
		must(os.WriteFile(filepath.Join(dir, ".verif-pkgs.json"), b, 0o644))
	}
	must(os.Chdir(root)) // directories of scans are relative
}

// ---- options: the same values for all scans

type options struct {
	Root spec.OpenAPI
	Over map[string]spec.Schema
	Defs map[string]spec.Operation
}

func fresh() *options {
	o := &options{}
	must(json.Unmarshal([]byte(`{"info":{"title":"root","version":"r"},"servers":[{"url":"https://h"},{"url":"/"}],"tags":[{"name":"t"},{"name":"s"}]}`), &o.Root))
	must(json.Unmarshal([]byte(`{"go://time#/Time":{"type":"boolean"},"go://ex.com/b#/T":{"type":"object","properties":{"o":{"$ref":"go://time#/Time"}}}}`), &o.Over))
	must(json.Unmarshal([]byte(`{"GET:/one/*":{"responses":{"400":{"description":"bad"}}},"*":{"responses":{"default":{"description":"other"}}}}`), &o.Defs))
	return o
}

var shared *options
var document oapi.OAPI

// ---- what runs at the same time

type kind struct {
	program string // to scan
	options bool
	format  string // of the shared document
}

func (k kind) String() string {
	if k.format != "" {
		return "format " + k.format
	}
	if k.options {
		return "scan " + k.program + " with options"
	}
	return "scan " + k.program
}

var kinds = []kind{{"one", false, ""}, {"one", true, ""}, {"two", false, ""}, {"two", true, ""}, {"failing", false, ""}, {"", false, "json"}, {"", false, "go"}}

func run(k kind) string {
	o := document
	if k.format == "" {
		opts := []oapi.Option{oapi.WithDir(k.program)}
		if k.options {
			opts = append(opts, oapi.WithOverride(shared.Over), oapi.WithDefOps(shared.Defs), oapi.WithRootSchema(shared.Root))
		}
		var err error
		o, err = oapi.Scan(context.Background(), opts...)
		if err != nil {
			return "error " + err.Error()
		}
		k.format = "json"
	}
	b, err := oapi.Format(k.format, o)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

var alone = map[kind]string{}

func together(n int, kinds []kind) func(*m.X) {
	return func(x *m.X) {
		var kk []kind
		var fns []func()
		out := make([]string, n)
		last := 0
		for i := 0; i < n; i++ {
			i := i
			last += x.Choose(len(kinds)-last, "thread") // in any order is the same
			k := kinds[last]
			kk = append(kk, k)
			fns = append(fns, func() { out[i] = run(k) })
		}
		env := strings.Join(os.Environ(), "\n")
		before := vsync.Races()
		var trace []string
		x.Case("%v at the same time", kk)
		r := vsync.Run(func(n int, same bool) int {
			var k int
			if same {
				k = x.Deviate(n, "preempt")
			} else {
				k = x.Choose(n, "next")
			}
			trace = append(trace, fmt.Sprint(k))
			return k
		}, fns...)
		if vsync.Races() > before {
			x.Report("race", "data race: %s", report())
		}
		if len(r.Blocked) > 0 {
			x.Fail("blocked", "threads %v of %v never continue", r.Blocked, kk)
		}
		for i, p := range r.Panics {
			x.Fail("panic", "%v panics: %s", kk[i], p)
		}
		for i, k := range kk {
			if out[i] != alone[k] {
				x.Fail("result", "%v gives %s, alone it gives %s (schedule %s)", k, out[i], alone[k], strings.Join(trace, ""))
			}
		}
		if wd, _ := os.Getwd(); wd != root {
			x.Fail("directory", "the working directory is %s afterwards", wd)
		}
		if e := strings.Join(os.Environ(), "\n"); e != env {
			x.Fail("environment", "the environment is changed")
		}
		if f := fresh(); !reflect.DeepEqual(f, shared) {
			x.Fail("options", "the options are changed: %s", m.JS(shared))
		}
		x.Outcome("%v", kk)
	}
}

// report is the last report of the race detector.
func report() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if !strings.HasPrefix(f, "log_path=") {
			continue
		}
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid()))
		if err != nil {
			break
		}
		t := string(b)
		if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
			t = t[i:]
		}
		if len(t) > 3000 {
			t = t[:3000]
		}
		return t
	}
	return "see the race detector"
}

func main() {
	mode := "a thread can be preempted at its first two visits of the beginning of every function of the library outside of the packages container, pointer, spec and tag, of every statement of the packages oapi, internal/oapi and internal/pkgutil, and before every operation on a lock or atomic"
	if os.Getenv("MC_UNCONTROLLED") != "" {
		mode = "THE SYNC PACKAGE COULD NOT BE REPLACED, threads run whole calls; races are still found"
	}
	m.Main(m.Check{
		ID: "C29", Level: "model_checking",
		Init: func(string) {
			root = filepath.Join(m.NewWorld().Root, "w")
			must(os.MkdirAll(root, 0o755))
			var err error
			root, err = filepath.EvalSymlinks(root)
			must(err)
			setup()
			shared = fresh()
			document, err = oapi.Scan(context.Background(), oapi.WithDir("two"), oapi.WithRootSchema(shared.Root))
			must(err)
			for _, k := range kinds {
				alone[k] = run(k)
			}
		},
		Assume: []string{mode, "the race detector reports every pair of conflicting accesses without synchronisation in the schedule it watches; it keeps the last four accesses of a place"},
		Spaces: []m.Space{
			{Name: "two", Bound: 1, Loose: true, Rule: "every two of 7 scans and formats, up to one preemption", Run: together(2, kinds)},
			{Name: "two deeper", ThoroughOnly: true, Bound: 2, Loose: true, Rule: "every two of a failing scan and two formats, up to two preemptions", Run: together(2, []kind{kinds[4], kinds[5], kinds[6]})},
			{Name: "three", ThoroughOnly: true, Bound: 1, Loose: true, Rule: "every three of 4 scans and formats, up to one preemption", Run: together(3, []kind{kinds[0], kinds[3], kinds[4], kinds[5]})},
		},
	})
}
