//go:build go1.21

// C07: specifications of several packages.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
)

const pkgA, pkgB, pkgC = "ex.com/a", "ex.com/b", "ex.com/a/c"

var pkgs = []string{pkgA, pkgB, pkgC}

type obj = map[string]interface{}
type arr = []interface{}

var world *m.World

// union adds src to dst; differ tells that a place holds different values.
func union(dst, src obj) (differ bool) {
	for k, v := range src {
		d, ok := dst[k]
		if !ok {
			dst[k] = f.Deep(v)
			continue
		}
		dm, ok1 := d.(obj)
		sm, ok2 := v.(obj)
		switch {
		case ok1 && ok2:
			differ = union(dm, sm) || differ
		case reflect.DeepEqual(d, v):
		default:
			differ = true
		}
	}
	return
}

func typeT(pkg string) *f.Type {
	prop := "Of" + strings.ToUpper(pkg[len(pkg)-1:])
	return &f.Type{K: f.Named, Pkg: pkg, Name: "T", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: prop, Type: &f.Type{K: f.Basic, Text: "int"}}}}}
}

var types = map[string]*f.Type{pkgA: typeT(pkgA), pkgB: typeT(pkgB), pkgC: typeT(pkgC)}

// absolute makes references of a package absolute.
func absolute(v interface{}, pkg string) interface{} {
	switch t := v.(type) {
	case obj:
		if s, _ := t["$ref"].(string); strings.HasPrefix(s, "go://#") {
			t["$ref"] = "go://" + pkg + s[5:]
		}
		for k := range t {
			absolute(t[k], pkg)
		}
	case arr:
		for i := range t {
			absolute(t[i], pkg)
		}
	}
	return v
}

// resolve replaces references, with all that stands next to them, by what
// they denote.
func resolve(v interface{}) interface{} {
	switch t := v.(type) {
	case obj:
		if s, _ := t["$ref"].(string); strings.HasPrefix(s, "go://") {
			return &f.RefTo{T: types[s[5:strings.Index(s, "#")]]}
		}
		for k := range t {
			t[k] = resolve(t[k])
		}
	case arr:
		for i := range t {
			t[i] = resolve(t[i])
		}
	}
	return v
}

// file of a package
type file struct {
	pkg, name string
	doc       obj
	raw       string // instead of doc
}

func goSource(pkg string, imports []string, std bool) string {
	s := "package " + pkg[strings.LastIndex(pkg, "/")+1:] + "\n"
	for _, i := range imports {
		s += fmt.Sprintf("import _ %q\n", i)
	}
	if std {
		s += "import _ \"time\"\n"
	}
	return s + "type T struct { Of" + strings.ToUpper(pkg[len(pkg)-1:]) + " int }\n"
}

// scan writes the packages: edges[i] are the imports of package i. All
// packages are on disk, the driver reports the reachable ones.
func scan(edges [][]int, files []file, std bool) f.Result {
	reach := reachable(edges)
	var all []m.Pkg
	for i, p := range pkgs {
		var imps []string
		for _, j := range edges[i] {
			imps = append(imps, pkgs[j])
		}
		pk := m.Pkg{Path: p, Files: map[string]string{}}
		if reach[i] {
			pk.Files["x.go"] = goSource(p, imps, std)
		}
		for _, x := range files {
			if x.pkg == p {
				pk.Files[x.name] = x.raw
				if x.raw == "" {
					pk.Files[x.name] = m.JS(x.doc)
				}
			}
		}
		if reach[i] {
			all = append(all, pk)
			continue
		}
		// not part of the program
		for n, src := range pk.Files {
			write(filepath.Join(world.Dir(p), n), src)
		}
	}
	r := f.Scan(world.Write(pkgA, all...))
	for i, p := range pkgs {
		if !reach[i] {
			for _, x := range files {
				if x.pkg == p {
					os.Remove(filepath.Join(world.Dir(p), x.name))
				}
			}
		}
	}
	return r
}

func write(name, src string) {
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
		panic(err)
	}
}

func reachable(edges [][]int) []bool {
	r := make([]bool, len(pkgs))
	var visit func(int)
	visit = func(i int) {
		if r[i] {
			return
		}
		r[i] = true
		for _, j := range edges[i] {
			visit(j)
		}
	}
	visit(0)
	return r
}

var specNames = map[string]bool{"oapi.yaml": true, "oapi.yml": true, "oapi.json": true}

func judge(x *m.X, edges [][]int, files []file, r f.Result) {
	reach := reachable(edges)
	want := obj{}
	differ := false
	n := 0
	for i, p := range pkgs {
		for _, fl := range files {
			if fl.pkg != p || !reach[i] || !specNames[fl.name] {
				continue
			}
			if _, ok := fl.doc["openapi"]; !ok {
				continue
			}
			n++
			d := absolute(f.Deep(interface{}(fl.doc)), p).(obj)
			differ = union(want, d) || differ
		}
	}
	x.Outcome("%d %v %s", n, r.Err != nil, r.JSON)
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if n == 0 {
		return // nothing to be said about no specification at all
	}
	if differ {
		if r.Err == nil {
			x.Fail("accepted", "specifications differ but the scan gives %s", r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "%v", r.Err)
	}
	if err := (&f.Env{}).MatchTree(interface{}(r.Doc), resolve(interface{}(want))); err != nil {
		x.Fail("document", "%v in %s", err, r.JSON)
	}
}

// edge sets without cycles; the root is package 0
var graphs = [][][]int{
	{{}, {}, {}},
	{{1}, {}, {}},
	{{2}, {}, {}},
	{{1, 2}, {}, {}},
	{{1}, {2}, {}},
	{{2}, {}, {1}},
	{{1, 2}, {2}, {}},
	{{2, 1}, {}, {1}},
	{{}, {2}, {}},
	{{1}, {}, {1}},
}

func content(pkg, name string) obj {
	id := pkg[len(pkg)-1:] + "-" + name
	return obj{"openapi": "3.0.3", "info": obj{"title": "t"},
		"paths":      obj{"/" + id: obj{"get": obj{"summary": id, "responses": obj{"200": obj{"content": obj{"m": obj{"schema": obj{"$ref": "go://#/T"}}}}}}}, "/shared.p": obj{"x-" + id: 1.}},
		"components": obj{"schemas": obj{id: obj{"items": obj{"$ref": "go://" + pkg + "#/T"}}, "Same": obj{"type": "string", "enum": arr{"a", 1., nil}}}}}
}

func discovery(x *m.X) {
	edges := graphs[x.Choose(len(graphs), "imports")]
	sets := [][]string{{}, {"oapi.yaml"}, {"oapi.yml"}, {"oapi.json"}, {"oapi.yaml", "oapi.json"}, {"oapi.yaml", "oapi.yml", "oapi.json"}, {"no oapi.yaml"},
		{"oapi.txt", "OAPI.yaml", "xoapi.yaml", "oapi.yaml.bak", "sub/oapi.yaml", "openapi.yaml", ".oapi.yaml"}, {"oapi.yml", "no oapi.yaml", "bad openapi.json"}}
	var files []file
	what := fmt.Sprint(edges)
	for i, p := range pkgs {
		limit := len(sets)
		if i > 0 && !m.Thorough() {
			limit = 8
		}
		c := x.Choose(limit, "files")
		for _, n := range sets[c] {
			switch {
			case strings.HasPrefix(n, "no "):
				d := content(p, n[3:])
				delete(d, "openapi")
				d["info"] = obj{"title": "other"}
				files = append(files, file{pkg: p, name: n[3:], doc: d})
			case strings.HasPrefix(n, "bad "):
				files = append(files, file{pkg: p, name: n[4:], raw: "{ \t: [", doc: obj{}})
			default:
				files = append(files, file{pkg: p, name: n, doc: content(p, n)})
			}
		}
		what += fmt.Sprintf(" %s %v", p, sets[c])
	}
	std := x.Bool("std import")
	x.Case("%s", what)
	judge(x, edges, files, scan(edges, files, std))
}

// overlap: two specifications with a value at the same place.
func overlap(x *m.X) {
	places := [][]interface{}{{"openapi"}, {"info", "title"}, {"paths", "/a.b~/{id}"}, {"components", "schemas", "S"}, {"x-top"}, {"paths", "/a", "get", "responses", "200", "description"}, {"tags"}, {""}}
	vals := []interface{}{nil, "s", "t", 1., true, false, 0., "", obj{}, obj{"a": 1.}, obj{"a": 2.}, obj{"b": obj{"c": arr{1.}}}, arr{}, arr{1.}, arr{1., 2.}, obj{"$ref": "go://#/T"}, obj{"$ref": "go://ex.com/b#/T"}, obj{"$ref": "#/x"}}
	place := places[x.Choose(len(places), "place")]
	mk := func() obj {
		return obj{"openapi": "3.0.3", "info": obj{"title": "t"}, "paths": obj{}}
	}
	where := x.Choose(4, "files")
	fs := []file{{pkg: pkgA, name: "oapi.yaml"}, {pkg: pkgB, name: "oapi.json"}}
	edges := [][]int{{1}, {}, {}}
	switch where {
	case 1:
		fs[1] = file{pkg: pkgA, name: "oapi.json"}
	case 2:
		fs = []file{{pkg: pkgB, name: "oapi.yml"}, {pkg: pkgC, name: "oapi.yml"}}
		edges = [][]int{{2, 1}, {}, {}}
	case 3:
		fs = []file{{pkg: pkgB, name: "oapi.yml"}, {pkg: pkgB, name: "oapi.json"}}
	}
	what := fmt.Sprint(place, fs)
	for i := range fs {
		d := interface{}(mk())
		c := x.Choose(len(vals)+1, "value")
		if c > 0 {
			v := vals[c-1]
			f.Put(d, f.Deep(v), place...)
			what += " " + m.JS(v)
		} else if place[0] == "openapi" {
			x.Prune()
		}
		fs[i].doc = d.(obj)
	}
	if place[0] == "openapi" && where == 2 {
		x.Prune()
	}
	x.Case("%s", what)
	if place[0] == "openapi" && fs[0].doc["openapi"] != "s" && fs[0].doc["openapi"] != "t" || place[0] == "openapi" && fs[1].doc["openapi"] != "s" && fs[1].doc["openapi"] != "t" {
		x.Prune() // the version is a text
	}
	if place[0] == "paths" && len(place) == 2 {
		for i := range fs {
			p, ok := fs[i].doc["paths"].(obj)["/a.b~/{id}"]
			if _, is := p.(obj); ok && !is && p != nil {
				x.Prune() // no path item; the scan may refuse it
			}
		}
	}
	judge(x, edges, fs, scan(edges, fs, false))
}

// three specifications with values at the same place
func three(x *m.X) {
	vals := []interface{}{nil, "s", "t", obj{"a": 1.}, obj{"a": obj{"b": 1.}}, obj{"b": 1.}, arr{1.}, obj{}, obj{"$ref": "go://#/T"}}
	edges := [][][]int{{{1, 2}, {}, {}}, {{1}, {2}, {}}, {{2}, {}, {1}}}[x.Choose(3, "imports")]
	var fs []file
	what := fmt.Sprint(edges)
	for _, p := range pkgs {
		d := interface{}(obj{"openapi": "3.0.3", "paths": obj{}})
		if c := x.Choose(len(vals)+1, "value"); c > 0 {
			f.Put(d, f.Deep(vals[c-1]), "components", "schemas", "S.x")
			what += " " + m.JS(vals[c-1])
		} else {
			what += " -"
		}
		fs = append(fs, file{pkg: p, name: "oapi.yaml", doc: d.(obj)})
	}
	x.Case("%s", what)
	judge(x, edges, fs, scan(edges, fs, false))
}

var layoutDir string

// layouts: directories of packages, listed by the go command
func layouts(x *m.X) {
	kind := m.Pick(x, "layout", "module", "vendor", "replace", "gopath", "gopath vendor", "workspace", "std vendor")
	mod := m.Pick(x, "module", "ex.com/m", "m", "ex.com", "ex.com/m/v2", "vendor.io/w")
	sub := m.Pick(x, "package", "", "/sub", "/m", "/ex.com/m", "/m/m", "/v2", "/src/w", "/m.x/ex.com")
	root := m.Pick(x, "root", "", "/m", "/cmd/ex.com")
	dep := m.Pick(x, "dependency", "/p", "", "/ex.com/m/dep.io")
	if root == sub || !m.Thorough() && (root != "" && dep != "/p" || strings.Contains(kind, "gopath") && mod != "m" && mod != "ex.com/m") {
		x.Prune()
	}
	spec := func(n string) string {
		return m.JS(obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{"/" + n: obj{"get": obj{"responses": obj{"200": obj{"description": "d", "content": obj{"m": obj{"schema": obj{"$ref": "go://#/T"}}}}}}}}})
	}
	files := map[string]string{}
	add := func(dir, name string, imports ...string) {
		src := "package " + name + "\n"
		for _, i := range imports {
			src += fmt.Sprintf("import _ %q\n", i)
		}
		files[dir+"/x.go"] = src + "type T struct { " + strings.ToUpper(name) + " int }\n"
		files[dir+"/oapi.yaml"] = spec(name)
	}
	env := map[string]string{"GO111MODULE": "on", "GOFLAGS": "-buildvcs=false", "GOPROXY": "off", "GOPACKAGESDRIVER": "off", "GOPATH": os.Getenv("MC_REALGOPATH"), "GOWORK": "off", "GOSUMDB": "off"}
	gomod := "module " + mod + "\n\ngo 1.15\n"
	w := "w d[1]"
	dir := w + root
	depmod := "dep.io"
	depdir := ""
	switch kind {
	case "module":
		env["GOFLAGS"] += " -mod=mod"
		dep = ""
		depmod = ""
	case "vendor":
		gomod += "\nrequire dep.io v1.0.0\n"
		files[w+"/vendor/modules.txt"] = "# dep.io v1.0.0\n## explicit\n" + depmod + dep + "\n"
		depdir = w + "/vendor/dep.io"
	case "replace":
		env["GOFLAGS"] += " -mod=mod"
		gomod += "\nrequire dep.io v1.0.0\n\nreplace dep.io => ../fork\n"
		files["fork/go.mod"] = "module dep.io\n\ngo 1.15\n"
		depdir = "fork"
	case "gopath", "gopath vendor":
		env["GO111MODULE"], env["GOPATH"] = "off", filepath.Join(layoutDir, "gp")
		w = "gp/src/" + mod
		dir = w + root
		depdir = "gp/src/dep.io"
		add("gp/dep.io"+dep, "e")
		if kind == "gopath vendor" {
			add(depdir+dep, "d")
			depdir = w + "/vendor/dep.io"
		}
		gomod = ""
	case "workspace":
		env["GOWORK"] = ""
		env["GOFLAGS"] += " -mod=readonly"
		files["go.work"] = "go 1.21\n\nuse (\n\t\"./" + w + "\"\n\t./dep\n)\n"
		gomod += "\nrequire dep.io v1.0.0\n"
		files["dep/go.mod"] = "module dep.io\n\ngo 1.15\n"
		depdir = "dep"
	case "std vendor":
		env["GOFLAGS"] += " -mod=mod"
		// a dependency known to the standard library by another path
		depmod = "golang.org/x/net"
		gomod += "\nrequire golang.org/x/net v1.0.0\n\nreplace golang.org/x/net => ../fork\n"
		files["fork/go.mod"] = "module golang.org/x/net\n\ngo 1.15\n"
		depdir = "fork"
	}
	if gomod != "" {
		files[w+"/go.mod"] = gomod
	}
	imports := []string{mod + sub}
	names := []string{"a", "b"}
	if depmod != "" {
		imports = append(imports, depmod+dep)
		names = append(names, "c")
		add(depdir+dep, "c")
		if dep != "" {
			add(depdir, "f")
		}
	}
	add(dir, "a", imports...)
	add(w+sub, "b")
	// others, which are not imported
	for n, d := range []string{w + "/other", w + "/vendor/other", "src/" + mod, "other"} {
		if _, ok := files[d+"/x.go"]; !ok {
			add(d, "g"+fmt.Sprint(n))
		}
	}
	defer os.RemoveAll(layoutDir)
	for n, src := range files {
		write(filepath.Join(layoutDir, n), src)
	}
	for k, v := range env {
		old, had := os.LookupEnv(k)
		k := k
		os.Setenv(k, v)
		defer func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		}()
	}
	x.Case("%s, module %s in %s, package %s importing %q", kind, mod, w, mod+root, imports)
	r := f.Scan(filepath.Join(layoutDir, dir))
	if r.Panic != "" {
		x.Fail("panic", "%s", r.Panic)
	}
	if r.Err != nil {
		x.Fail("layout "+kind, "%v", r.Err)
	}
	x.Outcome("%s", r.JSON)
	paths := obj{}
	for _, n := range names {
		op := obj{"get": obj{"responses": obj{"200": obj{"description": "d", "content": obj{"m": obj{"schema": obj{"type": "object", "properties": obj{strings.ToUpper(n): obj{"type": "integer", "format": "int32"}}}}}}}}}
		paths["/"+n] = op
	}
	if m.JS(f.Get(interface{}(r.Doc), "paths")) != m.JS(paths) {
		x.Fail("layout "+kind, "got %s, want paths %s", r.JSON, m.JS(paths))
	}
}

// many: many packages, each with a specification or every few of them
func many(x *m.X) {
	sizes := []int{5, 9, 17, 40}
	if m.Thorough() {
		sizes = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100}
	}
	n := m.Pick(x, "packages", sizes...)
	form := m.Pick(x, "imports", "chain", "fan", "tree", "chain of pairs")
	every := m.Pick(x, "specification in every", 1, 3, n-1)
	off := 0
	if every > 1 {
		off = x.Choose(2, "first")
	}
	name := func(i int) string {
		if i == 0 {
			return pkgA
		}
		return fmt.Sprintf("ex.com/a/p%d", i)
	}
	imports := make([][]string, n)
	link := func(i, j int) {
		if j < n {
			imports[i] = append(imports[i], name(j))
		}
	}
	for i := 0; i < n; i++ {
		switch form {
		case "chain":
			link(i, i+1)
		case "fan":
			for j := 1; i == 0 && j < n; j++ {
				link(0, j)
			}
		case "tree":
			link(i, 2*i+1)
			link(i, 2*i+2)
		case "chain of pairs":
			link(i, i+1)
			link(i, i+2)
		}
	}
	// what the last specification says at a place where the first says 1
	clash := m.Pick(x, "last", "nothing", "the same", "other")
	want := obj{}
	var all []m.Pkg
	var specs []int
	for i := 0; i < n; i++ {
		if i%every == off {
			specs = append(specs, i)
		}
	}
	for i := 0; i < n; i++ {
		src := "package p\n"
		if i == 0 {
			src = "package a\n"
		}
		for _, p := range imports[i] {
			src += fmt.Sprintf("import _ %q\n", p)
		}
		pk := m.Pkg{Path: name(i), Files: map[string]string{"x.go": src + fmt.Sprintf("type T struct { Of%d int }\n", i)}}
		if i%every == off {
			d := obj{"openapi": "3.0.3", "paths": obj{fmt.Sprintf("/p%d", i): obj{"get": obj{"x": float64(i)}}, "/shared": obj{fmt.Sprintf("x-%d", i): arr{float64(i)}}},
				"components": obj{"schemas": obj{fmt.Sprintf("S%d", i): obj{"items": obj{"$ref": "go://#/T"}}}}}
			if i == specs[0] {
				d["x-clash"] = obj{"v": 1.}
			}
			if i == specs[len(specs)-1] && len(specs) > 1 && clash != "nothing" {
				d["x-clash"] = obj{"v": map[string]interface{}{"the same": 1., "other": 2.}[clash]}
			}
			pk.Files["oapi.yaml"] = m.JS(d)
			t := &f.Type{K: f.Named, Pkg: name(i), Name: "T", Def: &f.Type{K: f.Struct, Fields: []f.Field{{Name: fmt.Sprintf("Of%d", i), Type: &f.Type{K: f.Basic, Text: "int"}}}}}
			w := f.Deep(interface{}(d)).(obj)
			f.Put(interface{}(w), &f.RefTo{T: t}, "components", "schemas", fmt.Sprintf("S%d", i), "items")
			union(want, w)
		}
		all = append(all, pk)
	}
	what := fmt.Sprintf("%s of %d packages, specifications in %v, last says %s", form, n, specs, clash)
	x.Case("%s", what)
	r := f.Scan(world.Write(pkgA, all...))
	x.Outcome("%v %s", r.Err != nil, r.JSON)
	if r.Panic != "" {
		x.Fail("panic", "%s: %s", what, r.Panic)
	}
	if len(specs) > 1 && clash == "other" {
		if r.Err == nil {
			x.Fail("accepted", "%s: specifications differ but the scan gives %s", what, r.JSON)
		}
		return
	}
	if r.Err != nil {
		x.Fail("error", "%s: %v", what, r.Err)
	}
	if err := (&f.Env{}).MatchTree(interface{}(r.Doc), interface{}(want)); err != nil {
		x.Fail("document", "%s: %v in %s", what, err, r.JSON)
	}
}

// kinds: what the file of a specification is like
func kinds(x *m.X) {
	names := []string{"oapi.yaml", "oapi.yml", "oapi.json"}
	p := pkgs[x.Choose(2, "package")]
	name := names[x.Choose(len(names), "name")]
	how := m.Pick(x, "kind", "plain", "relative link", "absolute link", "link to link", "link out of the package", "link to another specification", "hard link", "read only", "private", "executable", "old", "future", "line ends", "no last line end", "empty lines", "linked directory", "large")
	other := x.Bool("another specification")
	var files []file
	d := content(p, name)
	if how == "large" {
		d["x-large"] = strings.Repeat("x", 1<<17)
	}
	want := []file{{pkg: p, name: name, doc: d}}
	if other {
		q := pkgA
		if p == pkgA {
			q = pkgB
		}
		files = append(files, file{pkg: q, name: "oapi.json", doc: content(q, "oapi.json")})
		want = append(want, files...)
	}
	x.Case("%s of %s is %s", name, p, how)
	edges := [][]int{{1}, {}, {}}
	world.Write(pkgA, m.Pkg{Path: pkgA}) // removes files of earlier cases
	dir := world.Dir(p)
	os.MkdirAll(dir, 0o755)
	aside := filepath.Join(world.Root, "aside")
	os.RemoveAll(aside)
	os.MkdirAll(aside, 0o755)
	text := m.JS(d)
	file := filepath.Join(dir, name)
	var made []string
	put := func(n string) {
		write(n, text)
		made = append(made, n)
	}
	link := func(to, n string) {
		if err := os.Symlink(to, n); err != nil {
			panic(err)
		}
		made = append(made, n)
	}
	switch how {
	case "relative link":
		put(filepath.Join(dir, "real.txt"))
		link("real.txt", file)
	case "absolute link":
		put(filepath.Join(dir, "real.txt"))
		link(filepath.Join(dir, "real.txt"), file)
	case "link to link":
		put(filepath.Join(aside, "real.txt"))
		link(filepath.Join(aside, "real.txt"), filepath.Join(dir, "second"))
		link("second", file)
	case "link out of the package":
		put(filepath.Join(aside, name))
		link(filepath.Join(aside, name), file)
	case "link to another specification": // twice the same
		n := "oapi.json"
		if name == n {
			n = "oapi.yaml"
		}
		put(filepath.Join(dir, n))
		link(n, file)
	case "hard link":
		put(filepath.Join(dir, "real.txt"))
		if err := os.Link(filepath.Join(dir, "real.txt"), file); err != nil {
			panic(err)
		}
		made = append(made, file)
	case "linked directory":
		// the package is looked up below a link
		put(file)
		to := filepath.Join(aside, "dir")
		if err := os.Rename(dir, to); err != nil {
			panic(err)
		}
		link(to, dir)
	case "line ends":
		text = strings.ReplaceAll(text, ",", ",\r\n ") + "\r\n"
		put(file)
	case "empty lines":
		text = "\n\n" + text + "\n\n\n"
		put(file)
	default:
		put(file)
		switch how {
		case "read only":
			os.Chmod(file, 0o444)
		case "private":
			os.Chmod(file, 0o600)
		case "executable":
			os.Chmod(file, 0o755)
		case "old":
			os.Chtimes(file, time.Unix(0, 0), time.Unix(0, 0))
		case "future":
			os.Chtimes(file, time.Unix(1<<32, 0), time.Unix(1<<32, 0))
		}
	}
	defer func() {
		for i := len(made) - 1; i >= 0; i-- {
			os.Remove(made[i])
		}
		if how == "linked directory" {
			os.Rename(filepath.Join(aside, "dir"), dir)
			os.Remove(file)
		}
		os.RemoveAll(aside)
	}()
	judge(x, edges, want, scan(edges, files, false))
}

func main() {
	m.Main(m.Check{
		ID: "C07", Level: "model_checking",
		Init: func(string) {
			world = m.NewWorld()
			dir, err := os.MkdirTemp("", "layouts")
			if err != nil {
				panic(err)
			}
			layoutDir = dir
		},
		Assume: []string{"the packages are found through the driver protocol of go/packages", "keys next to a reference are ignored, as JSON reference says, also when another specification gives them", "a document without any specification and specifications which are no text or have malformed version or path items are the subject of C22"},
		Spaces: []m.Space{
			{Name: "discovery", Bound: -1, Rule: "10 import graphs of three packages x 9 sets of files in the root x 8 (9) in each other package x import of a standard package", Run: discovery},
			{Name: "overlap", Bound: -1, Rule: "8 places x 18 values or none in each of two specifications x where the two are", Run: overlap},
			{Name: "three", Bound: -1, Rule: "9 values or none at one place of three specifications x import graphs", Run: three},
			{Name: "kinds", Bound: -1, Rule: "17 kinds of file (links, modes, times, line ends, size, directory) x 3 names x 2 packages x another specification", Run: kinds},
			{Name: "many", Bound: -1, Rule: "5 to 40 (4 to 100) packages in chains, fans and trees with specifications in all, every third or two, of which the last says nothing, the same or something else where the first says something", Run: many},
			{Name: "layouts", Bound: -1, Rule: "7 kinds of layout (module, vendored, replaced, GOPATH, GOPATH with vendor, workspace, fork of golang.org/x/net) x 5 module paths x 8 packages x 3 roots x 3 dependencies (quick: some combinations), listed by the go command", Run: layouts},
		},
	})
}
