//go:build go1.21

// C14: the output formats.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	gotypes "go/types"
	"math/big"
	"reflect"
	"strings"

	"github.com/buypal/oapi-go"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	f "github.com/buypal/oapi-go/internal/verifmc/scanfix"
	"gopkg.in/yaml.v2"
)

type obj = map[string]interface{}
type arr = []interface{}
type num = json.Number

var world *m.World

const pkgA = "ex.com/a"

// norm makes numbers comparable.
func norm(v interface{}) interface{} {
	switch t := v.(type) {
	case obj:
		o := obj{}
		for k, e := range t {
			o[k] = norm(e)
		}
		return o
	case arr:
		o := arr{}
		for _, e := range t {
			o = append(o, norm(e))
		}
		return o
	case map[interface{}]interface{}:
		o := obj{}
		for k, e := range t {
			s, ok := k.(string)
			if !ok {
				s = fmt.Sprintf("!key %T %v", k, k)
			}
			o[s] = norm(e)
		}
		return o
	case yaml.MapSlice:
		o := obj{}
		for _, i := range t {
			s, ok := i.Key.(string)
			if !ok {
				s = fmt.Sprintf("!key %T %v", i.Key, i.Key)
			}
			if _, twice := o[s]; twice {
				s = "!twice " + s
			}
			o[s] = norm(i.Value)
		}
		return o
	case num:
		return rat(string(t))
	case int, int64, uint64:
		return rat(fmt.Sprint(t))
	case float64:
		b, _ := json.Marshal(t)
		return rat(string(b))
	case string, bool, nil:
		return t
	}
	return fmt.Sprintf("!%T %v", v, v)
}

type number string

func rat(s string) interface{} {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return "!number " + s
	}
	return number(r.RatString())
}

// keysOf gives the top level keys of a JSON text in order
func keysOf(b []byte) (keys []string, v interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		return nil, nil, fmt.Errorf("no object: %v %v", t, err)
	}
	o := obj{}
	for d.More() {
		t, err := d.Token()
		if err != nil {
			return nil, nil, err
		}
		var e interface{}
		if err := d.Decode(&e); err != nil {
			return nil, nil, err
		}
		k := t.(string)
		if _, ok := o[k]; ok {
			return nil, nil, fmt.Errorf("key %q twice", k)
		}
		o[k] = e
		keys = append(keys, k)
	}
	if _, err := d.Token(); err != nil {
		return nil, nil, err
	}
	if d.More() {
		return nil, nil, fmt.Errorf("text after the document")
	}
	return keys, norm(o), nil
}

func goConst(src []byte) (string, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "spec.go", src, 0)
	if err != nil {
		return "", err
	}
	pkg, err := (&gotypes.Config{}).Check("main", fset, []*ast.File{af}, nil)
	if err != nil {
		return "", err
	}
	var out []string
	for _, n := range pkg.Scope().Names() {
		if c, ok := pkg.Scope().Lookup(n).(*gotypes.Const); ok && c.Val().Kind() == constant.String {
			out = append(out, constant.StringVal(c.Val()))
		}
	}
	if len(out) != 1 {
		return "", fmt.Errorf("%d constants", len(out))
	}
	return out[0], nil
}

var first = []string{"openapi", "info", "components", "paths"}

// fixed is the order of all keys the rest may have.
var fixed []string

func checkOrder(x *m.X, format string, keys []string, doc obj) {
	i := 0
	for _, k := range first {
		if _, ok := doc[k]; !ok {
			continue
		}
		if i >= len(keys) || keys[i] != k {
			x.Fail("order "+format, "keys of %s are %q", format, keys)
		}
		i++
	}
	pos := map[string]int{}
	for n, k := range fixed {
		pos[k] = n
	}
	last := -1
	for _, k := range keys[i:] {
		p, ok := pos[k]
		if !ok {
			continue
		}
		if p < last {
			x.Fail("order "+format, "keys of %s are %q, together with others they are ordered %q", format, keys, fixed)
		}
		last = p
	}
}

func document(doc obj) (oapi.OAPI, error) {
	dir := world.Write(pkgA, m.Pkg{Path: pkgA, Files: map[string]string{"x.go": "package a\ntype T struct { X int }\n", "oapi.json": m.JS(doc)}})
	return oapi.Scan(context.Background(), oapi.WithDir(dir))
}

func check(x *m.X, doc obj) {
	want := norm(doc)
	var o oapi.OAPI
	var err error
	pv, stack := m.Try(func() { o, err = document(doc) })
	if pv != nil {
		x.Fail("panic", "%v\n%s", pv, stack)
	}
	if err != nil {
		x.Fail("scan", "%v", err)
	}
	var js string
	for _, format := range []string{"json", "json:pretty", "yaml", "yml", "go"} {
		var b []byte
		pv, stack := m.Try(func() { b, err = oapi.Format(format, o) })
		if pv != nil {
			x.Fail("panic", "%v\n%s", pv, stack)
		}
		if err != nil {
			x.Fail("error "+format, "%v", err)
		}
		text := b
		if format == "go" {
			s, err := goConst(b)
			if err != nil {
				x.Fail("go", "%v in %s", err, b)
			}
			if s != js {
				x.Fail("go", "constant is %q, the json form %q", s, js)
			}
			text = []byte(s)
		}
		var got interface{}
		var keys []string
		if format == "yaml" || format == "yml" {
			var ms yaml.MapSlice
			if err := yaml.Unmarshal(b, &ms); err != nil {
				x.Fail("decode "+format, "%v in %s", err, b)
			}
			for _, i := range ms {
				keys = append(keys, fmt.Sprint(i.Key))
			}
			got = norm(ms)
		} else {
			keys, got, err = keysOf(text)
			if err != nil {
				x.Fail("decode "+format, "%v in %s", err, text)
			}
		}
		if !reflect.DeepEqual(got, want) {
			x.Fail("value "+format, "%s is %v, want %v\n%s", format, got, want, b)
		}
		checkOrder(x, format, keys, doc)
		if format == "json" {
			js = string(b)
			x.Outcome("%s", js)
		}
	}
}

func base() obj {
	return obj{"openapi": "3.0.3", "info": obj{"title": "t"}, "paths": obj{}}
}

var rest = []string{"components", "servers", "tags", "security", "externalDocs", "x-a", "a", "X", "zz", "Openapi", "0", "x.y", "x~/"}

func keys(x *m.X) {
	doc := obj{"openapi": "3.0.3"}
	for _, k := range append([]string{"info", "paths"}, rest...)[:m.N(12, 15)] {
		if x.Bool(k) {
			doc[k] = obj{"k": obj{"k": k}}
		}
	}
	x.Case("%v", m.SortedKeys(doc))
	check(x, doc)
}

var chars = []string{"a", " ", "\n", "\t", "`", "\"", "'", "\\", "\r", "\u0000", "\ufeff", "\u2028", "<", "&", "*", "-", ":", "#", "~", "1", "é", "\U0001f600", "\u007f", "\u0085", "{", "%", "|", "!", "=", "0", ".", "e", "?", ",", "]", "@", "y", "n", "+", "_", "/", "\x1b", "\ufffd", "\u00a0", "}", "[", "$", ";", "(", ")", "^", ">"}

// mergeKey removes the key << which has a space of its own.
func mergeKey(o obj) {
	if v, ok := o["<<"]; ok {
		delete(o, "<<")
		o["<< "] = v
	}
}

// merge: the key which means a merge in yaml
func merge(x *m.X) {
	vals := []interface{}{"s", obj{"a": "b"}, arr{obj{"a": "b"}}, nil, obj{}}
	v := vals[x.Choose(len(vals), "value")]
	doc := base()
	o := obj{"<<": v, "c": "d"}
	switch x.Choose(3, "place") {
	case 0:
		doc["x-o"] = o
	case 1:
		doc["x-o"] = arr{o}
	case 2:
		doc["<<"] = v
	}
	x.Case("%s", m.JS(doc))
	// anything else than the known failure of the yaml form has its own key
	ob, err := document(doc)
	if err != nil {
		x.Fail("scan", "%v", err)
	}
	want := norm(doc)
	for _, format := range []string{"json", "json:pretty", "go", "yaml"} {
		b, err := oapi.Format(format, ob)
		if err != nil {
			x.Fail("error "+format, "%v", err)
		}
		if format == "yaml" {
			var got interface{}
			err := yaml.Unmarshal(b, &got)
			if err == nil && reflect.DeepEqual(norm(got), want) {
				return
			}
			if !bytes.Contains(b, []byte("<<:")) {
				x.Fail("value yaml", "%s", b)
			}
			x.Fail("merge key", "yaml form has the plain key <<, which is a merge: %s", b)
		}
		if format == "go" {
			s, err := goConst(b)
			if err != nil {
				x.Fail("go", "%v", err)
			}
			b = []byte(s)
		}
		_, got, err := keysOf(b)
		if err != nil || !reflect.DeepEqual(got, want) {
			x.Fail("value "+format, "%v %s", err, b)
		}
	}
}

// spots puts a text at every kind of place.
func spots(doc obj, s string) {
	doc["x-text"] = s
	doc["x-list"] = arr{s, arr{s}, obj{"k": s}}
	doc["x-key"] = obj{s: obj{"e": s}, "x" + s: arr{}}
	mergeKey(doc["x-key"].(obj))
	doc["info"].(obj)["title"] = s
	doc["x-"+s] = 1.
	doc[s] = obj{"k": s}
	mergeKey(doc)
}

func texts(n int, chars []string) func(*m.X) {
	return func(x *m.X) {
		s := ""
		for i := 0; i < n; i++ {
			c := x.Choose(len(chars)+1, "character")
			if c == 0 {
				break
			}
			s += chars[c-1]
		}
		x.Case("%q", s)
		doc := base()
		spots(doc, s)
		check(x, doc)
	}
}

var words = []string{"null", "Null", "~", "true", "False", "yes", "No", "on", "OFF", "y", "N", "1", "-1", "+1", "0x1f", "0o7", "017", "0b1", "1_000", "1.0", "1.", ".5", "1e3", "1E+3", ".inf", "-.Inf", ".nan", "1:30", "190:20:30", "2001-01-01", "2001-01-01T00:00:00Z", "2001-1-1 1:1:1", "<<", "=", "---", "...", "- a", "-", "--", "a: b", "a:", ":a", "a #b", "#a", "? a", "[a]", "{a}", "a, b", "&a b", "*a", "!a", "!!str a", "|", ">", "|-\n a", "%YAML 1.1", "@a", "`a`", "'a", "\"a", "a'b\"c", "a\\nb", "0", "-0", "00", "0.0", "infinity", "NaN", "0x", "1__0", "18446744073709551616", "9223372036854775808", "1e400", "application/json", "/a/{b}", "$id", "http://a.b/c?d=e&f#g", "<script>", "\xc3\xa9", strings.Repeat("long word ", 30), strings.Repeat("x", 300), "a\n\n\nb", "\n\n", " a\n  b\n", "a\n b\n  ", "\ta\n\tb", "a \nb", "- a\n- b\n", "k: v\nl: w\n", "# c\nx", "'''", "```", "` + \"`\" + `", "\"\"\"", "${x}", "{{.X}}", "%d%s", "*/", "//", "\\u0041", "&amp;", "\u2029", "\ud7ff", "\U0010ffff", "\ue000", "{\"a\":1}", "},\"b", "\",\"", "\":", "\"},", "]}", "[\"", "\\\"", "}, ", "{{", "}}", "\\n", "\",\n\"", "  ", "[],", "{},", "\\u003c", "\\u003e", "a\\u0026b", "\\\\u003c", "\\x3c", "\\074", "&lt;", "&amp;lt;", "&#60;", "%3C", "%253C", "\\u2028", "\\/", "<&>", "\\<", "=3C", "\\U0001f600", "+ADw-"}

func wordsAt(x *m.X) {
	s := words[x.Choose(len(words), "text")]
	t := words[x.Choose(m.N(12, len(words)), "second text")]
	where := x.Choose(m.N(1, 3), "combination")
	doc := base()
	switch where {
	case 0:
		doc["x-pair"] = obj{s: t, t + "'": s}
		doc["x-seq"] = arr{s, t, obj{"a": s, "b": t}, arr{arr{t}, arr{s}}}
		doc["info"].(obj)["description"] = s + t
	case 1:
		doc["x-pair"] = s + "\n" + t + "\n"
		doc["x-key"] = obj{s + "\n" + t: obj{s + t: nil}}
	case 2:
		doc["x-pair"] = s + ": " + t
		doc["x-key"] = obj{s + " " + t: arr{s + " #" + t}}
	}
	for _, k := range []string{"x-pair", "x-key"} {
		if o, ok := doc[k].(obj); ok {
			mergeKey(o)
		}
	}
	x.Case("%q and %q, %d", s, t, where)
	check(x, doc)
}

var numbers = []string{"0", "1", "-1", "1.5", "-0.5", "1e3", "1E3", "1e+3", "1000000", "1e6", "1e20", "1e21", "123456789012", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0.1", "0.30000000000000004", "1e-6", "1e-7", "5e-324", "1.7976931348623157e308", "3.0", "100", "1.10", "2147483648", "4294967296", "123456.789", "-1e-10"}

func values(x *m.X) {
	var vals []interface{}
	for _, n := range numbers {
		vals = append(vals, num(n))
	}
	vals = append(vals, nil, true, false, "", obj{}, arr{}, arr{arr{}}, arr{obj{}}, obj{"a": obj{}}, obj{"": nil}, arr{nil}, arr{nil, nil}, obj{"a": nil, "b": arr{obj{"c": arr{num("1")}}}})
	i := x.Choose(len(vals), "value")
	j := x.Choose(len(vals), "second value")
	doc := base()
	doc["x-v"] = vals[i]
	doc["x-list"] = arr{vals[i], vals[j], arr{vals[j]}, obj{"a": vals[i], "b": vals[j]}}
	doc["components"] = obj{"schemas": obj{"S": obj{"example": vals[i], "enum": arr{vals[j]}, "properties": obj{"p": obj{"default": vals[j]}}}}}
	x.Case("%s %s", m.JS(vals[i]), m.JS(vals[j]))
	check(x, doc)
}

// trees: every document shape up to a number of nodes
func trees(x *m.X) {
	left := m.N(5, 6)
	var tree func() interface{}
	tree = func() interface{} {
		left--
		switch x.Choose(m.N(4, 5), "kind") {
		case 0:
			return "s"
		case 1:
			return num("1")
		case 2:
			a := arr{}
			for left > 0 && x.Bool("more elements") {
				a = append(a, tree())
			}
			return a
		case 3:
			o := obj{}
			for left > 0 && x.Bool("more members") {
				o[fmt.Sprintf("k%d", len(o))] = tree()
			}
			return o
		}
		return nil
	}
	doc := base()
	doc["x-tree"] = tree()
	x.Case("%s", m.JS(doc["x-tree"]))
	check(x, doc)
}

// long: texts of many characters
func long(x *m.X) {
	units := []string{"x", "w ", "é", "a\n", " a\n", "\"", "`", "a: ", "\U0001f600", "},", "\\", "\t"}
	lens := []int{79, 81, 128, 129, 1025, 5000}
	if m.Thorough() {
		lens = []int{9, 33, 63, 64, 65, 70, 77, 78, 79, 80, 81, 82, 83, 84, 100, 120, 126, 127, 128, 129, 130, 255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025, 1026, 2048, 4095, 4097, 5000, 20000, 65537}
	}
	u := units[x.Choose(len(units), "unit")]
	n := m.Pick(x, "length", lens...)
	s := m.Pick(x, "begin", "", " ", "\n") + strings.Repeat(u, n/len(u)+1)[:n/len(u)*len(u)] + m.Pick(x, "end", "", " ", "\n", "z")
	doc := base()
	where := m.Pick(x, "place", "value", "key", "top", "below")
	switch where {
	case "value":
		doc["x-text"] = s
		doc["info"].(obj)["title"] = s
		doc["x-list"] = arr{s, s, arr{s}}
	case "key":
		doc["x-key"] = obj{s: obj{"a": s}, "k": arr{obj{s: 1.}}}
	case "top":
		doc["x-"+s] = s
		doc[s] = arr{}
	case "below":
		var v interface{} = s
		for i := 0; i < 30; i++ {
			v = obj{"k": v, "l": arr{}}
		}
		doc["x-below"] = v
	}
	x.Case("%d times %q, %s", n/len(u), u, where)
	check(x, doc)
}

// large: documents of many levels, members and elements
func large(x *m.X) {
	sizes := []int{7, 9, 17, 33, 65, 101, 257}
	if m.Thorough() {
		sizes = []int{6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 129, 255, 257, 500, 1000, 1025}
	}
	n := m.Pick(x, "size", sizes...)
	form := m.Pick(x, "form", "objects", "lists", "both", "members", "elements", "top", "components")
	leaf := m.Pick(x, "leaf", interface{}("s"), interface{}(obj{}), interface{}(arr{}), interface{}(num("1")), nil)
	doc := base()
	v := leaf
	for i := 0; i < n && (form == "objects" || form == "lists" || form == "both"); i++ {
		switch {
		case form == "objects":
			v = obj{"k": v}
		case form == "lists" || i%2 == 0:
			v = arr{v}
		default:
			v = obj{"k": v, "a": "b"}
		}
	}
	switch form {
	case "members", "top", "components":
		o := obj{}
		for i := 0; i < n; i++ {
			o[fmt.Sprintf("x-%d", i)] = leaf
			o[fmt.Sprintf("x-%da", i)] = float64(i)
		}
		v = o
		if form == "top" {
			for k := range o {
				doc[k] = o[k]
			}
		}
		if form == "components" {
			doc["components"] = obj{"schemas": o}
		}
	case "elements":
		a := arr{}
		for i := 0; i < n; i++ {
			a = append(a, leaf, float64(i))
		}
		v = a
	}
	doc["x-v"] = v
	x.Case("%d %s, %s", n, form, m.JS(leaf))
	check(x, doc)
}

// formats which do not exist
func unknown(x *m.X) {
	names := []string{"", "JSON", "json ", " json", "xml", "YAML", "Go", "golang", "json:", "json:Pretty", "json:pretty ", "pretty", "yaml:pretty", "ym", "yamll", "json,yaml", "go:", "toml", "\x00", "txt", "jsonpretty", "json:pretty:go", "jso", "g"}
	format := names[x.Choose(len(names), "format")]
	doc := base()
	if x.Bool("zero document") {
		b, err := oapi.Format(format, oapi.OAPI{})
		x.Case("format %q of the zero document", format)
		if err == nil || len(b) > 0 {
			x.Fail("unknown", "gives %q, %v", b, err)
		}
		return
	}
	o, err := document(doc)
	if err != nil {
		x.Fail("scan", "%v", err)
	}
	x.Case("format %q", format)
	b, err := oapi.Format(format, o)
	x.Outcome("%v", err)
	if err == nil || len(b) > 0 {
		x.Fail("unknown", "gives %q, %v", b, err)
	}
}

var _ = f.Deep

func main() {
	m.Main(m.Check{
		ID: "C14", Level: "model_checking",
		Init: func(string) {
			world = m.NewWorld()
			doc := base()
			for _, k := range rest {
				doc[k] = obj{}
			}
			o, err := document(doc)
			if err != nil {
				return // reported by the spaces
			}
			b, err := oapi.Format("json", o)
			if err != nil {
				return
			}
			all, _, _ := keysOf(b)
			for _, k := range all {
				found := false
				for _, e := range first {
					found = found || e == k
				}
				if !found {
					fixed = append(fixed, k)
				}
			}
		},
		Assume: []string{
			"yaml outputs are read with yaml.v2 (YAML 1.1), json outputs with encoding/json, go outputs with go/parser and go/types",
			"texts are valid UTF-8; numbers are those of 64 bit integers and floats",
			"the order of the rest of the keys is the one of the document with all of them",
		},
		Spaces: []m.Space{
			{Name: "keys", Bound: -1, Rule: "all subsets of 12 (thorough 15) top level keys x all formats", Run: keys},
			{Name: "texts", Bound: -1, Rule: fmt.Sprintf("all texts of up to 2 characters of %d at every kind of place x all formats", len(chars)), Run: texts(2, chars)},
			{Name: "texts3", Bound: -1, Rule: "all texts of 3 characters of 20 (thorough all)", Run: texts(3, chars[:m.N(20, len(chars))])},
			{Name: "words", Bound: -1, Rule: fmt.Sprintf("pairs of %d texts with a meaning in yaml, json or go x all formats", len(words)), Run: wordsAt},
			{Name: "values", Bound: -1, Rule: "pairs of 47 numbers and structures x all formats", Run: values},
			{Name: "trees", Bound: -1, Rule: "all trees of up to 5 (thorough 6) nodes x all formats", Run: trees},
			{Name: "long", Bound: -1, Rule: "12 units repeated to 6 (38) lengths up to 5000 (65537) x beginning and end x as value, key, key of the document or far below x all formats", Run: long},
			{Name: "large", Bound: -1, Rule: "documents of up to 257 (1025) levels, members, elements or keys x 5 leaves x all formats", Run: large},
			{Name: "merge", Bound: -1, Rule: "5 values of the key << at 3 places", Run: merge},
			{Name: "unknown", Bound: -1, Rule: "24 names of formats which do not exist", Run: unknown},
		},
	})
}
