//go:build go1.21

// C15: reading, addressing and rewriting documents.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/container"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

type obj = map[string]interface{}
type arr = []interface{}
type num = json.Number

// canon renders the JSON value of v with exact numbers.
func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return canonText(b)
}

func canonText(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return "!" + err.Error()
	}
	var norm func(v interface{}) interface{}
	norm = func(v interface{}) interface{} {
		switch t := v.(type) {
		case obj:
			for k, e := range t {
				t[k] = norm(e)
			}
		case arr:
			for i, e := range t {
				t[i] = norm(e)
			}
		case num:
			r, ok := new(big.Rat).SetString(string(t))
			if ok {
				return "#" + r.RatString()
			}
		}
		return v
	}
	b, _ = json.Marshal(norm(x))
	return string(b)
}

func deep(v interface{}) interface{} {
	switch t := v.(type) {
	case obj:
		o := obj{}
		for k, e := range t {
			o[k] = deep(e)
		}
		return o
	case arr:
		o := arr{}
		for _, e := range t {
			o = append(o, deep(e))
		}
		return o
	}
	return v
}

var nasty = []string{"a", "a.b", "a/b", "~", "~0", "~1", "0", "200", "", "*", "-", ".", "a b", "é", "$ref", "\"", "\\", "{id}", "a.0", "~1~0", "x\ny", "%", "null", "true", "<<", "1.5", "- a", ": ", "#"}

var scalars = []interface{}{"s", "", num("1"), num("-1.5"), num("0"), num("9007199254740993"), num("-9223372036854775808"), num("18446744073709551615"), num("1e3"), num("0.1"), num("1e-7"), num("123456789.123"), true, false, nil,
	"1", "1.0", "true", "null", "~", "2020-01-01", "0x1", "010", "1_000", "1:30", "- a", "a: b", " lead", "trail ", "multi\nline\n", "tab\t", "#c", "é☃", "\u0001", "'q'", "\"dq\"", "{a}", "[a]", "%d", "yes", "no", "off", "=", "<<", "\\n", "a #b", "@x", "`", "!t", "&a", "*a", ">", "|", ".inf", ".nan", "1e3", "\u2028", "\ud7ff", "\U0001F600", "\r\n", "x\r", "0b11", "0o7", "+1", "-", "--", "---", "...", "?", "? a", ":", ",", "key:", "-0"}

// yamlBlock writes v as block style YAML with quoted scalars.
func yamlBlock(v interface{}, ind string) string {
	switch t := v.(type) {
	case obj:
		if len(t) == 0 {
			return " {}\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, k := range m.SortedKeys(t) {
			fmt.Fprintf(&b, "%s%s:%s", ind, quote(k), yamlBlock(t[k], ind+"  "))
		}
		return b.String()
	case arr:
		if len(t) == 0 {
			return " []\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, e := range t {
			fmt.Fprintf(&b, "%s-%s", ind, yamlBlock(e, ind+"  "))
		}
		return b.String()
	case string:
		return " " + quote(t) + "\n"
	}
	b, _ := json.Marshal(v)
	return " " + string(b) + "\n"
}

func quote(s string) string {
	b, _ := json.Marshal(s) // JSON strings are YAML double quoted strings
	return string(b)
}

func read(x *m.X, how int, v interface{}) (container.Container, string) {
	js, _ := json.Marshal(v)
	file := func(name string, data []byte) (container.Container, error) {
		f := filepath.Join(x.Scratch, name)
		if err := os.WriteFile(f, data, 0o600); err != nil {
			panic(err)
		}
		c, err := container.ReadFile(f)
		if err == nil && c.FilePath() != f {
			x.Fail("path", "FilePath is %q, want %q", c.FilePath(), f)
		}
		return c, err
	}
	var c container.Container
	var err error
	var text []byte
	switch how {
	case 0:
		text = js
		c, err = container.ReadJSON(text)
	case 1:
		text = []byte(strings.TrimPrefix(yamlBlock(v, ""), "\n"))
		c, err = container.ReadYAML(text)
	case 2:
		text = js
		c, err = file("d.yaml", text)
	case 3:
		text = js
		c, err = file("d.json", text)
	case 4:
		text = []byte(strings.TrimPrefix(yamlBlock(v, ""), "\n"))
		c, err = file("d.yml", text)
	case 5:
		text, _ = json.MarshalIndent(v, "", "\t")
		c, err = container.ReadJSON(text)
	}
	if err != nil {
		x.Fail("read", "reading %s: %v", text, err)
	}
	return c, string(text)
}

// place is a scalar and the keys leading to it.
type place struct {
	keys []string
	val  interface{}
}

func places(v interface{}, at []string) (out []place) {
	sub := func(k string) []string { return append(append([]string{}, at...), k) }
	switch t := v.(type) {
	case obj:
		for _, k := range m.SortedKeys(t) {
			out = append(out, places(t[k], sub(k))...)
		}
		return
	case arr:
		for i, e := range t {
			out = append(out, places(e, sub(strconv.Itoa(i)))...)
		}
		return
	}
	return []place{{at, v}}
}

func put(v interface{}, keys []string, to interface{}) interface{} {
	if len(keys) == 0 {
		return to
	}
	switch t := v.(type) {
	case obj:
		t[keys[0]] = put(t[keys[0]], keys[1:], to)
		return t
	case arr:
		i, _ := strconv.Atoi(keys[0])
		t[i] = put(t[i], keys[1:], to)
		return t
	}
	return obj{keys[0]: put(nil, keys[1:], to)}
}

// dot is the documented notation: '~' is ~0, '.' is ~1.
func dot(keys []string) string {
	var o []string
	for _, k := range keys {
		o = append(o, strings.NewReplacer("~", "~0", ".", "~1").Replace(k))
	}
	return strings.Join(o, ".")
}

func addressing(x *m.X, doc obj, how int) {
	c, _ := read(x, how, doc)
	x.Case("%s", m.JS(doc))
	want := places(doc, nil)
	before := canon(doc)

	flat, err := c.Flatten()
	if err != nil {
		x.Fail("flatten", "%s: %v", m.JS(doc), err)
	}
	if len(flat) != len(want) {
		x.Fail("flatten", "%s: %d leaves, want %d: %v", m.JS(doc), len(flat), len(want), flat)
	}
	for _, p := range want {
		d := dot(p.keys)
		if container.SliceToDotPath(p.keys) != d {
			x.Fail("notation", "path of %q is %q, want %q", p.keys, container.SliceToDotPath(p.keys), d)
		}
		v, ok := flat[d]
		if !ok || canon(v) != canon(p.val) {
			x.Fail("flatten", "%s: leaf %q is %s (%v), want %s", m.JS(doc), p.keys, m.JS(v), ok, m.JS(p.val))
		}
		if !c.ExistsP(d) || canon(c.Path(d).Data()) != canon(p.val) {
			x.Fail("path", "%s: path %q leads to %s (%v), want %s", m.JS(doc), d, m.JS(c.Path(d).Data()), c.ExistsP(d), m.JS(p.val))
		}
		if c.Path(d).IsNil() != (p.val == nil) {
			x.Fail("nil", "%s: IsNil of %q", m.JS(doc), d)
		}
	}
	for _, key := range []string{"$ref", "a", "0"} {
		ms, err := container.ExtractKey(c, key)
		if err != nil {
			x.Fail("extract", "%s: %v", m.JS(doc), err)
		}
		var exp, got []string
		for _, p := range want {
			if p.keys[len(p.keys)-1] == key {
				exp = append(exp, dot(p.keys)+" "+canon(p.val))
			}
		}
		for _, it := range ms {
			got = append(got, it.Key+" "+canon(it.Val))
			if canon(c.Path(it.Key).Data()) != canon(it.Val) {
				x.Fail("extract", "%s: path %q does not lead to %s", m.JS(doc), it.Key, m.JS(it.Val))
			}
		}
		sort.Strings(exp)
		sort.Strings(got)
		if strings.Join(exp, "\n") != strings.Join(got, "\n") {
			x.Fail("extract", "%s: key %q found at %q, want %q", m.JS(doc), key, got, exp)
		}
	}
	if canon(c.Data()) != before {
		x.Fail("changed", "looking at %s changed it to %s", before, canon(c.Data()))
	}
	// setting
	values := []interface{}{"new", obj{"n": obj{"m": arr{num("1")}}}, nil}
	for i, p := range want {
		for j, v := range values {
			if (i+j)%len(values) != 0 && len(want) > 2 {
				continue
			}
			d := c.Clone()
			if canon(d.Data()) != before {
				x.Fail("clone", "clone of %s is %s", before, canon(d.Data()))
			}
			given := deep(v)
			if err := d.SetP(dot(p.keys), given); err != nil {
				x.Fail("set", "%s: setting %q: %v", m.JS(doc), p.keys, err)
			}
			exp := put(deep(doc), p.keys, v)
			if canon(d.Data()) != canon(exp) {
				x.Fail("set", "%s: setting %q to %s gives %s, want %s", m.JS(doc), p.keys, m.JS(v), canon(d.Data()), canon(exp))
			}
			if o, ok := given.(obj); ok { // what was set is a copy
				o["n"].(obj)["m"] = "changed"
				o["z"] = 1
				if canon(d.Data()) != canon(exp) {
					x.Fail("alias", "changing the value set before changed the document")
				}
			}
			if canon(c.Data()) != before {
				x.Fail("clone", "changing the clone at %q changed the original to %s", p.keys, canon(c.Data()))
			}
		}
	}
	// new places
	d := c.Clone()
	if err := d.SetP("new~1key.x~0.y", arr{"v"}); err != nil {
		x.Fail("set", "new place: %v", err)
	}
	if exp := put(deep(doc), []string{"new.key", "x~", "y"}, arr{"v"}); canon(d.Data()) != canon(exp) {
		x.Fail("set", "%s: new place gives %s", m.JS(doc), canon(d.Data()))
	}
	// independence of the clone, all places
	e := c.Clone()
	scramble(e.Data())
	if canon(c.Data()) != before {
		x.Fail("clone", "changing the clone everywhere changed the original to %s", canon(c.Data()))
	}
	e = c.Clone()
	kids, err := c.ChildrenMap()
	if err != nil || len(kids) != len(doc) {
		x.Fail("children", "%s: %d children (%v)", m.JS(doc), len(kids), err)
	}
	for k, kid := range kids {
		if canon(kid.Data()) != canon(doc[k]) {
			x.Fail("children", "child %q is %s", k, canon(kid.Data()))
		}
	}
	scramble(c.Data())
	if canon(e.Data()) != before {
		x.Fail("clone", "changing the original changed the clone to %s", canon(e.Data()))
	}
}

func scramble(v interface{}) {
	switch t := v.(type) {
	case obj:
		for _, k := range m.SortedKeys(t) {
			scramble(t[k])
			t[k] = "changed"
		}
		t["added"] = 1
	case arr:
		for i := range t {
			scramble(t[i])
			t[i] = "changed"
		}
	}
}

var yamls = []struct{ text, want string }{
	{"responses:\n  200: {d: 1}\n  default: x\n", `{"responses":{"200":{"d":1},"default":"x"}}`},
	{"a: 2020-01-01\nb: 2020-01-01T10:00:00Z\n", `{"a":"2020-01-01","b":"2020-01-01T10:00:00Z"}`},
	{"a: &x {b: 1, c: [1, 2]}\nd: *x\n", `{"a":{"b":1,"c":[1,2]},"d":{"b":1,"c":[1,2]}}`},
	{"a: &x {b: 1}\nd:\n  <<: *x\n  e: 2\n", `{"a":{"b":1},"d":{"b":1,"e":2}}`},
	{"a: |\n  l1\n  l2\nb: >\n  f1\n  f2\n", `{"a":"l1\nl2\n","b":"f1 f2\n"}`},
	{"true: a\n'yes': b\n-1: c\n0: d\n", `{"true":"a","yes":"b","-1":"c","0":"d"}`},
	{"a: [{1: x}, [{2: z}]]\n", `{"a":[{"1":"x"},[{"2":"z"}]]}`},
	{"# comment\na: 1 # more\n", `{"a":1}`},
	{"a:\nb: ~\nc: null\nd: ''\n", `{"a":null,"b":null,"c":null,"d":""}`},
	{"a: 9223372036854775807\nb: -9223372036854775808\nc: 18446744073709551615\n", `{"a":9223372036854775807,"b":-9223372036854775808,"c":18446744073709551615}`},
	{"---\na: 1\n", `{"a":1}`},
	{"a: 1\r\nb: 'x'\r\n", `{"a":1,"b":"x"}`},
	{"a: 3.0.3\nb: 3.0\nc: '3.0'\n", `{"a":"3.0.3","b":3.0,"c":"3.0"}`},
	{"{}", `{}`},
	{"", `null`},
	{"a: {b: {c: {d: {e: {1: {2: x}}}}}}", `{"a":{"b":{"c":{"d":{"e":{"1":{"2":"x"}}}}}}}`},
	{"a: &r [1]\nb: *r\nc: *r", `{"a":[1],"b":[1],"c":[1]}`},
}

// ways of writing a key, with its text and its kind
var ways = []struct{ text, key, kind string }{
	{"200", "200", "int"}, {"'200'", "200", "str"}, {"0xC8", "200", "int"}, {"200.0", "200", "float"},
	{"true", "true", "bool"}, {"'true'", "true", "str"}, {"on", "true", "bool"}, {"false", "false", "bool"}, {"'false'", "false", "str"},
	{"1.5", "1.5", "float"}, {"'1.5'", "1.5", "str"}, {"-1", "-1", "int"}, {"'-1'", "-1", "str"}, {"a", "a", "str"}, {"'2'", "2", "str"}, {"2", "2", "int"}, {"default", "default", "str"},
}

// sameKeys gives two keys to an object. A document cannot hold both of them if
// their text is the same, so it is not read then; a key written twice in the
// same kind is no YAML, one of both holds but always the same one.
func sameKeys(x *m.X) {
	i, j := x.Choose(len(ways), "first"), x.Choose(len(ways), "second")
	a, b := ways[i], ways[j]
	if i == j {
		x.Prune()
	}
	pre := m.Pick(x, "place", "", "k:\n", "l:\n- ", "m: {n: {o: ")
	// the keys of the document itself are read as they are written
	if pre == "" {
		a.key, b.key = strings.Trim(a.text, "'"), strings.Trim(b.text, "'")
	}
	twice := a.key == b.key && (a.kind == b.kind || pre == "")
	var text, want string
	obj2 := fmt.Sprintf("{%q:1,%q:2}", a.key, b.key)
	switch pre {
	case "":
		text, want = fmt.Sprintf("%s: 1\n%s: 2\n", a.text, b.text), obj2
	case "k:\n":
		text, want = fmt.Sprintf("k:\n  %s: 1\n  %s: 2\n", a.text, b.text), `{"k":`+obj2+`}`
	case "l:\n- ":
		text, want = fmt.Sprintf("l:\n- [{%s: 1, %s: 2}]\n", a.text, b.text), `{"l":[[`+obj2+`]]}`
	default:
		text, want = fmt.Sprintf("m: {1: {o: {%s: 1, %s: 2}}}\n", a.text, b.text), `{"m":{"1":{"o":`+obj2+`}}}`
	}
	x.Case("%q", text)
	first := ""
	for n := 0; n < 6; n++ {
		c, err := container.ReadYAML([]byte(text))
		got := "refused"
		if err == nil {
			got = canon(c.Data())
		}
		if n == 0 {
			first = got
		}
		switch {
		case got != first:
			x.Fail("random", "%q is read as %s and as %s", text, first, got)
		case a.key == b.key && !twice && err == nil:
			x.Fail("lost", "%q is read as %s, one of its keys is lost", text, got)
		case a.key != b.key && got != canonText([]byte(want)):
			x.Fail("yaml", "%q is read as %s (%v), want %s", text, got, err, want)
		}
	}
	x.Outcome("%s", first)
}

func main() {
	m.Main(m.Check{
		ID: "C15", Level: "model_checking",
		Assume: []string{"yaml is read by the rules of YAML 1.1 (yaml.v2); keys that are no strings become their text", "empty objects and lists have no path of their own, as Flatten documents"},
		Spaces: []m.Space{
			{Name: "reading", Bound: -1, Rule: fmt.Sprintf("%d keys x %d scalars in 5 shapes x 6 ways of writing and reading", len(nasty), len(scalars)), Run: func(x *m.X) {
				v := scalars[x.Choose(len(scalars), "value")]
				k := nasty[x.Choose(len(nasty), "key")]
				var doc obj
				switch x.Choose(5, "shape") {
				case 0:
					doc = obj{k: v}
				case 1:
					doc = obj{"x": obj{k: obj{k: v}}, "y": v}
				case 2:
					doc = obj{k: arr{v, obj{k: v}, arr{v, arr{}}}}
				case 3:
					doc = obj{"e": obj{}, k: arr{arr{arr{v}}, obj{}}, "z": nil}
				case 4:
					doc = obj{k: v, "k" + k: obj{"r": v}, "\u00e9" + k: arr{v, v}}
				}
				how := x.Choose(6, "written")
				x.Case("%s", m.JS(doc))
				c, text := read(x, how, doc)
				if canon(c.Data()) != canon(doc) {
					x.Fail("value", "%q is read as %s, want %s", text, canon(c.Data()), canon(doc))
				}
				if d := c.Clone(); canon(d.Data()) != canon(doc) {
					x.Fail("clone", "clone of %s is %s", canon(doc), canon(d.Data()))
				}
				d, err := container.Make(c.Data())
				if err != nil || canon(d.Data()) != canon(doc) {
					x.Fail("clone", "copy of %s is %s, %v", canon(doc), canon(d.Data()), err)
				}
				if b, err := c.MarshalJSON(); err != nil || canonText(b) != canon(doc) {
					x.Fail("json", "json of %s is %s, %v", canon(doc), b, err)
				}
			}},
			{Name: "same keys", Bound: -1, Rule: fmt.Sprintf("all pairs of %d ways of writing a key in YAML, of which many have the same text, at 4 places, twice", len(ways)), Run: sameKeys},
			{Name: "yaml", Bound: -1, Rule: "YAML constructs: keys that are no strings, anchors, merge keys, block scalars, dates, comments, documents", Run: func(x *m.X) {
				y := yamls[x.Choose(len(yamls), "text")]
				x.Case("%q", y.text)
				c, err := container.ReadYAML([]byte(y.text))
				if err != nil {
					x.Fail("yaml", "%q: %v", y.text, err)
				}
				got := canon(c.Data())
				if got != canonText([]byte(y.want)) && !(y.want == "null" && got == "{}") {
					x.Fail("yaml", "%q is read as %s, want %s", y.text, got, y.want)
				}
				if y.want != "null" {
					cl := c.Clone()
					if canon(cl.Data()) != canonText([]byte(y.want)) {
						x.Fail("clone", "clone of %q is %s", y.text, canon(cl.Data()))
					}
					for _, p := range places(c.Data(), nil) {
						d := c.Clone()
						if err := d.SetP(dot(p.keys), "NEW"); err != nil || strings.Count(canon(d.Data()), "NEW") != 1 {
							x.Fail("set", "%q: setting %q gives %s (%v)", y.text, p.keys, canon(d.Data()), err)
						}
					}
				}
			}},
			{Name: "addressing", Bound: -1, Rule: fmt.Sprintf("documents nesting %d keys three deep through objects and lists, every leaf addressed, set and reset, clones scrambled", len(nasty)), Run: func(x *m.X) {
				k1 := nasty[x.Choose(len(nasty), "key")]
				k2 := nasty[x.Choose(len(nasty), "key")]
				k3 := m.Pick(x, "key3", "$ref", "a", "a.b", "~")
				leaf := m.Pick(x, "leaf", interface{}("v"), interface{}(num("7")), nil)
				var doc obj
				switch x.Choose(6, "shape") {
				case 0:
					doc = obj{k1: obj{k2: obj{k3: leaf}}}
				case 1:
					doc = obj{k1: arr{obj{k2: leaf}, obj{k3: "w"}}, "a": "r"}
				case 2:
					doc = obj{k1: "x", "o": obj{k2: "y", "p": obj{k3: leaf, "$ref": "z"}}}
				case 3:
					doc = obj{k1: arr{arr{leaf, obj{k2: arr{"u", obj{k3: leaf}}}}}}
				case 4:
					doc = obj{k1: obj{}, "e": arr{}, k2 + "~1": obj{k3: arr{leaf, leaf, obj{"$ref": leaf}}}}
				case 5: // keys which read the same when not escaped
					doc = obj{"a": obj{"b": "1", "0": "3", "1": obj{k2: leaf}}, "a.b": "2", k1: obj{k3: leaf}}
					doc["a~1b"], doc["a~0b"] = "4", arr{"5"}
				}
				addressing(x, doc, x.Choose(2, "written"))
			}},
			{Name: "large", Bound: -1, Rule: "lists of 0 to 30 objects and chains of 1 to 30 keys", Run: func(x *m.X) {
				n := x.Choose(31, "n")
				var doc obj
				if x.Bool("chain") {
					var v interface{} = "end"
					for i := 0; i <= n; i++ {
						v = obj{fmt.Sprintf("k.%d", i): v}
					}
					doc = v.(obj)
				} else {
					l := arr{}
					for i := 0; i < n; i++ {
						l = append(l, obj{"$ref": fmt.Sprint(i), "a": num(fmt.Sprint(i))})
					}
					doc = obj{"l": l, "x": "y"}
				}
				addressing(x, doc, 0)
			}},
			{Name: "roots", Bound: -1, Rule: "documents that are no object, malformed texts, unknown extensions, missing files", Run: func(x *m.X) {
				bad := []func() error{
					func() error { _, err := container.ReadJSON([]byte(`[1]`)); return err },
					func() error { _, err := container.ReadJSON([]byte(`{"a":1`)); return err },
					func() error { _, err := container.ReadJSON([]byte(`{"a":1} x`)); return err },
					func() error { _, err := container.ReadJSON([]byte(``)); return err },
					func() error { _, err := container.ReadJSON([]byte(`"x"`)); return err },
					func() error { _, err := container.ReadYAML([]byte("- a\n")); return err },
					func() error { _, err := container.ReadYAML([]byte("a: [1\n")); return err },
					func() error { _, err := container.ReadYAML([]byte("a: b: c\n")); return err },
					func() error { _, err := container.ReadYAML([]byte("just text")); return err },
					func() error { _, err := container.ReadFile(filepath.Join(x.Scratch, "missing.yaml")); return err },
					func() error {
						f := filepath.Join(x.Scratch, "d.txt")
						os.WriteFile(f, []byte("{}"), 0o600)
						_, err := container.ReadFile(f)
						return err
					},
				}
				i := x.Choose(len(bad), "case")
				if bad[i]() == nil {
					x.Fail("accepted", "case %d is accepted", i)
				}
			}},
			{Name: "directories", Bound: -1, Rule: "all subsets of 6 files in directories of 6 names, read by 4 pattern lists", Run: func(x *m.X) {
				d := filepath.Join(x.Scratch, m.Pick(x, "dir", "plain", "a b", "[x]", "a*b", "q?", "back\\slash"))
				os.RemoveAll(d)
				os.MkdirAll(d, 0o755)
				os.MkdirAll(filepath.Join(x.Scratch, "x"), 0o755) // matched by [x] read as a pattern
				os.WriteFile(filepath.Join(x.Scratch, "x", "oapi.yaml"), []byte("wrong: 1"), 0o600)
				files := []string{"oapi.yaml", "oapi.yml", "oapi.json", "other.yaml", "b.json", "oapi.yaml.bak"}
				pats := [][]string{{"oapi.yaml", "oapi.yml", "oapi.json"}, nil, {"*.json"}, {"o*.y*ml"}}
				pi := x.Choose(len(pats), "patterns")
				var want, got []string
				for _, f := range files {
					if !x.Bool(f) {
						continue
					}
					os.WriteFile(filepath.Join(d, f), []byte(`{"n": "`+f+`"}`), 0o600)
					ps := pats[pi]
					if ps == nil {
						ps = []string{"*.yaml", "*.yml", "*.json"}
					}
					for _, p := range ps {
						if ok, _ := filepath.Match(p, f); ok {
							want = append(want, filepath.Join(d, f)+" "+f)
						}
					}
				}
				cc, err := container.ReadDir(d, pats[pi]...)
				if err != nil {
					x.Fail("dir", "%s: %v", d, err)
				}
				for _, c := range cc {
					got = append(got, fmt.Sprint(c.FilePath(), " ", c.Path("n").Data()))
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(want, "|") != strings.Join(got, "|") {
					x.Fail("dir", "read %q, want %q", got, want)
				}
			}},
		},
	})
}
