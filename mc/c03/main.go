//go:build go1.21

// C03: struct tags.
package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
	"github.com/buypal/oapi-go/internal/verifmc/scanfix"
	"github.com/buypal/oapi-go/tag"
)

type option struct {
	name string
	kind string // bool, boolptr, int, float, string
	set  func(*tag.Tag, interface{})
}

func b(p func(*tag.Tag) *bool) func(*tag.Tag, interface{}) {
	return func(t *tag.Tag, v interface{}) { *p(t) = v.(bool) }
}
func bp(p func(*tag.Tag) **bool) func(*tag.Tag, interface{}) {
	return func(t *tag.Tag, v interface{}) { x := v.(bool); *p(t) = &x }
}
func ip(p func(*tag.Tag) **int64) func(*tag.Tag, interface{}) {
	return func(t *tag.Tag, v interface{}) { x := v.(int64); *p(t) = &x }
}
func fp(p func(*tag.Tag) **float64) func(*tag.Tag, interface{}) {
	return func(t *tag.Tag, v interface{}) { x := v.(float64); *p(t) = &x }
}
func st(p func(*tag.Tag) *string) func(*tag.Tag, interface{}) {
	return func(t *tag.Tag, v interface{}) { *p(t) = v.(string) }
}

var options = []option{
	{"omitempty", "bool", b(func(t *tag.Tag) *bool { return &t.OmitEmpty })},
	{"readonly", "bool", b(func(t *tag.Tag) *bool { return &t.ReadOnly })},
	{"writeonly", "bool", b(func(t *tag.Tag) *bool { return &t.WriteOnly })},
	{"deprecated", "bool", b(func(t *tag.Tag) *bool { return &t.Deprecated })},
	{"unique", "bool", b(func(t *tag.Tag) *bool { return &t.UniqItems })},
	{"required", "bool", b(func(t *tag.Tag) *bool { return &t.Required })},
	{"inline", "bool", bp(func(t *tag.Tag) **bool { return &t.Inline })},
	{"nullable", "bool", bp(func(t *tag.Tag) **bool { return &t.Nullable })},
	{"maxlen", "int", ip(func(t *tag.Tag) **int64 { return &t.MaxLen })},
	{"minlen", "int", ip(func(t *tag.Tag) **int64 { return &t.MinLen })},
	{"maxitems", "int", ip(func(t *tag.Tag) **int64 { return &t.MaxItems })},
	{"minitems", "int", ip(func(t *tag.Tag) **int64 { return &t.MinItems })},
	{"maxprops", "int", ip(func(t *tag.Tag) **int64 { return &t.MaxProps })},
	{"minprops", "int", ip(func(t *tag.Tag) **int64 { return &t.MinProps })},
	{"max", "float", fp(func(t *tag.Tag) **float64 { return &t.Max })},
	{"min", "float", fp(func(t *tag.Tag) **float64 { return &t.Min })},
	{"emax", "float", fp(func(t *tag.Tag) **float64 { return &t.EMax })},
	{"emin", "float", fp(func(t *tag.Tag) **float64 { return &t.EMin })},
	{"mulof", "float", fp(func(t *tag.Tag) **float64 { return &t.MulOf })},
	{"pattern", "string", st(func(t *tag.Tag) *string { return &t.Pattern })},
	{"format", "string", st(func(t *tag.Tag) *string { return &t.Format })},
	{"type", "string", st(func(t *tag.Tag) *string { return &t.Type })},
}

// value is a written value: its text in the tag and what it means.
type value struct {
	text string
	want interface{} // nil: malformed
}

var values = map[string][]value{
	"bool":   {{"", true}, {":true", true}, {":false", false}, {":1", true}, {":0", false}, {":yes", nil}, {":tru", nil}},
	"int":    {{":3", int64(3)}, {":0", int64(0)}, {":-2", int64(-2)}, {":9007199254740993", int64(9007199254740993)}, {":1.5", nil}, {":x", nil}, {"", nil}, {":1e3", nil}},
	"float":  {{":3", 3.}, {":0", 0.}, {":-2.5", -2.5}, {":1e3", 1000.}, {":x", nil}, {"", nil}, {":1,5", value{}}},
	"string": {{":abc", "abc"}, {":'a,b'", "a,b"}, {":'it:1'", "it:1"}, {":^[a-z]+$", "^[a-z]+$"}, {":'^a b$'", "^a b$"}, {":a:b", "a:b"}},
}

func quote(s string) string { return strconv.Quote(s) }

func parse(x *m.X, raw string, want tag.Tag, bad bool) {
	x.Case("%s", raw)
	var got tag.Tag
	var err error
	if pv, st := m.Try(func() { got, err = tag.Parse(raw) }); pv != nil {
		x.Fail("panic", "%v\n%s", pv, st)
	}
	x.Outcome("%s %v", m.JS(got), err != nil)
	if bad {
		if err == nil {
			x.Fail("accepted", "malformed value accepted: %s", m.JS(got))
		}
		return
	}
	if err != nil {
		x.Fail("error", "refused: %v", err)
	}
	if want.Ignore {
		if !got.Ignore {
			x.Fail("ignore", "field is not ignored: %s", m.JS(got))
		}
		return
	}
	if !reflect.DeepEqual(got, want) {
		x.Fail("value", "got %s\nwant %s", m.JS(got), m.JS(want))
	}
}

// oapiPart appends n distinct options with every value form.
func oapiPart(x *m.X, n int, forms func(kind string) []value, want *tag.Tag) (text string, bad bool) {
	name := m.Pick(x, "name", "", "nm", "a-b")
	if name != "" {
		want.Name = name
	}
	text = name
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := x.Choose(len(options)+1, "option")
		if k == 0 {
			for j := i + 1; j < n; j++ {
				if x.Choose(1, "none") != 0 {
					x.Prune()
				}
			}
			break
		}
		o := options[k-1]
		if used[k] {
			x.Prune()
		}
		used[k] = true
		vs := forms(o.kind)
		v := vs[x.Choose(len(vs), "value")]
		if _, skip := v.want.(value); skip { // a comma ends an unquoted value
			x.Prune()
		}
		text += "," + o.name + v.text
		if v.want == nil {
			bad = true
			continue
		}
		o.set(want, v.want)
	}
	return
}

func all(kind string) []value { return values[kind] }

func few(kind string) []value {
	switch kind {
	case "bool":
		return []value{{"", true}, {":false", false}, {":yes", nil}}
	case "int":
		return []value{{":3", int64(3)}, {":x", nil}}
	case "float":
		return []value{{":-2.5", -2.5}, {":x", nil}}
	}
	return []value{{":abc", "abc"}, {":'a,b'", "a,b"}}
}

var jsonParts = []struct {
	text   string
	name   string
	omit   bool
	inline bool
	ignore bool
}{
	{text: "-"},
	{text: "", name: ""},
	{text: "j", name: "j"},
	{text: "j,omitempty", name: "j", omit: true},
	{text: ",omitempty", omit: true},
	{text: ",inline", inline: true},
	{text: "j,string", name: "j"},
	{text: "a:b", name: "a:b"},
	{text: "j,inline,omitempty", name: "j", omit: true, inline: true},
	{text: "-,", name: "-"},
	{text: "-,omitempty", name: "-", omit: true},
}

func pairs(n int, forms func(string) []value) func(*m.X) {
	return func(x *m.X) {
		var want, own tag.Tag
		j := x.Choose(len(jsonParts)+1, "json")
		var jp string
		if j > 0 {
			p := jsonParts[j-1]
			jp = "json:" + quote(p.text)
			want.Name, want.OmitEmpty, want.Ignore = p.name, p.omit, p.text == "-"
			if p.inline {
				t := true
				want.Inline = &t
			}
		}
		var op string
		bad := false
		switch x.Choose(3, "oapi") {
		case 1:
			var text string
			own = want
			text, bad = oapiPart(x, n, forms, &own)
			want = own
			op = "oapi:" + quote(text)
		case 2:
			op = "oapi:" + quote(m.Pick(x, "ignore", "-", "-,required"))
			want.Ignore = true
		}
		parts := []string{}
		if jp != "" {
			parts = append(parts, jp)
		}
		if op != "" {
			parts = append(parts, op)
		}
		switch x.Choose(4, "order") {
		case 1:
			if len(parts) < 2 {
				x.Prune()
			}
			parts[0], parts[1] = parts[1], parts[0]
		case 2:
			parts = append([]string{`yaml:"other,required"`}, parts...)
		case 3:
			parts = append(parts, `db:"x,maxlen:3"`)
		}
		parse(x, strings.Join(parts, " "), want, bad)
	}
}

// numbers: every short text as the value of every kind of option
var decInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
var decFloat = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func numbers(x *m.X) {
	alpha := []string{"0", "1", "9", "-", "+", ".", "e", "x", "_", "b", " ", "n"}
	var b strings.Builder
	first := x.Choose(len(words)+1, "word")
	if first > 0 {
		b.WriteString(words[first-1])
	} else {
		for i := 0; i < m.N(4, 5); i++ {
			c := x.Choose(len(alpha)+1, "char")
			if c == 0 {
				break
			}
			b.WriteString(alpha[c-1])
		}
	}
	s := b.String()
	if s != strings.TrimSpace(s) || s == "" {
		x.Prune()
	}
	for _, name := range []string{"maxlen", "minlen", "maxitems", "minitems", "maxprops", "minprops", "max", "min", "emax", "emin", "mulof", "required", "nullable", "omitempty", "inline", "readonly", "writeonly", "deprecated", "unique"} {
		var o option
		for _, c := range options {
			if c.name == name {
				o = c
			}
		}
		var want tag.Tag
		raw := "oapi:" + quote("n,"+name+":"+s)
		x.Case("%s", raw)
		got, err := tag.Parse(raw)
		x.Outcome("%s %v", m.JS(got), err != nil)
		bad, tolerated := true, false
		want.Name = "n"
		switch o.kind {
		case "int":
			if n, e := strconv.ParseInt(s, 10, 64); e == nil && decInt.MatchString(s) {
				bad = false
				o.set(&want, n)
				tolerated = s[0] == '+' // JSON numbers have no plus sign
			}
		case "float":
			v, e := strconv.ParseFloat(s, 64)
			if e == nil && !decFloat.MatchString(s) {
				tolerated = true // other notations of Go
			}
			if e == nil {
				bad = false
				o.set(&want, v)
				tolerated = tolerated || s[0] == '+' || s[0] == '.' || strings.HasSuffix(s, ".")
			}
		case "bool":
			switch s {
			case "1", "t", "T", "true", "True", "TRUE":
				bad = false
				o.set(&want, true)
				tolerated = s != "true"
			case "0", "f", "F", "false", "False", "FALSE":
				bad = false
				o.set(&want, false)
				tolerated = s != "false"
			}
		}
		if err != nil {
			if !bad && !tolerated {
				x.Fail("error", "%s is refused: %v", raw, err)
			}
			continue
		}
		if bad {
			x.Fail("accepted", "malformed value of %s is accepted: %s", raw, m.JS(got))
		}
		if !same(got, want) {
			x.Fail("value", "%s: got %s\nwant %s", raw, m.JS(got), m.JS(want))
		}
	}
}

// same is equality which takes NaN for equal to itself.
func same(a, b tag.Tag) bool {
	for _, p := range [][2]**float64{{&a.Max, &b.Max}, {&a.Min, &b.Min}, {&a.EMax, &b.EMax}, {&a.EMin, &b.EMin}, {&a.MulOf, &b.MulOf}} {
		if *p[0] != nil && *p[1] != nil && math.IsNaN(**p[0]) && math.IsNaN(**p[1]) {
			*p[0], *p[1] = nil, nil
		}
	}
	return reflect.DeepEqual(a, b)
}

var words = []string{"true", "false", "True", "TRUE", "tRUE", "yes", "no", "on", "off", "t", "T", "f", "F", "inf", "nan", "Infinity", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "2147483648", "4294967296", "1e400", "0.1", "1e-3", "0b101", "0o17", "0x1p-2", "1_000", "٣", "1.0", "3.", "1e2", "true ", "nil", "null"}

var world *m.World

// scans: a malformed attribute makes the scan fail wherever the field is.
func scans(x *m.X) {
	// declarations of T with @ in place of a field and its tag
	places := []string{
		"type T struct { @ }",
		"type T struct { A int; @; Z int }",
		"type T struct { E; Z int }\n\ntype E struct { @ }",
		"type T struct { Z int; *E }\n\ntype E struct { Y int; @ }",
		"type T struct { E }\n\ntype E struct { D }\n\ntype D struct { @; Y int }",
		"type T struct { Z int; E `oapi:\"e,inline:true\"` }\n\ntype E struct { @ }",
		"type T struct { E E }\n\ntype E struct { @ }",
		"type T struct { E *E }\n\ntype E struct { Z string; @ }",
		"type T struct { E []E }\n\ntype E struct { @ }",
		"type T struct { E map[string]*E }\n\ntype E struct { @ }",
		"type T struct { E struct { @ } }",
		"type T struct { E []struct { Y int; @ } }",
		"type T []struct { @ }",
		"type T E\n\ntype E struct { @ }",
		"type T = E\n\ntype E struct { @ }",
		"type T struct { b.E }",
		"type T struct { E b.E }",
		"//openapi:schema T\ntype T struct { @ }",
		"type T struct { E E }\n\n//openapi:schema E\ntype E struct { @; N *E }",
	}
	place := x.Choose(len(places), "place")
	typ := m.Pick(x, "type of field", "int", "string", "*bool", "[]string", "map[string]int", "bool", "F", "*F", "[]F")
	tags := []struct {
		text string
		bad  bool
	}{
		{`oapi:"x,min:0x"`, true}, {`oapi:"x,maxlen:1.5"`, true}, {`oapi:"x,required:maybe"`, true}, {`json:"x" oapi:",deprecated:2"`, true},
		{`oapi:"x,nullable:no,required"`, true}, {`oapi:"x,mulof:,required"`, false}, {`oapi:"x,min:1,required"`, false}, {`json:"x" oapi:",maxlen:3"`, false},
	}
	t := tags[x.Choose(len(tags), "tag")]
	field := "X " + typ + " `" + t.text + "`"
	src := strings.ReplaceAll(places[place], "@", field)
	lib := "package b\n\ntype F struct{ W int }\n"
	head := "package a\n\n"
	if strings.Contains(src, "b.E") {
		head += "import \"ex.com/b\"\n\n"
		lib += "\ntype E struct { Y int; " + field + " }\n"
	}
	ref := m.Pick(x, "reference", "go://#/T", "go://ex.com/a#/T")
	pkgs := []m.Pkg{{Path: "ex.com/a", Files: map[string]string{"a.go": head + src + "\n\ntype F struct{ W int }\n", "oapi.yaml": scanfix.Spec(`{"$ref":"` + ref + `"}`)}}}
	if strings.Contains(src, "b.E") {
		pkgs = append(pkgs, m.Pkg{Path: "ex.com/b", Files: map[string]string{"b.go": lib}})
	}
	x.Case("%s", head+src)
	r := scanfix.Scan(world.Write("ex.com/a", pkgs...))
	switch {
	case r.Panic != "":
		x.Fail("panic", "the scan panics: %s", r.Panic)
	case t.bad && r.Err == nil:
		x.Fail("accepted", "the malformed tag %s is accepted: %s", t.text, r.JSON)
	case !t.bad && r.Err != nil && !strings.Contains(t.text, ":,"):
		x.Fail("error", "the tag %s is refused: %v", t.text, r.Err)
	}
	x.Outcome("%v", r.Err == nil)
}

// noise: tags without any of the two parts have no attributes
func noise(x *m.X) {
	raw := ""
	n := x.Choose(4, "n")
	for i := 0; i < n; i++ {
		if i > 0 {
			raw += " "
		}
		raw += m.Pick(x, "part", `xml:"a"`, `jsonx:"n,omitempty"`, `oapix:"n,required"`, `validate:"required,max=3"`, `x:""`)
	}
	parse(x, raw, tag.Tag{}, false)
}

func main() {
	m.Main(m.Check{
		ID:   "C03",
		Init: func(string) { world = m.NewWorld() },
		Spaces: []m.Space{
			{Name: "values", Bound: -1, Run: pairs(1, all), Rule: "every option with every value form, with every json part, in both orders and beside foreign parts"},
			{Name: "pairs", Bound: -1, Run: pairs(2, few), Rule: "every ordered pair of options with two or three value forms, with every json part and order"},
			{Name: "triples", Bound: -1, ThoroughOnly: true, Run: pairs(3, few), Rule: "every ordered triple of options"},
			{Name: "numbers", Bound: -1, Run: numbers, Rule: fmt.Sprintf("every text of up to %d of 12 characters and %d words as value of every numeric and boolean option", m.N(4, 5), len(words))},
			{Name: "scans", Bound: -1, Run: scans, Rule: "fields of 9 types with 8 tags, 5 of them malformed, at 19 places of a type that is referred to"},
			{Name: "noise", Bound: -1, Run: noise, Rule: "up to three parts that are neither json nor oapi"},
		},
	})
}
