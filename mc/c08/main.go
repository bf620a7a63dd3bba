//go:build go1.21

// C08: merging documents.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/buypal/oapi-go/internal/container"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

type obj = map[string]interface{}
type arr = []interface{}

// canon is the JSON value of v (numbers by value), independent of v's storage.
func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	var x interface{}
	json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

func deep(v interface{}) interface{} {
	switch t := v.(type) {
	case obj:
		o := obj{}
		for k, e := range t {
			o[k] = deep(e)
		}
		return o
	case arr:
		o := arr{}
		for _, e := range t {
			o = append(o, deep(e))
		}
		return o
	}
	return v
}

// generator -----------------------------------------------------------------

var keys = []string{"a", "b"}

// val chooses a value; ok false means absent.
func val(x *m.X, depth int, rich bool) (interface{}, bool) {
	leaves := []interface{}{1., "s", nil, arr{1., obj{"k": arr{2.}}}, obj{}}
	if rich {
		leaves = append(leaves, 2., false, arr{}, arr{nil}, "")
	}
	n := 1 + len(leaves)
	if depth > 0 {
		n++
	}
	c := x.Choose(n, "value")
	switch {
	case c == 0:
		return nil, false
	case c <= len(leaves):
		return deep(leaves[c-1]), true
	}
	return object(x, depth-1, false), true
}

func object(x *m.X, depth int, rich bool) obj {
	o := obj{}
	for i, k := range keys {
		if v, ok := val(x, depth-i, rich && i == 0); ok {
			o[k] = v
		}
	}
	return o
}

// reference -----------------------------------------------------------------

type policy struct {
	name string
	fn   container.Merger
	ref  func(d, s interface{}) (interface{}, bool)
}

var policies = []policy{
	{"keep", container.MergeDefault, func(d, s interface{}) (interface{}, bool) { return d, true }},
	{"replace", container.MergeOverride, func(d, s interface{}) (interface{}, bool) { return s, true }},
	{"fail", container.MergeStrict, func(d, s interface{}) (interface{}, bool) { return nil, false }},
	{"custom", func(d, s interface{}) (interface{}, error) {
		return arr{d, s}, nil
	}, func(d, s interface{}) (interface{}, bool) { return arr{d, s}, true }},
}

// ref merges s into d.
func ref(d, s obj, p policy) (out obj, ok bool) {
	out, ok = deep(d).(obj), true
	ks := m.SortedKeys(s)
	for _, k := range ks {
		sv := s[k]
		dv, has := out[k]
		if !has {
			out[k] = deep(sv)
			continue
		}
		so, isS := sv.(obj)
		do, isD := dv.(obj)
		if isS && isD {
			r, k2 := ref(do, so, p)
			out[k], ok = r, ok && k2
			continue
		}
		r, k2 := p.ref(dv, sv)
		if !k2 {
			ok = false
			continue
		}
		out[k] = deep(r)
	}
	return
}

// scramble changes every map and slice reachable from v in place.
func scramble(v interface{}) {
	switch t := v.(type) {
	case obj:
		for _, k := range m.SortedKeys(t) {
			scramble(t[k])
			t[k] = "changed"
		}
		t["added"] = 1
	case arr:
		for i := range t {
			scramble(t[i])
			t[i] = "changed"
		}
	}
}

func mk(x *m.X, how int, v interface{}) container.Container {
	var c container.Container
	var err error
	switch how {
	case 0:
		c, err = container.Make(v)
	case 1:
		b, _ := json.Marshal(v)
		c, err = container.ReadJSON(b)
	case 2:
		b, _ := json.Marshal(v) // JSON is YAML
		c, err = container.ReadYAML(b)
	}
	if err != nil {
		x.Fail("make", "%s: %v", m.JS(v), err)
	}
	return c
}

func independent(x *m.X, what string, d, s container.Container) {
	dc, sc := canon(d.Data()), canon(s.Data())
	saved := deep(s.Data())
	scramble(s.Data())
	if got := canon(d.Data()); got != dc {
		x.Fail("alias", "%s: changing the source changed the destination from %s to %s", what, dc, got)
	}
	_ = saved
	sc = canon(s.Data())
	scramble(d.Data())
	if got := canon(s.Data()); got != sc {
		x.Fail("alias", "%s: changing the destination changed the source from %s to %s", what, sc, got)
	}
}

func pair(x *m.X, depth int) {
	d := object(x, depth, depth == 1)
	s := object(x, depth, depth == 1)
	p := policies[x.Choose(len(policies), "policy")]
	how := (3 - x.Choose(m.N(2, 3), "made by")) % 3
	what := fmt.Sprintf("%s into %s, %s", m.JS(s), m.JS(d), p.name)
	x.Case("%s", what)
	dc, sc := mk(x, how, d), mk(x, (how*2)%3, s)
	want, ok := ref(d, s, p)
	err := dc.Merge(sc, p.fn)
	if got := canon(sc.Data()); got != canon(s) {
		x.Fail("source", "%s: the source is %s afterwards", what, got)
	}
	x.Outcome("%v", ok)
	if !ok {
		if err == nil {
			x.Fail("collision", "%s: no error, the result is %s", what, canon(dc.Data()))
		}
		return
	}
	if err != nil {
		x.Fail("error", "%s: %v", what, err)
	}
	if got := canon(dc.Data()); got != canon(want) {
		x.Fail("result", "%s: the result is %s, want %s", what, got, canon(want))
	}
	independent(x, what, dc, sc)
}

// wide: many keys, and many documents
func wide(x *m.X) {
	n := m.Pick(x, "keys", 5, 8, 9, 10, 11, 16, 17, 33, 65, 129, 257)
	d, s := obj{}, obj{}
	for i := 0; i < n; i++ {
		d[fmt.Sprintf("d%d", i)] = obj{"v": float64(i)}
		s[fmt.Sprintf("s%d", i)] = obj{"v": float64(i)}
	}
	common := m.Pick(x, "in common", 0, 1, 2, 3)
	kind := x.Choose(4, "kind")
	for i := 0; i < common; i++ {
		k := fmt.Sprintf("%s%d", []string{"a", "e", "t"}[i], i) // before, between and behind the others
		switch kind {
		case 0:
			d[k], s[k] = 1., 2.
		case 1:
			d[k], s[k] = obj{"a": 1.}, obj{"b": arr{1.}}
		case 2:
			d[k], s[k] = "same", "same"
		case 3:
			d[k], s[k] = arr{1.}, obj{"b": nil}
		}
	}
	for i := x.Choose(3, "below"); i > 0; i-- {
		d, s = obj{"in": d, "x": 1.}, obj{"in": s, "y": 1.}
	}
	p := policies[x.Choose(len(policies), "policy")]
	if x.Bool("documents") {
		// every key of the source in a document of its own
		var cc container.Containers
		cc = append(cc, mk(x, 0, d))
		want, ok := deep(d).(obj), true
		in, wrap := s, func(o obj) obj { return o }
		for in["in"] != nil {
			w := wrap
			wrap = func(o obj) obj { return w(obj{"in": o}) }
			in = in["in"].(obj)
		}
		lenient := policy{p.name, p.fn, func(d, s interface{}) (interface{}, bool) {
			if reflect.DeepEqual(d, s) {
				return d, true
			}
			return p.ref(d, s)
		}}
		for _, k := range m.SortedKeys(in) {
			one := wrap(obj{k: in[k]})
			cc = append(cc, mk(x, 0, one))
			var k2 bool
			want, k2 = ref(want, one, lenient)
			ok = ok && k2
		}
		what := fmt.Sprintf("%d documents, %s", len(cc), p.name)
		x.Case("%s", what)
		got, err := cc.Merge(p.fn)
		if (err == nil) != ok {
			x.Fail("collision", "%s: error %v", what, err)
		}
		if ok && canon(got.Data()) != canon(want) {
			x.Fail("result", "%s: %s, want %s", what, canon(got.Data()), canon(want))
		}
		return
	}
	what := fmt.Sprintf("%d keys, %d in common of kind %d, %s", n, common, kind, p.name)
	x.Case("%s", what)
	dc, sc := mk(x, 0, d), mk(x, 0, s)
	want, ok := ref(d, s, p)
	err := dc.Merge(sc, p.fn)
	if (err == nil) != ok {
		x.Fail("collision", "%s: error %v", what, err)
	}
	if ok && canon(dc.Data()) != canon(want) {
		x.Fail("result", "%s: %s, want %s", what, canon(dc.Data()), canon(want))
	}
	if canon(sc.Data()) != canon(s) {
		x.Fail("source", "%s: source is %s", what, canon(sc.Data()))
	}
	if ok {
		independent(x, what, dc, sc)
	}
}

func main() {
	m.Main(m.Check{
		ID: "C08", Level: "model_checking",
		Assume: []string{"a key with value null is a key the document has"},
		Spaces: []m.Space{
			{Name: "pairs", Bound: -1, Rule: "all pairs of documents with the keys a and b, values of every JSON kind or absent and one level of nested objects, x 4 policies x 2 (thorough 3) ways of making the containers; every map and slice is scrambled afterwards", Run: func(x *m.X) { pair(x, 1) }},
			{Name: "deep", Bound: -1, ThoroughOnly: true, Rule: "as pairs with two levels of nesting", Run: func(x *m.X) { pair(x, 2) }},
			{Name: "chains", Bound: -1, Rule: "documents nested 1 to 8, 9, 10, 16, 17, 33, 65, 129 and 257 levels differing at one level, x policies", Run: func(x *m.X) {
				n := m.Pick(x, "depth", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65, 129, 257)
				build := func(leaf interface{}, extra string) obj {
					var v interface{} = leaf
					for i := 0; i < n; i++ {
						v = obj{"k": v, extra: float64(i)}
					}
					return v.(obj)
				}
				leaf := func(l string) interface{} {
					return deep(m.Pick(x, l, interface{}(1.), interface{}("x"), interface{}(arr{obj{"z": 1.}}), interface{}(obj{"z": obj{"y": 1.}}), nil))
				}
				d, s := build(leaf("dest"), "d"), build(leaf("source"), "s")
				p := policies[x.Choose(len(policies), "policy")]
				what := fmt.Sprintf("%s into %s, %s", m.JS(s), m.JS(d), p.name)
				x.Case("%s", what)
				dc, sc := mk(x, 0, d), mk(x, 0, s)
				want, ok := ref(d, s, p)
				err := dc.Merge(sc, p.fn)
				if (err == nil) != ok {
					x.Fail("collision", "%s: error %v", what, err)
				}
				if ok && canon(dc.Data()) != canon(want) {
					x.Fail("result", "%s: %s, want %s", what, canon(dc.Data()), canon(want))
				}
				if canon(sc.Data()) != canon(s) {
					x.Fail("source", "%s: source is %s", what, canon(sc.Data()))
				}
				if ok {
					independent(x, what, dc, sc)
				}
			}},
			{Name: "wide", Bound: -1, Rule: "objects of 5 to 257 keys with 0 to 3 keys in common which differ, are objects or are equal, at the top and below, x policies, and as many documents merged one after another", Run: wide},
			{Name: "keys", Bound: -1, Rule: "keys with dots, slashes, tildes, stars, dashes, digits or nothing, alone and nested, x policies x same or other key", Run: func(x *m.X) {
				ks := []string{"a.b", "a/b", "~0", "~1", "~", "*", "-", "0", "", "a.0", ".", "..", "é", "$ref", "a b", "/pets/{id}"}
				k1, k2 := ks[x.Choose(len(ks), "key")], ks[x.Choose(len(ks), "other")]
				mkv := func(l string) interface{} {
					return deep(m.Pick(x, l, interface{}(1.), interface{}(obj{"a": 1., "b": 2.}), interface{}(obj{k2: obj{"b": 1.}}), interface{}(arr{1., 2.})))
				}
				d, s := obj{k1: mkv("dest"), "a": obj{"b": 0.}}, obj{k2: mkv("source"), "a": obj{"c": arr{}}}
				p := policies[x.Choose(len(policies), "policy")]
				what := fmt.Sprintf("%s into %s, %s", m.JS(s), m.JS(d), p.name)
				x.Case("%s", what)
				dc, sc := mk(x, 0, d), mk(x, 0, s)
				want, ok := ref(d, s, p)
				err := dc.Merge(sc, p.fn)
				if (err == nil) != ok {
					x.Fail("collision", "%s: error %v", what, err)
				}
				if ok && canon(dc.Data()) != canon(want) {
					x.Fail("result", "%s: %s, want %s", what, canon(dc.Data()), canon(want))
				}
				if ok {
					independent(x, what, dc, sc)
				}
			}},
			{Name: "histories", Bound: -1, Rule: fmt.Sprintf("all sequences of %d merges, sets and clones over three documents, compared with independent values after every step", m.N(3, 4)), Run: history},
			{Name: "roots", Bound: -1, Rule: "merging where one side is empty, new, or no object; values that cannot be copied", Run: func(x *m.X) {
				p := policies[x.Choose(3, "policy")]
				switch x.Choose(5, "case") {
				case 0:
					c := container.New()
					s := mk(x, 0, obj{"a": obj{"b": arr{1.}}})
					if err := c.Merge(s, p.fn); err != nil || canon(c.Data()) != `{"a":{"b":[1]}}` {
						x.Fail("empty", "merging into an empty document: %s, %v", canon(c.Data()), err)
					}
					independent(x, "into empty", c, s)
				case 1:
					c := mk(x, 0, obj{"a": 1.})
					if err := c.Merge(container.New(), p.fn); err != nil || canon(c.Data()) != `{"a":1}` {
						x.Fail("empty", "merging an empty document: %s, %v", canon(c.Data()), err)
					}
				case 2:
					c := mk(x, 0, obj{"a": 1.})
					s := mk(x, 0, m.Pick(x, "root", interface{}(arr{1.}), interface{}("x"), interface{}(1.), nil))
					if err := c.Merge(s, p.fn); err == nil && canon(c.Data()) != `{"a":1}` {
						x.Fail("empty", "merging no object: %s, %v", canon(c.Data()), err)
					}
				case 3:
					c, err := container.Make(obj{"a": func() {}})
					if err == nil {
						x.Fail("copy", "a value that cannot be copied was taken as %s", canon(c.Data()))
					}
				case 4: // merging a document with itself
					c := mk(x, 0, obj{"a": obj{"b": arr{1.}}, "c": 1.})
					err := c.Merge(c, p.fn)
					if p.name == "fail" {
						if err == nil {
							x.Fail("collision", "merging a document into itself does not fail")
						}
						return
					}
					if err != nil || canon(c.Data()) != `{"a":{"b":[1]},"c":1}` {
						x.Fail("self", "merging a document into itself: %s, %v", canon(c.Data()), err)
					}
				}
			}},
			{Name: "lists of documents", Bound: -1, Rule: "all lists of 3 documents merged with every policy, compared with merging one after the other, where saying the same is no collision", Run: func(x *m.X) {
				opts := []obj{{}, {"a": 1.}, {"a": 2., "b": obj{"c": 1.}}, {"b": obj{"d": arr{1.}}}, {"b": obj{"c": 1.}, "a": 1.}, {"b": arr{1.}}, {"b": obj{"d": arr{1.}, "c": nil}}}
				var cc container.Containers
				var docs []obj
				n := x.Choose(4, "documents")
				for i := 0; i < n; i++ {
					d := deep(opts[x.Choose(len(opts), "document")]).(obj)
					docs = append(docs, d)
					cc = append(cc, mk(x, x.Choose(2, "made by"), d))
				}
				p := policies[x.Choose(len(policies), "policy")]
				x.Case("%s, %s", m.JS(docs), p.name)
				lenient := policy{p.name, p.fn, func(d, s interface{}) (interface{}, bool) {
					if reflect.DeepEqual(d, s) {
						return d, true
					}
					return p.ref(d, s)
				}}
				want, ok := obj{}, true
				for _, d := range docs {
					if ok {
						want, ok = ref(want, d, lenient)
					}
				}
				got, err := cc.Merge(p.fn)
				if (err == nil) != ok {
					x.Fail("list", "%s, %s: error %v", m.JS(docs), p.name, err)
				}
				for i, c := range cc {
					if canon(c.Data()) != canon(docs[i]) {
						x.Fail("source", "document %d is %s afterwards", i, canon(c.Data()))
					}
				}
				if !ok {
					return
				}
				if g := canon(got.Data()); g != canon(want) && !(g == "null" && len(want) == 0) {
					x.Fail("list", "%s, %s: %s, want %s", m.JS(docs), p.name, g, canon(want))
				}
				for _, c := range cc {
					before := canon(got.Data())
					scramble(c.Data())
					if canon(got.Data()) != before {
						x.Fail("alias", "changing a document changed the merged one")
					}
				}
			}},
		},
	})
}

// history runs operations over documents that are also kept as plain values.
func history(x *m.X) {
	start := []obj{
		{"a": obj{"p": 1.}, "l": arr{obj{"q": 1.}}},
		{"a": obj{"r": arr{1.}}, "b": 2.},
		{"b": obj{"s": obj{"t": 1.}}},
	}
	n := len(start)
	cs := make([]container.Container, n)
	vs := make([]obj, n)
	for i := range start {
		cs[i], vs[i] = mk(x, 0, start[i]), deep(start[i]).(obj)
	}
	var log []string
	for step := 0; step < m.N(3, 4); step++ {
		i := x.Choose(n, "document")
		j := (i + 1 + x.Choose(n-1, "other")) % n
		switch op := x.Choose(6, "operation"); op {
		case 0, 1:
			p := policies[op]
			log = append(log, fmt.Sprintf("merge %d into %d, %s", j, i, p.name))
			if err := cs[i].Merge(cs[j], p.fn); err != nil {
				x.Fail("error", "%v: %v", log, err)
			}
			vs[i], _ = ref(vs[i], vs[j], p)
		case 2:
			log = append(log, fmt.Sprintf("%d = clone of %d", i, j))
			cs[i] = cs[j].Clone()
			vs[i] = deep(vs[j]).(obj)
		case 3:
			k := fmt.Sprintf("n%d", step)
			log = append(log, fmt.Sprintf("%d.%s = document %d", i, k, j))
			if err := cs[i].SetP(k, cs[j]); err != nil {
				x.Fail("error", "%v: %v", log, err)
			}
			vs[i][k] = deep(vs[j])
		case 4:
			log = append(log, fmt.Sprintf("change %d in place", i))
			touch(cs[i].Data(), step)
			touch(vs[i], step)
		case 5:
			log = append(log, fmt.Sprintf("%d.b = part of %d", i, j))
			part := cs[j].Path("a")
			if err := cs[i].SetP("b", part); err != nil {
				x.Fail("error", "%v: %v", log, err)
			}
			vs[i]["b"] = deep(vs[j]["a"])
		}
		for k := range cs {
			if canon(cs[k].Data()) != canon(vs[k]) {
				x.Fail("history", "after %v: document %d is %s, want %s", log, k, canon(cs[k].Data()), canon(vs[k]))
			}
		}
	}
}

// touch changes the value at every depth, the same way for equal values.
func touch(v interface{}, step int) {
	switch t := v.(type) {
	case obj:
		ks := m.SortedKeys(t)
		sort.Strings(ks)
		for _, k := range ks {
			touch(t[k], step)
		}
		t[fmt.Sprintf("t%d", step)] = true
	case arr:
		for i := range t {
			touch(t[i], step)
			if _, ok := t[i].(float64); ok {
				t[i] = float64(100 + step)
			}
		}
	}
}
