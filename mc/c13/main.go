//go:build go1.21

// C13: pointers.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/buypal/oapi-go/internal/pointer"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

var urls = []string{"", "go://a", "go://ex.com/a-b/c_d.v2", "http://h/x.json?q=1&r=%20", "defs/x.json", "../d.yaml", "file:///tmp/x", "go://", "urn:x:y", "http://u:p@h:8080/a%2Fb?q#", "//h/x", "?q=1", "http://h/a b?x=%23", "mailto:a@b", "http://[::1]:80/", "HTTP://H/x", "/abs/x.json?", "http://h?#"}

// toks is p's fragment as a plain list.
func toks(f pointer.Fragment) []string { return append([]string{}, f...) }

func same(a, b pointer.Pointer) bool {
	au, bu := a.URL, b.URL
	au.Fragment, bu.Fragment, au.RawFragment, bu.RawFragment = "", "", "", ""
	return au.String() == bu.String() && reflect.DeepEqual(toks(a.Fragment), toks(b.Fragment)) &&
		a.Scheme == b.Scheme && a.PkgPath() == b.PkgPath() && a.IsExternal() == b.IsExternal()
}

func show(p pointer.Pointer) string { return fmt.Sprintf("%s %q", p.URL.String(), toks(p.Fragment)) }

// survives checks that p comes back from its text and its JSON forms.
func survives(x *m.X, p pointer.Pointer) {
	s := p.String()
	q, err := pointer.Parse(s)
	if err != nil {
		x.Fail("parse", "%s: its text %q is refused: %v", show(p), s, err)
	}
	if !same(p, q) {
		x.Fail("text", "%s: its text %q is parsed as %s", show(p), s, show(q))
	}
	if c := p.Clone(); !same(p, c) || c.String() != s || c.URL.String() != p.URL.String() {
		x.Fail("clone", "clone of %s is %s", show(p), show(c))
	}
	if q.String() != s {
		x.Fail("stable", "text %q is written again as %q", s, q.String())
	}
	type holder struct {
		V pointer.Pointer
		P *pointer.Pointer
		M map[string]pointer.Pointer
	}
	b, err := json.Marshal(holder{V: p, P: &p, M: map[string]pointer.Pointer{"k": p}})
	if err != nil {
		x.Fail("marshal", "%s: %v", show(p), err)
	}
	var plain struct {
		V, P string
		M    map[string]string
	}
	if err := json.Unmarshal(b, &plain); err != nil || plain.V != s || plain.P != s || plain.M["k"] != s {
		x.Fail("json", "%s: json form %s is not its text %q (%v)", show(p), b, s, err)
	}
	var h holder
	if err := json.Unmarshal(b, &h); err != nil || h.P == nil {
		x.Fail("json", "%s: json form %s: %v", show(p), b, err)
	}
	if !same(p, h.V) || !same(p, *h.P) || !same(p, h.M["k"]) {
		x.Fail("json", "%s: json form %s is decoded as %s", show(p), b, show(*h.P))
	}
}

// reference decoding of a fragment ----------------------------------------

func refFragment(f string) ([]string, bool) {
	if f == "" {
		return []string{}, true
	}
	if f[0] != '/' {
		return nil, false
	}
	var out []string
	for _, t := range strings.Split(f[1:], "/") {
		var b strings.Builder
		for i := 0; i < len(t); i++ {
			if t[i] == '~' && i+1 < len(t) && (t[i+1] == '0' || t[i+1] == '1') {
				b.WriteByte("~/"[t[i+1]-'0'])
				i++
				continue
			}
			b.WriteByte(t[i])
		}
		out = append(out, b.String())
	}
	return out, true
}

func word(x *m.X, alpha []string, max int, label string) string {
	var b strings.Builder
	for i := 0; i < max; i++ {
		c := x.Choose(len(alpha)+1, label)
		if c == 0 {
			break
		}
		b.WriteString(alpha[c-1])
	}
	return b.String()
}

var chars = []string{"a", "/", "~", "%", "0", "1", "2", "F", " ", "\"", "\\", "#", "?", ".", "é", "<", "&", "\x01", "*", "[]", "+", ":", "{", "\n", "☃", "\x7f", "'"}

type object struct {
	name string
	want []string
	frag pointer.Fragment
	ptr  *pointer.Pointer
	text string
}

func (o object) ok() error {
	f := o.frag
	if o.ptr != nil {
		f = o.ptr.Fragment
		if o.ptr.String() != o.text {
			return fmt.Errorf("%s is %q now, was %q", o.name, o.ptr.String(), o.text)
		}
	}
	if !reflect.DeepEqual(toks(f), append([]string{}, o.want...)) {
		return fmt.Errorf("%s has tokens %q, want %q", o.name, toks(f), o.want)
	}
	if f.Len() != len(o.want) || f.IsEmpty() != (len(o.want) == 0) {
		return fmt.Errorf("%s: length %d, want %d", o.name, f.Len(), len(o.want))
	}
	h, hok := f.Head()
	l, lok := f.Last()
	t, tok := f.Tail()
	if hok != (len(o.want) > 0) || lok != hok || tok != hok || hok && (h != o.want[0] || l != o.want[len(o.want)-1] || t != l) {
		return fmt.Errorf("%s: head %q last %q tail %q of %q", o.name, h, l, t, o.want)
	}
	return nil
}

func derive(x *m.X) {
	var objs []object
	add := func(o object) {
		if o.ptr != nil {
			o.text = o.ptr.String()
		}
		objs = append(objs, o)
	}
	mustf := func(s string) pointer.Fragment {
		f, err := pointer.NewFragment(s)
		if err != nil {
			x.Fail("fragment", "%q: %v", s, err)
		}
		return f
	}
	switch x.Choose(7, "start") {
	case 0:
		p := pointer.NewPointer() // has spare capacity
		add(object{name: "NewPointer()", frag: p.Fragment})
		add(object{name: "NewPointer() pointer", ptr: &p})
	case 1:
		p := pointer.MustParse(m.Pick(x, "url", "go://ex.com/a", "http://u:p@h:80/a%2Fb?q=1", "urn:x:y?z") + "#/T/f")
		add(object{name: "parsed", ptr: &p, want: []string{"T", "f"}})
	case 2:
		add(object{name: "fragment", frag: mustf("/a/b~1c/d"), want: []string{"a", "b/c", "d"}})
	case 3:
		f := mustf("/a/b/c/d")[:2]
		add(object{name: "head of fragment", frag: f, want: []string{"a", "b"}})
	case 4:
		p, err := pointer.NewGoPointer("ex.com/a", "T")
		if err != nil {
			x.Fail("gopointer", "%v", err)
		}
		add(object{name: "NewGoPointer", ptr: &p, want: []string{"T"}})
	case 6:
		add(object{name: "root", frag: mustf("/"), want: []string{""}})
	case 5:
		add(object{name: "grown", frag: append(make(pointer.Fragment, 0, 8), "x"), want: []string{"x"}})
	}
	for i := 0; i < m.N(3, 4); i++ {
		src := objs[x.Choose(len(objs), "object")]
		f, url := src.frag, ""
		if src.ptr != nil {
			f = src.ptr.Fragment
			url = src.ptr.URL.String()
		}
		_ = url
		n := fmt.Sprintf("#%d", i)
		w := append([]string{}, src.want...)
		put := func(o object) {
			if src.ptr != nil {
				p := *src.ptr
				p.Fragment = o.frag
				add(object{name: o.name + " pointer", want: o.want, ptr: &p})
			}
			add(o)
		}
		switch op := x.Choose(11, "operation"); op {
		case 0:
			if len(w) == 1 && w[0] == "" {
				w = nil // descendants of / are descendants of the document
			}
			d, err := f.Descendant("k" + n)
			if err != nil {
				x.Fail("descendant", "%v", err)
			}
			put(object{name: n + " descendant", frag: d, want: append(w, "k"+n)})
		case 1:
			if len(w) == 1 && w[0] == "" {
				w = nil
			}
			d, err := f.Descendant("/k~1/~01")
			if err != nil {
				x.Fail("descendant", "%v", err)
			}
			put(object{name: n + " descendant of two", frag: d, want: append(w, "k/", "~1")})
		case 2:
			put(object{name: n + " raw descendant", frag: f.RawDescendant("r/" + n), want: append(w, "r/"+n)})
		case 3:
			put(object{name: n + " raw descendant of none", frag: f.RawDescendant(), want: w})
		case 4:
			put(object{name: n + " raw descendants", frag: f.RawDescendant("a"+n, "b"), want: append(w, "a"+n, "b")})
		case 5, 6:
			at := 0
			if op == 6 {
				at = len(w) - 1
			}
			r, err := f.Replace(at, "R"+n)
			if len(w) == 0 {
				if err == nil {
					x.Fail("replace", "replacing element %d of %q is not refused", at, w)
				}
				break
			}
			if err != nil {
				x.Fail("replace", "%v", err)
			}
			w[at] = "R" + n
			put(object{name: n + " replaced", frag: r, want: w})
		case 7:
			for _, at := range []int{-1, len(w), len(w) + 1} {
				if _, err := f.Replace(at, "R"); err == nil {
					x.Fail("replace", "replacing element %d of %q is not refused", at, w)
				}
			}
		case 8: // a clone is independent, also when changed in place
			c := f.Clone()
			for i := range c {
				c[i] = "C" + n
				w[i] = "C" + n
			}
			put(object{name: n + " changed clone", frag: c, want: w})
		case 9:
			if src.ptr == nil {
				x.Prune()
			}
			c := src.ptr.Clone()
			if !same(c, *src.ptr) {
				x.Fail("clone", "clone of %s is %s", show(*src.ptr), show(c))
			}
			for i := range c.Fragment {
				c.Fragment[i] = "P" + n
				w[i] = "P" + n
			}
			if c.Opaque == "" {
				c.Path, c.RawPath, c.Host = "/changed", "", "changed"
			}
			add(object{name: n + " changed pointer clone", ptr: &c, want: w})
		case 10:
			if src.ptr == nil {
				x.Prune()
			}
			var all []pointer.Pointer
			for _, o := range objs {
				if o.ptr != nil {
					all = append(all, *o.ptr)
				}
			}
			other := pointer.MustParse("go://other#/O")
			a, b := pointer.NewPointers(all), pointer.NewPointers([]pointer.Pointer{other, *src.ptr})
			na, nb := len(a), len(b)
			u := a.Merge(b)
			if len(a) != na || len(b) != nb {
				x.Fail("merge", "merging changed its arguments")
			}
			keys := map[string]bool{other.String(): true}
			for _, p := range all {
				keys[p.String()] = true
			}
			if len(u) != len(keys) {
				x.Fail("merge", "merged set has %d pointers, want %d", len(u), len(keys))
			}
			for k := range keys {
				if p, ok := u[k]; !ok || p.String() != k {
					x.Fail("merge", "merged set lacks %q", k)
				}
			}
			delete(u, src.ptr.String())
			u["x"] = other
			if len(a) != na || len(b) != nb {
				x.Fail("merge", "changing the merged set changed its parts")
			}
		}
		for _, o := range objs {
			if err := o.ok(); err != nil {
				x.Fail("changed", "after %s: %v", x.Trace(), err)
			}
		}
	}
	for _, o := range objs {
		if o.ptr != nil {
			survives(x, *o.ptr)
		}
	}
}

// long: pointers of many and of long tokens, and what is derived from them
func long(x *m.X) {
	n := m.Pick(x, "tokens", 1, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 129, m.N(257, 1025))
	size := m.Pick(x, "length of tokens", 1, 9, 65, m.N(257, 4097))
	kind := x.Choose(6, "kind")
	spare := m.Pick(x, "spare", 0, 1, 7)
	fr := make(pointer.Fragment, 0, n+spare)
	for i := 0; i < n; i++ {
		u := []string{"a", "/", "~1", "%2F", "é", fmt.Sprint(i, "~")}[kind]
		fr = append(fr, strings.Repeat(u, size))
	}
	p := pointer.MustParse(m.Pick(x, "location", "", "go://ex.com/a", "http://u:p@h:80/"+strings.Repeat("p/", size)+"a%2Fb?q=1"))
	p.Fragment = fr
	x.Case("%d tokens of %d, kind %d", n, size, kind)
	survives(x, p)
	if g, err := pointer.NewFragment(fr.String()); err != nil || !reflect.DeepEqual(toks(g), toks(fr)) {
		x.Fail("fragment", "fragment %.80q is parsed as %.80q: %v", fr.String(), toks(g), err)
	}
	want := toks(fr)
	objs := []object{{name: "start", frag: fr, want: want}}
	check := func() {
		for _, o := range objs {
			if err := o.ok(); err != nil {
				x.Fail("changed", "%v", err)
			}
		}
	}
	with := func(more ...string) []string { return append(append([]string{}, want...), more...) }
	for i := 0; i < 2; i++ {
		k := fmt.Sprint("k", i)
		d, err := fr.Descendant(k)
		if err != nil {
			x.Fail("descendant", "%v", err)
		}
		e, err := d.Descendant("/x~1/" + k)
		if err != nil {
			x.Fail("descendant", "%v", err)
		}
		objs = append(objs, object{name: "descendant", frag: d, want: with(k)}, object{name: "descendant of descendant", frag: e, want: with(k, "x/", k)},
			object{name: "raw", frag: fr.RawDescendant("r", k), want: with("r", k)})
		check()
	}
	for _, at := range []int{0, n / 2, n - 1} {
		r, err := fr.Replace(at, "R")
		if err != nil {
			x.Fail("replace", "%v", err)
		}
		w := with()
		w[at] = "R"
		objs = append(objs, object{name: fmt.Sprint("replaced ", at), frag: r, want: w})
		check()
	}
	c := fr.Clone()
	for i := range c {
		c[i] = "C"
	}
	pc := p.Clone()
	pc.Fragment[n-1] = "C"
	check()
	// many descendants one after another
	g, w := fr, with()
	for i := 0; i < 40; i++ {
		g = g.RawDescendant(fmt.Sprint(i))
		w = append(w, fmt.Sprint(i))
		objs = append(objs, object{name: "long descendant", frag: g, want: append([]string{}, w...)})
	}
	check()
	x.Outcome("%d", n)
}

// sets: unions of sets of pointers, and what is done with them afterwards
func sets(x *m.X) {
	texts := []string{"#/a", "go://x#/a", "go://x#/a~1b", "#/a%20b", ""}
	pick := func(what string) (pp pointer.Pointers, keys map[string]bool) {
		keys = map[string]bool{}
		var l []pointer.Pointer
		c := x.Choose(3+len(texts)*len(texts), what)
		switch {
		case c == 0:
			return nil, keys
		case c == 1:
			return pointer.Pointers{}, keys
		case c == 2:
			return pointer.NewPointers(nil), keys
		}
		c -= 3
		for _, s := range []string{texts[c%len(texts)], texts[c/len(texts)]} {
			p := pointer.MustParse(s)
			l = append(l, p)
			keys[p.String()] = true
		}
		return pointer.NewPointers(l), keys
	}
	a, ka := pick("a")
	b, kb := pick("b")
	x.Case("%v and %v", ka, kb)
	check := func(what string, pp pointer.Pointers, keys map[string]bool) {
		if len(pp) != len(keys) {
			x.Fail("merge", "%s: %d pointers, want %v", what, len(pp), keys)
		}
		for k := range keys {
			if p, ok := pp[k]; !ok || p.String() != k {
				x.Fail("merge", "%s lacks %q", what, k)
			}
		}
	}
	all := map[string]bool{}
	for k := range ka {
		all[k] = true
	}
	for k := range kb {
		all[k] = true
	}
	check("a", a, ka)
	check("b", b, kb)
	us := []pointer.Pointers{a.Merge(b), b.Merge(a), a.Merge(b).Merge(b)}
	for i, u := range us {
		check("union", u, all)
		// changing a union changes nothing else
		if u != nil {
			p := pointer.MustParse(fmt.Sprintf("go://more#/%d", i))
			u[p.String()] = p
			for k := range ka {
				delete(u, k)
			}
		}
		check("a afterwards", a, ka)
		check("b afterwards", b, kb)
		for _, v := range us[i+1:] {
			check("another union", v, all)
		}
	}
	// nor does changing a set change its unions
	u := a.Merge(b)
	for k := range ka {
		delete(a, k)
	}
	if b != nil {
		b["x"] = pointer.MustParse("#/x")
	}
	check("union afterwards", u, all)
	x.Outcome("%d", len(all))
}

func main() {
	text := []string{"/", "~", "0", "1", "%", "2", "F", "5", "#", "a", ":", "?", "."}
	m.Main(m.Check{
		ID: "C13", Level: "model_checking",
		Assume: []string{"equality of pointers is equality of their location part and of the list of tokens", "percent encoded octets of a pointer are UTF-8 (RFC 6901, section 6)", "descending from the pointer / starts at the document, as the tests of the package say"},
		Spaces: []m.Space{
			{Name: "tokens", Bound: -1, Rule: fmt.Sprintf("pointers of %d locations with up to 2 tokens, one of them any text of up to %d of %d characters", len(urls), m.N(2, 3), len(chars)), Run: func(x *m.X) {
				loc := urls[x.Choose(len(urls), "location")]
				var p pointer.Pointer
				if loc != "" {
					u, err := url.Parse(loc)
					if err != nil {
						panic(err)
					}
					p.URL = *u
				}
				t := word(x, chars, m.N(2, 3), "char")
				switch x.Choose(5, "shape") {
				case 0:
					p.Fragment = pointer.Fragment{t}
				case 1:
					p.Fragment = pointer.Fragment{t, "x"}
				case 2:
					p.Fragment = pointer.Fragment{"~1", t}
				case 3:
					p.Fragment = pointer.Fragment{"", t, ""}
				case 4:
					p.Fragment = pointer.Fragment{t, t}
				}
				x.Case("%s", show(p))
				survives(x, p)
				x.Outcome("%v", strings.ContainsAny(t, "%~/"))
			}},
			{Name: "texts", Bound: -1, Rule: fmt.Sprintf("all texts of up to %d characters of %q, with 4 prefixes", m.N(4, 6), strings.Join(text, "")), Run: func(x *m.X) {
				s := m.Pick(x, "prefix", "", "#/", "go://p.q/r#/", "#") + word(x, text, m.N(4, 6), "char")
				x.Case("%q", s)
				p, err := pointer.Parse(s)
				u, uerr := url.Parse(s)
				if uerr != nil {
					if err == nil && s != "" {
						x.Fail("accepted", "%q is not a URI reference (%v) but accepted as %s", s, uerr, show(p))
					}
					return
				}
				if !utf8.ValidString(u.Fragment) {
					x.Prune()
				}
				want, ok := refFragment(u.Fragment)
				if !ok {
					if err == nil {
						x.Fail("accepted", "%q has no valid pointer but is accepted as %s", s, show(p))
					}
					return
				}
				if err != nil {
					x.Fail("refused", "%q is refused: %v", s, err)
				}
				x.Outcome("%d", len(want))
				if got := toks(p.Fragment); !reflect.DeepEqual(got, append([]string{}, want...)) {
					x.Fail("tokens", "%q has tokens %q, want %q", s, got, want)
				}
				if p.Scheme != u.Scheme || p.Hostname() != u.Hostname() || p.Path != u.Path || p.RawQuery != u.RawQuery {
					x.Fail("location", "%q has location %s", s, p.URL.String())
				}
				survives(x, p)
				// the JSON form of the same text
				b, _ := json.Marshal(s)
				var q pointer.Pointer
				if err := json.Unmarshal(b, &q); err != nil || !same(p, q) {
					x.Fail("json", "json %s is decoded as %s, parsed as %s (%v)", b, show(q), show(p), err)
				}
			}},
			{Name: "long", Bound: -1, Rule: "pointers of 1 to 257 (1025) tokens of up to 257 (4097) of 6 characters, with 3 amounts of spare room, and 50 objects derived from each", Run: long},
			{Name: "sets", Bound: -1, Rule: "all pairs of 28 sets of up to two of 5 pointers, also none at all: their unions in both orders, before and after changing sets and unions", Run: sets},
			{Name: "derivation", Bound: -1, Rule: fmt.Sprintf("all sequences of %d derivations (11 operations on any object so far) from 7 starts; every object is checked after every step", m.N(3, 4)), Run: derive},
		},
	})
}
