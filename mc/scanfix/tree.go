//go:build go1.21

package scanfix

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/verifmc/mclib"
)

// RefTo stands in an expected document for the schema of a type.
type RefTo struct {
	T *Type
	// Sibling are keys which stand next to the reference; they stay only when
	// the reference becomes a local one.
	Sibling map[string]interface{}
	// Place tells that the reference names a place of that type, not the type
	// itself: the schema may be stated there as well when the type is exported.
	Place bool
}

// MatchTree checks got against want, a JSON value which holds *RefTo where the
// schema of a type is expected. Everything else has to be equal.
func (e *Env) MatchTree(got, want interface{}) error { return e.matchTree(got, want, "") }

func (e *Env) matchTree(got, want interface{}, at string) error {
	switch w := want.(type) {
	case *RefTo:
		if comp, ok := e.Exports[w.T]; ok {
			if g, _ := got.(map[string]interface{}); w.Place && g["$ref"] == nil {
				if err := e.MatchDef(got, w.T); err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				return nil
			}
			if e.Used != nil {
				e.Used[comp] = true
			}
			exp := map[string]interface{}{"$ref": "#/components/schemas/" + escape(comp)}
			for k, v := range w.Sibling {
				exp[k] = v
			}
			return e.matchTree(got, exp, at)
		}
		if ov, ok := e.Overrides[w.T]; ok {
			return e.matchTree(got, ov, at)
		}
		if w.Place {
			e.soft = w.T
			defer func() { e.soft = nil }()
		}
		if err := e.Match(got, w.T); err != nil {
			return fmt.Errorf("%s: %v", at, err)
		}
		return nil
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: got %s, want %s", at, short(got), short(want))
		}
		for _, k := range mclib.SortedKeys(w) {
			gv, ok := g[k]
			if !ok {
				return fmt.Errorf("%s: key %q is missing in %s", at, k, short(got))
			}
			if err := e.matchTree(gv, w[k], at+"/"+k); err != nil {
				return err
			}
		}
		for _, k := range mclib.SortedKeys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Errorf("%s: key %q is added: %s", at, k, short(g[k]))
			}
		}
		return nil
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%s: got %s, want %s", at, short(got), short(want))
		}
		for i := range w {
			if err := e.matchTree(g[i], w[i], fmt.Sprintf("%s/%d", at, i)); err != nil {
				return err
			}
		}
		return nil
	}
	return equal(got, want, at)
}

func escape(s string) string { return strings.NewReplacer("~", "~0", "/", "~1", "%", "%25").Replace(s) }

func short(v interface{}) string {
	s := mclib.JS(v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// Closure are the components reachable from the ones in Used: it checks every
// used component in comps (components.schemas of the document) and removes it
// there, so what is left was not asked for.
func (e *Env) Closure(comps map[string]interface{}) error {
	byName := map[string]*Type{}
	for t, n := range e.Exports {
		byName[n] = t
	}
	done := map[string]bool{}
	for {
		var todo []string
		for n := range e.Used {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			return nil
		}
		sort.Strings(todo)
		for _, n := range todo {
			done[n] = true
			c, ok := comps[n]
			if !ok {
				return fmt.Errorf("component %q is referenced but not in the document", n)
			}
			t := byName[n]
			if ov, ok := e.Overrides[t]; ok {
				if err := e.matchTree(c, ov, ""); err != nil {
					return fmt.Errorf("component %q: %v", n, err)
				}
			} else if err := e.MatchDef(c, t); err != nil {
				return fmt.Errorf("component %q: %v", n, err)
			}
			delete(comps, n)
		}
	}
}

// Put sets v at path in doc; string elements are object keys, int elements
// list positions. Missing parts are made.
func Put(doc interface{}, v interface{}, path ...interface{}) interface{} {
	if len(path) == 0 {
		return v
	}
	switch k := path[0].(type) {
	case string:
		m, ok := doc.(map[string]interface{})
		if !ok {
			m = map[string]interface{}{}
		}
		m[k] = Put(m[k], v, path[1:]...)
		return m
	case int:
		l, _ := doc.([]interface{})
		for len(l) <= k {
			l = append(l, map[string]interface{}{"x-filler": strconv.Itoa(len(l))})
		}
		l[k] = Put(l[k], v, path[1:]...)
		return l
	}
	panic("path")
}

// Deep copies a JSON value; *RefTo are shared.
func Deep(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range t {
			o[k] = Deep(e)
		}
		return o
	case []interface{}:
		o := []interface{}{}
		for _, e := range t {
			o = append(o, Deep(e))
		}
		return o
	}
	return v
}

// ExternalRefs lists the references with a scheme in a document.
func ExternalRefs(v interface{}) (out []string) {
	switch t := v.(type) {
	case map[string]interface{}:
		for _, k := range mclib.SortedKeys(t) {
			if s, ok := t[k].(string); ok && k == "$ref" && strings.Contains(s, "://") {
				out = append(out, s)
			}
			out = append(out, ExternalRefs(t[k])...)
		}
	case []interface{}:
		for _, e := range t {
			out = append(out, ExternalRefs(e)...)
		}
	}
	return
}
