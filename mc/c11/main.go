//go:build go1.21

// C11: route patterns.
package main

import (
	"fmt"
	"hash/fnv"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/buypal/oapi-go/internal/route"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

// reference ---------------------------------------------------------------

type tok struct {
	lit rune // literal character
	k   byte // 'l' literal, 'v' variable, '*' star
}

var variable = regexp.MustCompile(`^\{[a-z][a-zA-Z0-9]+\}`)

// parse splits a pattern (without method) into tokens.
func parse(p string) (out []tok) {
	for len(p) > 0 {
		if v := variable.FindString(p); v != "" {
			out = append(out, tok{k: 'v'})
			p = p[len(v):]
			continue
		}
		if p[0] == '*' {
			out = append(out, tok{k: '*'})
			p = p[1:]
			continue
		}
		r, n := utf8.DecodeRuneInString(p)
		out = append(out, tok{k: 'l', lit: r})
		p = p[n:]
	}
	return
}

// ref tells if the whole path can be read as the tokens (backtracking free:
// sets of reachable positions).
func ref(ts []tok, text string) bool {
	path := []rune(text)
	if len(path) > 62 {
		return refSlow(ts, path)
	}
	pos := uint64(1)
	var seg uint64 // positions of a slash
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			seg |= 1 << i
		}
	}
	for _, t := range ts {
		var next uint64
		switch t.k {
		case 'l':
			for i := 0; i < len(path); i++ {
				if pos>>i&1 == 1 && path[i] == t.lit {
					next |= 1 << (i + 1)
				}
			}
		case 'v':
			in := false
			for i := 0; i < len(path); i++ {
				in = (in || pos>>i&1 == 1) && seg>>i&1 == 0
				if in {
					next |= 1 << (i + 1)
				}
			}
		case '*':
			in := false
			for i := 0; i <= len(path); i++ {
				in = in || pos>>i&1 == 1
				if in {
					next |= 1 << i
				}
			}
		}
		pos = next
	}
	return pos>>len(path)&1 == 1
}

func refSlow(ts []tok, path []rune) bool {
	pos := map[int]bool{0: true}
	for _, t := range ts {
		next := map[int]bool{}
		for p := range pos {
			switch t.k {
			case 'l':
				if p < len(path) && path[p] == t.lit {
					next[p+1] = true
				}
			case 'v':
				for q := p; q < len(path) && path[q] != '/'; q++ {
					next[q+1] = true
				}
			case '*':
				for q := p; q <= len(path); q++ {
					next[q] = true
				}
			}
		}
		pos = next
	}
	return pos[len(path)]
}

var methods = strings.Fields(`ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL`)

func refMatch(pattern, method, path string) bool {
	for _, me := range methods {
		if len(pattern) > len(me) && pattern[len(me)] == ':' && strings.EqualFold(pattern[:len(me)], me) {
			pattern = pattern[len(me)+1:]
			if method != "" && !strings.EqualFold(method, me) {
				return false
			}
			break
		}
	}
	return ref(parse(pattern), path)
}

// -------------------------------------------------------------------------

func check(x *m.X, pattern, method, path string) {
	got, err := route.Match(pattern, method, path)
	if err != nil {
		x.Fail("error", "Match(%q, %q, %q) fails: %v", pattern, method, path, err)
	}
	if want := refMatch(pattern, method, path); got != want {
		x.Fail("answer", "Match(%q, %q, %q) = %v, want %v", pattern, method, path, got, want)
	}
}

func strs(alpha []string, max int) (out []string) {
	out = []string{""}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, s := range last {
			for _, a := range alpha {
				next = append(next, s+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

func pattern(x *m.X, alpha []string, max int) string {
	var b strings.Builder
	for i := 0; i < max; i++ {
		c := x.Choose(len(alpha)+1, "token")
		if c == 0 {
			break
		}
		b.WriteString(alpha[c-1])
	}
	return b.String()
}

func product(x *m.X, alpha []string, max int, paths []string) {
	p := pattern(x, alpha, max)
	x.Case("pattern %q against %d paths", p, len(paths))
	n := 0
	pre := false
	for _, me := range methods {
		pre = pre || strings.HasPrefix(strings.ToUpper(p), me+":")
	}
	ts := parse(p)
	for _, s := range paths {
		got, err := route.Match(p, "", s)
		if err != nil {
			x.Fail("error", "Match(%q, %q, %q) fails: %v", p, "", s, err)
		}
		want := ref(ts, s)
		if pre {
			want = refMatch(p, "", s)
		}
		if got != want {
			x.Fail("answer", "Match(%q, %q, %q) = %v, want %v", p, "", s, got, want)
		}
		if want {
			n++
		}
	}
	x.Outcome("%d", n)
}

var structural, meta []string
var sPaths, mPaths []string

func main() {
	structural = []string{"/", "a", "{id}", "*", "{ab}", "b"}
	meta = []string{"/", "{id}", "*", ".", "[a]", "(", ")", "+", "?", "$", "^", "\\", "|", "{x}", "{Id}", "{i_d}", "{2}", "{", "}", "é", "\n", "%", "#", "-", "{idX9}", "\\Q", "\\E", " ", ":"}
	sPaths = strs([]string{"/", "a", "b"}, m.N(6, 8))
	mPaths = strs([]string{"/", "a", ".", "\n", "é"}, m.N(2, 4))
	for _, t := range meta {
		for _, u := range append([]string{"", "a", "/"}, meta...) {
			mPaths = append(mPaths, t+u)
			if m.Thorough() {
				mPaths = append(mPaths, "a"+t+u, t+u+"/", "/"+t+u, t+u+"x", t+u+t)
			}
		}
		mPaths = append(mPaths, "a"+t+"a", "/"+t+"/", "aa"+t, t+"/a", t+"aa", t+t+t)
	}
	m.Main(m.Check{
		ID: "C11", Level: "model_checking",
		Assume: []string{
			"a variable is written {name} with a name of a lower case letter followed by at least one letter or digit, as the package's own expression says; other text in braces stands for itself",
			"patterns and paths are valid UTF-8",
		},
		Spaces: []m.Space{
			{Name: "structure", Bound: -1, Rule: fmt.Sprintf("all patterns of up to %d tokens of / a b {id} {ab} *, each against all %d strings of up to %d characters of / a b", m.N(5, 6), len(sPaths), m.N(6, 8)), Run: func(x *m.X) {
				product(x, structural, m.N(5, 6), sPaths)
			}},
			{Name: "characters", Bound: -1, Rule: fmt.Sprintf("all patterns of up to 3 tokens of %d (regular expression syntax, near variables, line break, non ASCII), each against %d paths made of the same characters", len(meta), len(mPaths)), Run: func(x *m.X) {
				product(x, meta, 3, mPaths)
			}},
			{Name: "methods", Bound: -1, Rule: "every method of the list and near misses as prefix in 4 letter cases and once with look-alike letters x every method in 4 letter cases, none or unknown x 6 patterns x paths", Run: func(x *m.X) {
				cases := []func(string) string{strings.ToUpper, strings.ToLower, strings.Title, func(s string) string {
					return strings.ToLower(s[:1]) + s[1:]
				}}
				all := append(append([]string{}, methods...), "FOO", "GETX", "XGET", "G", "VERSION", "UPDATER")
				// letters which are others in lower or upper case, and shorter then
				looks := append(append([]func(string) string{}, cases...), func(s string) string {
					return strings.NewReplacer("k", "\u212a", "i", "\u0130", "s", "\u017f").Replace(strings.ToLower(s))
				})
				prefix := looks[x.Choose(len(looks), "case")](all[x.Choose(len(all), "prefix")])
				sep := m.Pick(x, "separator", ":", "", "::", " :", ": ", "/")
				rest := m.Pick(x, "rest", "/a", "/{id}", "*", "", "get:/a", "/get:{id}")
				p := prefix + sep + rest
				x.Case("pattern %q with every method", p)
				n := 0
				for _, me := range append([]string{""}, all...) {
					for _, c := range cases {
						if me != "" {
							me = c(me)
						}
						for _, path := range []string{"/a", "/b", "", "a", "get:/a", "/get:b", p, ":/a", prefix + "/a", " /a"} {
							check(x, p, me, path)
							if refMatch(p, me, path) {
								n++
							}
						}
					}
				}
				x.Outcome("%d", n)
			}},
			{Name: "histories", Bound: -1, Rule: fmt.Sprintf("all sequences of %d matches over 12 confusable patterns never used before in the process, each with 2 paths", m.N(3, 4)), Run: func(x *m.X) {
				h := fnv.New64a()
				pats := []string{"/{id}", "/{name}", "/*", "/([^/]+)", "/(.*)", "/{id}/b", "GET:/{id}", "POST:/{id}", "/a.b", "/a\\.b", "/{x}", "/"}
				paths := []string{"/a", "/a/b", "/([^/]+)", "/(.*)", "/a.b", "/axb", "/{x}", "/"}
				var seq [][2]int
				for i := 0; i < m.N(3, 4); i++ {
					seq = append(seq, [2]int{x.Choose(len(pats), "pattern"), x.Choose(m.N(4, 8), "path")})
				}
				h.Write([]byte(x.Trace()))
				u := fmt.Sprintf("/%x", h.Sum64())
				for _, s := range seq {
					p, me := pats[s[0]], ""
					if i := strings.IndexByte(p, ':'); i >= 0 {
						p, me = p[:i+1]+u+p[i+1:], "get"
					} else {
						p = u + p
					}
					check(x, p, me, u+paths[s[1]])
					check(x, p, "post", u+paths[(s[1]+1)%len(paths)])
				}
			}},
			{Name: "neighbours", Bound: -1, Rule: "all sequences of two patterns out of 34 which differ in letter case, slashes, escapes, names or method only, each asked with every one of 14 paths, then the first again", Run: func(x *m.X) {
				pats := []string{"/a", "/A", "/a/", "//a", "/a/{id}", "/A/{id}", "/a/{ID}", "/a/{Id}", "/a/{iD}", "/a/{id}/", "/a/{aa}", "/a/*", "/A/*", "/a/{id}*", "/a%2Fb", "/a/b", "/a b", "/a+b", "/a%20b", "/é", "/e\u0301", "/É",
					"/a?b", "/a?", "/a\\?b", " /a", "/a ", "GET:/a", "get:/a", "POST:/a", "/a\n", "/a$", "^/a", "a"}
				paths := []string{"/a", "/A", "/a/", "//a", "/a/b", "/A/b", "/a/{ID}", "/a b", "/a?b", "/é", "/É", "/a\n", "/e\u0301", "/a/b/"}
				i := x.Choose(len(pats), "first")
				j := x.Choose(len(pats), "second")
				// never used before in the process
				u := fmt.Sprintf("/n%d-%d", i, j)
				ask := func(p string) {
					me := ""
					if k := strings.IndexByte(p, ':'); k >= 0 {
						p = p[:k+1] + u + p[k+1:]
					} else {
						p = u + p
					}
					for _, s := range paths {
						check(x, p, me, u+s)
						check(x, p, "post", u+s)
					}
				}
				x.Case("%q then %q", pats[i], pats[j])
				ask(pats[i])
				ask(pats[j])
				ask(pats[i])
			}},
			{Name: "many", Bound: -1, Rule: "up to 4100 different patterns matched one after the other, then all of them again", Run: func(x *m.X) {
				n := m.Pick(x, "patterns", 2, 10, 33, 65, 101, 129, 257, 513, 1025, 4100)
				for round := 0; round < 2; round++ {
					for k := 0; k < n; k++ {
						p := fmt.Sprintf("/m%d/p%d/{id}", n, k)
						check(x, p, "", fmt.Sprintf("/m%d/p%d/x", n, k))
						check(x, p, "", fmt.Sprintf("/m%d/p%d/x", n, k+1))
						check(x, p, "", fmt.Sprintf("/m%d/p%d/", n, k))
					}
				}
			}},
			{Name: "long", Bound: -1, Rule: "patterns of up to 40 variables and stars over paths of up to 80 segments", Run: func(x *m.X) {
				n := m.Pick(x, "variables", 1, 2, 9, 10, 11, 20, 40)
				tail := m.Pick(x, "tail", "", "/*", "/*x", "*", "/{id}x", "/x{id}")
				k := x.Choose(82, "segments")
				p := strings.Repeat("/{id}", n) + tail
				for _, end := range []string{"", "/", "x", "/x", "/xx", "/axb"} {
					check(x, p, "", strings.Repeat("/s", k)+end)
				}
			}},
		},
	})
}
