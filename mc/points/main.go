//go:build go1.21

// points REPO SCRATCH OUT [-|+]PACKAGE...: writes an overlay in which every
// function of the library begins with a scheduling point (with + there is one
// before each of its statements, with - there is none) and the controlled sync
// and sync/atomic are used.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/buypal/oapi-go/internal/verifmc/"

type edit struct {
	at   int
	del  int
	text string
}

func main() {
	repo, scratch, out := os.Args[1], os.Args[2], os.Args[3]
	skip, all := map[string]bool{}, map[string]bool{}
	for _, s := range os.Args[4:] {
		if s[0] == '-' {
			skip[s[1:]] = true
		} else {
			all[s[1:]] = true
		}
	}
	rep := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if info.IsDir() {
			if b := info.Name(); rel != "." && (strings.HasPrefix(b, ".") || b == "testdata" || rel == "cmd") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil // does not build either
		}
		var ee []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, i := range f.Imports {
			for path, to := range map[string]string{`"sync"`: "vsync", `"sync/atomic"`: "vatomic"} {
				if i.Path.Value != path {
					continue
				}
				text := `"` + mod + to + `"`
				if i.Name == nil {
					text = path[strings.LastIndex(path, "/")+1:len(path)-1] + " " + text
					text = strings.TrimPrefix(text, `"`)
				}
				ee = append(ee, edit{off(i.Path.Pos()), len(path), text})
			}
		}
		if !skip[filepath.Dir(rel)] {
			points := 0
			ast.Inspect(f, func(node ast.Node) bool {
				if l, ok := node.(*ast.BlockStmt); ok && all[filepath.Dir(rel)] {
					for i, st := range l.List {
						switch st.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.RangeStmt, *ast.ForStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.DeferStmt:
							if i > 0 {
								points++
								ee = append(ee, edit{off(st.Pos()), 0, fmt.Sprintf("verifPoint.PointAt(%d); ", n+points)})
							}
						}
					}
				}
				var b *ast.BlockStmt
				switch f := node.(type) {
				case *ast.FuncDecl:
					b = f.Body
				case *ast.FuncLit:
					b = f.Body
				}
				if b != nil && len(b.List) > 0 {
					points++
					ee = append(ee, edit{off(b.Lbrace) + 1, 0, fmt.Sprintf(" verifPoint.PointAt(%d);", n+points)})
				}
				return true
			})
			n += points
			if points > 0 {
				ee = append(ee, edit{off(f.Name.End()), 0, `; import verifPoint "` + mod + `vsync"`})
			}
		}
		if len(ee) == 0 {
			return nil
		}
		sort.Slice(ee, func(i, j int) bool { return ee[i].at > ee[j].at })
		s := string(src)
		for _, e := range ee {
			s = s[:e.at] + e.text + s[e.at+e.del:]
		}
		if !strings.Contains(s, "//go:build") {
			s = "//go:build go1.21\n\n" + s
		}
		q := filepath.Join(scratch, "pt_"+strings.ReplaceAll(rel, "/", "_"))
		rep[p] = q
		return os.WriteFile(q, []byte(s), 0o644)
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(rep)
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "points:", err)
		os.Exit(1)
	}
}
