//go:build go1.21

// mutate FILE N DIR writes every simple mutant of a Go file to DIR/<n>.go with a
// description in DIR/<n>.txt. It is only used to measure the checks.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

func main() {
	file, dir := os.Args[1], os.Args[2]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	for n := 0; ; n++ {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		desc := mutate(fset, f, n)
		if desc == "" {
			fmt.Println(n)
			return
		}
		var b bytes.Buffer
		if !write(&b, fset, f) {
			continue
		}
		os.WriteFile(filepath.Join(dir, strconv.Itoa(n)+".go"), b.Bytes(), 0644)
		os.WriteFile(filepath.Join(dir, strconv.Itoa(n)+".txt"), []byte(desc), 0644)
	}
}

func write(b *bytes.Buffer, fset *token.FileSet, f *ast.File) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return format.Node(b, fset, f) == nil
}

func mutate(fset *token.FileSet, f *ast.File, want int) (desc string) {
	n := 0
	at := func(p ast.Node, what string, do func()) {
		if n == want {
			do()
			desc = fmt.Sprintf("%s: %s", fset.Position(p.Pos()), what)
		}
		n++
	}
	swaps := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS},
		token.LEQ: {token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	}
	stmts := func(l []ast.Stmt) {
		for i := range l {
			i := i
			old := l[i]
			del := func() { l[i] = &ast.EmptyStmt{Semicolon: old.Pos(), Implicit: false} }
			switch s := old.(type) {
			case *ast.ExprStmt:
				at(s, "delete call", del)
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN {
					at(s, "delete assignment", del)
				}
			case *ast.IncDecStmt:
				at(s, "delete", del)
			case *ast.BranchStmt:
				at(s, "delete "+s.Tok.String(), del)
			case *ast.ReturnStmt:
				at(s, "delete return", del)
			case *ast.IfStmt:
				if s.Init == nil {
					at(s, "delete if", del)
				}
			case *ast.RangeStmt:
				at(s, "stop loop after first", func() {
					s.Body.List = append(s.Body.List, &ast.BranchStmt{Tok: token.BREAK, TokPos: s.Body.Rbrace})
				})
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.GenDecl:
			if s.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			at(s, "negate condition", func() { s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}, OpPos: s.Cond.Pos()} })
			if s.Else != nil {
				at(s, "delete else", func() { s.Else = nil })
			}
		case *ast.BinaryExpr:
			for _, op := range swaps[s.Op] {
				op := op
				at(s, s.Op.String()+" -> "+op.String(), func() { s.Op = op })
			}
			if s.Op == token.LAND || s.Op == token.LOR {
				at(s, "left operand only", func() { s.Op = token.LAND; s.Y = s.X })
				at(s, "right operand only", func() { s.Op = token.LAND; s.X = s.Y })
			}
		case *ast.BasicLit:
			switch s.Kind {
			case token.INT:
				at(s, "literal + 1", func() { v, _ := strconv.Atoi(s.Value); s.Value = strconv.Itoa(v + 1) })
			case token.STRING:
				if v, err := strconv.Unquote(s.Value); err == nil && len(v) > 0 && s.Value[0] == '"' {
					at(s, "string changed", func() { s.Value = strconv.Quote(v[:len(v)-1]) })
				}
			}
		case *ast.Ident:
			if s.Name == "true" || s.Name == "false" {
				at(s, "bool flipped", func() {
					if s.Name == "true" {
						s.Name = "false"
					} else {
						s.Name = "true"
					}
				})
			}
		case *ast.BlockStmt:
			stmts(s.List)
		case *ast.CaseClause:
			stmts(s.Body)
			if list := s.List; len(list) > 1 {
				for i := range list {
					i := i
					at(s, fmt.Sprintf("case %d removed", i), func() { s.List = append(append([]ast.Expr{}, s.List[:i]...), s.List[i+1:]...) })
				}
			}
		case *ast.CompositeLit:
			elts := s.Elts
			for i := range elts {
				i := i
				at(elts[i], "element removed", func() { s.Elts = append(append([]ast.Expr{}, s.Elts[:i]...), s.Elts[i+1:]...) })
			}
		case *ast.CallExpr:
			if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "append" && s.Ellipsis == 0 && len(s.Args) == 2 {
				at(s, "append dropped", func() { s.Args = s.Args[:1] })
			}
		}
		return true
	})
	return
}
