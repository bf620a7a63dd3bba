//go:build go1.21

// Package clifix runs the command in a world of directories.
package clifix

import (
	"bytes"
	"context"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/buypal/oapi-go/internal/verifmc/mclib"
	"gopkg.in/yaml.v2"
)

// Tree is a directory tree with packages in it.
type Tree struct {
	Root string
	base map[string]string
}

// New makes the tree root/w, being the GOPATH directory of packages w/...
func New() *Tree {
	w := mclib.NewWorld()
	t := &Tree{Root: filepath.Join(w.Root, "w"), base: map[string]string{}}
	if err := os.MkdirAll(t.Root, 0o755); err != nil {
		panic(err)
	}
	return t
}

// Path of a place in the tree.
func (t *Tree) Path(rel string) string { return filepath.Join(t.Root, rel) }

// Put writes a file which stays.
func (t *Tree) Put(rel, text string) {
	t.Write(rel, text)
	t.base[rel] = text
}

// Write writes a file.
func (t *Tree) Write(rel, text string) {
	p := t.Path(rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// Package makes rel a package with type T and the specification.
func (t *Tree) Package(rel string, spec string) {
	name := "p"
	t.Put(filepath.Join(rel, "x.go"), "package "+name+"\n\n// T is a type\ntype T struct { X int }\n")
	path := "w/" + rel
	f := filepath.Join(t.Root, rel, "x.go")
	b, _ := json.Marshal(map[string]interface{}{
		"Sizes": map[string]int{"WordSize": 8, "MaxAlign": 8},
		"Roots": []string{path},
		"Packages": []interface{}{map[string]interface{}{
			"ID": path, "Name": name, "PkgPath": path, "GoFiles": []string{f}, "CompiledGoFiles": []string{f},
		}},
	})
	t.Put(filepath.Join(rel, ".verif-pkgs.json"), string(b))
	if spec != "" {
		t.Put(filepath.Join(rel, "oapi.json"), spec)
	}
}

// Files lists the files which are not those put; links are followed by
// nothing and listed with their target.
func (t *Tree) Files() map[string]string {
	out := map[string]string{}
	filepath.Walk(t.Root, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(t.Root, p)
		var s string
		if info.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			s = "-> " + l
		} else if info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s = string(b)
		} else {
			s = info.Mode().String()
		}
		if old, ok := t.base[rel]; ok && old == s {
			return nil
		}
		out[rel] = s
		return nil
	})
	for rel := range t.base {
		if _, err := os.Lstat(t.Path(rel)); err != nil {
			out[rel] = "MISSING"
		}
	}
	return out
}

// Reset removes all but the files put, and the directories named.
func (t *Tree) Reset(dirs ...string) {
	for rel, s := range t.Files() {
		p := t.Path(rel)
		if s == "MISSING" || t.base[rel] != "" {
			os.RemoveAll(p)
			t.Write(rel, t.base[rel])
			continue
		}
		os.RemoveAll(p)
	}
	for _, d := range dirs {
		os.RemoveAll(t.Path(d))
	}
}

// Result of a run of the command.
type Result struct {
	Code           int // -1 killed by a signal, -2 did not end
	Stdout, Stderr string
}

// Cmd is a run of the command.
type Cmd struct {
	Dir   string
	Args  []string
	Env   []string
	Wrap  []string // command line in front
	Out   *os.File // instead of a buffer
	Extra []*os.File
}

// Run runs the command.
func Run(c Cmd) Result {
	bin := filepath.Join(os.Getenv("MC_BIN"), "oapi")
	line := append(append(append([]string{}, c.Wrap...), bin), c.Args...)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, line[0], line[1:]...)
	cmd.Dir = c.Dir
	cmd.Env = append(os.Environ(), c.Env...)
	cmd.Env = append(cmd.Env, "PWD="+c.Dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.ExtraFiles = c.Extra
	if c.Out != nil {
		cmd.Stdout = c.Out
	}
	err := cmd.Run()
	r := Result{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		r.Code = -2
	} else if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		} else {
			panic(err)
		}
	}
	return r
}

// Format tells the format of a document and its value.
func Format(s string) (format string, doc map[string]interface{}) {
	t := strings.TrimSpace(s)
	switch {
	case t == "":
		return "nothing", nil
	case strings.HasPrefix(t, "{"):
		if json.Unmarshal([]byte(t), &doc) != nil {
			return "broken json", nil
		}
		if strings.Contains(t, "\n") {
			return "json:pretty", doc
		}
		return "json", doc
	case strings.HasPrefix(t, "//"):
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, "x.go", s, 0)
		if err != nil {
			return "broken go", nil
		}
		pkg, err := (&types.Config{}).Check("main", fset, []*ast.File{af}, nil)
		if err != nil {
			return "broken go", nil
		}
		for _, n := range pkg.Scope().Names() {
			if c, ok := pkg.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
				if json.Unmarshal([]byte(constant.StringVal(c.Val())), &doc) == nil {
					return "go", doc
				}
			}
		}
		return "broken go", nil
	}
	var y map[string]interface{}
	if err := yaml.Unmarshal([]byte(s), &y); err != nil || y == nil {
		return "broken yaml", nil
	}
	b, err := json.Marshal(plain(y))
	if err != nil || json.Unmarshal(b, &doc) != nil {
		return "broken yaml", nil
	}
	return "yaml", doc
}

func plain(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for k := range t {
			t[k] = plain(t[k])
		}
	case map[interface{}]interface{}:
		o := map[string]interface{}{}
		for k, e := range t {
			s, ok := k.(string)
			if !ok {
				s = "!not a text"
			}
			o[s] = plain(e)
		}
		return o
	case []interface{}:
		for i := range t {
			t[i] = plain(t[i])
		}
	}
	return v
}
