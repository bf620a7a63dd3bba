//go:build go1.21

package mclib

import (
	"encoding/json"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Pkg is one Go package of a generated program.
type Pkg struct {
	Path  string
	Files map[string]string // every file of the package directory, .go and others
	// Imports overrides the import list derived from the .go files.
	Imports []string
}

// World is a scratch GOPATH the packages of a case are written to. The code
// under test finds packages through the external driver protocol of
// golang.org/x/tools/go/packages (driver.sh), because the pinned version of
// that module cannot read the type sizes of the installed Go releases.
type World struct {
	Root    string
	written map[string]string
}

// NewWorld uses $GOPATH, which has to be a scratch directory.
func NewWorld() *World {
	root := os.Getenv("GOPATH")
	if !strings.Contains(root, "mc-") {
		fatalf("GOPATH %q is not a scratch directory", root)
	}
	if err := os.MkdirAll(root, 0o755); err != nil {
		fatalf("%v", err)
	}
	// packages are looked up below GOPATH; make GOPATH/src the same place
	os.Symlink(".", filepath.Join(root, "src"))
	return &World{Root: root, written: map[string]string{}}
}

// Dir of a package.
func (w *World) Dir(path string) string { return filepath.Join(w.Root, filepath.FromSlash(path)) }

type flatPkg struct {
	ID              string
	Name            string
	PkgPath         string
	GoFiles         []string
	CompiledGoFiles []string
	Imports         map[string]string `json:",omitempty"`
}

// StdStub is the directory with the stub standard library.
func StdStub() string {
	d := os.Getenv("MC_STDSTUB")
	if d == "" {
		fatalf("MC_STDSTUB is not set")
	}
	return d
}

// StdPkgs are the packages of the stub standard library.
var StdPkgs = []string{"time", "io", "unsafe"}

func stdPkg(p string) flatPkg {
	f := filepath.Join(StdStub(), p, p+".go")
	fp := flatPkg{ID: p, Name: p, PkgPath: p, GoFiles: []string{f}, CompiledGoFiles: []string{f}}
	if p == "unsafe" {
		fp.GoFiles, fp.CompiledGoFiles = nil, nil
	}
	return fp
}

// Write puts the packages on disk and the driver answer for root into root's
// directory, which is returned. Nothing of an earlier case stays behind.
func (w *World) Write(root string, pkgs ...Pkg) string {
	want := map[string]string{}
	var flat []flatPkg
	std := map[string]bool{}
	have := map[string]bool{}
	for _, p := range pkgs {
		have[p.Path] = true
	}
	for _, p := range pkgs {
		fp := flatPkg{ID: p.Path, PkgPath: p.Path, Imports: map[string]string{}}
		dir := w.Dir(p.Path)
		want[filepath.Join(dir, ".keep")] = ""
		for name, src := range p.Files {
			f := filepath.Join(dir, name)
			want[f] = src
			// the go command ignores tests and hidden files
			if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") || strings.Contains(name, "/") {
				continue
			}
			fp.GoFiles = append(fp.GoFiles, f)
			ast, err := parser.ParseFile(token.NewFileSet(), name, src, parser.ImportsOnly)
			if ast != nil && ast.Name != nil {
				fp.Name = ast.Name.Name
			}
			if err == nil && p.Imports == nil {
				for _, im := range ast.Imports {
					s, _ := strconv.Unquote(im.Path.Value)
					fp.Imports[s] = s
				}
			}
		}
		for _, s := range p.Imports {
			fp.Imports[s] = s
		}
		for s := range fp.Imports {
			if !have[s] {
				std[s] = true
			}
		}
		sort.Strings(fp.GoFiles)
		fp.CompiledGoFiles = fp.GoFiles
		flat = append(flat, fp)
	}
	for _, s := range SortedKeys(std) {
		flat = append(flat, stdPkg(s))
	}
	resp := map[string]interface{}{
		"Sizes":    map[string]int{"WordSize": 8, "MaxAlign": 8},
		"Roots":    []string{root},
		"Packages": flat,
	}
	b, err := json.Marshal(resp)
	if err != nil {
		fatalf("%v", err)
	}
	want[filepath.Join(w.Dir(root), ".verif-pkgs.json")] = string(b)
	for f := range w.written {
		if _, ok := want[f]; !ok {
			os.Remove(f)
			delete(w.written, f)
		}
	}
	for _, f := range SortedKeys(want) {
		if old, ok := w.written[f]; ok && old == want[f] {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			fatalf("%v", err)
		}
		if err := os.WriteFile(f, []byte(want[f]), 0o644); err != nil {
			fatalf("%v", err)
		}
		w.written[f] = want[f]
	}
	return w.Dir(root)
}
