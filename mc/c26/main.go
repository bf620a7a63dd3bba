//go:build go1.21

// C26: messages of the command.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/config"
	cli "github.com/buypal/oapi-go/internal/verifmc/clifix"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

var tree *cli.Tree

const goodSpec = `{"openapi":"3.0.3","info":{"title":"t","version":"-"},"paths":{"/p":{"get":{"responses":{"200":{"description":"d","content":{"m":{"schema":{"$ref":"go://#/T"}}}}}}}}}`

// expected output per format of the good package
var expected = map[string]string{}

var formats = []string{"json", "json:pretty", "yaml", "go"}

func setup() {
	tree = cli.New()
	tree.Package("good", goodSpec)
	tree.Package("badspec", "{ [")
	tree.Package("badref", strings.Replace(goodSpec, "#/T", "#/Nope", 1))
	tree.Package("badscheme", strings.Replace(goodSpec, "go://#/T", "ftp://x#/T", 1))
	tree.Package("conflict", goodSpec)
	tree.Put("conflict/oapi.yaml", "openapi: '3.0.2'\n")
	tree.Package("typeerror", goodSpec)
	tree.Put("typeerror/x.go", "package p\n\ntype T struct { X Missing }\n")
	tree.Package("syntax", goodSpec)
	tree.Put("syntax/x.go", "package p\n\ntype T struct {\n")
	tree.Package("badtag", goodSpec)
	tree.Put("badtag/x.go", "package p\n\ntype T struct { X int `oapi:\"min:x\"` }\n")
	tree.Package("badtype", goodSpec)
	tree.Put("badtype/x.go", "package p\n\ntype T struct { X func() }\n")
	tree.Package("badcomment", goodSpec)
	tree.Put("badcomment/x.go", "package p\n\n//openapi:nonsense\ntype T struct { X int }\n")
	tree.Put("nopkg/readme", "no driver answer here\n")
	for name, c := range map[string]string{
		"ok": "version: '1'\n", "malformed": "a: [\n", "list": "- a\n", "text": "hello\n", "empty-list-info": "info: 5\n", "badservers": "servers: {a: 1}\n", "badops": "operations: []\n", "badoverride": "overrides: {'go://w/good#/T': 7}\n",
		"format": "format: xml\n", "formatlist": "format: []\n", "dirlist": "dir: []\n", "extmissing": "extends: nothing.yaml\n", "extmalformed": "extends: malformed.yaml\n", "extself": "extends: extself.yaml\n", "extcircle": "extends: extcircle2.yaml\n", "extcircle2": "extends: extcircle.yaml\n",
		"exttxt": "extends: x.txt\n", "extdir": "extends: .\n", "extformat": "extends: format.yaml\n", "dirmissing": "dir: ../missing\n", "dirbad": "dir: ../badref\n", "dirfile": "dir: ../good/x.go\n",
		"overrideref": "overrides: {'go://w/good#/T': {$ref: 'go://w/good#/Nope'}}\n", "opsref": "operations: {'*': {responses: {'400': {description: d, content: {m: {schema: {$ref: 'go://w/good#/Nope'}}}}}}}\n", "compref": "components: {schemas: {S: {$ref: 'go://w/good#/Nope'}}}\n",
		"outdir": "output: nodir/x\n",
	} {
		tree.Put("conf/"+name+".yaml", c)
	}
	tree.Put("conf/bad.json", "{\"a\": }")
	tree.Put("conf/x.txt", "version: '1'\n")
	tree.Put("conf/trailing.json", "{} x")
	o, err := oapi.Scan(context.Background(), oapi.WithDir(tree.Path("good")))
	if err != nil {
		return
	}
	for _, f := range formats {
		b, err := oapi.Format(f, o)
		if err == nil {
			expected[f] = string(b)
		}
	}
}

type failure struct {
	name string
	args []string
}

func conf(name string) []string { return []string{"--config", "../conf/" + name} }

func failures() (out []failure) {
	for _, a := range [][]string{{"--nope"}, {"--format", "xml"}, {"--format", ""}, {"--format"}, {"--loglevel", "loud"}, {"extra"}, {"--dir"}, {"--format=JSON"}} {
		out = append(out, failure{"flag " + strings.Join(a, " "), a})
	}
	for _, d := range []string{"badspec", "badref", "badscheme", "conflict", "typeerror", "syntax", "badtag", "badtype", "badcomment", "nopkg", "missing", "good/x.go"} {
		out = append(out, failure{"scan of " + d, []string{"--dir", "../" + d}})
	}
	for _, c := range []string{"malformed.yaml", "list.yaml", "text.yaml", "empty-list-info.yaml", "badservers.yaml", "badops.yaml", "badoverride.yaml", "format.yaml", "formatlist.yaml", "dirlist.yaml", "extmissing.yaml", "extmalformed.yaml", "extcircle.yaml", "extself.yaml", "exttxt.yaml", "extdir.yaml", "extformat.yaml", "dirmissing.yaml", "dirbad.yaml", "dirfile.yaml", "overrideref.yaml", "opsref.yaml", "compref.yaml", "bad.json", "trailing.json", "x.txt", "missing.yaml", "", "../good"} {
		out = append(out, failure{"configuration " + c, conf(c)})
	}
	return
}

const previous = "an earlier document which is rather long ............................................................................................\n"

// target prepares an output; it gives the flags and the file to look at
func target(x *m.X, prior string) (args []string, file string, what string) {
	tree.Reset("out")
	os.MkdirAll(tree.Path("out"), 0o755)
	k := x.Choose(8, "output")
	what = []string{"file", "absolute file", "symbolic link", "hard link", "read only file", "relative link", "stdout", "stderr"}[k]
	file = "out/doc"
	args = []string{"--output", "../out/doc"}
	put := func(f string) {
		if prior != "" {
			tree.Write(f, prior)
		}
	}
	switch k {
	case 0:
		put(file)
	case 1:
		put(file)
		args[1] = tree.Path(file)
	case 2:
		put("out/real")
		os.Symlink(tree.Path("out/real"), tree.Path(file))
	case 3:
		if prior == "" {
			x.Prune()
		}
		put("out/real")
		os.Link(tree.Path("out/real"), tree.Path(file))
	case 4:
		if prior == "" {
			x.Prune()
		}
		put(file)
		os.Chmod(tree.Path(file), 0o444)
	case 5:
		put("out/real")
		os.Symlink("real", tree.Path(file))
	case 6:
		args, file = []string{"--output", "stdout"}, ""
	case 7:
		args, file = []string{"--output", "stderr"}, ""
	}
	return
}

func read(rel string) (string, bool) {
	b, err := os.ReadFile(tree.Path(rel))
	return string(b), err == nil
}

func diff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" removed")
		} else if v != w {
			out = append(out, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" created")
		}
	}
	return
}

// from silent to talkative; the first says nothing
var levels = []string{"nolog", "panic", "fatal", "error", "warn", "info", "debug", "trace"}

// severity of the names in messages
var severity = map[string]int{"panic": 1, "fatal": 2, "error": 3, "warning": 4, "warn": 4, "info": 5, "debug": 6, "trace": 7}

var line = regexp.MustCompile(`^time="[^"]*" level=([a-z]+) msg=("(?:[^"\\]|\\.)*"|\S*)`)

type message struct {
	level, text string
}

// messages takes the messages from the stream, what is left is rest
func messages(stream string) (msgs []message, rest string) {
	for _, l := range strings.SplitAfter(stream, "\n") {
		g := line.FindStringSubmatch(l)
		if g == nil {
			rest += l
			continue
		}
		t := g[2]
		if u, err := strconv.Unquote(t); err == nil {
			t = u
		}
		msgs = append(msgs, message{g[1], t})
	}
	return
}

func flagFailure(f failure) bool { return strings.HasPrefix(f.name, "flag ") }

// cause of a failure as the library tells it
func cause(f failure) (string, bool) {
	dir := tree.Path("good")
	switch f.args[0] {
	case "--dir":
		_, err := oapi.Scan(context.Background(), oapi.WithDir(filepath.Join(dir, f.args[1])))
		if err == nil {
			return "", false
		}
		return err.Error(), true
	case "--config":
		c, err := config.ReadFile(filepath.Join(dir, f.args[1]))
		if err != nil {
			return err.Error(), true
		}
		if c.Format == "xml" {
			_, err = oapi.Format("xml", oapi.OAPI{})
			if err != nil {
				return err.Error(), true
			}
		}
		if strings.HasPrefix(f.name, "configuration dir") {
			_, err = oapi.Scan(context.Background(), oapi.WithDir(filepath.Join(tree.Path("conf"), c.Dir)))
			if err != nil {
				return err.Error(), true
			}
		}
		return "w/good#/Nope", true // a reference to it somewhere
	}
	return "", false
}

// the words which tell the wrong flag
func flagWords(f failure) string {
	s := strings.TrimLeft(f.args[0], "-")
	s = strings.SplitN(s, "=", 2)[0]
	if s == "loglevel" {
		return "loud"
	}
	if s == "format" && (len(f.args) > 1 || strings.Contains(f.args[0], "=")) {
		return "json:pretty" // the values there are
	}
	return s
}

// failing: what fails is told
func failing(x *m.X) {
	ff := failures()
	f := ff[x.Choose(len(ff), "failure")]
	level := levels[x.Choose(len(levels), "loglevel")]
	prior := []string{previous, ""}[x.Choose(2, "prior")]
	out, _, what := target(x, prior)
	if !m.Thorough() && what != "file" && what != "stdout" && what != "stderr" {
		x.Prune()
	}
	args := append([]string{}, f.args...)
	if strings.HasPrefix(f.name, "flag --loglevel") {
		if level != "nolog" {
			x.Prune()
		}
	} else {
		args = append(args, "--loglevel", level)
		if strings.HasPrefix(f.name, "flag --format") && len(f.args) == 1 || f.name == "flag --dir" {
			args = append([]string{"--loglevel", level}, f.args...)
			out = nil // is the last one
		}
	}
	if out != nil {
		args = append(out, args...)
	}
	x.Case("%v", args)
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	msgs, rest := messages(r.Stderr)
	x.Outcome("%s %s %d messages", f.name, level, len(msgs))
	if r.Code == 0 || r.Code == -2 {
		x.Fail("exit", "ends with status %d", r.Code)
	}
	if r.Stdout != "" {
		x.Fail("stdout", "%s is printed to the standard output", r.Stdout)
	}
	if flagFailure(f) {
		if !strings.Contains(r.Stderr, flagWords(f)) {
			x.Fail("flag", "%s: the reason is not told, %q is", f.name, r.Stderr)
		}
		return
	}
	told(x, r, level, msgs, rest)
	want, ok := cause(f)
	if !ok {
		x.Fail("cause", "%s fails, but not by the library", f.name)
	}
	about(x, level, msgs, want)
}

// told: messages are of the level asked for
func told(x *m.X, r cli.Result, level string, msgs []message, rest string) {
	at := severity[level]
	if rest != "" {
		x.Fail("other", "with --loglevel %s the standard error stream has %q, which is no message", level, rest)
	}
	for _, g := range msgs {
		s, ok := severity[g.level]
		if !ok || s > at {
			x.Fail("level", "with --loglevel %s there is a message of level %s: %s", level, g.level, g.text)
		}
	}
}

// about: a failure is told by a message
func about(x *m.X, level string, msgs []message, want string) {
	if severity[level] < severity["fatal"] {
		return
	}
	n := 0
	for _, g := range msgs {
		if strings.Contains(g.text, want) {
			n++
		}
	}
	if n == 0 {
		x.Fail("cause", "with --loglevel %s there is no message holding %q: %v", level, want, msgs)
	}
}

// succeeding: messages are no part of the document
func succeeding(x *m.X) {
	level := append([]string{""}, levels...)[x.Choose(len(levels)+1, "loglevel")]
	format := formats[x.Choose(len(formats), "format")]
	want, ok := expected[format]
	if !ok {
		x.Fail("format", "package good can't be scanned and formatted")
	}
	out, file, what := target(x, []string{previous, ""}[x.Choose(2, "prior")])
	args := append(out, "--format", format)
	if level != "" {
		args = append(args, "--loglevel", level)
	}
	x.Case("%v", args)
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	msgs, rest := messages(r.Stderr)
	x.Outcome("%s %s %d", what, level, len(msgs))
	if r.Code != 0 {
		x.Fail("exit", "status %d: %s", r.Code, r.Stderr)
	}
	if level == "" {
		level = "nolog"
	}
	switch what {
	case "stderr":
		if rest != want {
			x.Fail("content", "the standard error stream holds\n%s\nwant\n%s", rest, want)
		}
		rest = ""
		if r.Stdout != "" {
			x.Fail("stdout", "%s", r.Stdout)
		}
	case "stdout":
		if r.Stdout != want {
			x.Fail("content", "the standard output holds\n%s\nwant\n%s", r.Stdout, want)
		}
	default:
		if got, _ := read(file); got != want {
			x.Fail("content", "the file holds\n%s\nwant\n%s", got, want)
		}
		if r.Stdout != "" {
			x.Fail("stdout", "%s", r.Stdout)
		}
	}
	told(x, r, level, msgs, rest)
	for _, g := range msgs {
		if severity[g.level] <= severity["error"] {
			x.Fail("failure", "a run without failure tells of one: %s", g.text)
		}
	}
}

// unwritable: outputs which can't be are named
func unwritable(x *m.X) {
	tree.Reset("out")
	os.MkdirAll(tree.Path("out/dir/sub"), 0o755)
	tree.Write("out/plain", previous)
	outs := [][2]string{{"../out/nodir/x", "nodir"}, {"../out/dir", "out/dir"}, {"../out/plain/x", "out/plain"}, {"../out/" + strings.Repeat("n", 300), "nnnn"}, {"../out/100%d/x", "100%d"}, {"../out/%s%!/x", "%s%!"}}
	o := outs[x.Choose(len(outs), "output")]
	level := levels[x.Choose(len(levels), "loglevel")]
	args := []string{"--loglevel", level, "--output", o[0]}
	if x.Bool("by configuration") {
		tree.Write("conf/out.yaml", "output: "+m.JS(o[0])+"\n")
		args = []string{"--loglevel", level, "--config", "../conf/out.yaml"}
	}
	x.Case("%v", args)
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	msgs, rest := messages(r.Stderr)
	x.Outcome("%s %s %d", o[1], level, len(msgs))
	if r.Code == 0 || r.Code == -2 {
		x.Fail("exit", "status %d", r.Code)
	}
	if r.Stdout != "" {
		x.Fail("stdout", "%s", r.Stdout)
	}
	told(x, r, level, msgs, rest)
	about(x, level, msgs, o[1])
}

// odd: names with directives of format strings, quotes and line breaks in causes
func odd(x *m.X) {
	tree.Reset()
	names := []string{"100%d", "%s", "%!s(MISSING)", "a b", "a\"b", "a\nb", "a\tb", "ä", "a=b", "a\\b", "%%", "$HOME", "a'b", "\x1b[31m"}
	n := names[x.Choose(len(names), "name")]
	level := levels[x.Choose(len(levels), "loglevel")]
	args := []string{"--loglevel", level}
	switch x.Choose(3, "where") {
	case 0:
		args = append(args, "--config", "../conf/"+n+".yaml")
	case 1:
		tree.Write("conf/odd.yaml", "extends: "+m.JS(n+".yaml")+"\n")
		args = append(args, "--config", "../conf/odd.yaml")
	case 2:
		tree.Write("conf/odd.yaml", "components: {schemas: {S: {$ref: "+m.JS("go://w/good#/"+n)+"}}}\n")
		args = append(args, "--config", "../conf/odd.yaml")
		if strings.ContainsAny(n, "%\n\x1b\t\" \\$'=") || n == "ä" {
			n = "" // the reference may be refused before it is looked up
		}
	}
	x.Case("%q", args)
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	msgs, rest := messages(r.Stderr)
	x.Outcome("%s %s %d", n, level, len(msgs))
	if r.Code == 0 || r.Code == -2 {
		x.Fail("exit", "status %d", r.Code)
	}
	told(x, r, level, msgs, rest)
	if n != "" {
		about(x, level, msgs, n)
	} else if severity[level] >= severity["fatal"] && len(msgs) == 0 {
		x.Fail("cause", "no message")
	}
}

// help: the flags are told
func help(x *m.X) {
	tree.Reset("out")
	os.MkdirAll(tree.Path("out"), 0o755)
	args := [][]string{{"--help"}, {"--help", "--format", "json"}, {"--format", "yaml", "--help"}, {"--dir", "../badref", "--help"}, {"--output", "../out/doc", "--help"}, {"--config", "../conf/malformed.yaml", "--help"}, {"--loglevel", "debug", "--help"}}[x.Choose(7, "arguments")]
	x.Case("%v", args)
	before := tree.Files()
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	x.Outcome("%d", r.Code)
	if r.Code != 0 {
		x.Fail("exit", "status %d", r.Code)
	}
	if d := diff(before, tree.Files()); len(d) > 0 {
		x.Fail("touched", "%v", d)
	}
	for _, f := range []string{"--loglevel", "--config", "--dir", "--format", "--output"} {
		if !strings.Contains(r.Stdout+r.Stderr, f) {
			x.Fail("flag", "%s is not told: %s%s", f, r.Stdout, r.Stderr)
		}
	}
}

type call struct {
	lvl  logging.Level
	msg  string
	args []interface{}
}

type recorder struct{ calls []call }

func (r *recorder) Printf(l logging.Level, s string, args ...interface{}) {
	r.calls = append(r.calls, call{l, s, args})
}

// library: the helpers pass on what they are given
func library(x *m.X) {
	rec := &recorder{}
	var p logging.Printer = rec
	kind := x.Choose(3, "printer")
	switch kind {
	case 1:
		p = logging.NewLogger(func(l logging.Level, s string, args ...interface{}) { rec.Printf(l, s, args...) })
	case 2:
		p = logging.Void()
	}
	type helper struct {
		name string
		lvl  logging.Level
		fn   func(string, ...interface{})
	}
	hh := []helper{
		{"Debug", logging.DebugLevel, func(s string, a ...interface{}) { logging.Debug(p, s, a...) }},
		{"Fatal", logging.FatalLevel, func(s string, a ...interface{}) { logging.Fatal(p, s, a...) }},
		{"Warn", logging.WarnLevel, func(s string, a ...interface{}) { logging.Warn(p, s, a...) }},
		{"Info", logging.InfoLevel, func(s string, a ...interface{}) { logging.Info(p, s, a...) }},
	}
	for l := logging.PanicLevel; l <= logging.TraceLevel+1; l++ {
		l := l
		hh = append(hh, helper{fmt.Sprintf("Log %d", l), l, func(s string, a ...interface{}) { logging.Log(p, l, s, a...) }})
	}
	texts := []string{"", "text", "%s", "%d %s", "100%", "%!", "a\nb"}
	argss := [][]interface{}{nil, {"x"}, {1, "y"}, {nil}, {[]interface{}{1, 2}}}
	// every sequence of up to two messages
	n := 1 + x.Choose(2, "messages")
	var want []call
	for i := 0; i < n; i++ {
		h := hh[x.Choose(len(hh), "helper")]
		s := texts[x.Choose(len(texts), "text")]
		a := argss[x.Choose(len(argss), "args")]
		h.fn(s, a...)
		want = append(want, call{h.lvl, s, a})
	}
	if kind == 2 {
		want = nil
	}
	x.Case("%v", want)
	x.Outcome("%d %d", kind, len(rec.calls))
	if fmt.Sprintf("%#v", rec.calls) != fmt.Sprintf("%#v", want) {
		x.Fail("passed", "printer %d is told %#v, want %#v", kind, rec.calls, want)
	}
}

// parse: names of levels
func parse(x *m.X) {
	names := []string{"panic", "fatal", "error", "warn", "info", "debug", "trace", "warning"}
	want := []logging.Level{logging.PanicLevel, logging.FatalLevel, logging.ErrorLevel, logging.WarnLevel, logging.InfoLevel, logging.DebugLevel, logging.TraceLevel, logging.WarnLevel}
	k := x.Choose(len(names), "name")
	s := names[k]
	if x.Bool("letters") {
		var sb strings.Builder
		for _, c := range s {
			if x.Bool("upper case") {
				sb.WriteString(strings.ToUpper(string(c)))
			} else {
				sb.WriteRune(c)
			}
		}
		s = sb.String()
	} else {
		b := []byte(s)
		at := x.Choose(len(b)+1, "position")
		c := " aeiprn0-\t\x00"[x.Choose(11, "byte")]
		switch x.Choose(3, "edit") {
		case 0:
			b = append(b[:at:at], append([]byte{c}, b[at:]...)...)
		case 1:
			if at == len(b) {
				x.Prune()
			}
			b[at] = c
		case 2:
			if at == len(b) || c != ' ' {
				x.Prune()
			}
			b = append(b[:at:at], b[at+1:]...)
		}
		s = string(b)
	}
	x.Case("%q", s)
	l, err := logging.ParseLevel(s)
	x.Outcome("%v %v", l, err != nil)
	for i, n := range names {
		if strings.ToLower(s) == n {
			if err != nil || l != want[i] {
				x.Fail("level", "%q is %d, %v", s, l, err)
			}
			return
		}
	}
	if err == nil {
		x.Fail("unknown", "%q is level %d", s, l)
	}
	if !strings.Contains(err.Error(), strconv.Quote(s)) && !strings.Contains(err.Error(), s) {
		x.Fail("named", "the error for %q is %v", s, err)
	}
}

func main() {
	m.Main(m.Check{
		ID: "C26", Level: "model_checking",
		Init: func(string) { setup() },
		Assume: []string{
			"messages are lines time=... level=... msg=...; anything else on the standard error stream is none",
			"wrong flags are told by a panic whatever the level",
		},
		Spaces: []m.Space{
			{Name: "failing", Bound: -1, Rule: "49 failures of flags, configuration, scan and format x 8 log levels x kinds of output x prior content", Run: failing},
			{Name: "succeeding", Bound: -1, Rule: "9 log levels x 4 formats x 8 kinds of output x prior content", Run: succeeding},
			{Name: "unwritable", Bound: -1, Rule: "6 outputs which can't be x flag or configuration x 8 log levels", Run: unwritable},
			{Name: "odd", Bound: -1, Rule: "14 names with directives, quotes, line breaks x 3 places x 8 log levels", Run: odd},
			{Name: "help", Bound: -1, Rule: "7 command lines with --help", Run: help},
			{Name: "library", Bound: -1, Rule: "every sequence of up to two messages: 12 helpers x 7 texts x 5 argument lists x 3 printers", Run: library},
			{Name: "parse", Bound: -1, Rule: "every mixture of cases of each name, every edit by one byte", Run: parse},
		},
	})
}
