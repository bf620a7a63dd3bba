//go:build go1.21

// C19: failures of the command.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/buypal/oapi-go"
	cli "github.com/buypal/oapi-go/internal/verifmc/clifix"
	m "github.com/buypal/oapi-go/internal/verifmc/mclib"
)

var tree *cli.Tree

const goodSpec = `{"openapi":"3.0.3","info":{"title":"t","version":"-"},"paths":{"/p":{"get":{"responses":{"200":{"description":"d","content":{"m":{"schema":{"$ref":"go://#/T"}}}}}}}}}`

// expected output per format of the good package
var expected = map[string]string{}

var formats = []string{"json", "json:pretty", "yaml", "go"}

func setup() {
	tree = cli.New()
	tree.Package("good", goodSpec)
	tree.Package("badspec", "{ [")
	tree.Package("badref", strings.Replace(goodSpec, "#/T", "#/Nope", 1))
	tree.Package("badscheme", strings.Replace(goodSpec, "go://#/T", "ftp://x#/T", 1))
	tree.Package("conflict", goodSpec)
	tree.Put("conflict/oapi.yaml", "openapi: '3.0.2'\n")
	tree.Package("typeerror", goodSpec)
	tree.Put("typeerror/x.go", "package p\n\ntype T struct { X Missing }\n")
	tree.Package("syntax", goodSpec)
	tree.Put("syntax/x.go", "package p\n\ntype T struct {\n")
	tree.Package("badtag", goodSpec)
	tree.Put("badtag/x.go", "package p\n\ntype T struct { X int `oapi:\"min:x\"` }\n")
	tree.Package("badtype", goodSpec)
	tree.Put("badtype/x.go", "package p\n\ntype T struct { X func() }\n")
	tree.Package("badcomment", goodSpec)
	tree.Put("badcomment/x.go", "package p\n\n//openapi:nonsense\ntype T struct { X int }\n")
	tree.Put("nopkg/readme", "no driver answer here\n")
	for name, c := range map[string]string{
		"ok": "version: '1'\n", "malformed": "a: [\n", "list": "- a\n", "text": "hello\n", "empty-list-info": "info: 5\n", "badservers": "servers: {a: 1}\n", "badops": "operations: []\n", "badoverride": "overrides: {'go://w/good#/T': 7}\n",
		"format": "format: xml\n", "formatlist": "format: []\n", "dirlist": "dir: []\n", "extmissing": "extends: nothing.yaml\n", "extmalformed": "extends: malformed.yaml\n", "extself": "extends: extself.yaml\n", "extcircle": "extends: extcircle2.yaml\n", "extcircle2": "extends: extcircle.yaml\n",
		"exttxt": "extends: x.txt\n", "extdir": "extends: .\n", "extformat": "extends: format.yaml\n", "dirmissing": "dir: ../missing\n", "dirbad": "dir: ../badref\n", "dirfile": "dir: ../good/x.go\n",
		"overrideref": "overrides: {'go://w/good#/T': {$ref: 'go://w/good#/Nope'}}\n", "opsref": "operations: {'*': {responses: {'400': {description: d, content: {m: {schema: {$ref: 'go://w/good#/Nope'}}}}}}}\n", "compref": "components: {schemas: {S: {$ref: 'go://w/good#/Nope'}}}\n",
		"outdir": "output: nodir/x\n",
	} {
		tree.Put("conf/"+name+".yaml", c)
	}
	tree.Put("conf/bad.json", "{\"a\": }")
	tree.Put("conf/x.txt", "version: '1'\n")
	tree.Put("conf/trailing.json", "{} x")
	o, err := oapi.Scan(context.Background(), oapi.WithDir(tree.Path("good")))
	if err != nil {
		return
	}
	for _, f := range formats {
		b, err := oapi.Format(f, o)
		if err == nil {
			expected[f] = string(b)
		}
	}
}

type failure struct {
	name string
	args []string
}

func conf(name string) []string { return []string{"--config", "../conf/" + name} }

func failures() (out []failure) {
	for _, a := range [][]string{{"--nope"}, {"--format", "xml"}, {"--format", ""}, {"--format"}, {"--loglevel", "loud"}, {"extra"}, {"--dir"}, {"--format=JSON"}} {
		out = append(out, failure{"flag " + strings.Join(a, " "), a})
	}
	for _, d := range []string{"badspec", "badref", "badscheme", "conflict", "typeerror", "syntax", "badtag", "badtype", "badcomment", "nopkg", "missing", "good/x.go"} {
		out = append(out, failure{"scan of " + d, []string{"--dir", "../" + d}})
	}
	for _, c := range []string{"malformed.yaml", "list.yaml", "text.yaml", "empty-list-info.yaml", "badservers.yaml", "badops.yaml", "badoverride.yaml", "format.yaml", "formatlist.yaml", "dirlist.yaml", "extmissing.yaml", "extmalformed.yaml", "extcircle.yaml", "extself.yaml", "exttxt.yaml", "extdir.yaml", "extformat.yaml", "dirmissing.yaml", "dirbad.yaml", "dirfile.yaml", "overrideref.yaml", "opsref.yaml", "compref.yaml", "bad.json", "trailing.json", "x.txt", "missing.yaml", "", "../good"} {
		out = append(out, failure{"configuration " + c, conf(c)})
	}
	return
}

const previous = "an earlier document which is rather long ............................................................................................\n"

// target prepares an output; it gives the flags and the file to look at
func target(x *m.X, prior string) (args []string, file string, what string) {
	tree.Reset("out")
	os.MkdirAll(tree.Path("out"), 0o755)
	k := x.Choose(8, "output")
	what = []string{"file", "absolute file", "symbolic link", "hard link", "read only file", "relative link", "stdout", "stderr"}[k]
	file = "out/doc"
	args = []string{"--output", "../out/doc"}
	put := func(f string) {
		if prior != "" {
			tree.Write(f, prior)
		}
	}
	switch k {
	case 0:
		put(file)
	case 1:
		put(file)
		args[1] = tree.Path(file)
	case 2:
		put("out/real")
		os.Symlink(tree.Path("out/real"), tree.Path(file))
	case 3:
		if prior == "" {
			x.Prune()
		}
		put("out/real")
		os.Link(tree.Path("out/real"), tree.Path(file))
	case 4:
		if prior == "" {
			x.Prune()
		}
		put(file)
		os.Chmod(tree.Path(file), 0o444)
	case 5:
		put("out/real")
		os.Symlink("real", tree.Path(file))
	case 6:
		args, file = []string{"--output", "stdout"}, ""
	case 7:
		args, file = []string{"--output", "stderr"}, ""
	}
	return
}

func read(rel string) (string, bool) {
	b, err := os.ReadFile(tree.Path(rel))
	return string(b), err == nil
}

func diff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" removed")
		} else if v != w {
			out = append(out, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" created")
		}
	}
	return
}

var levels = []string{"", "nolog", "panic", "fatal", "error", "warn", "info", "debug", "trace"}

// failing: configuration, scan and format fail
func failing(x *m.X) {
	ff := failures()
	f := ff[x.Choose(len(ff), "failure")]
	prior := []string{previous, ""}[x.Choose(2, "prior")]
	args, _, what := target(x, prior)
	c := x.Choose(m.N(5, len(levels)), "loglevel")
	level := levels[c]
	args = append(append([]string{}, f.args...), args...)
	if level != "" {
		if strings.HasPrefix(f.name, "flag --loglevel") {
			x.Prune()
		}
		args = append([]string{"--loglevel", level}, args...)
	}
	x.Case("%s; output %s; %v", f.name, what, args)
	before := tree.Files()
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	d := diff(before, tree.Files())
	x.Outcome("%s %d", f.name, r.Code)
	if r.Code == -2 {
		x.Fail("hang", "the command does not end")
	}
	if r.Code == 0 {
		x.Fail("exit", "%s ends with status 0: %s %s", f.name, r.Stdout, r.Stderr)
	}
	if len(d) > 0 {
		x.Fail("touched", "%s: %v", f.name, d)
	}
	if r.Stdout != "" {
		x.Fail("printed", "%s prints %s", f.name, r.Stdout)
	}
}

// succeeding: the output holds exactly the document
func succeeding(x *m.X) {
	format := formats[x.Choose(len(formats), "format")]
	want, ok := expected[format]
	if !ok {
		x.Fail("format", "package good can't be scanned and formatted")
	}
	priors := []string{"", previous, "x", want, want + want, want[:len(want)/2], strings.Repeat("0123456789\n", 2000), want[:len(want)-1] + "?"}
	prior := priors[x.Choose(len(priors), "prior")]
	args, file, what := target(x, prior)
	how := x.Choose(2, "given by")
	if how == 1 {
		if file == "" || args[1] != "../out/doc" {
			x.Prune()
		}
		tree.Write("conf/good.yaml", "dir: ../good\noutput: ../out/doc\n")
		args = []string{"--config", "../conf/good.yaml"}
	}
	level := levels[x.Choose(2, "loglevel")*4]
	if level != "" {
		args = append(args, "--loglevel", level)
	}
	args = append(args, "--format", format)
	x.Case("output %s; %v; prior content of %d bytes", what, args, len(prior))
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	x.Outcome("%s %d", what, r.Code)
	if r.Code != 0 {
		x.Fail("exit", "status %d: %s", r.Code, r.Stderr)
	}
	check(x, r, file, what, want)
}

func check(x *m.X, r cli.Result, file, what, want string) {
	var got string
	switch what {
	case "stdout":
		got = r.Stdout
	case "stderr":
		got = r.Stderr
	default:
		var ok bool
		got, ok = read(file)
		if !ok {
			x.Fail("missing", "the output file does not exist; %s", r.Stderr)
		}
		if r.Stdout != "" {
			x.Fail("printed", "%s", r.Stdout)
		}
	}
	if got != want {
		x.Fail("content", "the output %s holds\n%s\nwant\n%s", what, got, want)
	}
}

func runFault(args []string, env ...string) (cli.Result, []string) {
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	done := make(chan string)
	go func() {
		var sb strings.Builder
		buf := make([]byte, 4096)
		for {
			n, err := rd.Read(buf)
			sb.Write(buf[:n])
			if err != nil {
				break
			}
		}
		done <- sb.String()
	}()
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args, Extra: []*os.File{wr}, Env: append(env, "VERIF_FAULT_DIR="+tree.Path("out"), "VERIF_FAULT_STD=1", "VERIF_FAULT_LOG=3")})
	wr.Close()
	log := <-done
	rd.Close()
	return r, strings.Split(strings.TrimSpace(log), "\n")
}

var errnos = []struct {
	name string
	n    int
}{{"ENOSPC", 28}, {"EIO", 5}, {"EACCES", 13}, {"EROFS", 30}, {"EPERM", 1}, {"EDQUOT", 122}, {"ENOENT", 2}, {"EISDIR", 21}, {"EINTR", 4}, {"ETXTBSY", 26}}

// faults: one of the calls which change the output fails
func faults(x *m.X) {
	format := formats[x.Choose(m.N(2, 4), "format")]
	want := expected[format]
	prior := []string{previous, ""}[x.Choose(2, "prior")]
	args, file, what := target(x, prior)
	args = append(args, "--format", format)
	// first without fault, which gives the calls
	r, events := runFault(args)
	if r.Code != 0 {
		x.Fail("exit", "status %d: %s", r.Code, r.Stderr)
	}
	check(x, r, file, what, want)
	n := x.Choose(len(events), "call")
	call := strings.Fields(events[n] + " ?")[0]
	modes := []string{"once", "on", "short"}
	mode := modes[x.Choose(len(modes), "mode")]
	if mode == "short" && call != "write" {
		x.Prune()
	}
	e := errnos[x.Choose(len(errnos), "error")]
	if e.name == "EINTR" && mode != "once" {
		x.Prune() // is repeated for ever by the library
	}
	// again with it
	tree.Reset("out")
	prepare(what, prior)
	r, got := runFault(args, fmt.Sprintf("VERIF_FAULT_AT=%d", n+1), fmt.Sprintf("VERIF_FAULT_ERRNO=%d", e.n), "VERIF_FAULT_MODE="+mode)
	x.Case("output %s (prior %d bytes), %s of %d calls (%s) fails with %s, %s; calls %v", what, len(prior), call, len(events), mode, e.name, format, got)
	x.Outcome("%s %s %s %d", what, call, e.name, r.Code)
	if r.Code == -2 {
		x.Fail("hang", "the command does not end")
	}
	if r.Code == 0 {
		// then nothing is missing
		check(x, r, file, what, want)
	}
	if call == "write" && e.name != "EINTR" && r.Code == 0 {
		x.Fail("exit", "a failing write ends with status 0")
	}
}

// signals: the command is told to stop while it works
func signals(x *m.X) {
	format := formats[x.Choose(m.N(1, 4), "format")]
	want := expected[format]
	prior := []string{previous, ""}[x.Choose(2, "prior")]
	args, file, what := target(x, prior)
	args = append(args, "--format", format)
	if x.Bool("loglevel") {
		if what == "stderr" {
			x.Prune() // the messages are there, too
		}
		args = append(args, "--loglevel", "info")
	}
	sig := []struct {
		name string
		n    int
	}{{"TERM", 15}, {"INT", 2}, {"HUP", 1}}[x.Choose(3, "signal")]
	wait := x.Choose(2, "wait")
	k := x.Choose(4, "place")
	before := tree.Files()
	var env []string
	place := ""
	if k < 3 {
		place = []string{"std", "pkgs", "given"}[k]
		env = []string{"MC_SIGNAL=" + place + " " + sig.name + " " + []string{"0", "0.03"}[wait]}
	} else {
		r, events := runFault(args)
		if r.Code != 0 {
			x.Fail("exit", "status %d: %s", r.Code, r.Stderr)
		}
		n := x.Choose(len(events), "call")
		place = fmt.Sprintf("call %d: %s", n+1, events[n])
		tree.Reset("out")
		prepare(what, prior)
		env = []string{fmt.Sprintf("VERIF_FAULT_AT=%d", n+1), fmt.Sprintf("VERIF_FAULT_SIGNAL=%d", sig.n), fmt.Sprintf("VERIF_FAULT_WAIT=%d", wait*30)}
	}
	r, _ := runFault(args, env...)
	x.Case("%v; SIG%s at %s, wait %d", args, sig.name, place, wait)
	x.Outcome("%s %s %v", what, place, r.Code == 0)
	if r.Code == -2 {
		x.Fail("hang", "the command does not end")
	}
	if r.Code == 0 {
		check(x, r, file, what, want)
		return
	}
	if k < 3 {
		if d := diff(before, tree.Files()); len(d) > 0 {
			x.Fail("touched", "%v", d)
		}
		if r.Stdout != "" {
			x.Fail("printed", "%s", r.Stdout)
		}
	}
}

// prepare makes the output of a target again
func prepare(what, prior string) {
	os.MkdirAll(tree.Path("out"), 0o755)
	f := "out/doc"
	switch what {
	case "symbolic link", "relative link", "hard link":
		f = "out/real"
	}
	if prior != "" && what != "stdout" && what != "stderr" {
		tree.Write(f, prior)
	}
	switch what {
	case "symbolic link":
		os.Symlink(tree.Path("out/real"), tree.Path("out/doc"))
	case "relative link":
		os.Symlink("real", tree.Path("out/doc"))
	case "hard link":
		os.Link(tree.Path("out/real"), tree.Path("out/doc"))
	case "read only file":
		os.Chmod(tree.Path("out/doc"), 0o444)
	}
}

// limits: the device is full after any number of bytes
func limits(x *m.X) {
	format := formats[x.Choose(m.N(1, 4), "format")]
	want := expected[format]
	prior := []string{"", previous}[x.Choose(2, "prior")]
	k := []string{"file", "stdout", "stderr", "symbolic link"}[x.Choose(m.N(2, 4), "output")]
	if k == "stdout" && prior != "" {
		x.Prune()
	}
	limit := x.Choose(len(want)+2, "bytes")
	tree.Reset("out")
	prepare(k, prior)
	args := []string{"--format", format, "--output", "../out/doc"}
	file := "out/doc"
	if k == "stdout" || k == "stderr" {
		args[3], file = k, ""
	}
	r, _ := runFault(args, fmt.Sprintf("VERIF_FAULT_LIMIT=%d", limit))
	x.Case("output %s, device full after %d of %d bytes", k, limit, len(want))
	x.Outcome("%s %v", k, r.Code == 0)
	if limit < len(want) && r.Code == 0 {
		x.Fail("exit", "the device is full after %d of %d bytes, the status is 0", limit, len(want))
	}
	if r.Code == -2 {
		x.Fail("hang", "the command does not end")
	}
	if limit >= len(want) && r.Code != 0 {
		x.Fail("exit", "there is room for %d bytes, %d are needed, the status is %d", limit, len(want), r.Code)
	}
	if r.Code == 0 {
		check(x, r, file, k, want)
	}
}

// places where no output can be
func places(x *m.X) {
	tree.Reset("out", "full")
	os.MkdirAll(tree.Path("out/dir/sub"), 0o755)
	tree.Write("out/dir/file", previous)
	tree.Write("out/plain", previous)
	os.Symlink(tree.Path("out/nowhere/x"), tree.Path("out/dangling"))
	os.Symlink("loop", tree.Path("out/loop"))
	outs := []string{"../out/nodir/x", "../out/dir", "../out/plain/x", "../out/dir/", "../out/" + strings.Repeat("n", 300), "../out/loop/x", "../out/a\x01/b", "../out/dangling/y", "../out/nodir/../nodir2/x", "../out/dir/file/", "..", "."}
	o := outs[x.Choose(len(outs), "output")]
	how := x.Choose(3, "given by")
	args := []string{"--output", o}
	switch how {
	case 1:
		args[1] = filepath.Join(tree.Path("good"), o)
		if strings.HasSuffix(o, "/") {
			args[1] += "/"
		}
	case 2:
		tree.Write("conf/out.yaml", "output: "+m.JS(o)+"\n")
		args = []string{"--config", "../conf/out.yaml"}
	}
	x.Case("%v", args)
	before := tree.Files()
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args})
	d := diff(before, tree.Files())
	x.Outcome("%s %d", o, r.Code)
	if r.Code == -2 {
		x.Fail("hang", "the command does not end")
	}
	if r.Code != 0 {
		if len(d) > 0 {
			x.Fail("touched", "%v", d)
		}
		return
	}
	// then the document is there
	got, ok := read(filepath.Join("good", o))
	if !ok || got != expected["json:pretty"] {
		x.Fail("exit", "status 0, but the output is not there (%v): %s", d, got)
	}
}

// streams which can't be written
func streams(x *m.X) {
	tree.Reset()
	format := formats[x.Choose(len(formats), "format")]
	args := []string{"--dir", tree.Path("good"), "--format", format}
	if x.Bool("--output stdout") {
		args = append(args, "--output", "stdout")
	}
	var out *os.File
	k := x.Choose(3, "stream")
	switch k {
	case 0: // nobody reads
		rd, wr, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		rd.Close()
		out = wr
	case 1:
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			x.Prune()
		}
		out = f
	case 2: // not open for writing
		f, err := os.Open(tree.Path("good/x.go"))
		if err != nil {
			panic(err)
		}
		out = f
	}
	defer out.Close()
	x.Case("%v to %s", args, []string{"a pipe without reader", "a full device", "a file opened for reading"}[k])
	r := cli.Run(cli.Cmd{Dir: tree.Path("good"), Args: args, Out: out})
	x.Outcome("%d %d", k, r.Code)
	if r.Code == 0 {
		x.Fail("exit", "status 0")
	}
}

func main() {
	m.Main(m.Check{
		ID: "C19", Level: "model_checking",
		Init: func(string) { setup() },
		Assume: []string{
			"failures of system calls are those of open, write, unlink, rename, truncate, chmod and sync; errors reported by close only are not looked at",
			"the content of an output file after a failing write is not looked at",
			"an output which is an empty directory is not tried",
			"the command is run as root: permissions are replaced by injected errors",
		},
		Spaces: []m.Space{
			{Name: "failing", Bound: -1, Rule: "49 failures of flags, configuration, scan and format x 8 kinds of output x prior content x log levels", Run: failing},
			{Name: "succeeding", Bound: -1, Rule: "4 formats x 8 prior contents x 8 kinds of output x flag or configuration", Run: succeeding},
			{Name: "faults", Bound: -1, Rule: "every system call changing the output x 10 errors x failing once, from then on, or in the middle x kinds of output", Run: faults},
			{Name: "signals", Bound: -1, Rule: "SIGTERM, SIGINT, SIGHUP when the packages or the standard library are listed, after that, or before each system call changing the output x kinds of output", Run: signals},
			{Name: "limits", Bound: -1, Rule: "device full after every number of bytes of the document", Run: limits},
			{Name: "places", Bound: -1, Rule: "12 places where no file can be x 3 ways to name it", Run: places},
			{Name: "streams", Bound: -1, Rule: "3 kinds of standard output which can't be written x formats", Run: streams},
		},
	})
}
