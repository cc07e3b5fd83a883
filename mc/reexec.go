package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/vito/booklit"
)

// C35: --plugin builds another tool and lets it do everything. The real
// command runs as a process with a go command that records how it is called
// and gives it a tool that records how it is called; and with the real one.

func init() {
	register(&Check{ID: "C35", Level: "model_checking", Rule: "a state is a command line with plugins, an environment, and how the go command and the rebuilt tool behave; the real command runs as a process and everything it calls and passes on is compared", Run: runC35})
	booklit.RegisterPlugin("vone", func(*booklit.Section) booklit.Plugin { return vone{} })
	booklit.RegisterPlugin("vtwo", func(*booklit.Section) booklit.Plugin { return vtwo{} })
}

// the plugins that the real go command builds into the tool, here for the
// build that it is compared with
type vone struct{}

func (vone) One(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "bold", Content: booklit.Sequence{booklit.String("one "), c}}
}

type vtwo struct{}

func (vtwo) Two(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "italic", Content: booklit.Sequence{booklit.String("two "), c}}
}

const pluginSource = `package %[1]s

import "github.com/vito/booklit"

func init() {
	booklit.RegisterPlugin("v%[1]s", func(*booklit.Section) booklit.Plugin { return plugin{} })
}

type plugin struct{}

func (plugin) %[2]s(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "%[3]s", Content: booklit.Sequence{booklit.String("%[1]s "), c}}
}
`

const fakeGo = `#!/bin/sh
n=$(ls "$FAKE" | grep -c '^go-')
for a in "$@"; do printf '%s\0' "$a" >> "$FAKE/go-$n"; src=$a; done
env -0 > "$FAKE/goenv"
pwd > "$FAKE/gopwd"
cp "$src" "$FAKE/src.go"
echo "go says this" >&2
[ -f "$FAKE/goexit" ] && exit $(cat "$FAKE/goexit")
[ -f "$FAKE/nothing" ] || cp "$FAKE/tool" "$GOBIN/main"
exit 0
`

const fakeTool = `#!/bin/sh
n=$(ls "$FAKE" | grep -c '^tool-')
: > "$FAKE/tool-$n"
for a in "$@"; do printf '%s\0' "$a" >> "$FAKE/tool-$n"; done
env -0 > "$FAKE/toolenv"
pwd > "$FAKE/toolpwd"
cat "$FAKE/out"
cat "$FAKE/err" >&2
[ -f "$FAKE/kill" ] && kill -9 $$
exit $(cat "$FAKE/exit")
`

type goCase struct {
	plugins []string
	args    []string // besides plugins and --in
	env     string   // BOOKLIT_REEXEC
	goMode  string   // "", an exit code, "missing", "nothing", "notemp"
	exit    int      // of the tool; -1: killed
	out     string
	err     string
	long    bool // --plugin, not -p
}

func (c goCase) String() string {
	return fmt.Sprintf("plugins %q args %q reexec %q go %q exit %d out %d err %d long %v", c.plugins, c.args, c.env, c.goMode, c.exit, len(c.out), len(c.err), c.long)
}

func mustWrite(path, text string, mode os.FileMode) {
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, []byte(text), mode); err != nil {
		panic(err)
	}
}

func nulls(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")
}

func environ(path string) map[string]string {
	out := map[string]string{}
	for _, s := range nulls(path) {
		k, v, _ := strings.Cut(s, "=")
		out[k] = v
	}
	for _, k := range []string{"PWD", "OLDPWD", "SHLVL", "_"} {
		delete(out, k)
	}
	return out
}

func (c goCase) check(e *Env, b *builder) string {
	e.Traces(1)
	root := filepath.Join(e.Dir, "c35")
	clearDir(root)
	fake, bin, tmp, out, work := filepath.Join(root, "fake"), filepath.Join(root, "bin"), filepath.Join(root, "tmp"), filepath.Join(root, "out"), filepath.Join(root, "w d")
	for _, d := range []string{fake, bin, tmp, work} {
		_ = os.MkdirAll(d, 0755)
	}
	if c.goMode != "missing" {
		mustWrite(filepath.Join(bin, "go"), fakeGo, 0755)
	}
	for _, t := range []string{"sh", "ls", "grep", "env", "cp", "cat", "pwd"} {
		p, err := exec.LookPath(t)
		if err != nil {
			panic(err)
		}
		if err := os.Symlink(p, filepath.Join(bin, t)); err != nil {
			panic(err)
		}
	}
	mustWrite(filepath.Join(fake, "tool"), fakeTool, 0755)
	mustWrite(filepath.Join(fake, "out"), c.out, 0644)
	mustWrite(filepath.Join(fake, "err"), c.err, 0644)
	mustWrite(filepath.Join(fake, "exit"), fmt.Sprint(c.exit), 0644)
	temp := tmp
	switch c.goMode {
	case "", "missing":
	case "notemp":
		temp = filepath.Join(tmp, "no", "such")
	case "nothing":
		mustWrite(filepath.Join(fake, "nothing"), "", 0644)
	default:
		mustWrite(filepath.Join(fake, "goexit"), c.goMode, 0644)
	}
	if c.exit < 0 {
		mustWrite(filepath.Join(fake, "kill"), "", 0644)
	}
	in := filepath.Join(root, "index.lit")
	mustWrite(in, "\\title{Home}{index}\n\ntext\n", 0644)
	args := []string{"--in", in}
	for i, p := range c.plugins {
		switch {
		case !c.long:
			args = append(args, "-p", p)
		case i%2 == 0:
			args = append(args, "--plugin", p)
		default:
			args = append(args, "--plugin="+p)
		}
	}
	args = append(args, "--out", out)
	args = append(args, c.args...)
	r := runCLI(work, []string{"PATH=" + bin, "TMPDIR=" + temp, "FAKE=" + fake, "BOOKLIT_REEXEC=" + c.env, "V_SPACE=a b\nc", "GOBIN=/nowhere"}, args...)
	if left, _ := os.ReadDir(tmp); len(left) > 0 {
		return fmt.Sprintf("%s is left in the temporary directory", left[0].Name())
	}
	called := func(kind string) int {
		n, _ := filepath.Glob(filepath.Join(fake, kind+"-*"))
		return len(n)
	}
	pages := readDir(out)
	if len(c.plugins) == 0 || c.env != "" {
		if called("go") != 0 {
			return "go is called"
		}
		if r.code != 0 || len(pages) != 1 || !strings.Contains(pages["index.html"], "text") {
			return fmt.Sprintf("exit code %d, pages %s: %s", r.code, names(pages), r.stderr)
		}
		return ""
	}
	if len(pages) != 0 {
		return "the document is built without the plugins: " + names(pages)
	}
	if c.goMode != "" {
		if r.code == 0 {
			return "reports success"
		}
		why := ""
		for _, l := range strings.Split(r.stderr, "\n") {
			if !strings.HasPrefix(l, "time=") && l != "go says this" {
				why += l
			}
		}
		if strings.TrimSpace(why) == "" {
			return "fails without saying why"
		}
		if called("tool") != 0 {
			return "the tool is run"
		}
		return ""
	}
	if called("go") != 1 || called("tool") != 1 {
		return fmt.Sprintf("go is called %d times, the tool %d times; stderr: %s", called("go"), called("tool"), r.stderr)
	}
	goArgs := nulls(filepath.Join(fake, "go-0"))
	if len(goArgs) != 2 || goArgs[0] != "install" || filepath.Dir(filepath.Dir(goArgs[1])) != tmp {
		return fmt.Sprintf("go is called with %q", goArgs)
	}
	if m := c.checkSource(filepath.Join(fake, "src.go")); m != "" {
		return m
	}
	if got := nulls(filepath.Join(fake, "tool-0")); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", args) {
		return fmt.Sprintf("the tool is called with %q, not with %q", got, args)
	}
	for _, f := range []string{"gopwd", "toolpwd"} {
		if p, _ := os.ReadFile(filepath.Join(fake, f)); strings.TrimSpace(string(p)) != work {
			return fmt.Sprintf("%s is %q, not %q", f, p, work)
		}
	}
	want := map[string]string{}
	for _, s := range append(os.Environ(), "PATH="+bin, "TMPDIR="+temp, "FAKE="+fake, "V_SPACE=a b\nc", "GOBIN=/nowhere") {
		k, v, _ := strings.Cut(s, "=")
		want[k] = v
	}
	for _, f := range []string{"goenv", "toolenv"} {
		got := environ(filepath.Join(fake, f))
		if f == "goenv" {
			if got["GOBIN"] != filepath.Dir(goArgs[1]) {
				return "go installs into " + got["GOBIN"]
			}
			got["GOBIN"] = want["GOBIN"]
		} else if got["BOOKLIT_REEXEC"] == "" {
			return "the tool isn't told that it has the plugins"
		}
		delete(got, "BOOKLIT_REEXEC")
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == "PWD" || k == "OLDPWD" || k == "SHLVL" || k == "_" || k == "BOOKLIT_REEXEC" {
				continue
			}
			if got[k] != want[k] {
				return fmt.Sprintf("%s: %s is %q, not %q", f, k, got[k], want[k])
			}
		}
	}
	if r.stdout != c.out {
		return fmt.Sprintf("%d bytes of output, not the tool's %d: %q", len(r.stdout), len(c.out), trunc(r.stdout, 300))
	}
	if !strings.HasSuffix(r.stderr, c.err) {
		return fmt.Sprintf("standard error is %q, the tool's %q", trunc(r.stderr, 300), trunc(c.err, 300))
	}
	if c.exit >= 0 && r.code != c.exit || c.exit < 0 && r.code == 0 {
		return fmt.Sprintf("exits with %d, the tool with %d", r.code, c.exit)
	}
	return ""
}

// checkSource reads the program that go was given.
func (c goCase) checkSource(path string) string {
	src, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	f, err := parser.ParseFile(token.NewFileSet(), "main.go", src, 0)
	if err != nil {
		return fmt.Sprintf("go is given %q: %s", src, err)
	}
	want := map[string]bool{"github.com/vito/booklit/booklitcmd": true}
	for _, p := range c.plugins {
		want[p] = true
	}
	main := ""
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if p == "github.com/vito/booklit/booklitcmd" && (i.Name == nil || i.Name.Name != "_") {
			main = "booklitcmd"
			if i.Name != nil {
				main = i.Name.Name
			}
		}
		for _, plugin := range c.plugins {
			if p == plugin && (i.Name == nil || i.Name.Name != "_") {
				return fmt.Sprintf("the import of %s isn't blank: %s", p, src)
			}
		}
		delete(want, p)
	}
	if len(want) > 0 || f.Name.Name != "main" {
		return fmt.Sprintf("go is given a package %s without imports of %v:\n%s", f.Name.Name, want, src)
	}
	calls := 0
	ast.Inspect(f, func(n ast.Node) bool {
		if call, ok := n.(*ast.CallExpr); ok {
			if s, ok := call.Fun.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == main && s.Sel.Name == "Main" {
					calls++
				}
			}
		}
		return true
	})
	if calls != 1 {
		return fmt.Sprintf("go is given a program that calls Main %d times:\n%s", calls, src)
	}
	return ""
}

type realCase struct {
	name    string
	plugins []string
	doc     string
	fails   string // part of the report
	stdout  bool
}

var realCases = []realCase{
	{name: "one", plugins: []string{"verifmc/one"}, doc: "\\title{Home}{index}\n\n\\use-plugin{vone}\n\n\\one{x}\n\n\\section{\n\\title{S}{s}\n\n\\one{\\one{y}}\n}\n"},
	{name: "both", plugins: []string{"verifmc/two", "verifmc/one"}, doc: "\\title{Home}{index}\n\n\\use-plugin{vone}\\use-plugin{vtwo}\n\n\\split-sections\n\n\\one{x \\two{y}}\n\n\\section{\n\\title{S}{s}\n\n\\two{z}\n}\n"},
	{name: "printed", plugins: []string{"verifmc/two"}, stdout: true, doc: "\\title{Home}{index}\n\n\\use-plugin{vtwo}\n\n\\two{x}\n"},
	{name: "absent", plugins: []string{"verifmc/two"}, doc: "\\title{Home}{index}\n\n\\use-plugin{vone}\n", fails: "unknown plugin"},
	{name: "broken", plugins: []string{"verifmc/one"}, doc: "\\title{Home}{index}\n\n\\use-plugin{vone}\n\n\\one{x}{y}\n", fails: "argument"},
	{name: "no program", plugins: []string{"verifmc/one", "verifmc/bad"}, doc: "\\title{Home}{index}\n", fails: "bad.go"},
}

// check builds a document by the real go command.
func (c realCase) check(e *Env, b *builder) string {
	e.Traces(1)
	mod := filepath.Join(e.Dir, "c35mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		t, err := os.ReadFile(f)
		if err != nil {
			return err.Error()
		}
		mustWrite(filepath.Join(mod, f), string(t), 0644)
	}
	mustWrite(filepath.Join(mod, "one", "one.go"), fmt.Sprintf(pluginSource, "one", "One", "bold"), 0644)
	mustWrite(filepath.Join(mod, "two", "two.go"), fmt.Sprintf(pluginSource, "two", "Two", "italic"), 0644)
	mustWrite(filepath.Join(mod, "bad", "bad.go"), "package bad\n\nfunc {\n", 0644)
	in, out, tmp := filepath.Join(mod, "index.lit"), filepath.Join(mod, "out"), filepath.Join(mod, "tmp")
	clearDir(out)
	_ = os.MkdirAll(tmp, 0755)
	mustWrite(in, c.doc, 0644)
	args := []string{"-i", in}
	for _, p := range c.plugins {
		args = append(args, "-p", p)
	}
	if !c.stdout {
		args = append(args, "-o", out)
	}
	r := runCLI(mod, []string{"TMPDIR=" + tmp, "BOOKLIT_REEXEC=", "GOTMPDIR="}, args...)
	if left, _ := os.ReadDir(tmp); len(left) > 0 {
		return fmt.Sprintf("%s is left in the temporary directory", left[0].Name())
	}
	if c.fails != "" {
		if r.code == 0 || !strings.Contains(r.stderr, c.fails) {
			return fmt.Sprintf("exit code %d; it should report %q: %s", r.code, c.fails, r.stderr)
		}
		return ""
	}
	if r.code != 0 {
		return fmt.Sprintf("exit code %d: %s", r.code, r.stderr)
	}
	want, err := b.build(map[string]string{"index.lit": c.doc})
	if err != nil {
		return err.Error()
	}
	got := readDir(out)
	if c.stdout {
		got = map[string]string{"index.html": r.stdout}
	}
	if names(got) != names(want) {
		return fmt.Sprintf("pages %s, expected %s", names(got), names(want))
	}
	for n := range want {
		if got[n] != want[n] {
			return n + ": " + diffText(got[n], want[n])
		}
	}
	return ""
}

func runC35(e *Env) {
	b := newBuilder(e, "s")
	lists := [][]string{nil, {"example.com/p"}, {"example.com/p", "example.com/x-y/z.v2"}, {"a/b", "c", "a/b"}, {"./local"}}
	argLists := [][]string{nil, {"--allow-broken-references", "--slow-invoke-threshold=1s"}, {"--save-search-index", "--html-templates", "t m p l"}, {"--section-tag", ""}, {"--section-tag=a\nb *?$HOME'\"", "rest", "--", "-p", "x"}, {"-d"}}
	outs := []string{"", "OUT\n", "no line end", "\x00\xff\n", strings.Repeat("long output ", 30000)}
	exits := []int{0, 1, 2, 42, 255, -1}
	goModes := []string{"1", "2", "missing", "nothing", "notemp"}
	e.Bound("%d lists of plugins x %d further arguments x {not rebuilt yet, rebuilt} x a tool with %d exit codes (with one killed), %d outputs, or a go command that fails in %d ways; flags in long and short form", len(lists), len(argLists), len(exits), len(outs), len(goModes))
	run := func(c goCase) {
		if e.Mine() {
			e.Exec(c.String(), func() string { e.Trans(3); return c.check(e, b) })
		}
	}
	for li, l := range lists {
		for ai, a := range argLists {
			for _, long := range []bool{false, true} {
				for _, m := range goModes {
					if ai < 2 {
						run(goCase{plugins: l, args: a, goMode: m, long: long})
					}
				}
				for _, x := range exits {
					for oi, o := range outs {
						if l == nil && oi > 0 || ai > 0 && (oi > 1 || li == 0) || long && (oi != 1 || x > 1) {
							continue
						}
						run(goCase{plugins: l, args: a, exit: x, out: o, err: outs[(oi+1)%len(outs)], long: long})
					}
				}
				if ai < 2 {
					run(goCase{plugins: l, args: a, env: "1", long: long})
				}
			}
		}
	}
	e.Bound("every exit code; 1..32 plugins; 1..32 further arguments, a long one")
	for x := 0; x < 256; x++ {
		run(goCase{plugins: lists[1], exit: x, out: outs[1]})
	}
	for n := 1; n <= 32; n++ {
		var many, args []string
		for i := 0; i < n; i++ {
			many = append(many, fmt.Sprintf("example.com/p%d", i))
			args = append(args, fmt.Sprintf("rest %d", i))
		}
		run(goCase{plugins: many, out: outs[1], long: n%2 == 0})
		run(goCase{plugins: lists[1], args: args, out: outs[1], long: n%2 == 0})
	}
	run(goCase{plugins: lists[1], args: []string{"--section-tag", strings.Repeat("long ", 20000)}, out: outs[1]})
	e.Bound("%d documents by the real go command with real plugins", len(realCases))
	for _, c := range realCases {
		if c := c; e.Mine() {
			e.Exec("real go: "+c.name, func() string { e.Trans(3); return c.check(e, b) })
		}
	}
}
