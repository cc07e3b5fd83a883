//go:build sched

package main

import (
	"errors"
	"fmt"
	"io"
	realos "os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"verifmc/sched"
	simos "verifmc/shim/os"
)

func init() {
	register(&Check{ID: "C24", Level: "model_checking", Rule: "a history is a build or a server request with failures at chosen file operations; outputs, answers, open files and what follows are compared with runs without failures", Run: runC24, QuickBudget: 200})
}

// A fault fails the nth file operation of a run (counted from 0).
type fault struct {
	at      int
	partial bool // reads and writes do half of their work first; what a failing close should have saved is lost
	on      bool // everything after fails as well
}

func (f fault) String() string {
	k := "fails"
	if f.partial {
		k = "fails halfway"
	}
	if f.on {
		k += " as does all after it"
	}
	return fmt.Sprintf("#%d %s", f.at, k)
}

// A fileOp is one file operation of a run.
type fileOp struct{ op, path string }

// withFaults runs f with the failures, and gives its operations and the files
// it left open.
func withFaults(faults []fault, f func()) (ops []fileOp, open []string) {
	sched.Inject(func(op, path string) error {
		n := len(ops)
		ops = append(ops, fileOp{op, filepath.Base(path)})
		for _, x := range faults {
			if x.at == n || (x.on && x.at < n) {
				sched.SetPartial(x.partial)
				if op == "write" || op == "create" || op == "mkdir" {
					return syscall.ENOSPC
				}
				return syscall.EIO
			}
		}
		return nil
	}, false)
	defer sched.Inject(nil, false)
	f()
	return ops, sched.Open()
}

type exitCode int

// buildCase is a kind of build.
type buildCase struct {
	name  string
	files map[string]string
	cmd   func(dir string, cmd *booklitcmd.Command)
	exec  bool // through Execute
	big   bool // only with one failure
}

var c24Files = map[string]string{
	"in/index.lit":    "\\title{Home}{index}\n\n\\split-sections\n\n\\table-of-contents\n\nhome \\bold{bold} \\reference{kid} \\target{spot}{Spot}\n\n\\include-section{a.lit}\n\n\\section{\n\\title{Kid}{kid}\n\nin the kid, \\reference{a}\n}\n",
	"in/a.lit":        "\\title{A}{a}\n\na text \\italic{it}\n\n\\include-section{b.lit}\n",
	"in/b.lit":        "\\title{B}{b}\n\nb text\n",
	"in/single.lit":   "\\title{One}{index}\n\nonly \\bold{one} page\n",
	"in/broken.lit":   "\\title{One}{index}\n\nbroken } page\n",
	"in/badref.lit":   "\\title{One}{index}\n\n\\split-sections\n\n\\section{\n\\title{First}{first}\n\nfine\n}\n\n\\section{\n\\title{Second}{second}\n\n\\reference{nowhere}{x}\n}\n",
	"html/bold.tmpl":  "<my-bold>{{.Content | render}}</my-bold>",
	"html/other.tmpl": "other",
	"text/page.tmpl":  "{{.Title | render}}: {{.Body | render}}\n",
	"text/bold.tmpl":  "*{{.Content | render}}*",
}

var buildCases = []buildCase{
	{name: "site", cmd: func(dir string, cmd *booklitcmd.Command) { cmd.In = filepath.Join(dir, "in/index.lit") }},
	{name: "site with templates and search index", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/index.lit")
		cmd.HTMLEngine.Templates = filepath.Join(dir, "html")
		cmd.SaveSearchIndex = true
	}},
	{name: "text site with search index", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/index.lit")
		cmd.TextEngine.FileExtension = "txt"
		cmd.TextEngine.Templates = filepath.Join(dir, "text")
		cmd.SaveSearchIndex = true
	}},
	{name: "selected section", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/index.lit")
		cmd.SectionTag = "a"
	}},
	{name: "extra section", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/single.lit")
		cmd.SectionPath = filepath.Join(dir, "in/b.lit")
		cmd.SaveSearchIndex = true
	}},
	{name: "to standard output", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/single.lit")
		cmd.HTMLEngine.Templates = filepath.Join(dir, "html")
		cmd.Out = ""
	}},
	{name: "text to standard output", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/single.lit")
		cmd.TextEngine.FileExtension = "txt"
		cmd.Out = ""
	}},
	{name: "through the command line", exec: true, cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/single.lit")
		cmd.SaveSearchIndex = true
	}},
	{name: "unparsable", cmd: func(dir string, cmd *booklitcmd.Command) { cmd.In = filepath.Join(dir, "in/broken.lit") }},
	{name: "broken reference in the last page", cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/badref.lit")
		cmd.SaveSearchIndex = true
	}},
	{name: "with a plugin", exec: true, cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/single.lit")
		cmd.Plugins = []string{"example.com/plugin"}
	}},
}

func init() {
	index := "\\title{Many}{index}\n\n\\split-sections\n\n\\table-of-contents\n\n"
	for i := 1; i <= 10; i++ {
		index += fmt.Sprintf("\\include-section{m%d.lit}\n\n", i)
		text := fmt.Sprintf("\\title{M%d}{m%d}\n\nm%d \\bold{text} \\target{t%d}\n\n", i, i, i, i)
		if i == 6 {
			text += strings.Repeat("a long page ", 8000) + "\n\n"
		}
		if i >= 8 {
			text += fmt.Sprintf("\\include-section{n%d.lit}\n", i)
			c24Files[fmt.Sprintf("in/n%d.lit", i)] = fmt.Sprintf("\\title{N%d}\n\nn%d\n", i, i)
		}
		c24Files[fmt.Sprintf("in/m%d.lit", i)] = text
		c24Files[fmt.Sprintf("many/t%d.tmpl", i)] = fmt.Sprintf("template %d", i)
	}
	c24Files["in/many.lit"] = index
	c24Files["many/page.tmpl"] = "{{.Title | render}}: {{.Body | render}}\n"
	c24Files["many/toc.tmpl"] = "{{range .Children}}{{.Title | render}} {{end}}"
	c24Files["many/target.tmpl"] = "({{.TagName}})"
	c24Files["many/bold.tmpl"] = "<my-bold>{{.Content | render}}</my-bold>"
	buildCases = append(buildCases, buildCase{name: "many files, pages and templates, a long page", big: true, cmd: func(dir string, cmd *booklitcmd.Command) {
		cmd.In = filepath.Join(dir, "in/many.lit")
		cmd.TextEngine.FileExtension = "txt"
		cmd.TextEngine.Templates = filepath.Join(dir, "many")
		cmd.SaveSearchIndex = true
	}})
}

// buildResult is what a build did.
type buildResult struct {
	err    error
	panic  string
	exit   int // -1: it returned
	files  map[string]string
	stdout string
	ops    []fileOp
	open   []string
	pretty string
}

func (r buildResult) ok() bool { return r.err == nil && r.panic == "" && r.exit <= 0 }

func readTree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, info realos.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := realos.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func diffTrees(got, want map[string]string) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g, okg := got[n]
		w, okw := want[n]
		switch {
		case !okg:
			return fmt.Sprintf("%s is missing", n)
		case !okw:
			return fmt.Sprintf("%s is not an output", n)
		case g != w:
			return fmt.Sprintf("%s is %q (%d bytes), not %q (%d bytes)", n, clip(g, 400), len(g), clip(w, 400), len(w))
		}
	}
	return ""
}

type buildDriver struct{ dir string }

func newBuildDriver(e *Env) *buildDriver {
	d := &buildDriver{filepath.Join(e.Dir, "c24")}
	put := func(name, text string, mode realos.FileMode) {
		p := filepath.Join(d.dir, name)
		_ = realos.MkdirAll(filepath.Dir(p), 0755)
		if err := realos.WriteFile(p, []byte(text), mode); err != nil {
			panic(err)
		}
	}
	for n, t := range c24Files {
		put(n, t, 0644)
	}
	// a compiler that makes a program that prints its source
	put("bin/go", `#!/bin/sh
[ "$1" = install ] && [ -f "$2" ] || exit 1
{ echo '#!/bin/sh'; echo "cat <<'END'"; cat "$2"; echo; echo END; } > "$GOBIN/main"
chmod +x "$GOBIN/main"
`, 0755)
	_ = realos.MkdirAll(filepath.Join(d.dir, "tmp"), 0755)
	_ = realos.Setenv("PATH", filepath.Join(d.dir, "bin")+":"+realos.Getenv("PATH"))
	_ = realos.Setenv("TMPDIR", filepath.Join(d.dir, "tmp"))
	_ = realos.Unsetenv("BOOKLIT_REEXEC")
	return d
}

// prior gives the out directory's contents before a build.
func (d *buildDriver) prior(kind string, want map[string]string) {
	out := filepath.Join(d.dir, "out")
	if err := realos.RemoveAll(out); err != nil {
		panic(err)
	}
	if kind == "none" {
		return
	}
	_ = realos.MkdirAll(out, 0755)
	for n, t := range want {
		if kind == "longer" {
			t = strings.Repeat("old output ", 400)
		}
		if err := realos.WriteFile(filepath.Join(out, n), []byte(t), 0644); err != nil {
			panic(err)
		}
	}
}

func (d *buildDriver) build(c buildCase, faults []fault) (r buildResult) {
	r.exit = -1
	stdout, err := realos.Create(filepath.Join(d.dir, "stdout"))
	if err != nil {
		panic(err)
	}
	simos.Stdout = &simos.File{File: stdout}
	simos.ExitHook = func(code int) { panic(exitCode(code)) }
	defer func() { simos.ExitHook = nil }()
	cmd := &booklitcmd.Command{Out: filepath.Join(d.dir, "out")}
	c.cmd(d.dir, cmd)
	r.ops, r.open = withFaults(faults, func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case exitCode:
				r.exit = int(x)
			default:
				r.panic = fmt.Sprint(x)
			}
		}()
		if c.exec {
			r.err = cmd.Execute(nil)
		} else {
			r.err = cmd.Build()
		}
		var pretty booklit.PrettyError
		if errors.As(r.err, &pretty) {
			var b strings.Builder
			pretty.PrettyPrint(&b)
			r.pretty = b.String()
		}
	})
	_ = stdout.Close()
	b, _ := realos.ReadFile(filepath.Join(d.dir, "stdout"))
	r.stdout = string(b)
	r.files = readTree(filepath.Join(d.dir, "out"))
	return r
}

func runC24(e *Env) {
	logrus.SetLevel(logrus.PanicLevel)
	logrus.SetOutput(io.Discard)
	null, err := realos.OpenFile(realos.DevNull, realos.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	simos.Stderr = &simos.File{File: null}
	d := newBuildDriver(e)
	depth := 2
	if e.Thorough {
		depth = 3
	}
	e.Bound("builds: %d kinds, into a new directory, one with longer outputs and one with the outputs; every file operation fails, or fails halfway, or it and all after it fail, and after it every later one too, up to %d failures (a build of 14 documents, 14 templates and a page of 100 kB: one); a build without failures follows", len(buildCases), depth)
	for _, c := range buildCases {
		d.prior("none", nil)
		want := d.build(c, nil)
		again := ""
		if want.panic != "" || len(want.open) > 0 {
			again = fmt.Sprintf("without failures: panic %q, open %v", want.panic, want.open)
		}
		for _, prior := range []string{"none", "longer", "same"} {
			if (len(want.files) == 0 || c.big && prior == "same") && prior != "none" {
				continue
			}
			run := func(faults []fault) (buildResult, string) {
				d.prior(prior, want.files)
				r := d.build(c, faults)
				e.Trans(len(r.ops))
				e.Traces(1)
				switch {
				case r.panic != "":
					return r, "panic: " + r.panic
				case len(r.open) > 0:
					return r, fmt.Sprintf("files are still open: %v", r.open)
				}
				if r.ok() {
					e.Count("builds succeeding despite a failure", 1)
					if !want.ok() {
						return r, fmt.Sprintf("the build reports success; without failures it reports %v", want.err)
					}
					if m := diffTrees(r.files, want.files); m != "" {
						return r, "the build reports success, but " + m
					}
					if r.stdout != want.stdout {
						return r, fmt.Sprintf("the build reports success, but it printed %q, not %q", clip(r.stdout, 400), clip(want.stdout, 400))
					}
				} else {
					e.Count("builds reporting an error", 1)
				}
				if prior == "none" && len(faults) == 1 {
					next := d.build(c, nil)
					if next.ok() != want.ok() || next.panic != "" {
						return r, fmt.Sprintf("the next build: %v %s", next.err, next.panic)
					}
					if m := diffTrees(next.files, want.files); m != "" && want.ok() {
						return r, "after the next build " + m
					}
				}
				return r, ""
			}
			key := fmt.Sprintf("build: %s, out directory: %s", c.name, prior)
			e.Each(key, func() string {
				if again != "" {
					return again
				}
				r, m := run(nil)
				if m == "" && (r.ok() != want.ok()) {
					m = fmt.Sprintf("without failures: %v", r.err)
				}
				return m
			})
			for i := range want.ops {
				e.faultsFrom(fmt.Sprintf("%s, #%d is %s %s", key, i, want.ops[i].op, want.ops[i].path), i, depth, prior == "none" && !c.big, func(f []fault) ([]fileOp, string) {
					r, m := run(f)
					return r.ops, m
				})
			}
		}
	}
	serverFaults(e, depth)
}

// faultsFrom explores the failures that begin at an operation.
func (e *Env) faultsFrom(key string, i, depth int, deep bool, run func([]fault) ([]fileOp, string)) {
	for _, first := range []fault{{i, false, false}, {i, true, false}, {i, false, true}} {
		e.Each(fmt.Sprintf("%s: %s", key, first), func() string {
			var rec func(faults []fault) string
			rec = func(faults []fault) string {
				ops, m := run(faults)
				e.beat()
				if m != "" {
					var names []string
					for _, f := range faults {
						if f.at < len(ops) {
							names = append(names, fmt.Sprintf("%s: %s %s", f, ops[f.at].op, ops[f.at].path))
						}
					}
					return m + "\nfailures: " + strings.Join(names, "; ")
				}
				last := faults[len(faults)-1]
				if len(faults) >= depth || !deep || last.on {
					return ""
				}
				for j := last.at + 1; j < len(ops); j++ {
					for _, partial := range []bool{false, true} {
						if m := rec(append(append([]fault{}, faults...), fault{j, partial, false})); m != "" {
							return m
						}
					}
				}
				return ""
			}
			return rec([]fault{first})
		})
	}
}

// serverFaults: a request with failures, then ones without.
func serverFaults(e *Env, depth int) {
	d := newC22Driver(e)
	v1 := c22State{"v1", "v1", "v1", "gone"}
	type scene struct {
		before c22State
		warm   bool
		now    c22State
		req    string
	}
	var scenes []scene
	for _, req := range []string{"/", "/a.html", "/index.html"} {
		for _, now := range []c22State{v1, v1.with("index.lit", "v2"), v1.with("a.lit", "v2"), v1.with("bold.tmpl", "v2"), v1.with("bold.tmpl", "gone"), v1.with("italic.tmpl", "v1"), v1.with("index.lit", "broken"), v1.with("a.lit", "broken"), v1.with("index.lit", "badref"), v1.with("bold.tmpl", "broken"), v1.with("a.lit", "gone")} {
			scenes = append(scenes, scene{now, false, now, req}, scene{v1, true, now, req})
			if now != v1 {
				scenes = append(scenes, scene{now, true, v1, req})
			}
		}
	}
	e.Bound("server: %d situations (cold, or after a request and an edit); the request has up to %d failures; requests for every page follow, also after the edit is undone", len(scenes), depth)
	for _, s := range scenes {
		run := func(faults []fault) ([]fileOp, string) {
			srv := d.server()
			if s.warm {
				d.set(s.before)
				ask(srv, "/")
			}
			d.set(s.now)
			want := d.expect(s.now, s.req)
			var a httpAnswer
			var pan interface{}
			ops, open := withFaults(faults, func() {
				defer func() { pan = recover() }()
				a = ask(srv, s.req)
			})
			e.Trans(len(ops))
			e.Traces(1)
			switch {
			case pan != nil:
				return ops, fmt.Sprintf("panic: %v", pan)
			case len(open) > 0:
				return ops, fmt.Sprintf("files are still open: %v", open)
			case a == want:
				e.Count("requests answered despite a failure", 1)
			case a.code < 500 || a.body == "":
				return ops, fmt.Sprintf("it is answered %d %q; without failures, %d %q", a.code, clip(a.body, 600), want.code, clip(want.body, 600))
			default:
				e.Count("requests answered with an error", 1)
			}
			for _, st := range []c22State{s.now, s.before} {
				d.set(st)
				for _, req := range []string{"/", "/a.html"} {
					if a, want := ask(srv, req), d.expect(st, req); a != want {
						return ops, fmt.Sprintf("a later request for %s in state %v is answered %d %q; a new server answers %d %q", req, st, a.code, clip(a.body, 600), want.code, clip(want.body, 600))
					}
				}
			}
			return ops, ""
		}
		key := fmt.Sprintf("server: GET %s in %v, warmed: %v in %v", s.req, s.now, s.warm, s.before)
		var ops []fileOp
		e.Each(key, func() string {
			_, m := run(nil)
			return m
		})
		ops, _ = run(nil)
		for i := range ops {
			e.faultsFrom(fmt.Sprintf("%s, #%d is %s %s", key, i, ops[i].op, ops[i].path), i, depth, true, run)
		}
	}
}
