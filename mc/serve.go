package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() {
	register(&Check{ID: "C29", Level: "model_checking", Rule: "a state is a document with a combination of options, or a server over it with a requested path; the real command and server are run and compared with the selection rendered section by section", Run: runC29, QuickBudget: 120})
}

// --- C29

type serveDoc struct {
	name  string
	files map[string]string
}

var serveDocs = []serveDoc{
	{"plain", map[string]string{
		"index.lit": "\\title{Home}{home}{front door}\n\nwelcome \\reference{deep} \\target{anch}{Anchor} here\n\n\\table-of-contents\n\n\\section{\n\\title{A}\n\nin a\n\n\\section{\n\\title{Deep}{deep}\n\nin deep\n}\n}\n\n\\section{\n\\title{B}{b.v1}\n\nin b \\target{banch}\n}\n",
	}},
	{"split", map[string]string{
		"index.lit": "\\title{Index}\n\n\\split-sections\n\nwelcome \\reference{deep}\n\n\\table-of-contents\n\n\\include-section{a.lit}\n\n\\section{\n\\title{B}{b}\n\nin b \\target{banch} \\reference{home page}\n}\n\n\\target{home page}{home page}\n",
		"a.lit":     "\\title{A}{a}{a page}\n\nin a \\target{aanch}\n\n\\section{\n\\title{Deep}{deep}\n\nin deep <&> \\italic{x}\n}\n",
	}},
	{"nested", map[string]string{
		"index.lit":   "\\title{Index}\n\ntop\n\n\\section{\n\\title{S}{s}\n\n\\split-sections\n\nin s\n\n\\section{\n\\title{T}{t}\n\nin t \\reference{v}\n}\n\n\\section{\n\\title{U}{u}\n\n\\section{\n\\title{V}{v}\n\nin v \\reference{s}\n}\n}\n}\n\n\\include-section{sub/w.lit}\n",
		"sub/w.lit":   "\\title{W}{w}\n\n\\split-sections\n\n\\include-section{x.lit}\n",
		"sub/x.lit":   "\\title{X}{x}\n\nin x \\target{wx}\n",
		"sub/off.lit": "\\title{Off}{off}\n",
	}},
	{"joined", map[string]string{
		"index.lit": "\\title{Index}\n\n\\single-page\n\n\\split-sections\n\n\\section{\n\\title{S}{s}\n\n\\split-sections\n\n\\section{\n\\title{T}{t}\n\nin t\n}\n}\n",
	}},
	{"brokenref", map[string]string{
		"index.lit": "\\title{Index}\n\n\\split-sections\n\n\\section{\n\\title{Good}{good}\n\nfine\n}\n\n\\section{\n\\title{Bad}{bad}\n\n\\reference{nothing at all}{x}\n}\n",
	}},
	{"failing", map[string]string{
		"index.lit": "\\title{Index}\n\n\\section{\n\\title{Good}{good}\n\n\\no-such-function\n}\n",
	}},
	{"unparsable", map[string]string{
		"index.lit": "\\title{Index}\n\nbroken } here\n",
	}},
	{"plugged", map[string]string{
		"index.lit": "\\title{Index}\n\n\\use-plugin{vq}\n\n\\who\n\n\\section{\n\\title{S}{s}\n\n\\who\n}\n\n\\include-section{w.lit}\n",
		"w.lit":     "\\title{W}{w}\n\n\\use-plugin{vq}\n\n\\who\n",
	}},
	{"missing", map[string]string{
		"other.lit": "\\title{Index}\n",
	}},
}

// extra sections for --section-path.
var serveExtras = map[string]string{
	"extra.lit":     "\\title{Extra}{extra}\n\n\\split-sections\n\nextra text\n\n\\section{\n\\title{Extra Kid}{extra-kid}\n\nin kid\n}\n",
	"extraup.lit":   "\\title{Extra Up}{extra-up}\n\nback to \\reference{index}{the index} or \\reference{home}{home} \n",
	"extrawho.lit":  "\\title{Extra}{extra-who}\n\n\\who\n",
	"extrafail.lit": "\\title{Extra}\n\n\\no-such-function\n",
}

// pagesOf gives the sections for which a build of s makes files.
func pagesOf(s *booklit.Section) []*booklit.Section {
	out := []*booklit.Section{s}
	var walk func(*booklit.Section)
	walk = func(s *booklit.Section) {
		for _, c := range s.Children {
			if s.SplitSections {
				out = append(out, c)
			}
			walk(c)
		}
	}
	walk(s)
	return out
}

func tagNames(root *booklit.Section) []string {
	var out []string
	for _, s := range allSections(root) {
		for _, t := range s.Tags {
			out = append(out, t.Name)
		}
	}
	return out
}

func sectionWithTag(root *booklit.Section, tag string) *booklit.Section {
	for _, s := range allSections(root) {
		for _, t := range s.Tags {
			if t.Name == tag {
				return s
			}
		}
	}
	return nil
}

type serveConfig struct {
	doc        serveDoc
	tag, path  string
	index      bool
	htmlTmpl   string
	ext        string
	textTmpl   string
	out        string // "": standard output; "new/dir"; "existing"
	allow      bool
	noTemplate bool
}

func (c serveConfig) key() string {
	return fmt.Sprintf("doc=%s tag=%q path=%q index=%v html=%q ext=%q text=%q out=%q allow=%v", c.doc.name, c.tag, c.path, c.index, c.htmlTmpl, c.ext, c.textTmpl, c.out, c.allow)
}

func writeTemplateDirs(dir string) {
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	put("html1/italic.tmpl", "<my-italic>{{.Content | render}}</my-italic>")
	put("html1/page.tmpl", "<page>{{.Title | render}}:{{. | render}}</page>\n")
	put("htmlbad/italic.tmpl", "{{if}}")
	put("htmlfail/page.tmpl", "{{.NoSuchField}}")
	put("text1/page.tmpl", "PAGE {{.Title | render}} {{. | render}}")
	put("text1/section.tmpl", "[{{.Title | render}}] {{.Body | render}}{{range .Children}}{{if not $.SplitSections}}{{. | render}}{{end}}{{end}}")
	put("text1/reference.tmpl", "{{.Content | render}}({{.Tag | url}})")
	put("text1/toc.tmpl", "TOC")
	put("text1/target.tmpl", "#{{.TagName}}")
	put("text1/italic.tmpl", "_{{.Content | render}}_")
	put("textbad/page.tmpl", "{{end}}")
	_ = os.MkdirAll(filepath.Join(dir, "empty"), 0755)
}

// freshEngine makes the engine a configuration asks for.
func (c serveConfig) freshEngine(tmpl string) (render.Engine, error) {
	if c.ext != "" {
		e := render.NewTextEngine(c.ext)
		if c.textTmpl != "" {
			return e, e.LoadTemplates(filepath.Join(tmpl, c.textTmpl))
		}
		return e, nil
	}
	e := render.NewHTMLEngine()
	if c.htmlTmpl != "" {
		return e, e.LoadTemplates(filepath.Join(tmpl, c.htmlTmpl))
	}
	return e, nil
}

type serveExpect struct {
	fail   string // why it must fail
	pages  map[string]string
	stdout string
	tags   []string
	early  bool // it fails before anything can have been written
}

func freshLoad(dir, path string) (*booklit.Section, error) {
	return (&load.Processor{}).LoadFile(filepath.Join(dir, path), []booklit.PluginFactory{baselit.NewPlugin})
}

func renderFresh(c serveConfig, tmpl string, s *booklit.Section) (string, error) {
	e, err := c.freshEngine(tmpl)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = e.RenderSection(&b, s)
	return b.String(), err
}

func (c serveConfig) expect(dir, tmpl string) serveExpect {
	booklit.AllowBrokenReferences = c.allow
	defer func() { booklit.AllowBrokenReferences = false }()
	if _, err := c.freshEngine(tmpl); err != nil {
		return serveExpect{fail: err.Error(), early: true}
	}
	root, err := freshLoad(dir, "index.lit")
	if err != nil {
		return serveExpect{fail: err.Error(), early: true}
	}
	sel := root
	if c.tag != "" {
		if sel = sectionWithTag(root, c.tag); sel == nil {
			return serveExpect{fail: "no section has the tag", early: true}
		}
	} else if c.path != "" {
		sel, err = (&load.Processor{}).LoadFileIn(root, filepath.Join(dir, c.path), []booklit.PluginFactory{baselit.NewPlugin})
		if err != nil {
			return serveExpect{fail: err.Error(), early: true}
		}
		if sel.Parent != root {
			panic("the extra section's parent is not the document")
		}
	}
	x := serveExpect{pages: map[string]string{}, tags: tagNames(root)}
	if c.out == "" {
		x.stdout, err = renderFresh(c, tmpl, sel)
		if err != nil {
			return serveExpect{fail: err.Error()}
		}
		return x
	}
	ext := c.ext
	if ext == "" {
		ext = "html"
	}
	for _, s := range pagesOf(sel) {
		text, err := renderFresh(c, tmpl, s)
		if err != nil {
			return serveExpect{fail: err.Error()}
		}
		x.pages[s.PrimaryTag.Name+"."+ext] = text
	}
	return x
}

func withStdout(path string, run func()) string {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	old := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = old }()
	run()
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return string(b)
}

const oldPage = "an older page, longer than the new one: "

func (c serveConfig) command(dir, tmpl, out string) *booklitcmd.Command {
	cmd := &booklitcmd.Command{In: filepath.Join(dir, "index.lit"), SectionTag: c.tag, SaveSearchIndex: c.index, AllowBrokenReferences: c.allow, SlowInvokeThreshold: 5 * time.Second}
	if c.path != "" {
		cmd.SectionPath = filepath.Join(dir, c.path)
	}
	if c.out != "" {
		cmd.Out = filepath.Join(out, c.out)
	}
	if c.htmlTmpl != "" {
		cmd.HTMLEngine.Templates = filepath.Join(tmpl, c.htmlTmpl)
	}
	cmd.TextEngine.FileExtension = c.ext
	if c.textTmpl != "" {
		cmd.TextEngine.Templates = filepath.Join(tmpl, c.textTmpl)
	}
	return cmd
}

// args gives the command line.
func (c serveConfig) args(dir, tmpl, out string, short bool) []string {
	name := func(s, l string) string {
		if short {
			return s
		}
		return l
	}
	a := []string{name("-i", "--in"), filepath.Join(dir, "index.lit")}
	if c.tag != "" {
		a = append(a, "--section-tag", c.tag)
	}
	if c.path != "" {
		a = append(a, "--section-path", filepath.Join(dir, c.path))
	}
	if c.index {
		a = append(a, "--save-search-index")
	}
	if c.allow {
		a = append(a, "--allow-broken-references")
	}
	if c.out != "" {
		a = append(a, name("-o", "--out"), filepath.Join(out, c.out))
	}
	if c.htmlTmpl != "" {
		a = append(a, "--html-templates", filepath.Join(tmpl, c.htmlTmpl))
	}
	if c.ext != "" {
		a = append(a, "--text-file-extension", c.ext)
	}
	if c.textTmpl != "" {
		a = append(a, "--text-templates", filepath.Join(tmpl, c.textTmpl))
	}
	return a
}

// prepareOut empties the place for outputs, and fills an existing one.
func (c serveConfig) prepareOut(out string, x serveExpect) map[string]string {
	clearDir(out)
	kept := map[string]string{}
	if c.out == "existing" {
		_ = os.MkdirAll(filepath.Join(out, c.out), 0755)
		kept["existing/style.css"] = "css"
		kept["existing/unrelated.html"] = "unrelated"
		for n, t := range kept {
			_ = os.WriteFile(filepath.Join(out, n), []byte(t), 0644)
		}
		for n, t := range x.pages {
			_ = os.WriteFile(filepath.Join(out, c.out, n), []byte(oldPage+t+t), 0644)
		}
		if c.index && len(x.pages) > 0 {
			_ = os.WriteFile(filepath.Join(out, c.out, "search_index.json"), []byte(oldPage+strings.Repeat("x", 10000)), 0644)
		}
	}
	return kept
}

func (c serveConfig) judge(x serveExpect, kept map[string]string, failed bool, why, stdout string, got map[string]string) string {
	if x.fail != "" {
		if !failed {
			return fmt.Sprintf("succeeds, though it has to fail: %s\nfiles: %s", x.fail, names(got))
		}
		if x.early && (stdout != "" || len(got) != len(kept)) {
			return fmt.Sprintf("fails (%s), but wrote %q and the files %s", x.fail, stdout, names(got))
		}
		return ""
	}
	if failed {
		return "fails: " + why
	}
	want := map[string]string{}
	for n, t := range kept {
		want[n] = t
	}
	for n, t := range x.pages {
		want[filepath.Join(c.out, n)] = t
	}
	if c.index && c.out != "" {
		n := filepath.Join(c.out, "search_index.json")
		text, ok := got[n]
		if !ok {
			return "no search index was written"
		}
		var idx map[string]interface{}
		if err := json.Unmarshal([]byte(text), &idx); err != nil {
			return "search index: " + err.Error()
		}
		var have []string
		for k := range idx {
			have = append(have, k)
		}
		tags := append([]string{}, x.tags...)
		sort.Strings(have)
		sort.Strings(tags)
		if strings.Join(have, "|") != strings.Join(tags, "|") {
			return fmt.Sprintf("search index has %q, the document %q", have, tags)
		}
		want[n] = text
	}
	if names(got) != names(want) {
		return fmt.Sprintf("files are %s, expected %s", names(got), names(want))
	}
	for n, t := range want {
		if got[n] != t {
			return fmt.Sprintf("%s is\n%q\nexpected\n%q", n, got[n], t)
		}
	}
	if c.out == "" && stdout != x.stdout {
		return fmt.Sprintf("standard output is\n%q\nexpected\n%q", stdout, x.stdout)
	}
	if c.out != "" && stdout != "" {
		return fmt.Sprintf("with --out, standard output is %q", stdout)
	}
	return ""
}

func serveSelections(doc serveDoc) (tags []string) {
	return map[string][]string{
		"plain":     {"home", "front door", "anch", "a", "deep", "b.v1", "banch", "nosuch", "Home", "index"},
		"split":     {"index", "home page", "a", "a page", "aanch", "deep", "b", "banch", "nosuch", "extra"},
		"nested":    {"index", "s", "t", "u", "v", "w", "x", "wx", "off", "nosuch"},
		"joined":    {"index", "s", "t", "nosuch"},
		"brokenref": {"index", "good", "bad", "nosuch"},
		"plugged":   {"index", "s", "w", "nosuch"},
		"failing":   {"index", "good", "nosuch"},
	}[doc.name]
}

func serveConfigs(visit func(serveConfig)) {
	type sel struct{ tag, path string }
	type eng struct{ html, ext, text string }
	engines := []eng{{"", "", ""}, {"html1", "", ""}, {"empty", "", ""}, {"htmlbad", "", ""}, {"htmlfail", "", ""}, {"", "", "text1"},
		{"", "txt", "text1"}, {"", "md", "text1"}, {"", "txt", "textbad"}, {"html1", "txt", "text1"}, {"", "html", "text1"}, {"", "txt", ""}}
	for _, doc := range serveDocs {
		sels := []sel{{}, {"", "extra.lit"}, {"", "extraup.lit"}, {"", "extrafail.lit"}, {"", "extrawho.lit"}, {"", "nosuch.lit"}, {"", "index.lit"}}
		for _, t := range serveSelections(doc) {
			sels = append(sels, sel{t, ""})
		}
		for _, s := range sels {
			for _, g := range engines {
				for _, out := range []string{"", "existing", "new/dir"} {
					for _, index := range []bool{false, true} {
						for _, allow := range []bool{false, true} {
							visit(serveConfig{doc: doc, tag: s.tag, path: s.path, index: index, htmlTmpl: g.html, ext: g.ext, textTmpl: g.text, out: out, allow: allow})
						}
					}
				}
			}
		}
	}
}

func withExtras(files map[string]string) map[string]string {
	out := map[string]string{}
	for n, t := range serveExtras {
		out[n] = t
	}
	for n, t := range files {
		out[n] = t
	}
	return out
}

func runC29(e *Env) {
	b := newBuilder(e, "c29")
	_ = os.MkdirAll(b.out, 0755)
	tmpl := filepath.Join(e.Dir, "c29-tmpl")
	writeTemplateDirs(tmpl)
	stdoutFile := filepath.Join(e.Dir, "c29-stdout")

	e.Bound("in process: %d documents x {whole document, every tag and anchor, unknown tags, 6 extra files} x 12 engine and template choices x 3 outputs x search index x allowing broken references", len(serveDocs))
	serveConfigs(func(c serveConfig) {
		if !e.Mine() {
			return
		}
		e.Exec("build "+c.key(), func() string {
			b.put(withExtras(c.doc.files))
			x := c.expect(b.dir, tmpl)
			kept := c.prepareOut(b.out, x)
			cmd := c.command(b.dir, tmpl, b.out)
			var err error
			stdout := withStdout(stdoutFile, func() { err = cmd.Execute(nil) })
			booklit.AllowBrokenReferences = false
			e.Trans(len(x.pages) + 1)
			why := ""
			if err != nil {
				why = err.Error()
				e.Count("failing_builds", 1)
			}
			return c.judge(x, kept, err != nil, why, stdout, readDir(b.out))
		})
	})

	e.Bound("server: the same documents with 5 template choices, after each build into its directory of static files; every tag's page, page files, static files, unknown paths, with and without a query")
	for _, doc := range serveDocs {
		for _, ht := range []string{"", "html1", "empty", "htmlbad", "htmlfail"} {
			for _, allow := range []bool{false, true} {
				c := serveConfig{doc: doc, htmlTmpl: ht, out: "static", allow: allow}
				if !e.Mine() {
					continue
				}
				e.Exec(fmt.Sprintf("serve doc=%s html=%q allow=%v", doc.name, ht, allow), func() string {
					return serveCase(e, b, c, tmpl, stdoutFile)
				})
			}
		}
	}

	runC29CLI(e, b, tmpl)
}

func serveCase(e *Env, b *builder, c serveConfig, tmpl, stdoutFile string) string {
	b.put(withExtras(c.doc.files))
	clearDir(b.out)
	// what builds give, by requested name
	static := filepath.Join(b.out, "static")
	_ = os.MkdirAll(filepath.Join(static, "sub"), 0755)
	for n, t := range map[string]string{"style.css": "body{}", "plain.txt": "plain", "only-static.html": "<p>static</p>", "nosuffix": "data", "sub/page.html": "sub page", "sub/x.txt": "sub x"} {
		_ = os.WriteFile(filepath.Join(static, n), []byte(t), 0644)
	}
	type ans struct {
		ok   bool
		body string
	}
	want := map[string]ans{}
	runBuild := func(cfg serveConfig) (string, error) {
		cmd := cfg.command(b.dir, tmpl, b.out)
		var err error
		out := withStdout(stdoutFile, func() { err = cmd.Execute(nil) })
		return out, err
	}
	sels := append([]string{"index"}, serveSelections(c.doc)...)
	root, err := freshLoad(b.dir, "index.lit")
	loads := err == nil
	for _, t := range sels {
		if loads && sectionWithTag(root, t) == nil {
			continue
		}
		cfg := c
		cfg.tag, cfg.out = t, ""
		text, err := runBuild(cfg)
		want[t] = ans{err == nil, text}
	}
	// the files of a whole build
	cfg := c
	cfg.out = "pages"
	if _, err := runBuild(cfg); err == nil {
		for n, text := range readDir(filepath.Join(b.out, "pages")) {
			t := strings.TrimSuffix(n, ".html")
			w, ok := want[t]
			if !ok || !w.ok || w.body != text {
				return fmt.Sprintf("the page file %s differs from building its section alone (%v %q, %q)", n, ok, w.body, text)
			}
		}
	}
	booklit.AllowBrokenReferences = c.allow
	defer func() { booklit.AllowBrokenReferences = false }()
	fs := http.FileServer(http.Dir(static))
	server := &booklitcmd.Server{In: filepath.Join(b.dir, "index.lit"), Processor: &load.Processor{}, Engine: render.NewHTMLEngine(), FileServer: fs}
	if c.htmlTmpl != "" {
		server.Templates = filepath.Join(tmpl, c.htmlTmpl)
	}
	get := func(h http.Handler, path string) *httptest.ResponseRecorder {
		r := httptest.NewRequest("GET", path, nil)
		w := httptest.NewRecorder()
		h.ServeHTTP(w, r)
		e.Trans(1)
		return w
	}
	page := func(path, tag string) string {
		got := get(server, path)
		w := want[tag]
		if w.ok {
			if got.Code != 200 || got.Body.String() != w.body {
				return fmt.Sprintf("GET %s gives %d\n%q\na build writes\n%q", path, got.Code, got.Body.String(), w.body)
			}
			return ""
		}
		if got.Code < 500 {
			return fmt.Sprintf("GET %s gives %d %q, though building it fails", path, got.Code, got.Body.String())
		}
		if got.Body.Len() == 0 {
			return fmt.Sprintf("GET %s gives %d without saying why", path, got.Code)
		}
		return ""
	}
	same := func(path string) string {
		got, w := get(server, path), get(fs, path)
		if got.Code != w.Code || got.Body.String() != w.Body.String() || got.Header().Get("Location") != w.Header().Get("Location") || got.Header().Get("Content-Type") != w.Header().Get("Content-Type") {
			return fmt.Sprintf("GET %s gives %d %q, the static file is %d %q", path, got.Code, got.Body.String(), w.Code, w.Body.String())
		}
		return ""
	}
	for round := 0; round < 2; round++ {
		for t := range want {
			for _, q := range []string{"", "?x=1"} {
				if msg := page("/"+url.PathEscape(t)+".html"+q, t); msg != "" {
					return msg
				}
			}
		}
		if _, ok := want["index"]; ok {
			if msg := page("/", "index"); msg != "" {
				return msg
			}
		}
		for _, p := range []string{"/style.css", "/plain.txt", "/nosuffix", "/sub/x.txt", "/sub/", "/sub", "/nosuch.txt", "/nosuch", "/plain.txt?x=1", "/a", "/index", "/index.txt", "/index.lit", "/html", "/.htm"} {
			if msg := same(p); msg != "" {
				return msg
			}
		}
		if loads {
			for _, p := range []string{"/only-static.html", "/sub/page.html", "/nosuch-at-all.html", "/sub/nosuch.html"} {
				if msg := same(p); msg != "" {
					return msg
				}
			}
			// names like those of pages
			for t := range want {
				for _, n := range []string{"sub/" + t, t + "/" + t, t + "x", "x" + t, t + ".html", strings.ToUpper(t), t + " ", "./" + t[:len(t)/2]} {
					if n == t || sectionWithTag(root, n) != nil {
						continue
					}
					if msg := same("/" + strings.ReplaceAll(url.PathEscape(n), "%2F", "/") + ".html"); msg != "" {
						return msg
					}
				}
				for _, x := range []string{"", ".txt", ".htm", ".HTML", ".html/", "html", ".html~", "/index.html"} {
					if n := strings.TrimSuffix(t+x, ".html"); n == t+x || sectionWithTag(root, n) == nil {
						if msg := same("/" + url.PathEscape(t) + x); msg != "" {
							return msg
						}
					}
				}
			}
			if _, ok := want["index"]; !ok {
				if msg := same("/"); msg != "" {
					return msg
				}
			}
		}
	}
	return ""
}

// --- the command line

func cli(args []string) {
	os.Args = append([]string{"booklit"}, args...)
	booklitcmd.Main()
}

type cliRun struct {
	code           int
	stdout, stderr string
}

func runCLI(dir string, env []string, args ...string) cliRun {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, append([]string{"cli"}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, s bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &s
	err = cmd.Run()
	r := cliRun{stdout: o.String(), stderr: s.String()}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		} else {
			panic(err)
		}
	}
	return r
}

func runC29CLI(e *Env, b *builder, tmpl string) {
	// every option on a real command line
	e.Bound("command line: each document x each selection x {HTML, HTML templates, text} x {standard output, directory} as a process, flags in long and short form; help, version, missing and unknown flags")
	n := 0
	serveConfigs(func(c serveConfig) {
		if c.doc.name == "joined" || c.out == "existing" || c.htmlTmpl == "empty" || c.htmlTmpl == "htmlfail" || (c.ext == "" && c.textTmpl != "") || (c.htmlTmpl != "" && c.ext != "") || c.ext == "md" || c.ext == "html" {
			return
		}
		n++
		if !e.Thorough && n%5 != 0 && c.doc.name != "split" {
			return
		}
		if !e.Thorough && c.allow && c.doc.name != "brokenref" {
			return
		}
		short := n%2 == 0
		if !e.Mine() {
			return
		}
		e.Exec("command line "+c.key(), func() string {
			b.put(withExtras(c.doc.files))
			x := c.expect(b.dir, tmpl)
			kept := c.prepareOut(b.out, x)
			r := runCLI(b.dir, nil, c.args(b.dir, tmpl, b.out, short)...)
			e.Trans(1)
			if r.code != 0 && strings.TrimSpace(r.stderr) == "" {
				return fmt.Sprintf("exits with %d without saying why", r.code)
			}
			return c.judge(x, kept, r.code != 0, r.stderr, r.stdout, readDir(b.out))
		})
	})
	for _, args := range [][]string{{}, {"--out", "somewhere"}, {"--in"}, {"--no-such-flag", "--in", "index.lit"}, {"--in", "index.lit", "--serve", "notaport"}, {"--in", "index.lit", "--slow-invoke-threshold", "soon"}, {"--in", "index.lit", "--cpu-profile", "nosuchdir/prof"}} {
		args := args
		e.Each(fmt.Sprintf("refused command line %q", args), func() string {
			b.put(withExtras(serveDocs[0].files))
			r := runCLI(b.dir, nil, args...)
			if r.code == 0 {
				return "succeeds: " + r.stdout
			}
			if strings.TrimSpace(r.stderr+r.stdout) == "" {
				return "fails without saying why"
			}
			return ""
		})
	}
	for _, args := range [][]string{{"--help"}, {"-h"}, {"--version"}, {"-v"}} {
		args := args
		e.Each(fmt.Sprintf("command line %q", args), func() string {
			r := runCLI(b.dir, nil, args...)
			if r.code != 0 {
				return fmt.Sprintf("exits with %d: %s", r.code, r.stderr)
			}
			if strings.TrimSpace(r.stdout) == "" {
				return "prints nothing"
			}
			return ""
		})
	}
	flags := []string{"--debug", "--slow-invoke-threshold=1ns", "--cpu-profile=" + filepath.Join(e.Dir, "cpu.prof"), "--http-profile="}
	e.Bound("every subset of the options for logging, monitoring and profiling with each document, to standard output and a directory: the same as without")
	for _, doc := range serveDocs {
		for set := 1; set < 1<<len(flags); set++ {
			for _, out := range []bool{false, true} {
				doc, set, out := doc, set, out
				e.Each(fmt.Sprintf("doc=%s with options %b, out=%v", doc.name, set, out), func() string {
					b.put(withExtras(doc.files))
					var res [2]string
					for i := range res {
						clearDir(b.out)
						args := []string{"--in", filepath.Join(b.dir, "index.lit"), "--save-search-index"}
						if out {
							args = append(args, "--out", b.out)
						}
						for j, f := range flags {
							if i == 1 && set&(1<<j) != 0 {
								if strings.HasSuffix(f, "profile=") {
									f += fmt.Sprint(freePort())
								}
								args = append(args, f)
							}
						}
						_ = os.Remove(filepath.Join(e.Dir, "cpu.prof"))
						e.Trans(1)
						r := runCLI(b.dir, nil, args...)
						if strings.Contains(r.stderr, "address already in use") {
							return "" // taken meanwhile
						}
						res[i] = fmt.Sprintf("exit code %d, output %q, files %q", r.code, r.stdout, readDir(b.out))
						if i == 1 && set&4 != 0 {
							if st, err := os.Stat(filepath.Join(e.Dir, "cpu.prof")); err != nil || r.code == 0 && st.Size() == 0 {
								return fmt.Sprintf("no profile: %v", err)
							}
						}
					}
					if res[0] != res[1] {
						return diffText(res[1], res[0])
					}
					return ""
				})
			}
		}
	}
	for _, doc := range serveDocs {
		if doc.name == "joined" || doc.name == "missing" {
			continue
		}
		for _, debug := range []bool{false, true} {
			doc, debug := doc, debug
			for _, allow := range []bool{false, true} {
				for _, html := range []string{"", "html1"} {
					e.Each(fmt.Sprintf("--serve doc=%s debug=%v allow=%v html=%q", doc.name, debug, allow, html), func() string { return serveProcess(e, b, doc, debug, allow, html, tmpl) })
				}
			}
		}
	}
	e.Bound("--plugin: a plugin package used, missing, and used by a failing document, through the rebuilt command; its temporary directory is gone afterwards")
	for _, kind := range []string{"used", "two plugins", "failing document", "no such package", "text to a directory"} {
		kind := kind
		e.Each("--plugin "+kind, func() string { return pluginProcess(e, kind) })
	}
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// serveProcess runs the command as a server.
func serveProcess(e *Env, b *builder, doc serveDoc, debug, allow bool, html, tmpl string) string {
	b.put(withExtras(doc.files))
	clearDir(b.out)
	_ = os.WriteFile(filepath.Join(b.out, "style.css"), []byte("body{}"), 0644)
	self, _ := os.Executable()
	for attempt := 0; ; attempt++ {
		port := freePort()
		args := []string{"cli", "--in", filepath.Join(b.dir, "index.lit"), "--out", b.out}
		if html != "" {
			args = append(args, "--html-templates", filepath.Join(tmpl, html))
		}
		if allow {
			args = append(args, "--allow-broken-references")
		}
		if debug {
			args = append(args, "-s", fmt.Sprint(port), "-d")
		} else {
			args = append(args, "--serve", fmt.Sprint(port))
		}
		cmd := exec.Command(self, args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		exited := make(chan error, 1)
		go func() { exited <- cmd.Wait() }()
		base := fmt.Sprintf("http://127.0.0.1:%d", port)
		client := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 20 * time.Second}
		get := func(path string) (int, string, error) {
			r, err := client.Get(base + path)
			if err != nil {
				return 0, "", err
			}
			defer r.Body.Close()
			body, err := io.ReadAll(r.Body)
			e.Trans(1)
			return r.StatusCode, string(body), err
		}
		up, dead := false, false
		for i := 0; i < 500 && !up && !dead; i++ {
			if _, _, err := get("/style.css"); err == nil {
				up = true
				break
			}
			select {
			case <-exited:
				dead = true
			case <-time.After(20 * time.Millisecond):
			}
		}
		if !up {
			if !dead {
				_ = cmd.Process.Kill()
				<-exited
			}
			if attempt < 3 { // another process may have taken the port
				continue
			}
			return "the server does not come up"
		}
		msg := func() string {
			if code, body, err := get("/style.css"); err != nil || code != 200 || body != "body{}" {
				return fmt.Sprintf("static file: %d %q %v", code, body, err)
			}
			for _, t := range serveSelections(doc) {
				c := serveConfig{doc: doc, tag: t, htmlTmpl: html, allow: allow}
				x := c.expect(b.dir, tmpl)
				code, body, err := get("/" + url.PathEscape(t) + ".html")
				if err != nil {
					return fmt.Sprintf("GET of %s: %v", t, err)
				}
				switch {
				case x.fail == "no section has the tag":
					if code != 404 && t != "index" {
						return fmt.Sprintf("GET of unknown %s: %d %q", t, code, body)
					}
				case x.fail != "":
					if code < 500 || body == "" {
						return fmt.Sprintf("GET of %s: %d %q, though %s", t, code, body, x.fail)
					}
				case code != 200 || body != x.stdout:
					return fmt.Sprintf("GET of %s: %d %q, expected %q", t, code, body, x.stdout)
				}
			}
			return ""
		}()
		_ = cmd.Process.Kill()
		<-exited
		return msg
	}
}

// pluginProcess runs the command with --plugin in a module of its own.
func pluginProcess(e *Env, kind string) string {
	dir := filepath.Join(e.Dir, "plug")
	tmp := filepath.Join(dir, "tmp")
	_ = os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	_ = os.MkdirAll(tmp, 0755)
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	src := filepath.Join(verifDir(), "mc")
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		mod, err = os.ReadFile("/verif/mc/go.mod")
		if err != nil {
			panic(err)
		}
		src = "/verif/mc"
	}
	sum, err := os.ReadFile(filepath.Join(src, "go.sum"))
	if err != nil {
		panic(err)
	}
	put("go.mod", string(mod))
	put("go.sum", string(sum))
	for _, p := range []string{"one", "two"} {
		put(p+"lit/plugin.go", "package "+p+"lit\n\nimport \"github.com/vito/booklit\"\n\nfunc init() { booklit.RegisterPlugin(\""+p+"\", New) }\n\nfunc New(s *booklit.Section) booklit.Plugin { return P{s} }\n\ntype P struct{ s *booklit.Section }\n\nfunc (P) From"+strings.Title(p)+"(c booklit.Content) booklit.Content { return booklit.Styled{Style: booklit.StyleBold, Content: c} }\n")
	}
	doc := "\\title{Index}\n\n\\use-plugin{one}\n\n\\from-one{hi}\n"
	args := []string{"--in", "index.lit", "--plugin", "verifmc/onelit"}
	want := "<strong>hi</strong>"
	fails := false
	switch kind {
	case "two plugins":
		doc += "\\use-plugin{two}\n\n\\from-two{there}\n"
		args = append(args, "-p", "verifmc/twolit")
		want = "<strong>there</strong>"
	case "failing document":
		doc += "\\use-plugin{two}\n"
		fails = true
	case "no such package":
		args = append(args, "--plugin", "verifmc/nosuch")
		fails = true
	case "text to a directory":
		args = append(args, "--out", "out", "--text-file-extension", "txt", "--text-templates", "tt")
		put("tt/page.tmpl", "{{. | render}}")
		put("tt/bold.tmpl", "<strong>{{.Content | render}}</strong>")
	}
	put("index.lit", doc)
	r := runCLI(dir, []string{"TMPDIR=" + tmp}, args...)
	e.Trans(1)
	left, _ := os.ReadDir(tmp)
	for _, x := range left {
		if strings.Contains(x.Name(), "booklit") {
			return "leaves " + x.Name() + " behind"
		}
	}
	if fails {
		if r.code == 0 {
			return "succeeds: " + r.stdout
		}
		if strings.TrimSpace(r.stderr) == "" {
			return "fails without saying why"
		}
		return ""
	}
	if r.code != 0 {
		return fmt.Sprintf("exits with %d: %s", r.code, r.stderr)
	}
	got := r.stdout
	if kind == "text to a directory" {
		b, err := os.ReadFile(filepath.Join(dir, "out", "index.txt"))
		if err != nil {
			return err.Error()
		}
		got = string(b)
	}
	if !strings.Contains(got, want) {
		return fmt.Sprintf("%q is not in %q", want, got)
	}
	return ""
}
