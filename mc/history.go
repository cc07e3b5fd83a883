package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Rule: "a history is a sequence of file states and requests; one long-lived real server answers it and every answer is compared with a newly started server's", Run: runC21, QuickBudget: 120})
	register(&Check{ID: "C23", Level: "model_checking", Rule: "a history is a sequence of template directory states; one real engine loads them in turn and is compared with a new engine that loads only the last", Run: runC23, QuickBudget: 120})
}

// A version is a file's content with its modification time. Times are unique
// to a content of a file, but neither increase along a history nor differ
// between files.
type version struct {
	text string
	at   time.Duration // since base
}

var historyBase = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

type fsDir struct {
	dir string
	has map[string]version
}

func newFSDir(e *Env, name string) *fsDir {
	d := &fsDir{filepath.Join(e.Dir, name), map[string]version{}}
	_ = os.MkdirAll(d.dir, 0755)
	return d
}

func (d *fsDir) path(name string) string {
	name, _, _ = strings.Cut(name, "@")
	return filepath.Join(d.dir, name)
}

// set makes the directory hold exactly the files. A name with a @ is that of a
// symbolic link; what follows the @ names the linked file, outside of the
// directory.
func (d *fsDir) set(files map[string]version) int {
	n := 0
	for name := range d.has {
		if _, ok := files[name]; !ok {
			if err := os.Remove(d.path(name)); err != nil {
				panic(err)
			}
			delete(d.has, name)
			n++
		}
	}
	for name, v := range files {
		if old, ok := d.has[name]; ok && old == v {
			continue
		}
		p := d.path(name)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if _, link, ok := strings.Cut(name, "@"); ok {
			target := d.dir + "-" + link
			if _, made := d.has[name]; !made {
				if err := os.Symlink(target, p); err != nil {
					panic(err)
				}
			}
			p = target
		}
		if err := os.WriteFile(p, []byte(v.text), 0644); err != nil {
			panic(err)
		}
		if err := os.Chtimes(p, historyBase.Add(v.at), historyBase.Add(v.at)); err != nil {
			panic(err)
		}
		d.has[name] = v
		n++
	}
	return n
}

// --- C23

type tmplState struct {
	name  string
	files map[string]version
}

const sec = time.Second

// Template directory states. ext-independent: the document uses only bold,
// italic and paragraphs.
var tmplStates = []tmplState{
	{"empty", nil},
	{"bold1", map[string]version{"bold.tmpl": {"B1[{{.Content | render}}]\n", 10 * sec}}},
	{"bold2", map[string]version{"bold.tmpl": {"B2[{{.Content | render}}]\n", 10*sec + 1}}},
	{"bold0", map[string]version{"bold.tmpl": {"B0[{{.Content | render}}]", -100 * sec}}},
	{"bad bold", map[string]version{"bold.tmpl": {"{{if}}", 20 * sec}}},
	{"italic", map[string]version{"italic.tmpl": {"I1[{{.Content | render}}]", 10 * sec}}},
	{"bold1+italic", map[string]version{"bold.tmpl": {"B1[{{.Content | render}}]\n", 10 * sec}, "italic.tmpl": {"I1[{{.Content | render}}]", 10 * sec}}},
	{"bold1+bad italic", map[string]version{"bold.tmpl": {"B1[{{.Content | render}}]\n", 10 * sec}, "italic.tmpl": {"{{end}}", 30 * sec}}},
	{"bold1+bad italic fixed", map[string]version{"bold.tmpl": {"B1[{{.Content | render}}]\n", 10 * sec}, "italic.tmpl": {"I2[{{.Content | render}}]", 31 * sec}}},
	{"bad bold+italic", map[string]version{"bold.tmpl": {"{{if}}", 20 * sec}, "italic.tmpl": {"I1[{{.Content | render}}]", 10 * sec}}},
	{"defines bold", map[string]version{"x.tmpl": {`{{define "bold.tmpl"}}D[{{.Content | render}}]{{end}}`, 10 * sec}}},
	{"new style", map[string]version{"zz.tmpl": {"Z[{{.Content | render}}]", 10 * sec}}},
	{"other zz", map[string]version{"zz.tmpl": {"ZZ[{{.Content | render}}]", 5 * sec}}},
	{"page", map[string]version{"page.tmpl": {"page({{. | render}})", 40 * sec}}},
	{"page uses bold", map[string]version{"page.tmpl": {`page({{template "bold.tmpl" .PrimaryTag}})`, 41 * sec}}},
	{"paragraph", map[string]version{"paragraph.tmpl": {"P({{range .}}{{.|render}}{{end}})", 10 * sec}}},
	{"paragraph fails", map[string]version{"paragraph.tmpl": {"{{.Nothing}}", 11 * sec}}},
	{"epoch bold", map[string]version{"bold.tmpl": {"E[{{.Content | render}}]", -historyEpoch}}},
	{"not a template", map[string]version{"bold.tmpl.bak": {"no", 10 * sec}, "bold1.tmp": {"no", 10 * sec}}},
	{"spaces", map[string]version{"italic.tmpl": {"\n \t I3[{{.Content | render}}]\t \n\t\n\n", 50 * sec}, "bold.tmpl": {" B3[{{.Content | render}}] ", 50 * sec}}},
	{"linked bold4", map[string]version{"bold.tmpl@one": {"B4[{{.Content | render}}]\n", 60 * sec}}},
	{"linked bold5", map[string]version{"bold.tmpl@one": {"B5[{{.Content | render}}]\n", 61 * sec}}},
	{"linked bold6", map[string]version{"bold.tmpl@two": {"B6[{{.Content | render}}]\n", 9 * sec}}},
	{"bold1 and backup", map[string]version{"bold.tmpl": {"B1[{{.Content | render}}]\n", 10 * sec}, "bold.tmpl~": {"{{if}}", 10 * sec}}},
}

var historyEpoch = time.Duration(historyBase.Unix()) * sec

func tmplStatesNamed(names ...string) []tmplState {
	var out []tmplState
	for _, n := range names {
		ok := false
		for _, s := range tmplStates {
			if s.name == n {
				out, ok = append(out, s), true
			}
		}
		if !ok {
			panic(n)
		}
	}
	return out
}

type loadResult struct {
	failed  bool
	outputs string // of several documents, with their errors
	docs    []string
	wrong   string // how a new engine's result is not what the files say
}

// tmplWants says what the states' templates do: what they make of the content
// C of each style, or that they cannot be loaded.
var tmplWants = map[string]map[string]string{
	"empty":                  {},
	"bold1":                  {"bold": "B1[C]"},
	"bold2":                  {"bold": "B2[C]"},
	"bold0":                  {"bold": "B0[C]"},
	"bad bold":               nil,
	"italic":                 {"italic": "I1[C]"},
	"bold1+italic":           {"bold": "B1[C]", "italic": "I1[C]"},
	"bold1+bad italic":       nil,
	"bold1+bad italic fixed": {"bold": "B1[C]", "italic": "I2[C]"},
	"bad bold+italic":        nil,
	"defines bold":           {"bold": "D[C]"},
	"new style":              {"zz": "Z[C]"},
	"other zz":               {"zz": "ZZ[C]"},
	"page":                   {"page": "page("},
	"page uses bold":         {"page": "page("},
	"paragraph":              {"paragraph": "P("},
	"paragraph fails":        {"paragraph": "error"},
	"epoch bold":             {"bold": "E[C]"},
	"not a template":         {},
	"bold1 and backup":       {"bold": "B1[C]"},
	"spaces":                 {"italic": "\n \t I3[C]\t \n\t", "bold": " B3[C] "},
	"linked bold4":           {"bold": "B4[C]"},
	"linked bold5":           {"bold": "B5[C]"},
	"linked bold6":           {"bold": "B6[C]"},
}

// judge compares a new engine's result with what the state's templates say,
// given a new engine's result for no templates.
func (r loadResult) judge(s tmplState, builtin loadResult, x string, styles map[string]string) string {
	want, ok := tmplWants[s.name]
	if !ok {
		panic(s.name)
	}
	if want == nil {
		if !r.failed {
			return fmt.Sprintf("a new engine loads %s, which has a file that is no template, without an error", s.name)
		}
		return ""
	}
	if r.failed {
		return fmt.Sprintf("a new engine cannot load %s", s.name)
	}
	for i, has := range [][]string{{}, {"bold"}, {"bold", "italic"}, {"zz"}} {
		got, made, failing := r.docs[i], "", want["paragraph"] == "error"
		for _, style := range has {
			t := want[style]
			if t == "" {
				t = styles[style]
			}
			if t == "" {
				failing = true
			}
			made += strings.Replace(t, "C", style, 1)
		}
		if s.name == "page uses bold" {
			continue
		}
		if failing != strings.HasPrefix(got, "error ") {
			return fmt.Sprintf("with %s, document %d renders as %q; it should fail: %v", s.name, i, got, failing)
		}
		if failing {
			continue
		}
		if !strings.Contains(got, x+made) {
			return fmt.Sprintf("with %s, document %d renders as %q, without %q", s.name, i, got, x+made)
		}
		if p := want["page"]; p != "" {
			if !strings.HasPrefix(got, p) {
				return fmt.Sprintf("with %s, document %d renders as %q, which page.tmpl did not make", s.name, i, got)
			}
			continue
		}
		if p := want["paragraph"]; p != "" {
			if !strings.Contains(got, p+x+made) {
				return fmt.Sprintf("with %s, document %d renders as %q, without its paragraph template", s.name, i, got)
			}
			continue
		}
		if exp := strings.Replace(builtin.docs[0], x, x+made, 1); got != exp {
			return fmt.Sprintf("with %s, document %d renders as %q, not as %q", s.name, i, got, exp)
		}
	}
	return ""
}

func historyDocs() []*booklit.Section {
	doc := func(c booklit.Content) *booklit.Section {
		s := &booklit.Section{Title: booklit.String("T"), Body: booklit.Paragraph{booklit.Sequence{booklit.String("<x>"), c}}, Path: "index.lit"}
		s.SetTitle(booklit.String("T"), s.Location, "t")
		return s
	}
	styled := func(style booklit.Style) booklit.Content {
		return booklit.Styled{Style: style, Content: booklit.String(string(style))}
	}
	return []*booklit.Section{
		doc(booklit.Empty),
		doc(styled("bold")),
		doc(booklit.Sequence{styled("bold"), styled("italic")}),
		doc(styled("zz")),
	}
}

func runC23(e *Env) {
	docs := historyDocs()
	newEngine := func(text bool) render.Engine {
		if text {
			return render.NewTextEngine("txt")
		}
		return render.NewHTMLEngine()
	}
	loadTmpl := func(eng render.Engine, dir string) error {
		if h, ok := eng.(*render.HTMLEngine); ok {
			return h.LoadTemplates(dir)
		}
		return eng.(*render.TextEngine).LoadTemplates(dir)
	}
	lookDocs := func(eng render.Engine) []string {
		var out []string
		for _, d := range docs {
			var b bytes.Buffer
			if err := eng.RenderSection(&b, d); err != nil {
				out = append(out, "error "+err.Error())
			} else {
				out = append(out, b.String())
			}
		}
		return out
	}
	look := func(eng render.Engine) string { return fmt.Sprintf("%q", lookDocs(eng)) }
	dir := newFSDir(e, "c23")
	fresh := map[string]loadResult{}
	var expect func(text bool, s tmplState) loadResult
	expect = func(text bool, s tmplState) loadResult {
		k := fmt.Sprint(text, s.name)
		if r, ok := fresh[k]; ok {
			return r
		}
		dir.set(s.files)
		eng := newEngine(text)
		r := loadResult{failed: loadTmpl(eng, dir.dir) != nil}
		if !r.failed {
			r.docs = lookDocs(eng)
			r.outputs = fmt.Sprintf("%q", r.docs)
		}
		builtin := r
		if s.name != "empty" {
			builtin = expect(text, tmplStates[0])
		}
		if text {
			r.wrong = r.judge(s, builtin, "<x>", nil)
		} else {
			r.wrong = r.judge(s, builtin, "&lt;x&gt;", map[string]string{"bold": "<strong>C</strong>", "italic": "<em>C</em>"})
		}
		fresh[k] = r
		return r
	}
	// mode 'a' renders after every load, 'e' only at the end, 't' loads twice
	play := func(text bool, mode byte, h []tmplState) string {
		for _, s := range h {
			if r := expect(text, s); r.wrong != "" {
				return r.wrong
			}
		}
		eng := newEngine(text)
		for i, s := range h {
			e.Trans(1)
			e.Count("file_changes", int64(dir.set(s.files)))
			want := expect(text, s)
			loads := 1
			if mode == 't' {
				loads = 2
			}
			for j := 0; j < loads; j++ {
				err := loadTmpl(eng, dir.dir)
				if (err != nil) != want.failed {
					return fmt.Sprintf("loading state %d (%s) again gives error %v; a new engine fails: %v", i+1, s.name, err, want.failed)
				}
			}
			if want.failed {
				e.Count("failing_loads", 1)
				continue
			}
			if mode == 'e' && i < len(h)-1 {
				continue
			}
			if got := look(eng); got != want.outputs {
				return fmt.Sprintf("after state %d (%s) renders\n%s\na new engine renders\n%s", i+1, s.name, got, want.outputs)
			}
		}
		return ""
	}
	hist := func(states []tmplState, n int) {
		idx := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if e.Stopped() {
				return
			}
			if i == n {
				for _, text := range []bool{false, true} {
					for _, mode := range []byte("aet") {
						if !e.Mine() {
							continue
						}
						h := make([]tmplState, n)
						names := make([]string, n)
						for j, x := range idx {
							h[j], names[j] = states[x], states[x].name
						}
						e.Exec(fmt.Sprintf("text=%v mode=%c %s", text, mode, strings.Join(names, " -> ")), func() string { return play(text, mode, h) })
					}
				}
				return
			}
			for x := range states {
				if i > 0 && idx[i-1] == x && states[x].name != "bad bold" { // loading an unchanged directory again is mode t
					continue
				}
				idx[i] = x
				rec(i + 1)
			}
		}
		rec(0)
	}
	e.Bound("directories of 1..40 templates of which one changes, two change one after the other, or all do, to newer, older, missing and broken versions, and back")
	manyTemplates(e, newEngine, loadTmpl)
	mid := tmplStatesNamed("empty", "bold1", "bold2", "bold0", "bad bold", "italic", "bold1+italic", "bold1+bad italic", "defines bold", "page")
	small := tmplStatesNamed("empty", "bold1", "bold0", "bad bold", "italic", "bold1+bad italic")
	wide := append(append([]tmplState{}, mid...), tmplStatesNamed("linked bold4", "linked bold5", "bad bold+italic", "paragraph fails", "epoch bold")...)
	e.Bound("both engines; rendering after every load, only after the last, and loading twice: all histories of length 1 and 2 over %d directory states, of length 3 over %d", len(tmplStates), len(wide))
	hist(tmplStates, 1)
	hist(tmplStates, 2)
	hist(wide, 3)
	e.Bound("all histories of length 4 over %d states", len(small))
	hist(small, 4)
	if e.Thorough {
		e.Bound("all histories of length 3 over %d states", len(tmplStates))
		hist(tmplStates, 3)
		e.Bound("all histories of length 4 over %d states", len(mid))
		hist(mid, 4)
		e.Bound("all histories of length 6 over %d states", len(small))
		hist(small, 6)
		e.Bound("all histories of length 4 over %d states", len(tmplStates))
		hist(tmplStates, 4)
	}
}

// --- C21

var c21Index = []struct {
	name string
	v    version
}{
	{"v1", version{"\\title{Home}{index}\n\nfirst \\bold{home} \\reference{a}\n\n\\include-section{a.lit}\n\n\\include-section{sub/a.lit}\n\n\\section{\n\\title{In}{in}\n\n{- comment -} inner \\table{\\table-row{x}{y}}\n}\n", 10 * sec}},
	{"v2", version{"\\title{Home}{index}\n\n\\split-sections\n\nsecond \\bold{home} \\reference{a}\n\n\\include-section{a.lit}\n\n\\include-section{sub/a.lit}\n", 10*sec + 1}},
	{"v0", version{"\\title{Older Home}{index}\n\nno a \\bold{here}\n", -50 * sec}},
	{"unparsable", version{"\\title{Home}{index}\n\nbroken } here\n", 20 * sec}},
	{"failing", version{"\\title{Home}{index}\n\n\\include-section{a.lit}\n\n\\no-such-function{here}\n", 30 * sec}},
	{"broken reference", version{"\\title{Home}{index}\n\n\\include-section{a.lit}\n\n\\reference{nowhere}{to nowhere}\n", 5 * sec}},
	{"gone", version{}},
	{"no index", version{"\\title{Home}{home}\n\n\\include-section{a.lit}\n", 7 * sec}},
}

var c21A = []struct {
	name string
	v    version
}{
	{"v1", version{"\\title{A}{a}\n\na one \\bold{bold}\n\n\\section{\n\\title{Kid}{kid}\n\ntext\n}\n", 10 * sec}},
	{"v2", version{"\\title{A}{a}\n\n\\use-plugin{vq}\n\na two \\bold{bold} \\who\n", 11 * sec}},
	{"v0", version{"\\title{A}{a}\n\na nought\n", -historyEpoch}},
	{"unparsable", version{"\\title{A}{a\n", 20 * sec}},
	{"failing", version{"\\title{A}{a}\n\n\\use-plugin{vq}\n\n\\fail{because}\n", 21 * sec}},
	{"gone", version{}},
	{"retagged", version{"\\title{A}{b}{missing}\n\nretagged\n", 10*sec + 500*time.Millisecond}},
}

type c21State struct {
	index, a, tmpl int // into c21Index, c21A, c21Tmpl
}

var c21Tmpl = tmplStatesNamed("empty", "bold1", "bold2", "bad bold", "defines bold", "bold0", "page", "italic", "bold1+bad italic")

func (s c21State) String() string {
	return fmt.Sprintf("index %s, a %s, templates %s", c21Index[s.index].name, c21A[s.a].name, c21Tmpl[s.tmpl].name)
}

func (s c21State) docs() map[string]version {
	out := map[string]version{"sub/a.lit": {"\\title{Sub}{sub}\n\nthe other \\bold{a}\n", 10 * sec}}
	if v := c21Index[s.index].v; v.text != "" {
		out["index.lit"] = v
	}
	if v := c21A[s.a].v; v.text != "" {
		out["a.lit"] = v
	}
	return out
}

type httpAnswer struct {
	code       int
	body, kind string
}

type c21Step struct {
	s   c21State
	req string
}

type c21Driver struct {
	e             *Env
	docs, tmpls   *fsDir
	static        *fsDir
	fs            http.Handler
	fresh         map[c21Step]httpAnswer
	staticVersion int
}

func newC21Driver(e *Env) *c21Driver {
	d := &c21Driver{e: e, docs: newFSDir(e, "c21"), tmpls: newFSDir(e, "c21-tmpl"), static: newFSDir(e, "c21-static"), fresh: map[c21Step]httpAnswer{}}
	d.fs = http.FileServer(http.Dir(d.static.dir))
	d.static.set(map[string]version{"static.txt": {"static text", 0}, "only.html": {"static page", 0}})
	return d
}

func (d *c21Driver) server() *booklitcmd.Server {
	return &booklitcmd.Server{In: filepath.Join(d.docs.dir, "index.lit"), Processor: &load.Processor{}, Templates: d.tmpls.dir, Engine: render.NewHTMLEngine(), FileServer: d.fs}
}

func (d *c21Driver) set(s c21State) {
	d.e.Count("file_changes", int64(d.docs.set(s.docs())+d.tmpls.set(c21Tmpl[s.tmpl].files)))
}

func (d *c21Driver) ask(h http.Handler, req string) httpAnswer {
	d.e.Trans(1)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", req, nil))
	return httpAnswer{w.Code, w.Body.String(), w.Header().Get("Content-Type")}
}

func (d *c21Driver) play(h []c21Step) string {
	for _, x := range h {
		if _, ok := d.fresh[x]; !ok {
			d.set(x.s)
			d.fresh[x] = d.ask(d.server(), x.req)
		}
	}
	srv := d.server()
	for i, x := range h {
		d.set(x.s)
		got := d.ask(srv, x.req)
		if want := d.fresh[x]; got != want {
			return fmt.Sprintf("answer %d (GET %s with %s) is %d %s %q; a new server gives %d %s %q", i+1, x.req, x.s, got.code, got.kind, got.body, want.code, want.kind, want.body)
		}
		if got.code != 200 {
			d.e.Count("failed_requests", 1)
		}
	}
	return ""
}

func c21Key(h []c21Step) string {
	var out []string
	for _, x := range h {
		out = append(out, fmt.Sprintf("[%s; GET %s]", x.s, x.req))
	}
	return strings.Join(out, " ")
}

// histories visits all sequences of n steps.
func (d *c21Driver) histories(n int, next func(prev *c21State) []c21Step) {
	h := make([]c21Step, 0, n)
	var rec func()
	rec = func() {
		if d.e.Stopped() {
			return
		}
		if len(h) == n {
			if d.e.Mine() {
				hh := append([]c21Step{}, h...)
				d.e.Exec(c21Key(hh), func() string { return d.play(hh) })
			}
			return
		}
		var prev *c21State
		if len(h) > 0 {
			prev = &h[len(h)-1].s
		}
		for _, x := range next(prev) {
			h = append(h, x)
			rec()
			h = h[:len(h)-1]
		}
	}
	rec()
}

func runC21(e *Env) {
	d := newC21Driver(e)
	states := func(is, as, ts []int) []c21State {
		var out []c21State
		for _, i := range is {
			for _, a := range as {
				for _, t := range ts {
					out = append(out, c21State{i, a, t})
				}
			}
		}
		return out
	}
	cross := func(ss []c21State, reqs ...string) []c21Step {
		var out []c21Step
		for _, s := range ss {
			for _, r := range reqs {
				out = append(out, c21Step{s, r})
			}
		}
		return out
	}
	upto := func(n int) []int {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	// edits of one file (or none) from the previous state
	edits := func(is, as, ts []int, reqs ...string) func(*c21State) []c21Step {
		return func(prev *c21State) []c21Step {
			if prev == nil {
				return cross([]c21State{{is[0], as[0], ts[0]}}, reqs...)
			}
			seen := map[c21State]bool{}
			var ss []c21State
			add := func(s c21State) {
				if !seen[s] {
					seen[s] = true
					ss = append(ss, s)
				}
			}
			add(*prev)
			for _, i := range is {
				add(c21State{i, prev.a, prev.tmpl})
			}
			for _, a := range as {
				add(c21State{prev.index, a, prev.tmpl})
			}
			for _, t := range ts {
				add(c21State{prev.index, prev.a, t})
			}
			return cross(ss, reqs...)
		}
	}

	all := states(upto(len(c21Index)), upto(len(c21A)), upto(len(c21Tmpl)))
	reqs := []string{"/", "/index.html", "/a.html", "/b.html", "/kid.html", "/missing.html", "/static.txt", "/only.html"}
	e.Bound("each of %d states of the files x %d requests, asked twice", len(all), len(reqs))
	for _, s := range all {
		for _, r := range reqs {
			h := []c21Step{{s, r}, {s, r}}
			e.Each(c21Key(h), func() string { return d.play(h) })
		}
	}
	e.Bound("edits of one file between requests: all histories of 3 requests over {/, /a.html, /kid.html} with all versions of each file, from a working site")
	d.histories(3, edits(upto(len(c21Index)), upto(len(c21A)), upto(len(c21Tmpl)), "/", "/a.html", "/kid.html"))
	few := []int{0, 1, 3, 4}
	fewA := []int{0, 1, 3, 5}
	fewT := []int{0, 1, 3, 5}
	e.Bound("any edits between requests: all histories of 2 requests over {/, /a.html, /static.txt} with 5 versions of each document and of the templates")
	pair := cross(states([]int{0, 1, 2, 3, 5}, []int{0, 1, 3, 4, 5}, []int{0, 1, 2, 3, 4}), "/", "/a.html", "/static.txt")
	d.histories(2, func(*c21State) []c21Step { return pair })
	e.Bound("edits of one file between requests: all histories of 5 requests with 4 versions of each document and of the templates; the first is / and every one may also be /a.html")
	d.histories(4, edits(few, fewA, fewT, "/", "/a.html"))
	d.histories(5, edits([]int{0, 3, 1}, []int{0, 4, 1}, []int{1, 3, 5}, "/"))
	if e.Thorough {
		e.Bound("edits of one file between requests: all histories of 4 requests over {/, /a.html} with all versions, of 5 over {/, /a.html} with 4 versions, of 7 over / with 3 versions")
		d.histories(4, edits(upto(len(c21Index)), upto(len(c21A)), upto(len(c21Tmpl)), "/", "/a.html"))
		d.histories(5, edits(few, fewA, fewT, "/", "/a.html"))
		d.histories(7, edits([]int{0, 3, 1}, []int{0, 4, 1}, []int{1, 3, 5}, "/"))
	}
	e.Bound("20 requests alternating between two states one edit apart, in which one is a working site")
	for _, s := range states([]int{0, 1, 3}, []int{0, 1, 3, 5}, []int{0, 1, 3}) {
		for _, t := range all {
			n := 0
			for _, differs := range []bool{s.index != t.index, s.a != t.a, s.tmpl != t.tmpl} {
				if differs {
					n++
				}
			}
			if n != 1 {
				continue
			}
			for _, r := range []string{"/", "/a.html"} {
				var h []c21Step
				for k := 0; k < 10; k++ {
					h = append(h, c21Step{s, r}, c21Step{t, r})
				}
				e.Each("alternating "+c21Key(h[:2])+r, func() string { return d.play(h) })
			}
		}
	}
	e.Bound("documents that include 1..33 files of which one changes, two change one after the other, or all do, to newer, older, missing and broken versions, and back")
	manyDocs(e, func(in string) http.Handler {
		return &booklitcmd.Server{In: in, Processor: &load.Processor{}, Engine: render.NewHTMLEngine(), FileServer: d.fs}
	})
	// the server's own file serving while documents change
	e.Bound("static files written and removed between requests")
	for _, name := range []string{"a.html", "static.txt", "index.html", "only.html", "missing.html"} {
		for _, s := range states([]int{0, 2, 3, 7}, []int{0, 5}, []int{0}) {
			for _, r := range reqs {
				name, s, r := name, s, r
				e.Each(fmt.Sprintf("static %s appears and goes: [%s; GET %s]", name, s, r), func() string {
					base := map[string]version{"static.txt": {"static text", 0}, "only.html": {"static page", 0}}
					defer d.static.set(base)
					srv := d.server()
					d.set(s)
					for i, v := range []version{{"one", 0}, {}, {"two", -sec}, {"three", sec}} {
						files := map[string]version{}
						for n, b := range base {
							files[n] = b
						}
						if v.text == "" {
							delete(files, name)
						} else {
							files[name] = v
						}
						d.static.set(files)
						got, want := d.ask(srv, r), d.ask(d.server(), r)
						if got != want {
							return fmt.Sprintf("answer %d is %d %q; a new server gives %d %q", i+1, got.code, got.body, want.code, want.body)
						}
					}
					return ""
				})
			}
		}
	}
	e.Count("distinct_answers_expected", int64(len(d.fresh)))
}

// --- directories with many files

// manyFiles calls f with directories of many files of which some change: each
// history starts with all n files in their first version. Versions are numbers,
// 0 is no file, below 0 a broken one; each is with its modification time.
func manyFiles(sizes []int, f func(name string, n int, states [][]int, at func(file, version int) time.Duration)) {
	at := func(file, v int) time.Duration {
		switch {
		case v == 2: // newer than all
			return time.Duration(1000+file) * sec
		case v == 3: // older than all
			return -time.Duration(1000+file) * sec
		case v == 4: // in between
			return time.Duration(10*file+5) * sec
		case v == 5: // just the other's time
			return time.Duration(10*(file+1)) * sec
		case v == 6: // a bit later
			return time.Duration(10*file)*sec + 1
		case v < 0:
			return time.Duration(10*file+7) * sec
		}
		return time.Duration(10*file) * sec
	}
	for _, n := range sizes {
		base := make([]int, n)
		for i := range base {
			base[i] = 1
		}
		with := func(s []int, i, v int) []int {
			out := append([]int{}, s...)
			out[i] = v
			return out
		}
		for i := 0; i < n; i++ {
			if n > 9 && i > 1 && i < n-2 && i != n/2 {
				continue
			}
			j := (i + n/2) % n
			for v := -1; v <= 6; v++ {
				if v == 1 {
					continue
				}
				s := with(base, i, v)
				f(fmt.Sprintf("%d files, %d becomes %d and back", n, i, v), n, [][]int{base, s, base, s}, at)
				if i != j {
					for _, w := range []int{-1, 0, 2, 3} {
						f(fmt.Sprintf("%d files, %d becomes %d, then %d becomes %d, and back", n, i, v, j, w), n, [][]int{base, s, with(s, j, w), s, with(base, j, w), base}, at)
					}
				}
			}
		}
		// each in turn
		for _, v := range []int{-1, 0, 2, 3, 6} {
			states := [][]int{base}
			s := base
			for i := 0; i < n; i++ {
				s = with(s, i, v)
				states = append(states, s)
			}
			for i := n - 1; i >= 0; i-- {
				s = with(s, i, 1)
				states = append(states, s)
			}
			f(fmt.Sprintf("%d files become %d one after the other and back", n, v), n, states, at)
		}
	}
}

// manyTemplates loads directories of many templates.
func manyTemplates(e *Env, newEngine func(bool) render.Engine, loadTmpl func(render.Engine, string) error) {
	d := newFSDir(e, "c23-many")
	manyFiles([]int{1, 2, 3, 4, 5, 9, 16, 17, 33, 40}, func(name string, n int, states [][]int, at func(int, int) time.Duration) {
		for _, text := range []bool{false, true} {
			text := text
			e.Each(fmt.Sprintf("text=%v %s", text, name), func() string {
				eng := newEngine(text)
				for k, s := range states {
					files := map[string]version{}
					broken := false
					for i, v := range s {
						t := fmt.Sprintf("s%d v%d[{{.Content | render}}]", i, v)
						if v < 0 {
							t, broken = "{{if}}", true
						}
						if v != 0 {
							files[fmt.Sprintf("s%d.tmpl", i)] = version{t, at(i, v)}
						}
					}
					e.Count("file_changes", int64(d.set(files)))
					e.Trans(1)
					if err := loadTmpl(eng, d.dir); (err != nil) != broken {
						return fmt.Sprintf("loading state %d gives error %v; one is broken: %v", k, err, broken)
					}
					if broken {
						continue
					}
					for i, v := range s {
						sec := &booklit.Section{Body: booklit.Styled{Style: booklit.Style(fmt.Sprintf("s%d", i)), Content: booklit.String("x")}, Path: "index.lit"}
						sec.SetTitle(booklit.String("T"), sec.Location, "t")
						var b bytes.Buffer
						err := eng.RenderSection(&b, sec)
						if v == 0 {
							if err == nil {
								return fmt.Sprintf("after state %d the template of style %d is gone, yet it renders as %q", k, i, b.String())
							}
							continue
						}
						if want := fmt.Sprintf("s%d v%d[", i, v); err != nil || !strings.Contains(b.String(), want) {
							return fmt.Sprintf("after state %d style %d renders as %q, %v, without %q", k, i, b.String(), err, want)
						}
					}
				}
				return ""
			})
		}
	})
}

// manyDocs answers requests for documents made of many files.
func manyDocs(e *Env, mk func(in string) http.Handler) {
	d := newFSDir(e, "c21-many")
	manyFiles([]int{1, 2, 3, 4, 5, 9, 16, 17, 33}, func(name string, n int, states [][]int, at func(int, int) time.Duration) {
		for _, split := range []string{"", "\\split-sections\n\n"} {
			split := split
			e.Each(fmt.Sprintf("split %v, %s", split != "", name), func() string {
				index := "\\title{Home}{index}\n\n" + split
				where := func(i int) string { // some with the same name in other directories
					return fmt.Sprintf("d%d/part-%d.lit", i%5, i/5)
				}
				for i := 0; i < n; i++ {
					index += "\\include-section{" + where(i) + "}\n\n"
				}
				h := mk(filepath.Join(d.dir, "index.lit"))
				for k, s := range states {
					files := map[string]version{"index.lit": {index, time.Duration(n) * sec}}
					broken := false
					for i, v := range s {
						t := fmt.Sprintf("\\title{P%d}{p%d}\n\nfile %d version %d.\n", i, i, i, v)
						if v < 0 {
							t = "{"
						}
						if v != 0 {
							files[where(i)] = version{t, at(i, v)}
						}
						broken = broken || v <= 0
					}
					e.Count("file_changes", int64(d.set(files)))
					for i := -1; i < n; i++ {
						if i > 2 && s[i] == 1 {
							continue
						}
						path := "/"
						if i >= 0 {
							path = fmt.Sprintf("/p%d.html", i)
						}
						e.Trans(1)
						w := httptest.NewRecorder()
						h.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
						if (w.Code >= 500) != broken {
							return fmt.Sprintf("after state %d GET %s gives %d; a file is missing or broken: %v", k, path, w.Code, broken)
						}
						if broken {
							break
						}
						if i < 0 && split != "" {
							continue
						}
						for j, v := range s {
							if i >= 0 && i != j {
								continue
							}
							if want := fmt.Sprintf("file %d version %d.", j, v); !strings.Contains(w.Body.String(), want) {
								return fmt.Sprintf("after state %d GET %s gives %q, without %q", k, path, w.Body.String(), want)
							}
						}
					}
				}
				return ""
			})
		}
	})
}
