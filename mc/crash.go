package main

import (
	"bytes"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
)

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Rule: "a state is a set of documents; they are loaded and rendered as pages, search index and text, and errors printed both ways, for real; panics, internal faults and crashes of the process are violations", Run: runC09, QuickBudget: 120})
}

// textAll are templates for every kind of content that show its structure.
var textAll = map[string]string{
	"string.tmpl":       `'{{.String}}'`,
	"sequence.tmpl":     `{{range .Contents}}{{. | render}}{{end}}`,
	"paragraph.tmpl":    `P({{range $i, $l := .}}{{if $i}}|{{end}}{{$l | render}}{{end}})`,
	"preformatted.tmpl": `F({{range $i, $l := .}}{{if $i}}|{{end}}{{$l | render}}{{end}})`,
	"list.tmpl":         `{{if .Ordered}}olist{{else}}list{{end}}({{range $i, $l := .Items}}{{if $i}}|{{end}}{{$l | render}}{{end}})`,
	"table.tmpl":        `table({{range $j, $r := .Rows}}{{if $j}}|{{end}}row({{range $i, $l := $r}}{{if $i}}|{{end}}{{$l | render}}{{end}}){{end}})`,
	"definitions.tmpl":  `defs({{range $j, $r := .}}{{if $j}}|{{end}}def({{$r.Subject | render}}|{{$r.Definition | render}}){{end}})`,
	"link.tmpl":         `link[{{.Target}}]({{.Content | render}})`,
	"image.tmpl":        `image[{{.Path}}|{{.Description}}]`,
	"target.tmpl":       `target[{{.TagName}}]`,
	"reference.tmpl":    `ref[{{.TagName}}{{if .Tag}}|{{.Tag | url}}{{end}}]({{.Display | stripAux | render}})`,
	"toc.tmpl":          `toc({{range .Children}}[{{.Number}}|{{.PrimaryTag | url}}|{{.Title | stripAux | render}}{{if not .OmitChildrenFromTableOfContents}}{{template "toc.tmpl" .}}{{end}}]{{end}})`,
	"section.tmpl":      `section[{{.PrimaryTag.Name}}|{{.Number}}]({{.Title | render}}|{{.Body | render}}{{if not .SplitSections}}{{range .Children}}|{{. | render}}{{end}}{{end}})`,
	"page.tmpl":         `page[{{.Title.String}}]({{. | render}})`,
	"raw-html.tmpl":     `raw({{.Content | render}})`,
}

func init() {
	for _, s := range []string{"verbatim", "italic", "bold", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside", "arg", "q", "r", "a", "b", "s"} {
		textAll[s+".tmpl"] = s + `({{.Content | render}})`
	}
}

// internal marks errors that describe a fault of the program, not of the document.
var internal = []string{"runtime error", "nil pointer", "invalid memory", "index out of range", "slice bounds", "interface conversion", "reflect:", "reflect.", "unhashable", "uncomparable", "comparing", "hash of", "stack overflow", "goroutine ", "%!", "on zero Value"}

func findInternal(s string) string {
	for _, x := range internal {
		if strings.Contains(s, x) {
			return x
		}
	}
	return ""
}

type crashDriver struct {
	*siteDriver
	out  string
	html *render.HTMLEngine
	text *render.TextEngine
}

func newCrashDriver(e *Env) *crashDriver {
	d := &crashDriver{siteDriver: newSiteDriver(e, "s"), out: filepath.Join(e.Dir, "out"), html: render.NewHTMLEngine(), text: render.NewTextEngine("txt")}
	_ = os.MkdirAll(d.out, 0755)
	_ = os.MkdirAll(filepath.Join(d.dir, "sub"), 0755)
	t := newSiteDriver(e, "all")
	t.put(textAll)
	if err := d.text.LoadTemplates(t.dir); err != nil {
		panic(err)
	}
	return d
}

// reportErr prints an error both ways.
func reportErr(err error, docText string) string {
	msg := err.Error()
	var term bytes.Buffer
	if pe, ok := err.(booklit.PrettyError); ok {
		pe.PrettyPrint(&term)
	} else {
		fmt.Fprintln(&term, err)
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := rec.Body.String()
	for where, s := range map[string]string{"error": msg, "terminal report": term.String(), "error page": page} {
		if m := findInternal(s); m != "" && !strings.Contains(docText, m) {
			if i := strings.Index(s, m); len(s) > 3000 {
				s = s[max0(i-1000):min(i+1000, len(s))]
			}
			return fmt.Sprintf("the %s shows an internal fault (%s): %s", where, m, s)
		}
	}
	if strings.Contains(page, "failed to render error page") {
		return "the error page failed: " + page[max0(strings.Index(page, "failed to render error page")-200):]
	}
	if !strings.Contains(page, "</html>") {
		return "the error page is incomplete: " + page
	}
	return ""
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

func (d *crashDriver) check(e *Env, files map[string]string, broken bool) string {
	e.Traces(1)
	all := strings.Join(values(files), "")
	fail := func(stage string, err error) string {
		e.Count("failed "+stage, 1)
		if m := reportErr(err, all); m != "" {
			return stage + ": " + m
		}
		return ""
	}
	booklit.AllowBrokenReferences = broken
	defer func() { booklit.AllowBrokenReferences = false }()
	s, err := d.load(files, "index.lit")
	e.Trans(1)
	if err != nil {
		return fail("load", err)
	}
	clearDir(d.out)
	for _, engine := range []render.Engine{d.html, d.text} {
		w := render.Writer{Engine: engine, Destination: d.out}
		err := w.WriteSection(s)
		e.Trans(1)
		if err != nil {
			if m := fail("render "+engine.FileExtension(), err); m != "" {
				return m
			}
		} else {
			e.Count("rendered", 1)
		}
	}
	w := render.Writer{Engine: d.html, Destination: d.out}
	if err := w.WriteSearchIndex(s, "index.json"); err != nil {
		return fail("index", err)
	}
	return ""
}

func runC09(e *Env) {
	d := newCrashDriver(e)
	booklit.RegisterPlugin("vz", func(s *booklit.Section) booklit.Plugin { return &vz{s} })
	run := func(key string, files map[string]string) bool {
		if e.Mine() {
			broken := strings.Contains(key, "broken:")
			e.Exec(key, func() string { return d.check(e, files, broken) })
		}
		return !e.Stopped()
	}
	doc := func(t string) bool { return run(t, map[string]string{"index.lit": t}) }
	broken := func(t string) bool { return run("broken:"+t, map[string]string{"index.lit": t}) }

	var fns []string
	for f := range builtins {
		fns = append(fns, hyphen(f))
	}
	fns = append(fns, "nope", "a")
	sort.Strings(fns)
	atoms := []string{"", "x", "\n  x\n\n  y\n", "\\list", "\\list{a}{b}", "\\table-row{\\table-of-contents}", "\\table{\\table-row{a}}", "\\definition{a}{b}", "\\definitions", "\\title{T}{t8}", "\\title{}", "\\reference{t}", "\\reference{zz}", "\\target{t9}{\\reference{t}}", "\\target{}", "\\section{}", "\\section{\\title{S}{t7}}", "\\include-section{index.lit}", "\\include-section{sub}", "\\table-of-contents", "\\image{i}", "\\aux{\\aux{x}}", "\\aux{}", "\\set-partial{p}{\\target{u}}", "\\split-sections", "\\single-page", "\\bold{\\reference{t}}", "vp", "bold", "\\styled{bold}", "{{\n x\n}}", "{{{ \\x }}}", "\\image{}{}", "\\ordered-list{\\ordered-list{}}", "\\link{\\link{a}{b}}{c}", "\\use-plugin{vp}\\a"}
	contexts := []string{"%s\n\n\\target{tx}", "\\title{T %s}{tt}\n\n\\section{\\title{T}{t}}", "\\title{T}{t}\n\n\\section{\n%s\n\n\\table-of-contents\n}", "\\title{T}{t}\n\n\\table-of-contents \\split-sections\n\n\\section{\\title{%s}}"}
	e.Bound("every builtin function with 0..3 arguments, the first two each of %d contents, in %d contexts", len(atoms), len(contexts))
	for _, f := range fns {
		for _, c := range contexts {
			for n := 0; n <= 3; n++ {
				ok := true
				k := n
				if k > 2 {
					k = 2
				}
				if k == 2 && c != contexts[0] && !e.Thorough {
					continue
				}
				sequences(atoms, k, k, func(_ string, ix []int) bool {
					t := "\\" + f
					for _, i := range ix {
						if strings.HasPrefix(atoms[i], "{{") {
							t += atoms[i]
						} else {
							t += "{" + atoms[i] + "}"
						}
					}
					if n == 3 {
						t += "{z}"
					}
					ok = doc(fmt.Sprintf(c, t))
					if k < 2 {
						broken(fmt.Sprintf(c, t))
					}
					return ok
				})
				if !ok {
					return
				}
			}
		}
	}

	pieces := []piece{{"x", ""}, {"\n\n", ""}, {"\\title{", "}{t0}"}, {"\\section{", "}"}, {"\\section{\n\\title{T}\n\n", "\n}"}, {"\\aux{", "}"}, {"\\bold{", "}"}, {"\\code{", "}"}, {"\\list{", "}{y}"}, {"\\list", ""}, {"\\table{\\table-row{", "}}"}, {"\\table{", "}"}, {"\\definitions{\\definition{", "}{d}}"}, {"\\definitions{", "}"}, {"\\link{", "}{u}"}, {"\\link{l}{", "}"}, {"\\reference{t}{", "}"}, {"\\reference{t}", ""}, {"\\target{u}{", "}"}, {"\\target{u}{T}{", "}"}, {"\\set-partial{p}{", "}"}, {"\\image{", "}"}, {"\\table-of-contents", ""}, {"\\split-sections", ""}, {"\\inset{\n", "\n}"}, {"\\code{{\n", "\n}}"}, {"\\include-section{inc.lit}", ""}, {"\\styled{bold}", ""}, {"\\omit-children-from-table-of-contents", ""}}
	n := pick(e, 3, 4)
	e.Bound("all documents of <=%d nested pieces out of %d", n, len(pieces))
	balanced(pieces, 1, n, 4, func(t string, n int) bool {
		fs := map[string]string{"index.lit": t}
		if strings.Contains(t, "\\reference") {
			fs["index.lit"] += "\n\n\\section{\\title{Z}{t}}"
		}
		if strings.Contains(t, "inc.lit") {
			fs["inc.lit"] = "\\title{I}{t}\n\n\\section{\\title{J}\\reference{t}}"
		}
		return run(t, fs)
	})

	// including: all graphs
	incs := []string{"", "\\include-section{index.lit}", "\\include-section{a.lit}", "\\include-section{sub/b.lit}", "\\include-section{../a.lit}", "\\include-section{../index.lit}", "\\include-section{./sub/../a.lit}", "\\include-section{b.lit}", "\\section{\n\\title{In}\n\n\\include-section{a.lit}\n}", "\\section{\\section{\\include-section{index.lit}}}", "\\include-section{sub}", "\\include-section{}", "\\include-section{.}", "\\include-section{sub/}", "\\include-section{/dev/null}", "\\include-section{a.lit\x00}", "\\title{\\include-section{a.lit}}", "\\bold{\\include-section{sub/b.lit}} \\split-sections", "\\include-section{b.lit} \\include-section{b.lit}", "\\table-of-contents \\reference{t}", "{"}
	e.Bound("all sets of three documents in two directories, each with one of %d bodies (inclusion of every file, of directories, of missing and special files, cycles, twice, inside functions)", len(incs))
	for _, x := range incs {
		for _, y := range incs {
			for _, z := range incs {
				if !run(fmt.Sprintf("index.lit: %s\na.lit: %s\nsub/b.lit: %s", x, y, z), map[string]string{"index.lit": "\\title{T}{t}\n\n" + x, "a.lit": y + "\n\n\\title{A}", "sub/b.lit": z}) {
					return
				}
			}
		}
	}

	// titles and content that refer to each other
	rf := []string{"x", "\\reference{t1}", "\\reference{t2}", "\\reference{t3}", "\\table-of-contents", "\\target{t3}{\\reference{t1}}", "\\aux{\\reference{t2}}", "\\link{\\reference{t1}}{\\reference{t2}}", "\\bold{\\reference{t3}}", "\\image{\\reference{t1}}", "\\list{\\reference{t1}}", "\\table{\\table-row{\\reference{t2}}}", "\\target{\\reference{t1}}", "\\set-partial{p}{\\reference{t2}}"}
	if !e.Thorough {
		rf = rf[:8]
	}
	e.Bound("all pairs of %d contents as titles of two sections, referring to each other, also in the body", len(rf))
	for _, t1 := range rf {
		for _, t2 := range rf {
			if !doc("\\title{A " + t1 + "}{t1}\n\nbody\n\n\\section{\n\\title{B " + t2 + "}{t2}\n\n\\target{t3}{\\reference{t2}}\n}") {
				return
			}
			if e.Thorough {
				doc("\\title{A " + t1 + "}{t1}\n\n" + t2 + "\n\n\\section{\n\\title{B " + t2 + "}{t2}\n\n\\table-of-contents " + t1 + "\n}")
				broken("\\title{A " + t1 + "}{t1}\n\n\\section{\n\\title{B " + t2 + "}{t4}\n}")
			}
		}
	}

	// plugins that return unusual content
	zs := []string{"\\nil-sequence", "\\nil-paragraph", "\\nil-list", "\\nil-table", "\\nil-partials", "\\empty-style", "\\slash-style", "\\empty-definitions", "\\section-content", "\\lazy-nil", "\\lazy-error", "\\lazy-lazy", "\\orphan-reference", "\\root-toc", "\\no-title-tag", "\\nil-content-styled"}
	zc := []string{"%s", "\\bold{%s}", "\\title{%s}{t}", "\\list{%s}{x}", "\\aux{%s}", "\\target{u}{%s}{%s}", "\\reference{t}{%s}", "\\set-partial{p}{%s}", "\\section{\n\\title{%s}\n\n%s\n}", "\\definitions{\\definition{%s}{%s}}", "x\n%s\n\ny %s", "\\code{{\n%s\n}}", "\\link{%s}{%s}", "\\section{\n%s\n\n\\split-sections\n\n\\section{\\title{%s}}\n}"}
	e.Bound("%d unusual contents from plugins in %d contexts, in pairs", len(zs), len(zc))
	for _, z := range zs {
		for _, c1 := range zc {
			doc("\\use-plugin{vz}\n\n" + strings.ReplaceAll(c1, "%s", z))
			for _, c2 := range zc[1:5] {
				if !doc("\\use-plugin{vz}\n\n" + strings.ReplaceAll(c1, "%s", strings.ReplaceAll(c2, "%s", z))) {
					return
				}
			}
		}
	}

	// deep nesting
	deep := [][2]string{{"\\bold{", "}"}, {"\\list{", "}"}, {"\\aux{", "}"}, {"\\link{", "}{u}"}, {"\\target{t}{", "}"}, {"\\section{\n", "\n}"}, {"\\section{\\title{", "}}"}, {"\\inset{\n  ", "\n}"}, {"\\code{{\n", "\n}}"}, {"\\table{\\table-row{", "}}"}, {"\\definitions{\\definition{a}{", "}}"}, {"{- ", " -}"}, {"\\set-partial{p}{", "}"}, {"\\reference{t}{", "}"}, {"\\image{", "}"}, {"\\title{", "}"}, {"\\nope{", "}"}, {"\\section{\n\\split-sections\n\n\\title{T}\n\n", "\n}"}, {"\\bold{\n", "\n}"}, {"\\ordered-list{", "}{b}"}}
	depths := []int{10, 100, 1000}
	e.Bound("%d kinds of nesting alone and in pairs, to depths %v; truncated likewise", len(deep), depths)
	for i, a := range deep {
		for j, b := range deep {
			for _, n := range depths {
				if i != j && n == 1000 && !e.Thorough {
					n = 300
				}
				var o, c strings.Builder
				for k := 0; k < n; k++ {
					if k%2 == 0 || i == j {
						o.WriteString(a[0])
					} else {
						o.WriteString(b[0])
					}
				}
				for k := n - 1; k >= 0; k-- {
					if k%2 == 0 || i == j {
						c.WriteString(a[1])
					} else {
						c.WriteString(b[1])
					}
				}
				t := o.String() + "x" + c.String()
				if e.Mine() {
					e.Exec(fmt.Sprintf("%d levels of %q and %q", n, a, b), func() string { return d.check(e, map[string]string{"index.lit": t}, false) })
				}
				if i == j && e.Mine() {
					e.Exec(fmt.Sprintf("%d levels of %q, cut off", n, a), func() string { return d.check(e, map[string]string{"index.lit": o.String()}, false) })
				}
				if e.Stopped() {
					return
				}
			}
		}
	}
	e.Bound("every builtin function with 4..40 arguments of one of %d kinds, in paragraphs and as a title", len(atoms))
	for _, f := range fns {
		for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 40} {
			for _, a := range atoms {
				if !strings.HasPrefix(a, "{{") {
					a = "{" + a + "}"
				}
				t := "\\" + f + strings.Repeat(a, n)
				if !doc("\\title{T}{t}\n\n"+t+"\n\nx") || n < 6 && !doc("\\title{T "+t+"}{t}\n\nx") {
					return
				}
			}
		}
	}
	e.Bound("chains of 1..%d files including the next, and of inline sections", 200)
	for _, n := range []int{1, 10, 50, 200} {
		fs := map[string]string{"index.lit": "\\title{T}{t}\n\n\\table-of-contents\n\n\\include-section{f0.lit}"}
		for i := 0; i < n; i++ {
			fs[fmt.Sprintf("f%d.lit", i)] = fmt.Sprintf("\\title{T%d}\n\n\\include-section{f%d.lit}", i, i+1)
		}
		run(fmt.Sprintf("chain of %d, last missing", n), fs)
		fs2 := map[string]string{}
		for k, v := range fs {
			fs2[k] = v
		}
		fs2[fmt.Sprintf("f%d.lit", n)] = "end"
		run(fmt.Sprintf("chain of %d", n), fs2)
		fs3 := map[string]string{}
		for k, v := range fs {
			fs3[k] = v
		}
		fs3[fmt.Sprintf("f%d.lit", n)] = "\\include-section{f0.lit}"
		run(fmt.Sprintf("cycle of %d", n), fs3)
	}
}

func hyphen(method string) string {
	var b strings.Builder
	for i, r := range method {
		if r >= 'A' && r <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

// vz is a plugin returning unusual but valid content.
type vz struct{ s *booklit.Section }

func (p *vz) NilSequence() booklit.Content  { return booklit.Sequence(nil) }
func (p *vz) NilParagraph() booklit.Content { return booklit.Paragraph(nil) }
func (p *vz) NilList() booklit.Content      { return booklit.List{} }
func (p *vz) NilTable() booklit.Content     { return booklit.Table{Rows: [][]booklit.Content{nil, {}}} }
func (p *vz) NilPartials() booklit.Content {
	return booklit.Styled{Style: "bold", Content: booklit.Empty, Partials: nil}
}
func (p *vz) EmptyStyle() booklit.Content { return booklit.Styled{Content: booklit.String("x")} }
func (p *vz) SlashStyle() booklit.Content {
	return booklit.Styled{Style: "../x", Content: booklit.String("x")}
}
func (p *vz) EmptyDefinitions() booklit.Content { return booklit.Definitions{} }
func (p *vz) LazyNil() booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) { return booklit.Empty, nil })
}
func (p *vz) LazyError() booklit.Content {
	return booklit.LazyBlock(func() (booklit.Content, error) { return nil, fmt.Errorf("lazy failure") })
}
func (p *vz) LazyLazy() booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) { return p.LazyNil(), nil })
}
func (p *vz) RootToc() booklit.Content { return booklit.TableOfContents{Section: p.s.Top()} }
func (p *vz) SectionContent() (booklit.Content, error) {
	return &booklit.Section{Title: booklit.String("sc"), Body: booklit.Empty, Parent: p.s, PrimaryTag: booklit.Tag{Name: "sc", Section: p.s}}, nil
}
func (p *vz) OrphanReference() booklit.Content {
	return &booklit.Reference{Section: p.s.Top(), TagName: "nowhere"}
}
func (p *vz) NoTitleTag() { p.s.SetTag("ntt", booklit.Empty, p.s.InvokeLocation, "ntt") }
func (p *vz) NilContentStyled() booklit.Content {
	return booklit.Styled{Style: "bold", Content: booklit.Sequence{booklit.Empty, booklit.Sequence{}}}
}
