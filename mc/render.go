package main

import (
	"bytes"
	"fmt"
	"html/template"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/render"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C32", Level: "model_checking", Rule: "a state is a content tree or a styled section tree, with a set of user templates; it is rendered by the real engines and compared with a reference renderer", Run: runC32, QuickBudget: 300})
}

// refRender renders a term as the templates of textAll do.
type refRender struct {
	n    int
	text bool // only the text engine's own templates exist
	err  string
}

func (r *refRender) label() string {
	r.n++
	return fmt.Sprintf("a%d", r.n)
}

func (r *refRender) fail(msg string) {
	if r.err == "" {
		r.err = msg
	}
}

func (r *refRender) kids(ts []*term, strip bool) string {
	var out []string
	for _, t := range ts {
		out = append(out, r.render(t, strip))
	}
	return strings.Join(out, "|")
}

// render gives the canonical text; within a reference, auxiliary content is
// stripped (but its labels count).
func (r *refRender) render(t *term, strip bool) string {
	switch t.k {
	case "str":
		return "'" + r.label() + "'"
	case "empty":
		return ""
	case "image":
		p := r.label()
		return "image[" + p + "|" + r.label() + "]"
	case "target":
		return "target[" + r.label() + "]"
	case "toc":
		return "toc([1|sec.EXT#kid|'kid'toc()])"
	case "ref", "opthit":
		return "ref[tt|sec.EXT#tt]('tagged')"
	case "opt":
		return "ref[no]()"
	case "optc":
		return "ref[no](" + r.render(t.kids[0], true) + ")"
	case "lazynil":
		return ""
	case "seq":
		var b strings.Builder
		for _, k := range t.kids {
			b.WriteString(r.render(k, strip))
		}
		return b.String()
	case "para":
		return "P(" + r.kids(t.kids, strip) + ")"
	case "pre":
		return "F(" + r.kids(t.kids, strip) + ")"
	case "list":
		return "list(" + r.kids(t.kids, strip) + ")"
	case "olist":
		return "olist(" + r.kids(t.kids, strip) + ")"
	case "rows":
		var out []string
		for _, k := range t.kids {
			out = append(out, "row("+r.render(k, strip)+")")
		}
		return "table(" + strings.Join(out, "|") + ")"
	case "row":
		return "table(row(" + r.kids(t.kids, strip) + "))"
	case "ragged":
		x := r.render(t.kids[0], strip)
		return "table(row(" + x + ")|row(" + r.kids(t.kids[1:], strip) + ")|row())"
	case "grid":
		a := r.kids(t.kids[:2], strip)
		return "table(row(" + a + ")|row(" + r.kids(t.kids[2:], strip) + "))"
	case "defs", "defs4":
		var out []string
		for i := 0; i+1 < len(t.kids); i += 2 {
			s := r.render(t.kids[i], strip)
			out = append(out, "def("+s+"|"+r.render(t.kids[i+1], strip)+")")
		}
		return "defs(" + strings.Join(out, "|") + ")"
	case "aux":
		if strip {
			x := *r
			x.render(t.kids[0], strip)
			r.n = x.n
			return ""
		}
		return r.render(t.kids[0], strip)
	case "bold", "italic", "verbatim", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside":
		return t.k + "(" + r.render(t.kids[0], strip) + ")"
	case "block":
		return "bold(" + r.render(t.kids[0], strip) + ")"
	case "nosuch", "nosuchp", "nosuchblock":
		r.fail("nosuch.tmpl")
		return ""
	case "nostyle":
		r.fail(".tmpl")
		return ""
	case "boldp":
		c := r.render(t.kids[0], strip)
		return "boldp(" + c + "|" + r.render(t.kids[1], strip) + "|)"
	case "link":
		c := r.render(t.kids[0], strip)
		return "link[" + r.label() + "](" + c + ")"
	case "refc":
		return "ref[tt|sec.EXT#tt](" + r.render(t.kids[0], true) + ")"
	case "targetc":
		s := "target[" + r.label() + "]"
		x := *r
		x.render(t.kids[0], strip) // not shown
		x.render(t.kids[1], strip)
		r.n = x.n
		return s
	case "lazy", "lazyblock":
		return r.render(t.kids[0], false) // stripping doesn't look inside
	case "lazyerr":
		r.fail(errLazy.Error())
		return ""
	}
	panic(t.k)
}

// strippedItems reports whether a reference has a list item, cell or such that
// stripping empties.
func strippedItems(t *term, inRef bool) bool {
	if t.k == "refc" || t.k == "optc" {
		inRef = true
	}
	if inRef {
		switch t.k {
		case "list", "olist", "row", "rows", "ragged", "grid", "defs", "defs4", "para", "pre", "boldp":
			for _, k := range t.kids {
				if allAux(k) {
					return true
				}
			}
		}
	}
	for _, k := range t.kids {
		if strippedItems(k, inRef) {
			return true
		}
	}
	return false
}

func allAux(t *term) bool {
	switch t.k {
	case "aux":
		return true
	case "seq":
		for _, k := range t.kids {
			if !allAux(k) {
				return false
			}
		}
		return true
	}
	return false
}

type renderDriver struct {
	sec     *booklit.Section
	dirs    *siteDriver
	engines map[string]render.Engine
}

func newRenderDriver(e *Env) *renderDriver {
	d := &renderDriver{dirs: newSiteDriver(e, "tmpl"), engines: map[string]render.Engine{}}
	d.sec = &booklit.Section{Path: "s.lit", Title: booklit.Empty, Body: booklit.Empty}
	d.sec.SetTitle(booklit.String("sec"), ast.Location{}, "sec")
	d.sec.SetTagAnchored("tt", booklit.Sequence{booklit.String("tagged"), booklit.Aux{Content: booklit.String("hidden")}}, ast.Location{}, nil, "tt")
	kid := &booklit.Section{Parent: d.sec, Title: booklit.Empty, Body: booklit.Empty}
	kid.SetTitle(booklit.Sequence{booklit.String("kid"), booklit.Aux{Content: booklit.String("hidden")}}, ast.Location{}, "kid")
	d.sec.Children = []*booklit.Section{kid}
	return d
}

// engine gives the engine of a kind with exactly these user templates.
func (d *renderDriver) engine(key, ext string, tmpl map[string]string) render.Engine {
	if en := d.engines[key]; en != nil {
		return en
	}
	dir := filepath.Join(d.dirs.dir, fmt.Sprint("d", len(d.engines)))
	_ = os.MkdirAll(dir, 0755)
	for n, s := range tmpl {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s+"\n"), 0644); err != nil {
			panic(err)
		}
	}
	var en interface {
		render.Engine
		LoadTemplates(string) error
	}
	if ext == "html" {
		en = render.NewHTMLEngine()
	} else {
		en = render.NewTextEngine(ext)
	}
	if err := en.LoadTemplates(dir); err != nil {
		panic(err)
	}
	d.engines[key] = en
	return en
}

// render shows a content as the body of a page without children.
func (d *renderDriver) render(en render.Engine, c booklit.Content) (string, error) {
	page := &booklit.Section{Path: "p.lit", Title: booklit.Empty, Body: c}
	page.SetTitle(booklit.String("page"), ast.Location{}, "page")
	var b bytes.Buffer
	err := en.RenderSection(&b, page)
	return b.String(), err
}

func (d *renderDriver) fresh(t *term) booklit.Content {
	// references keep the tags they found
	return (&termBuilder{label: "a", sec: d.sec}).build(t)
}

var canonAll = map[string]string{}

func init() {
	for k, v := range textAll {
		canonAll[k] = v
	}
	canonAll["boldp.tmpl"] = `boldp({{.Content | render}}|{{.Partial "Extra" | render}}|{{with .Partial "None"}}{{. | render}}{{end}}{{with .Partial "Other"}}{{. | render}}{{end}})`
}

func wantErr(err error, want string) string {
	if want == "" {
		if err != nil {
			return "rendering fails: " + err.Error()
		}
		return ""
	}
	if err == nil {
		return "rendering succeeds; expected an error about " + want
	}
	if !strings.Contains(err.Error(), want) {
		return fmt.Sprintf("rendering fails with %q; expected an error about %s", err, want)
	}
	return ""
}

// checkCanon renders with templates for every kind, twice, with both engines.
func (d *renderDriver) checkCanon(e *Env, t *term) string {
	e.Trans(t.size())
	for _, ext := range []string{"html", "txt"} {
		en := d.engine("all "+ext, ext, canonAll)
		c := d.fresh(t)
		for i := 0; i < 2; i++ {
			e.Traces(1)
			r := &refRender{}
			want := r.render(t, false)
			got, err := d.render(en, c)
			if m := wantErr(err, r.err); m != "" {
				return ext + ": " + m
			}
			if err != nil || strippedItems(t, false) {
				continue
			}
			want = "page[page](section[page|]('page'|" + strings.ReplaceAll(strings.ReplaceAll(want, "''", ""), "EXT", ext) + "))"
			// an empty text is as good as none
			if got = strings.ReplaceAll(got, "''", ""); got != want {
				return fmt.Sprintf("%s: rendered %s\nexpected:    %s", ext, got, want)
			}
		}
	}
	return ""
}

// --- built-in HTML templates

// htmlTokens lists the elements and the texts of a page's body.
func htmlTokens(page string) string {
	var out []string
	z := html.NewTokenizer(strings.NewReader(page))
	body := false
	for {
		switch z.Next() {
		case html.ErrorToken:
			return strings.Join(out, " ")
		case html.TextToken:
			if body {
				out = append(out, strings.Fields(string(z.Text()))...)
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			n, has := z.TagName()
			s := "<" + string(n)
			if s == "<body" {
				body = true
				continue
			}
			var as []string
			for has {
				var k, v []byte
				k, v, has = z.TagAttr()
				switch string(k) {
				case "href", "id", "src", "alt":
					as = append(as, string(k)+"="+string(v))
				}
			}
			sort.Strings(as)
			if body {
				out = append(out, strings.Join(append([]string{s}, as...), " ")+">")
			}
		case html.EndTagToken:
			n, _ := z.TagName()
			if string(n) == "body" {
				body = false
			}
			if body {
				out = append(out, "</"+string(n)+">")
			}
		}
	}
}

// builtin renders a term in the tokens of the built-in HTML templates.
func (r *refRender) builtin(t *term, flow func(*term) bool) string {
	all := func(pre, post string) string {
		var b strings.Builder
		for _, k := range t.kids {
			b.WriteString(pre + r.builtin(k, flow) + post)
		}
		return b.String()
	}
	el := func(n string) string { return " <" + n + "> " + r.builtin(t.kids[0], flow) + " </" + n + "> " }
	switch t.k {
	case "str":
		return " " + r.label() + " "
	case "empty":
		return ""
	case "image":
		p := r.label()
		return " <img alt=" + r.label() + " src=" + p + "> "
	case "target":
		return " <a id=" + r.label() + "> </a> "
	case "toc":
		return " <nav> <ul> <li> <a href=sec.html#kid> 1 kid </a> </li> </ul> </nav> "
	case "opt", "lazynil":
		return ""
	case "ref", "opthit":
		return " <a href=sec.html#tt> tagged </a> "
	case "seq", "aux", "lazy", "lazyblock":
		return all("", "")
	case "para":
		return " <p> " + all("", "") + " </p> "
	case "pre":
		return all("", "")
	case "list":
		return " <ul> " + all(" <li> ", " </li> ") + " </ul> "
	case "olist":
		return " <ol> " + all(" <li> ", " </li> ") + " </ol> "
	case "rows":
		return " <table> " + all(" <tr> <td> ", " </td> </tr> ") + " </table> "
	case "row":
		return " <table> <tr> " + all(" <td> ", " </td> ") + " </tr> </table> "
	case "grid":
		out := " <table> "
		for i, k := range t.kids {
			if i%2 == 0 {
				out += " <tr> "
			}
			out += " <td> " + r.builtin(k, flow) + " </td> "
			if i%2 == 1 {
				out += " </tr> "
			}
		}
		return out + " </table> "
	case "defs", "defs4":
		out := " <dl> "
		for i, k := range t.kids {
			out += []string{" <dt> ", " <dd> "}[i%2] + r.builtin(k, flow) + []string{" </dt> ", " </dd> "}[i%2]
		}
		return out + " </dl> "
	case "bold", "block":
		return el("strong")
	case "italic":
		return el("em")
	case "larger", "smaller", "strike":
		return el("span")
	case "superscript":
		return el("sup")
	case "subscript":
		return el("sub")
	case "inset":
		return el("div")
	case "aside":
		return el("blockquote")
	case "verbatim":
		if flow(t.kids[0]) {
			return el("code")
		}
		return el("pre")
	case "link":
		c := r.builtin(t.kids[0], flow)
		return " <a href=" + r.label() + "> " + c + " </a> "
	case "refc":
		return " <a href=sec.html#tt> " + r.builtin(t.kids[0], flow) + " </a> "
	case "nosuch", "nosuchp", "nosuchblock":
		r.fail("nosuch.tmpl")
		return ""
	case "nostyle":
		r.fail(".tmpl")
		return ""
	case "boldp":
		r.fail("boldp.tmpl")
		return ""
	case "lazyerr":
		r.fail(errLazy.Error())
		return ""
	}
	panic(t.k)
}

func (d *renderDriver) flow(t *term) bool {
	return d.fresh(t).IsFlow()
}

func fields(s string) string { return strings.Join(strings.Fields(s), " ") }

func (d *renderDriver) checkBuiltin(e *Env, t *term) string {
	e.Trans(t.size())
	e.Traces(1)
	r := &refRender{}
	want := fields(r.builtin(t, d.flow))
	got, err := d.render(d.engine("builtin", "html", nil), d.fresh(t))
	if m := wantErr(err, r.err); m != "" || err != nil {
		return m
	}
	g := htmlTokens(got)
	w := fields("<h1> <a id=page> </a> page </h1> " + want)
	if strings.ReplaceAll(g, " ", "") != strings.ReplaceAll(w, " ", "") {
		return fmt.Sprintf("rendered: %s\nexpected: %s", g, w)
	}
	if !strings.HasPrefix(got, "<!DOCTYPE html>") || !strings.HasSuffix(strings.TrimSpace(got), "</html>") {
		return "the page is incomplete: " + got
	}
	return ""
}

// --- one template overridden

// labels lists the labels in the order they are shown.
var labels = regexp.MustCompile(`a[0-9]+`)

// templateOf names the template of a kind.
func templateOf(k string) string {
	switch k {
	case "str":
		return "string"
	case "seq":
		return "sequence"
	case "para":
		return "paragraph"
	case "pre":
		return "preformatted"
	case "olist":
		return "list"
	case "rows", "row", "ragged", "grid":
		return "table"
	case "defs", "defs4":
		return "definitions"
	case "ref", "refc", "opt", "optc", "opthit":
		return "reference"
	case "block":
		return "bold"
	}
	return k
}

func (d *renderDriver) checkOverride(e *Env, t *term, name, marker string) string {
	if (name == "string" || name == "sequence") && t.has("toc", "ref", "opthit") {
		return "" // their titles are stripped, whatever that yields
	}
	e.Traces(1)
	e.Trans(t.size())
	en := d.engine("override "+name, "html", map[string]string{name + ".tmpl": marker})
	plain, err1 := d.render(d.engine("builtin", "html", nil), d.fresh(t))
	got, err2 := d.render(en, d.fresh(t))
	if (err1 != nil) != (err2 != nil) {
		return fmt.Sprintf("with %s.tmpl overridden: %v; without: %v", name, err2, err1)
	}
	if err1 != nil {
		return ""
	}
	n := 0
	var count func(t *term)
	count = func(t *term) {
		if templateOf(t.k) == name {
			n++
		}
		if name == "string" && t.k == "empty" {
			n++
		}
		for _, k := range t.kids {
			count(k)
		}
	}
	count(t)
	if name == "string" || name == "section" || name == "page" {
		n++ // the page's title
	}
	if g := strings.Count(got, "\u00a7"); g != n {
		return fmt.Sprintf("%s.tmpl was used %d times, expected %d: %s", name, g, n, got)
	}
	g, w := strings.Join(labels.FindAllString(got, -1), " "), strings.Join(labels.FindAllString(plain, -1), " ")
	if g != w {
		return fmt.Sprintf("with %s.tmpl overridden, the page shows %s\nwithout:    %s", name, g, w)
	}
	return ""
}

// --- text engine

// textBuiltin renders a term by the text engine's own templates.
func (r *refRender) textBuiltin(t *term) string {
	all := func() string {
		var b strings.Builder
		for _, k := range t.kids {
			b.WriteString(" " + r.textBuiltin(k) + " ")
		}
		return b.String()
	}
	switch t.k {
	case "str":
		return r.label()
	case "empty", "lazynil":
		return ""
	case "toc":
		return " 1 kid "
	case "seq", "para", "pre", "inset", "aux", "lazy", "lazyblock":
		return all()
	case "nosuch", "nosuchp", "nosuchblock", "nostyle":
		if r.err == "" {
			r.err = ".tmpl"
		}
	case "lazyerr":
		if r.err == "" {
			r.err = errLazy.Error()
		}
	case "image", "target":
		if r.err == "" {
			r.err = t.k + ".tmpl"
		}
	default:
		if r.err == "" {
			r.err = templateOf(t.k) + ".tmpl"
		}
	}
	return ""
}

func (d *renderDriver) checkText(e *Env, t *term) string {
	e.Traces(1)
	e.Trans(t.size())
	r := &refRender{}
	want := fields(r.textBuiltin(t))
	got, err := d.render(d.engine("text", "txt", nil), d.fresh(t))
	if m := wantErr(err, r.err); m != "" || err != nil {
		return m
	}
	// (the layout is not at issue)
	g := strings.Join(strings.Fields(got), "")
	if w := strings.Join(strings.Fields("page page "+want), ""); g != w {
		return fmt.Sprintf("rendered: %s\nexpected: %s", g, w)
	}
	return ""
}

// --- styled sections

type styledCase struct {
	tmpl             int // set of user templates
	root, mid, child string
	split            bool
	ext              string
}

var sectionTemplates = []string{"s", "s-page", "t", "t-page", "page", "section"}

func (d *renderDriver) checkStyled(e *Env, c styledCase) string {
	e.Traces(1)
	e.Trans(3)
	tmpl := map[string]string{"string.tmpl": "{{.String}}", "sequence.tmpl": "{{range .Contents}}{{. | render}}{{end}}"}
	has := map[string]bool{}
	for i, n := range sectionTemplates {
		if c.tmpl&(1<<i) == 0 {
			continue
		}
		has[n] = true
		if strings.HasSuffix(n, "page") {
			tmpl[n+".tmpl"] = n + "[{{.Title.String}}]({{. | render}})"
		} else {
			tmpl[n+".tmpl"] = n + "({{.Title | render}} {{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}})"
		}
	}
	if !has["page"] {
		has["page"] = true // built in; made visible by its content only
	}
	en := d.engine(fmt.Sprint("styled ", c.ext, c.tmpl), c.ext, tmpl)
	mk := func(name, style string, parent *booklit.Section) *booklit.Section {
		s := &booklit.Section{Path: "p.lit", Body: booklit.String("body-" + name), Style: style, Parent: parent}
		s.SetTitle(booklit.String(name), ast.Location{}, name)
		if parent != nil {
			parent.Children = append(parent.Children, s)
		}
		return s
	}
	root := mk("root", c.root, nil)
	mid := mk("mid", c.mid, root)
	mid.SplitSections = c.split
	mk("child", c.child, mid)
	mk("last", "", root)

	var missing []string
	var section func(s *booklit.Section) string
	section = func(s *booklit.Section) string {
		n := s.Style
		if n == "" {
			n = "section"
		} else if !has[n] {
			missing = append(missing, n+".tmpl")
			n = "section"
		}
		number := ""
		if n == "section" && !has[n] {
			number = s.Number()
		}
		out := " " + n + " ( " + number + " " + s.Title.String() + " " + s.Body.String()
		if !c.split || s != mid {
			for _, k := range s.Children {
				out += section(k)
			}
		}
		return out + " ) "
	}
	for _, top := range []*booklit.Section{root, mid, mid.Children[0]} {
		missing = nil
		page := "page"
		if top.Style != "" && has[top.Style+"-page"] {
			page = top.Style + "-page"
		}
		want := fields(" " + page + " [ " + top.Title.String() + " ] ( " + section(top) + " ) ")
		for i := 0; i < 2; i++ {
			var b bytes.Buffer
			err := en.RenderSection(&b, top)
			if err != nil {
				named := false
				for _, n := range missing {
					named = named || strings.Contains(err.Error(), n)
				}
				if !named {
					return fmt.Sprintf("page of %s: %v", top.Title, err)
				}
				continue
			}
			got := b.String()
			for _, x := range []string{"(", ")", "[", "]"} {
				got = strings.ReplaceAll(got, x, " "+x+" ")
			}
			got = fields(got)
			// the built-in page and section templates show no marks: compare
			// the names, titles and bodies in order
			if m := compareStyled(got, want, c.tmpl&(1<<4) != 0, c.tmpl&(1<<5) != 0, c.ext); m != "" {
				return fmt.Sprintf("page of %s (without %s): %s", top.Title, missing, m)
			}
		}
	}
	return ""
}

// words of a page, without markup and the marks of templates that are
// not there.
func compareStyled(got, want string, userPage, userSection bool, ext string) string {
	drop := func(s string, html bool) string {
		if html {
			s = regexp.MustCompile(`<title>[^<]*</title>`).ReplaceAllString(s, " ")
			s = regexp.MustCompile(`<[^>]*>`).ReplaceAllString(s, " ")
		}
		var out []string
		for _, w := range strings.Fields(s) {
			switch w {
			case "(", ")", "[", "]":
				continue
			}
			out = append(out, w)
		}
		return strings.Join(out, " ")
	}
	g := drop(got, ext == "html")
	var ws []string
	parts := strings.Fields(drop(want, false))
	for i, w := range parts {
		if w == "page" && !userPage {
			continue
		}
		if i == 1 && parts[0] == "page" && !userPage && ext == "html" {
			continue // in the head
		}
		if w == "section" && !userSection {
			continue
		}
		ws = append(ws, w)
	}
	w := strings.Join(ws, " ")
	if strings.ReplaceAll(g, " ", "") != strings.ReplaceAll(w, " ", "") {
		return fmt.Sprintf("shows    %s\nexpected: %s", g, w)
	}
	return ""
}

// --- strings

func (d *renderDriver) checkString(e *Env, s string) string {
	e.Traces(2)
	c := booklit.String(s)
	got, err := d.render(d.engine("all txt", "txt", canonAll), c)
	if err != nil {
		return err.Error()
	}
	if w := "page[page](section[page|]('page'|'" + s + "'))"; got != w {
		return fmt.Sprintf("text: rendered %q, expected %q", got, w)
	}
	got, err = d.render(d.engine("all html", "html", canonAll), c)
	if err != nil {
		return err.Error()
	}
	w := "page[page](section[page|]('page'|'" + s + "'))"
	w = strings.ReplaceAll(w, "\x00", "\uFFFD")
	if g := html.UnescapeString(got); g != w && g != template.HTMLEscapeString(w) {
		return fmt.Sprintf("html: rendered %q, expected %q", g, w)
	}
	return ""
}

func runC32(e *Env) {
	d := newRenderDriver(e)
	kinds := []tkind{{"str", 0, 0}, {"empty", 0, 0}, {"image", 0, 0}, {"ref", 0, 0}, {"target", 0, 0}, {"toc", 0, 0}, {"lazyerr", 0, 0}, {"lazynil", 0, 0}, {"opt", 0, 0}, {"opthit", 0, 0}, {"seq", 0, 3}, {"aux", 1, 1}, {"bold", 1, 1}, {"boldp", 2, 2}, {"block", 1, 1}, {"nosuch", 1, 1}, {"nosuchp", 2, 2}, {"nosuchblock", 1, 1}, {"nostyle", 1, 1}, {"para", 0, 3}, {"pre", 0, 3}, {"list", 0, 3}, {"olist", 0, 2}, {"row", 1, 3}, {"rows", 1, 3}, {"ragged", 1, 3}, {"defs", 2, 2}, {"link", 1, 1}, {"refc", 1, 1}, {"optc", 1, 1}, {"targetc", 2, 2}, {"lazy", 1, 1}, {"lazyblock", 1, 1}}
	max := pick(e, 4, 5)
	e.Bound("all content trees of <=%d nodes over %d kinds (with missing templates, failing and succeeding deferred content), rendered twice by both engines with templates that show every kind", max, len(kinds))
	allTerms(kinds, max, func(t *term) bool {
		if e.Mine() {
			e.Exec("content "+t.String(), func() string { return d.checkCanon(e, t) })
		}
		return !e.Stopped()
	})
	e.Bound("%s", bigTerms(kinds, 40, 12, []int{50, 110, 300}, func(t *term) bool {
		if e.Mine() {
			e.Exec("content "+t.String(), func() string { return d.checkCanon(e, t) })
		}
		return !e.Stopped()
	}))

	html := []tkind{{"str", 0, 0}, {"empty", 0, 0}, {"image", 0, 0}, {"ref", 0, 0}, {"target", 0, 0}, {"toc", 0, 0}, {"lazyerr", 0, 0}, {"lazynil", 0, 0}, {"opt", 0, 0}, {"opthit", 0, 0}, {"seq", 0, 2}, {"aux", 1, 1}, {"bold", 1, 1}, {"italic", 1, 1}, {"larger", 1, 1}, {"smaller", 1, 1}, {"strike", 1, 1}, {"superscript", 1, 1}, {"subscript", 1, 1}, {"inset", 1, 1}, {"aside", 1, 1}, {"verbatim", 1, 1}, {"nosuch", 1, 1}, {"nosuchp", 2, 2}, {"nosuchblock", 1, 1}, {"nostyle", 1, 1}, {"block", 1, 1}, {"boldp", 2, 2}, {"para", 0, 2}, {"pre", 0, 2}, {"list", 0, 2}, {"olist", 0, 2}, {"row", 1, 2}, {"rows", 1, 2}, {"defs", 2, 2}, {"link", 1, 1}, {"lazy", 1, 1}, {"lazyblock", 1, 1}}
	max = pick(e, 3, 4)
	e.Bound("all content trees of <=%d nodes over %d kinds with the built-in HTML templates", max, len(html))
	allTerms(html, max, func(t *term) bool {
		if e.Mine() {
			e.Exec("builtin "+t.String(), func() string { return d.checkBuiltin(e, t) })
		}
		return !e.Stopped()
	})
	e.Bound("%s", bigTerms(html, 40, 12, []int{50, 110}, func(t *term) bool {
		if e.Mine() {
			e.Exec("builtin "+t.String(), func() string { return d.checkBuiltin(e, t) })
		}
		return !e.Stopped()
	}))

	text := []tkind{{"str", 0, 0}, {"empty", 0, 0}, {"toc", 0, 0}, {"lazyerr", 0, 0}, {"lazynil", 0, 0}, {"opt", 0, 0}, {"opthit", 0, 0}, {"image", 0, 0}, {"ref", 0, 0}, {"target", 0, 0}, {"bold", 1, 1}, {"nosuch", 1, 1}, {"nosuchp", 2, 2}, {"nosuchblock", 1, 1}, {"nostyle", 1, 1}, {"list", 1, 1}, {"row", 1, 1}, {"defs", 2, 2}, {"link", 1, 1}, {"refc", 1, 1}, {"seq", 0, 3}, {"para", 0, 3}, {"pre", 0, 3}, {"inset", 1, 1}, {"aux", 1, 1}, {"lazy", 1, 1}, {"lazyblock", 1, 1}}
	max = pick(e, 4, 5)
	e.Bound("all content trees of <=%d nodes over %d kinds with the text engine's own templates, most kinds having none", max, len(text))
	allTerms(text, max, func(t *term) bool {
		if e.Mine() {
			e.Exec("text "+t.String(), func() string { return d.checkText(e, t) })
		}
		return !e.Stopped()
	})
	e.Bound("%s", bigTerms(text, 40, 12, []int{50, 110, 300}, func(t *term) bool {
		if e.Mine() {
			e.Exec("text "+t.String(), func() string { return d.checkText(e, t) })
		}
		return !e.Stopped()
	}))

	wide := []tkind{{"str", 0, 0}, {"bold", 1, 1}, {"aux", 1, 1}, {"seq", 0, 2}, {"grid", 4, 4}, {"defs4", 4, 4}, {"list", 1, 4}}
	max = pick(e, 6, 8)
	e.Bound("all content trees of <=%d nodes over %d kinds with tables of two rows and columns and two definitions, by templates of both engines and the built-in ones", max, len(wide))
	allTerms(wide, max, func(t *term) bool {
		if !t.has("grid", "defs4") {
			return true
		}
		if e.Mine() {
			e.Exec("wide "+t.String(), func() string {
				if m := d.checkCanon(e, t); m != "" {
					return m
				}
				return d.checkBuiltin(e, t)
			})
		}
		return !e.Stopped()
	})

	// one user template among the built-in ones
	override := map[string]string{
		"string": "§{{.String}}", "sequence": "§{{range .Contents}}{{. | render}}{{end}}", "paragraph": "§{{range .}}{{. | render}} {{end}}", "preformatted": "§{{range .}}{{. | render}} {{end}}",
		"list": "§{{range .Items}}{{. | render}} {{end}}", "table": "§{{range .Rows}}{{range .}}{{. | render}} {{end}}{{end}}", "definitions": "§{{range .}}{{.Subject | render}} {{.Definition | render}}{{end}}",
		"link": "§ {{.Target}} {{.Content | render}}", "image": "§ {{.Path}} {{.Description}}", "target": "§ {{.TagName}}", "reference": "§ {{.Display | stripAux | render}}", "toc": "§ {{range .Children}}{{.Title | stripAux | render}}{{end}}",
		"section": "§ {{.Title | render}} {{.Body | render}}", "page": "§ {{. | render}}",
	}
	for _, s := range []string{"verbatim", "italic", "bold", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside"} {
		override[s] = "§ {{.Content | render}}"
	}
	over := html[:0:0]
	for _, k := range html {
		switch k.k {
		case "nosuch", "nosuchp", "nosuchblock", "nostyle", "boldp", "lazyerr", "lazynil":
		default:
			over = append(over, k)
		}
	}
	names := values2(override)
	max = pick(e, 3, 4)
	e.Bound("all content trees of <=%d nodes over %d kinds, with each of the %d built-in HTML templates that they use replaced by a marked one", max, len(over), len(names))
	allTerms(over, max, func(t *term) bool {
		if !e.Mine() {
			return !e.Stopped()
		}
		for _, n := range names {
			uses := n == "section" || n == "page" || n == "string" && t.size() < 3
			var walk func(t *term)
			walk = func(t *term) {
				uses = uses || templateOf(t.k) == n
				for _, k := range t.kids {
					walk(k)
				}
			}
			walk(t)
			if uses && (t.size() < 3 || n != "section" && n != "page") {
				e.Exec("override "+n+" "+t.String(), func() string { return d.checkOverride(e, t, n, override[n]) })
			}
		}
		return !e.Stopped()
	})

	// styled sections
	styles := []string{"", "s", "t", "u"}
	e.Bound("all %d sets of user templates (a style's section and page templates, page, section) times styles of a section, its child and its grandchild, split or not, both engines; the page of each is rendered twice", 1<<len(sectionTemplates))
	for m := 0; m < 1<<len(sectionTemplates); m++ {
		for _, a := range styles {
			for _, b := range styles {
				for _, cc := range styles {
					for _, split := range []bool{false, true} {
						for _, ext := range []string{"html", "txt"} {
							c := styledCase{m, a, b, cc, split, ext}
							if e.Mine() {
								e.Exec(fmt.Sprintf("styled %+v", c), func() string { return d.checkStyled(e, c) })
							}
							if e.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	}

	alpha := []string{"a", " ", "\n", "\t", "<", "&", "'", "{{", "é", "\x01"}
	max = pick(e, 4, 5)
	e.Bound("all strings of <=%d out of %d characters, rendered verbatim", max, len(alpha))
	sequences(alpha, 0, max, func(s string, ix []int) bool {
		if e.Mine() {
			e.Exec(fmt.Sprintf("string %q", s), func() string { e.Trans(len(ix)); return d.checkString(e, s) })
		}
		return !e.Stopped()
	})
}

func values2(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
