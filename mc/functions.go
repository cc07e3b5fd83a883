package main

import (
	"bytes"
	"fmt"
	"html"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
)

// C33: the functions that users' templates call. Templates that show what each
// function gives are loaded into the real engines, for section trees and for
// texts.

func init() {
	register(&Check{ID: "C33", Level: "model_checking", Rule: "a state is a section tree or a text given to templates that show what every template function makes of it, in both engines; compared with the reference model of the tree, and with the text", QuickBudget: 200, Run: runC33})
}

// what a template shows of every section of the tree, starting with the top
// one, on the page of every section
const navTemplate = `({{if eq .Section .Current}}here {{end}}{{if .Section.Contains .Current}}around {{end}}n={{.Section.Number}} d={{.Section.Depth}} p={{.Section.PageDepth}} t={{.Section.Title | stripAux | render}} tt={{with .Section.Next}}{{.Number}}{{end}}<{{with .Section.Prev}}{{.Number}}{{end}} u={{.Section.PrimaryTag.Name}}%s{{range .Section.Tags}} g={{.Name}}:%s{{end}}{{$c := .Current}}{{range .Section.Children}}{{template "nav.tmpl" (walkContext $c .)}}{{end}})`

func htmlNav() map[string]string {
	u := func(tag string) string {
		return `⟪{{` + tag + ` | url}}⟫<a href="{{` + tag + ` | url}}"></a>`
	}
	return map[string]string{
		"nav.tmpl":    strings.ReplaceAll(fmt.Sprintf(navTemplate, u(".Section.PrimaryTag"), u(".")), "d={{", "h={{headerDepth .Section}} d={{"),
		"page.tmpl":   `{{template "nav.tmpl" (walkContext . .Top)}}`,
		"rh.tmpl":     "⟪{{.Content | rawHTML}}⟫",
		"ru.tmpl":     `⟪<a href="{{.Content | rawURL}}" title='{{.Content | rawURL}}'>x</a>⟫`,
		"rt.tmpl":     `⟪{{.Content}}⟫`,
		"x.tmpl":      "{{.Content | render}}",
		"s.tmpl":      "{{.Body | render}}",
		"s-page.tmpl": "{{.Body | render}}",
	}
}

func textNav() map[string]string {
	u := func(tag string) string { return `⟪{{` + tag + ` | url}}⟫⟪{{` + tag + ` | htmlURL}}⟫` }
	t := map[string]string{
		// there is no walkContext
		"nav.tmpl":    strings.NewReplacer("{{if eq .Section .Current}}here {{end}}{{if .Section.Contains .Current}}around {{end}}", "", "{{$c := .Current}}", "", "(walkContext $c .)", ".", ".Section.", ".").Replace(fmt.Sprintf(navTemplate, u(".PrimaryTag"), u("."))),
		"page.tmpl":   `{{template "nav.tmpl" .Top}}`,
		"s-page.tmpl": "{{.Body | render}}",
		"string.tmpl": "{{.}}",
	}
	for i, p := range joinPrefixes {
		t[fmt.Sprintf("j%d.tmpl", i)] = fmt.Sprintf("⟪{{joinLines %q .Content.String}}⟫", p)
	}
	return t
}

var joinPrefixes = []string{"", " ", "> ", "\t", "%s\\", "\n", "é", "\n-"}

var shownURL = regexp.MustCompile(`⟪([^⟫]*)⟫`)
var hrefURL = regexp.MustCompile(`<a href="([^"]*)"></a>`)

// place is where a link leads: the page and the anchor.
func place(link string) string {
	page, frag, err := follow(link)
	if err != nil {
		return "[" + err.Error() + "]"
	}
	if dec, err := url.PathUnescape(frag); err == nil {
		frag = dec
	}
	return "[" + page + "#" + frag + "]"
}

func (s *rsec) link(ext, anchor string) string {
	p := s.page()
	if anchor == "" && p != s {
		anchor = s.primary
	}
	return "[" + p.primary + "." + ext + "#" + anchor + "]"
}

// nav is what the templates have to show.
func (s *rsec) nav(current *rsec, ext string) string {
	var b strings.Builder
	b.WriteString("(")
	if ext == "html" {
		if s == current {
			b.WriteString("here ")
		}
		if s.contains(current) {
			b.WriteString("around ")
		}
	}
	fmt.Fprintf(&b, "n=%s ", s.number())
	if ext == "html" {
		h := s.pageDepth() + 1
		if h > 6 {
			h = 6
		}
		fmt.Fprintf(&b, "h=%d ", h)
	}
	num := func(s *rsec) string {
		if s == nil {
			return ""
		}
		return s.number()
	}
	link := func(t rtag) string {
		if ext == "html" {
			return s.link("html", t.anchor) + s.link("html", t.anchor)
		}
		return s.link(ext, t.anchor) + s.link("html", t.anchor)
	}
	fmt.Fprintf(&b, "d=%d p=%d t=%s tt=%s<%s u=%s%s", s.depth(), s.pageDepth(), istr(refStripAux(s.title)), num(s.next()), num(s.prev()), s.primary, link(rtag{}))
	for _, t := range s.tags {
		fmt.Fprintf(&b, " g=%s:%s", t.name, link(t))
	}
	for _, c := range s.children {
		b.WriteString(c.nav(current, ext))
	}
	b.WriteString(")")
	return b.String()
}

func (d *renderDriver) checkNav(e *Env, site *siteDriver, files map[string]string) string {
	s, err := site.load(files, "index.lit")
	m, merr, _ := site.model(files, "index.lit")
	if err != nil || merr != nil {
		return fmt.Sprintf("load: %v %v", err, merr)
	}
	secs, ms := allSections(s), m.all()
	if len(secs) != len(ms) {
		return fmt.Sprintf("%d sections, expected %d", len(secs), len(ms))
	}
	for _, ext := range []string{"html", "md"} {
		en := d.engine("nav "+ext, ext, map[string]map[string]string{"html": htmlNav(), "md": textNav()}[ext])
		for i, x := range secs {
			e.Traces(1)
			var b bytes.Buffer
			if err := en.RenderSection(&b, x); err != nil {
				return fmt.Sprintf("rendering section %d as %s: %s", i, ext, err)
			}
			got := b.String()
			if ext == "html" {
				got = hrefURL.ReplaceAllString(got, "⟪$1⟫")
				got = html.UnescapeString(got)
			}
			got = shownURL.ReplaceAllStringFunc(got, func(u string) string {
				return place(strings.TrimSuffix(strings.TrimPrefix(u, "⟪"), "⟫"))
			})
			if want := m.nav(ms[i], ext); got != want {
				return fmt.Sprintf("%s, section %d: %s", ext, i, diffText(got, want))
			}
		}
	}
	return ""
}

// percentDecoded decodes what is percent-encoded and leaves everything else.
func percentDecoded(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if c, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil && s[i+1] != '+' && s[i+1] != '-' {
				b.WriteByte(byte(c))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func inMarks(s string) (string, bool) {
	if !strings.HasPrefix(s, "⟪") || !strings.HasSuffix(s, "⟫") {
		return s, false
	}
	return s[len("⟪") : len(s)-len("⟫")], true
}

func (d *renderDriver) show(ext, style string, c booklit.Content) (string, error) {
	en := d.engine("nav "+ext, ext, map[string]map[string]string{"html": htmlNav(), "md": textNav()}[ext])
	page := &booklit.Section{Path: "p.lit", Title: booklit.Empty, Style: "s", Body: booklit.Styled{Style: booklit.Style(style), Content: c}}
	page.SetTitle(booklit.String("page"), ast.Location{}, "page")
	var b bytes.Buffer
	err := en.RenderSection(&b, page)
	out, ok := inMarks(b.String())
	if err == nil && !ok {
		err = fmt.Errorf("unexpected output %q", out)
	}
	return out, err
}

// checkText shows a text by the functions for texts. The text comes in several
// kinds of content.
func (d *renderDriver) checkFunctionText(e *Env, s string) string {
	contents := []booklit.Content{booklit.String(s)}
	for _, i := range []int{1, len(s) / 2} {
		if i > 0 && i < len(s) {
			contents = append(contents, booklit.Sequence{booklit.String(s[:i]), booklit.Styled{Style: "x", Content: booklit.String(s[i:])}})
		}
	}
	for i, c := range contents {
		e.Traces(2 + len(joinPrefixes))
		got, err := d.show("html", "rh", c)
		if err != nil || got != s {
			return fmt.Sprintf("rawHTML, content %d: %q, %v; expected %q", i, got, err, s)
		}
		got, err = d.show("html", "ru", c)
		if err != nil {
			return "rawURL: " + err.Error()
		}
		a := find(dom(got), "a")
		if a == nil || a.FirstChild == nil || len(a.Attr) != 2 {
			return fmt.Sprintf("rawURL changes the markup: %s", got)
		}
		want := percentDecoded(strings.ReplaceAll(s, "\x00", "\uFFFD"))
		href, _ := attr(a, "href")
		if percentDecoded(href) != want {
			return fmt.Sprintf("rawURL, content %d: leads to %q, expected %q", i, href, s)
		}
		for j, p := range joinPrefixes {
			got, err := d.show("md", fmt.Sprint("j", j), c)
			want := ""
			for _, b := range []byte(s) {
				want += string([]byte{b})
				if b == '\n' {
					want += p
				}
			}
			if err != nil || got != want {
				return fmt.Sprintf("joinLines %q, content %d: %q, %v; expected %q", p, i, got, err, want)
			}
		}
	}
	return ""
}

func runC33(e *Env) {
	d := newRenderDriver(e)
	site := newSiteDriver(e, "s")
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\target{g@@ @@ @@}\n\n", ""}, {"\\section{\n\\title{T@@ \\aux{hid @@}}{t@@}\n\n", "\n}\n\n"}}
	max := pick(e, 6, 7)
	e.Bound("all documents of <=%d nested pieces (split, single-page, anchor, section); templates of both engines walk the whole tree from every section", max)
	run := func(t string, n int) {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return d.checkNav(e, site, map[string]string{"index.lit": t}) })
		}
	}
	balanced(pieces, 0, max, 6, func(t string, n int) bool {
		run("\\title{T0}{index}\n\n"+counted(t, 3), n)
		return !e.Stopped()
	})
	tags := []string{"a", "A b", "é", "x#y", "q?z", "50%", "%41", "c:d", "k&l=m", "'\"", "..", "a+b", "日本", "n;m", "{- -}", "javascript:x", "~$!*()", "<i>"}
	e.Bound("primary, further and anchored tags of %d names in every pair", len(tags))
	for _, a := range tags {
		for _, b := range tags {
			for _, split := range []string{"", "\\split-sections\n\n"} {
				run("\\title{T}{index}{"+b+"}\n\n"+split+"\\section{\n\\title{S}{"+a+"}{"+b+"}\n\n\\target{"+b+"}\n\n\\section{\n\\title{U}{"+b+"}{"+a+"}\n}\n}\n", 3)
			}
		}
	}
	e.Bound("%s", bigTrees("\\section{\n\\title{T@@ \\aux{hid @@}}{t@@}\n\n\\target{g@@}\n\n", 4, "\\title{T0}{index}\n\n", 33, func(t string, n int) bool { run(t, n); return !e.Stopped() }))
	e.Bound("chains of depth 1..12")
	for n := 1; n <= 12; n++ {
		for k := 0; k <= n; k++ {
			t := "\\title{T}{index}\n\n"
			for i := 1; i <= n; i++ {
				if i == k {
					t += "\\split-sections\n\n"
				}
				t += fmt.Sprintf("\\section{\n\\title{T%d}{t%d}\n\n", i, i)
			}
			run(t+strings.Repeat("\n}", n), n)
		}
	}

	toks := []string{"a", "\n", "<b>", "&amp;", "\"", "'", " ", "%", "%4", "1", "/", "?", "#", "javascript:", "é", "\\", "{{", "\r", "`", "</a>"}
	for _, some := range [][]string{toks, {"a", "\n", "<", "%", "4", "\"", " "}} {
		m := pick(e, 3, 4)
		if len(some) < 10 {
			m = pick(e, 5, 6)
		}
		e.Bound("all texts of 0..%d out of %d tokens given to rawHTML, rawURL and joinLines with %d prefixes", m, len(some), len(joinPrefixes))
		sequences(some, 0, m, func(t string, ix []int) bool {
			if e.Mine() {
				e.Exec(fmt.Sprintf("text %q", t), func() string { e.Trans(len(ix)); return d.checkFunctionText(e, t) })
			}
			return !e.Stopped()
		})
	}
	for n := 1; n <= 300; n++ {
		for _, x := range []string{"x", "\n", "%", "<"} {
			if e.Mine() {
				s := strings.Repeat(x, n)
				e.Exec(fmt.Sprintf("%d times %q", n, x), func() string { return d.checkFunctionText(e, s) })
			}
		}
	}
}
