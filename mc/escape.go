package main

import (
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Rule: "a state is a string placed in every position of a document, or of a failing document; the real pages are parsed and compared with those of harmless text", Run: runC16, QuickBudget: 120})
}

const harmless = "Placeholder7"

// lenient decodes percent escapes where they are valid.
func lenient(s string) string {
	var b strings.Builder
	hex := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return int(c - '0')
		case c >= 'a' && c <= 'f':
			return int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			return int(c-'A') + 10
		}
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && hex(s[i+1]) >= 0 && hex(s[i+2]) >= 0 {
			b.WriteByte(byte(hex(s[i+1])<<4 | hex(s[i+2])))
			i += 2
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// scheme is the URL's scheme as a browser reads it.
func scheme(u string) string {
	u = strings.TrimLeftFunc(u, func(r rune) bool { return r <= ' ' })
	u = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(u)
	for i := 0; i < len(u); i++ {
		c := u[i] | 0x20
		switch {
		case u[i] == ':':
			return strings.ToLower(u[:i])
		case c >= 'a' && c <= 'z', i > 0 && (u[i] >= '0' && u[i] <= '9' || strings.IndexByte("+-.", u[i]) >= 0):
		default:
			return ""
		}
	}
	return ""
}

func isScript(u string) bool {
	switch scheme(u) {
	case "javascript", "vbscript", "data":
		return true
	}
	return false
}

// asHTML is text as HTML can express it.
func asHTML(s string) string { return strings.ReplaceAll(s, "\x00", "\uFFFD") }

// sameURL compares an attribute with the target written in the document.
func sameURL(got, want string) bool {
	if isScript(want) {
		return !isScript(got)
	}
	if c := strings.IndexByte(want, ':'); c >= 0 && !strings.Contains(want[:c], "/") {
		switch strings.ToLower(want[:c]) {
		case "http", "https", "mailto":
		default:
			// a scheme that may be refused
			return !isScript(got) && (strings.HasPrefix(got, "#Zgotmpl") || lenient(got) == lenient(want))
		}
	}
	return lenient(asHTML(got)) == lenient(asHTML(want)) || asHTML(lenient(got)) == asHTML(lenient(want))
}

// sameDOM compares the page of the harmless text with that of the other one.
// subst gives the texts which may stand for a text of the first.
func sameDOM(a, b *html.Node, subst func(string) []string, path string) string {
	if a.Type != b.Type {
		return fmt.Sprintf("%s: node types differ: %q and %q", path, a.Data, b.Data)
	}
	switch a.Type {
	case html.ElementNode:
		if a.Data != b.Data {
			return fmt.Sprintf("%s: element %q instead of %q", path, b.Data, a.Data)
		}
		path += "/" + a.Data
		if len(a.Attr) != len(b.Attr) {
			return fmt.Sprintf("%s: attributes %v instead of %v", path, b.Attr, a.Attr)
		}
		for i, x := range a.Attr {
			y := b.Attr[i]
			if x.Key != y.Key {
				return fmt.Sprintf("%s: attribute %q instead of %q", path, y.Key, x.Key)
			}
			ok := false
			for _, w := range subst(x.Val) {
				switch {
				case x.Key == "href" && strings.Contains(x.Val, ".html"):
					// made by booklit, so that it leads to the name
					ok = ok || lenient(y.Val) == w || lenient(y.Val) == asHTML(w)
				case x.Key == "href" || x.Key == "src":
					ok = ok || sameURL(y.Val, w)
				default:
					ok = ok || y.Val == asHTML(w)
				}
			}
			if (x.Key == "href" || x.Key == "src") && isScript(y.Val) {
				return fmt.Sprintf("%s: %s is the script URL %q", path, x.Key, y.Val)
			}
			if !ok {
				return fmt.Sprintf("%s: attribute %s is %q, expected %q", path, x.Key, y.Val, subst(x.Val))
			}
		}
	case html.TextNode, html.CommentNode, html.DoctypeNode:
		for _, w := range subst(a.Data) {
			if b.Data == asHTML(w) {
				return ""
			}
		}
		return fmt.Sprintf("%s: text is %q, expected %q", path, b.Data, subst(a.Data))
	}
	x, y := a.FirstChild, b.FirstChild
	for ; x != nil && y != nil; x, y = x.NextSibling, y.NextSibling {
		if m := sameDOM(x, y, subst, path); m != "" {
			return m
		}
	}
	if x != nil {
		return fmt.Sprintf("%s: %q is missing", path, x.Data)
	}
	if y != nil {
		return fmt.Sprintf("%s: %q is too many", path, y.Data)
	}
	return ""
}

var litEscaper = strings.NewReplacer(`\`, `\\`, "{", `\{`, "}", `\}`)

const escapeDoc = `\title{xSy}{index}

aSb \bold{S} \italic{aSb} \larger{aSb}\smaller{aSb}\strike{aSb}\superscript{aSb}\subscript{aSb} \aux{aSb}
\link{aSb}{S} \link{l}{http://h/?q=S} \link{l}{#S} \link{l}{xSy} \image{S} \image{img/S}{S} \image{p}{S}
\reference{S}{S} \reference{S} \reference{gS} \reference{tagS}{aSb}

\target{gS}{aSb}{aSb}

\table-of-contents

\list{S}{aSb}

\ordered-list{aSb}

\table{\table-row{S}{aSb}}

\definitions{\definition{aSb}{S}}

\code{aSb}

\code{{
  aSb
   xSy
}}

\inset{
  aSb
}

\aside{aSb}

\section{
  \title{S}{S}{tagS}

  aSb

  \section{
    \title{a\aux{S}b}{subS}
  }
}
`

const splitDoc = `\title{xSy}{index}

\split-sections

\table-of-contents

\reference{pageS}{aSb} \reference{S} \reference{hS}

\section{
  \title{S}{pageS}{S}

  aSb \target{hS}{S}
}
`

// documents that fail
var errorDocs = []string{
	"aSb \\nope{S} cSd",
	"aSb \\reference{S} cSd",
	"\\target{xxS}\n\n\\target{xxS1}\n\n\\target{xxS2}\n\nS \\reference{xxS3} S",
	"\\target{S} S\n\n\\target{S}\n\nS \\reference{S} S",
	"\\title{aS}{t}\n\n\\title{S}{aS}",
	"aSb \\use-plugin{S} S",
	"aSb \\table{S} S",
	"aSb \\definitions{xS} S",
	"aSb \\include-section{S} S",
	"aSb\n\\section{\n  aSb \\section{\\use-plugin{S}}\n}",
	"aSb \\bold{S}{S}",
	"aSb }S",
	"aSb \\",
	"aSb\n\\bold{S",
	"{- S \n",
	"\\styled{aS}",
	"\\include-section{inc.lit}",
}

type escapeDriver struct {
	*builder
	base map[string]map[string]*html.Node // document -> page -> DOM
}

func (d *escapeDriver) pages(doc, s string, alter bool) (map[string]string, error) {
	e := s
	if alter {
		e = litEscaper.Replace(s)
	}
	return d.build(map[string]string{"index.lit": strings.ReplaceAll(doc, "S", e)}, func(c *booklitcmd.Command) {})
}

func dom(s string) *html.Node {
	n, err := html.Parse(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return n
}

func (d *escapeDriver) check(e *Env, doc, s string) string {
	e.Traces(1)
	if d.base[doc] == nil {
		pages, err := d.pages(doc, harmless, false)
		if err != nil {
			return "harness: " + err.Error()
		}
		d.base[doc] = map[string]*html.Node{}
		for n, p := range pages {
			d.base[doc][n] = dom(p)
		}
	}
	pages, err := d.pages(doc, s, true)
	if err != nil {
		return "the build fails: " + err.Error()
	}
	if len(pages) != len(d.base[doc]) {
		return "pages written: " + names(pages)
	}
	for n, b := range d.base[doc] {
		p, ok := pages[strings.ReplaceAll(n, harmless, s)]
		if !ok {
			return "pages written: " + names(pages)
		}
		e.Trans(1)
		if m := sameDOM(b, dom(p), func(t string) []string { return []string{strings.ReplaceAll(t, harmless, s)} }, ""); m != "" {
			return n + ": " + m
		}
	}
	return ""
}

func (d *escapeDriver) errorPage(doc, s, file string) (string, error) {
	files := map[string]string{file: strings.ReplaceAll(doc, "S", litEscaper.Replace(s))}
	files["inc.lit"] = strings.ReplaceAll("aSb\n\n\\section{\n\\use-plugin{S}\n}", "S", litEscaper.Replace(s))
	d.put(files)
	cmd := &booklitcmd.Command{In: filepath.Join(d.dir, file), Out: d.out}
	err := cmd.Build()
	if err == nil {
		return "", fmt.Errorf("builds")
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	return rec.Body.String(), nil
}

func (d *escapeDriver) checkError(e *Env, doc, s, file string) string {
	e.Traces(1)
	base, err := d.errorPage(doc, harmless, strings.ReplaceAll(file, "S", harmless))
	if err != nil {
		return "harness: " + err.Error()
	}
	page, err := d.errorPage(doc, s, strings.ReplaceAll(file, "S", s))
	if err != nil {
		return "the document builds"
	}
	enc := litEscaper.Replace(s)
	return sameDOM(dom(base), dom(page), func(t string) []string {
		return []string{strings.ReplaceAll(t, harmless, s), strings.ReplaceAll(t, harmless, enc)}
	}, "")
}

func runC16(e *Env) {
	d := &escapeDriver{newBuilder(e, "s"), map[string]map[string]*html.Node{}}
	_ = os.MkdirAll(d.out, 0755)
	run := func(s string) bool {
		if e.Mine() {
			e.Exec(s, func() string { return d.check(e, escapeDoc, s) })
		}
		if len(s) <= 200 && !strings.ContainsAny(s, "/\x00") && e.Mine() {
			e.Exec("split:"+s, func() string { return d.check(e, splitDoc, s) })
		}
		return !e.Stopped()
	}
	errs := func(s string) bool {
		for i, doc := range errorDocs {
			if i == 8 && (len(s) > 200 || strings.ContainsAny(s, "/\x00")) {
				continue // a path, cleaned before it is reported
			}
			if e.Mine() {
				doc := doc
				e.Exec(fmt.Sprintf("error %d: %s", i, s), func() string { return d.checkError(e, doc, s, "index.lit") })
			}
		}
		if len(s) <= 200 && !strings.ContainsAny(s, "/\x00") && e.Mine() {
			e.Exec("file: "+s, func() string { return d.checkError(e, "aSb \\nope", s, "fSf.lit") })
		}
		return !e.Stopped()
	}
	alpha := []string{"a", "<", ">", "&", `"`, "'", "`", "=", "/", "-", "!", ";", "#", "{", "}", `\`, ":", "%", "?", "+", " ", "é", "@", "$", "|", "(", "*", ",", "1"}
	max := pick(e, 2, 3)
	e.Bound("all strings of length 1..%d over %q in %d positions of two documents (prose, styles, titles, tags, anchors, link targets and texts, image paths and descriptions, references, lists, tables, definitions, code, page names)", max, alpha, strings.Count(escapeDoc+splitDoc, "S"))
	sequences(alpha, 1, max, func(s string, ix []int) bool { return run(s) })
	words := []string{"<script>", "</script>", "<!--", "-->", "<b>", "</p>", "</title>", "<title>", "&lt;", "&#60;", "&amp;", "&quot", "%3C", "%", `"`, "'", "><", " onload=x", "javascript:", "JaVaScRiPt:", " javascript:", "data:", "vbscript:", "http:", "https://", "mailto:", "//x", "{{.}}", "{{`", "${x}", "]]>", "<![CDATA[", "<a href=", "</textarea>", "=", "\t", "alert(1)", "\u2028", "\u00a0", "\ufeff", "<svg", "x:", "&colon;", "<", "&"}
	k := pick(e, 2, 3)
	e.Bound("all sequences of 1..%d out of %d markup fragments and URL schemes in the same positions", k, len(words))
	sequences(words, 1, k, func(s string, ix []int) bool { return run(s) })
	e.Bound("every character U+0000..U+024F and U+2000..U+206F, alone and between others")
	for r := rune(0); r < 0x2070; r++ {
		if r == 0x250 {
			r = 0x2000
		}
		if r == '\n' || r == '\r' {
			continue
		}
		run(string(r))
		run("x" + string(r) + "y")
		errs("x" + string(r) + "y")
	}
	e.Bound("%s, followed by markup; and markup repeated", longTexts(func(s string) {
		if len(s) > 5000 {
			return
		}
		m := `<b>&amp;"'<!--`
		for i, t := range []string{s + m, strings.Repeat("<", len(s)/2) + m, strings.Repeat("&lt;", len(s)/4) + m, strings.Repeat(`"`, len(s)/2) + m, strings.Repeat("<i>x", len(s)/4) + m} {
			if i > 0 && s[0] != 'x' {
				break
			}
			if e.Mine() {
				e.Exec(t, func() string { return d.check(e, escapeDoc, t) })
			}
			if len(t) < 100 && e.Mine() {
				e.Exec("split:"+t, func() string { return d.check(e, splitDoc, t) })
			}
			errs(t)
		}
	}))
	em := pick(e, 1, 2)
	e.Bound("error pages: %d failing documents of every kind with all sequences of 1..%d of the characters and of the fragments; and such file names", len(errorDocs), em)
	sequences(alpha, 1, em, func(s string, ix []int) bool { return errs("x" + s + "y") })
	sequences(words, 1, em, func(s string, ix []int) bool { return errs("x" + s + "y") })
}
