package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/alecthomas/chroma"
	"github.com/alecthomas/chroma/lexers"
	cstyles "github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	hl "github.com/vito/booklit/chroma"
	_ "github.com/vito/booklit/chroma/plugin"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C31", Level: "model_checking", Rule: "a state is a code text with a language, a style and a form, or a text with transformers; it is highlighted and rendered by the real code and the page read back", Run: runC31, QuickBudget: 120})
}

var codeTemplates = map[string]string{
	"code-flow.tmpl":  `<q class="flow {{.Partial "Language"}}">{{.Content | render}}</q>`,
	"code-block.tmpl": `<div class="block {{.Partial "Language"}}">{{.Content | render}}</div>`,
	"mark.tmpl":       `<mark>{{.Content | render}}</mark>`,
	"mark2.tmpl":      `<i>{{.Content | render}}</i>`,
}

type codeDriver struct {
	*docDriver
	en  *render.HTMLEngine
	mem map[string]string
}

func newCodeDriver(e *Env) *codeDriver {
	d := &codeDriver{docDriver: newDocDriver(e), en: render.NewHTMLEngine()}
	dir := filepath.Join(e.Dir, "tmpl")
	_ = os.MkdirAll(dir, 0755)
	for n, s := range codeTemplates {
		_ = os.WriteFile(filepath.Join(dir, n), []byte(s), 0644)
	}
	if err := d.en.LoadTemplates(dir); err != nil {
		panic(err)
	}
	return d
}

func (d *codeDriver) page(c booklit.Content) (*html.Node, string, error) {
	s := &booklit.Section{Path: "p.lit", Title: booklit.Empty, Body: c}
	s.SetTitle(booklit.Empty, ast.Location{}, "p")
	var b bytes.Buffer
	if err := d.en.RenderSection(&b, s); err != nil {
		return nil, "", err
	}
	return dom(b.String()), b.String(), nil
}

// codeOf finds the highlighted code on a page.
func codeOf(n *html.Node, block bool) (*html.Node, string) {
	var out []*html.Node
	bad := ""
	var walk func(n *html.Node, in bool)
	walk = func(n *html.Node, in bool) {
		if n.Type == html.ElementNode {
			c, _ := attr(n, "class")
			if in {
				switch n.Data {
				case "span", "pre", "code", "mark", "i":
				default:
					bad = n.Data
				}
				for _, a := range n.Attr {
					if a.Key != "style" && a.Key != "tabindex" {
						bad = n.Data + " " + a.Key
					}
				}
			}
			if !block && n.Data == "q" && strings.HasPrefix(c, "flow ") || block && n.Data == "div" && strings.HasPrefix(c, "block ") {
				if !in {
					out = append(out, n)
				}
				in = true
			}
		} else if in && n.Type != html.TextNode {
			bad = fmt.Sprint("node of type ", n.Type)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, in)
		}
	}
	walk(n, false)
	if len(out) != 1 {
		return nil, fmt.Sprintf("%d highlighted codes", len(out))
	}
	if bad != "" {
		return out[0], "unexpected markup: " + bad
	}
	return out[0], ""
}

// within tells whether there is an element within a node.
func within(n *html.Node, name string) bool {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && c.Data == name || within(c, name) {
			return true
		}
	}
	return false
}

// asCode is the text as a page can show it.
func asCode(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	return strings.ReplaceAll(s, "\x00", "\uFFFD")
}

// addsNewline tells whether the lexer of a language ends every code with a
// line break.
func addsNewline(lang string) bool {
	l := lexers.Get(lang)
	return l != nil && l.Config().EnsureNL
}

// sameCode compares the shown code with the given one. Preformatted code may
// end with a line break, and the parser drops one at the beginning of a pre
// element.
func sameCode(n *html.Node, lang, code string, block bool) string {
	got, want := nodeText(n), asCode(code)
	wants := []string{want}
	if block && strings.HasPrefix(want, "\n") {
		wants = append(wants, want[1:])
	}
	if block || addsNewline(lang) {
		for _, w := range wants {
			wants = append(wants, w+"\n")
		}
		if want == "" {
			wants = append(wants, "")
		}
	}
	for _, w := range wants {
		if got == w {
			return ""
		}
	}
	return fmt.Sprintf("shows %q, the code is %q", got, want)
}

func (d *codeDriver) check(e *Env, lang, code, style string, block bool) string {
	e.Traces(1)
	var c booklit.Content = booklit.String(code)
	if block {
		p := booklit.Preformatted{}
		for _, l := range strings.Split(code, "\n") {
			p = append(p, booklit.String(l))
		}
		c = p
	}
	plugin := hl.NewPlugin(nil).(hl.Plugin)
	var names []string
	if style != "-" {
		names = []string{style}
	}
	res, err := plugin.Syntax(lang, c, names...)
	if err != nil {
		return "highlighting fails: " + err.Error()
	}
	if res.IsFlow() == block {
		return fmt.Sprintf("the result's flow classification is %v", res.IsFlow())
	}
	n, raw, err := d.page(res)
	if err != nil {
		return "rendering fails: " + err.Error()
	}
	cn, bad := codeOf(n, block)
	if bad != "" {
		return bad + ": " + raw
	}
	if within(cn, "pre") != block {
		return fmt.Sprintf("block %v: %s", block, raw)
	}
	if cl, _ := attr(cn, "class"); !strings.HasSuffix(cl, " "+asHTML(lang)) {
		return fmt.Sprintf("the language partial is %q, expected %q", cl, lang)
	}
	if m := sameCode(cn, lang, code, block); m != "" {
		return m
	}
	return ""
}

// checkDoc highlights code written in a document.
func (d *codeDriver) checkDoc(e *Env, doc, lang, code string, block bool) string {
	e.Traces(1)
	if err := os.WriteFile(d.path, []byte("\\use-plugin{chroma}\n\n"+doc), 0644); err != nil {
		return err.Error()
	}
	s, err := (&load.Processor{}).LoadFile(d.path, []booklit.PluginFactory{baselit.NewPlugin})
	if err != nil {
		return "loading fails: " + err.Error()
	}
	s.SetTitle(booklit.Empty, ast.Location{}, "p")
	var b bytes.Buffer
	if err := d.en.RenderSection(&b, s); err != nil {
		return "rendering fails: " + err.Error()
	}
	cn, bad := codeOf(dom(b.String()), block)
	if bad != "" {
		return bad + ": " + b.String()
	}
	return sameCode(cn, lang, code, block)
}

// --- transformers

type piecePart struct {
	text string
	mark int // 0: not replaced, else 1 + the transformer
}

// refTransform applies transformers to a text.
func refTransform(str string, res []*regexp.Regexp) []piecePart {
	parts := []piecePart{{str, 0}}
	for i, re := range res {
		var next []piecePart
		for _, p := range parts {
			if p.mark != 0 {
				next = append(next, p)
				continue
			}
			cut := re.ReplaceAllStringFunc(p.text, func(m string) string { return "\x01" + m + "\x02" })
			for cut != "" {
				if cut[0] == '\x01' {
					end := strings.IndexByte(cut, '\x02')
					next = append(next, piecePart{cut[1:end], i + 1})
					cut = cut[end+1:]
					continue
				}
				end := strings.IndexByte(cut, '\x01')
				if end < 0 {
					end = len(cut)
				}
				next = append(next, piecePart{cut[:end], 0})
				cut = cut[end:]
			}
		}
		parts = next
	}
	return parts
}

func partsString(ps []piecePart) string {
	var b strings.Builder
	for _, p := range ps {
		if p.mark == 0 {
			b.WriteString(p.text)
		} else {
			fmt.Fprintf(&b, "«%d:%s»", p.mark, p.text)
		}
	}
	return b.String()
}

func transformer(re *regexp.Regexp, i int, linked bool, calls *[]string) hl.Transformer {
	return hl.Transformer{Pattern: re, Transform: func(s string) booklit.Content {
		*calls = append(*calls, fmt.Sprintf("%d:%s", i, s))
		if linked {
			return booklit.Link{Target: fmt.Sprint("t", i), Content: booklit.String(s)}
		}
		return booklit.Styled{Style: booklit.Style(fmt.Sprint("t", i)), Content: booklit.String(s)}
	}}
}

func realParts(seq booklit.Sequence) ([]piecePart, string) {
	var out []piecePart
	for _, c := range seq {
		switch v := c.(type) {
		case booklit.String:
			out = append(out, piecePart{string(v), 0})
		case booklit.Styled:
			if v.Style == "raw-html" {
				out = append(out, piecePart{v.Content.String(), 0})
				continue
			}
			n := 0
			fmt.Sscanf(string(v.Style), "t%d", &n)
			out = append(out, piecePart{v.Content.String(), n})
		case booklit.Link:
			n := 0
			fmt.Sscanf(v.Target, "t%d", &n)
			out = append(out, piecePart{v.Content.String(), n})
		default:
			return nil, fmt.Sprintf("unexpected %T", c)
		}
	}
	return out, ""
}

func checkTransform(e *Env, str string, re *regexp.Regexp) string {
	e.Traces(1)
	var calls []string
	got, bad := realParts(transformer(re, 1, len(str)%2 == 1, &calls).TransformAll(str))
	if bad != "" {
		return bad
	}
	want := refTransform(str, []*regexp.Regexp{re})
	if g, w := partsString(got), partsString(want); g != w {
		return fmt.Sprintf("%s on %q gives %q, expected %q", re, str, g, w)
	}
	return sameCalls(calls, want)
}

func sameCalls(calls []string, want []piecePart) string {
	var wc []string
	for _, p := range want {
		if p.mark > 0 {
			wc = append(wc, fmt.Sprintf("%d:%s", p.mark, p.text))
		}
	}
	sort.Strings(calls)
	sort.Strings(wc)
	if g, w := strings.Join(calls, "|"), strings.Join(wc, "|"); g != w {
		return fmt.Sprintf("transformed %q, expected %q", g, w)
	}
	return ""
}

func checkTransformers(e *Env, lang, code string, block bool, res []*regexp.Regexp) string {
	for _, linked := range []bool{false, true} {
		if m := checkTransformersTo(e, lang, code, block, linked, res); m != "" || len(res) == 0 {
			return m
		}
	}
	return ""
}

func checkTransformersTo(e *Env, lang, code string, block, linked bool, res []*regexp.Regexp) string {
	e.Traces(1)
	var c booklit.Content = booklit.String(code)
	if block {
		c = booklit.Preformatted{booklit.String(code)}
	}
	plugin := hl.NewPlugin(nil).(hl.Plugin)
	plain, err := plugin.SyntaxTransform(lang, c, cstyles.Fallback)
	if err != nil {
		return err.Error()
	}
	var calls []string
	var ts []hl.Transformer
	for i, re := range res {
		ts = append(ts, transformer(re, i+1, linked, &calls))
	}
	con, err := plugin.SyntaxTransform(lang, c, cstyles.Fallback, ts...)
	if err != nil {
		return err.Error()
	}
	get := func(c booklit.Content) ([]piecePart, string) {
		st, ok := c.(booklit.Styled)
		if !ok {
			return nil, fmt.Sprintf("unexpected %T", c)
		}
		seq, ok := st.Content.(booklit.Sequence)
		if !ok {
			return nil, fmt.Sprintf("unexpected %T", st.Content)
		}
		for _, c := range seq {
			if s, ok := c.(booklit.String); ok {
				return nil, fmt.Sprintf("the markup %q would be shown as text", s)
			}
		}
		return realParts(seq)
	}
	base, bad := get(plain)
	if bad != "" {
		return bad
	}
	all := ""
	for _, p := range base {
		all += p.text
	}
	got, bad := get(con)
	if bad != "" {
		return bad
	}
	want := refTransform(all, res)
	if g, w := partsString(got), partsString(want); g != w {
		return fmt.Sprintf("transformed: %q\nexpected:    %q", g, w)
	}
	return sameCalls(calls, want)
}

// endless tells whether the lexer of a language doesn't finish the code.
func endless(lang, code string) bool {
	l := lexers.Get(lang)
	if l == nil {
		return false
	}
	it, err := l.Tokenise(nil, code)
	if err != nil {
		return false
	}
	for n := 0; n < 100+10*len(code); n++ {
		if t := it(); t.Type == chroma.EOFType {
			return false
		}
	}
	return true
}

func runC31(e *Env) {
	d := newCodeDriver(e)
	broken := map[string]bool{} // lexers that don't finish
	each := func(lang, code, style string) bool {
		if l := lexers.Get(lang); l != nil && broken[l.Config().Name] {
			return !e.Stopped()
		}
		for _, block := range []bool{false, true} {
			if e.Mine() {
				e.Exec(fmt.Sprintf("%s %q style %s block %v", lang, code, style, block), func() string {
					e.Trans(len(code))
					return d.check(e, lang, code, style, block)
				})
			}
		}
		return !e.Stopped()
	}
	toks := []string{"a", " ", "\n", "{", "}", "-", `\`, `\b`, "<", "&", "é", `"`}
	max := pick(e, 4, 5)
	e.Bound("the Booklit lexer: all codes of <=%d out of %d tokens %q, inline and block", max, len(toks), toks)
	sequences(toks, 0, max, func(s string, ix []int) bool { return each("booklit", s, "-") })
	deep := []string{"{{{", "}}}", "}", "{-", "-}", "x", "\n"}
	max = pick(e, 5, 6)
	e.Bound("the Booklit lexer: all codes of <=%d out of %q", max, deep)
	sequences(deep, 0, max, func(s string, ix []int) bool { return each("booklit", s, "-") })
	common := []string{"a", " ", "\n", "{", "}", "<", ">", "&", "'", `"`, "é", "\t", "\r\n", "\x01", "//", "func", "1", "%"}
	lexNames := lexers.Names(false)
	sort.Strings(lexNames)
	e.Bound("each of the %d lexers finishes with all codes of <=1 tokens (the ones that don't are left out below)", len(lexNames))
	for _, l := range lexNames {
		bad := ""
		sequences(common, 0, 1, func(s string, ix []int) bool {
			if endless(l, s) {
				bad = fmt.Sprintf("highlighting %q as %s never finishes", s, l)
			}
			return bad == ""
		})
		broken[l] = bad != ""
		if e.Mine() {
			e.Exec("lexer "+l, func() string { e.Traces(len(common) + 1); return bad })
		}
	}
	langs := []string{"go", "json", "html", "diff", "bash", "nosuch", "", "plaintext", "GO", "x.lit", "<b>", "é"}
	max = pick(e, 2, 3)
	e.Bound("languages %q: all codes of <=%d out of %d tokens", langs, max, len(common))
	for _, l := range langs {
		sequences(common, 0, max, func(s string, ix []int) bool { return each(l, s, "-") })
	}
	all := lexers.Names(true)
	sort.Strings(all)
	max = pick(e, 1, 2)
	e.Bound("all %d language names known: all codes of <=%d tokens", len(all), max)
	for _, l := range all {
		sequences(common, 0, max, func(s string, ix []int) bool { return each(l, s, "-") })
	}
	names := append(cstyles.Names(), "nosuch", "")
	e.Bound("all %d styles and unknown ones", len(names)-2)
	for _, st := range names {
		for _, s := range []string{"a", "func a() {\n\treturn \"<&>\" // é\n}\n", "\\bold{x} {- c -} {{{ v }}}"} {
			each("go", s, st)
			each("booklit", s, st)
		}
	}

	e.Bound("codes of 1..64 lines and of lines of lengths to 70000 in 6 languages")
	for _, l := range []string{"go", "booklit", "html", "bash", "nosuch", "json"} {
		for n := 1; n <= 64; n++ {
			for _, s := range []string{"a <b> \\c{d}\n", "\t\"x\" // é\n", "\n", "  {- x -} & 'y' 1\r\n", "\\a{{{\nb }}}\n"} {
				if !each(l, strings.Repeat(s, n), "-") || !each(l, strings.Repeat(s, n)+"z", "-") {
					break
				}
			}
		}
		for _, n := range []int{80, 100, 128, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 70000} {
			for _, s := range []string{"x", "<", "é ", "a(1) "} {
				if n > 10000 && s != "x" {
					continue
				}
				if !each(l, strings.Repeat(s, n/len(s)), "-") {
					break
				}
			}
		}
	}

	// documents
	verb := []string{"a", " ", "\n", "{", "}", `\b`, "<b>", "&amp;", "{-", "é"}
	max = pick(e, 3, 4)
	e.Bound("documents with verbatim code of <=%d tokens out of %q, inline and block", max, verb)
	sequences(verb, 1, max, func(s string, ix []int) bool {
		if strings.Contains(s, "}}}") || strings.HasSuffix(s, "}") {
			return true
		}
		for _, l := range []string{"booklit", "go", "nosuch"} {
			if !strings.Contains(s, "\n") && !strings.HasPrefix(s, "{") && e.Mine() {
				e.Exec(fmt.Sprintf("document %s %q", l, s), func() string {
					return d.checkDoc(e, "x \\syntax{"+l+"}{{{"+s+"}}} y", l, s, false)
				})
			}
			// lines that aren't blank, the first not indented
			if !strings.HasPrefix(s, " ") && !strings.HasPrefix(s, "\n") && strings.TrimSpace(s) != "" && !strings.HasSuffix(s, "\n") && !strings.Contains(s, " \n") && !strings.HasSuffix(s, " ") && e.Mine() {
				e.Exec(fmt.Sprintf("document %s %q block", l, s), func() string {
					return d.checkDoc(e, "\\syntax{"+l+"}{{{\n"+s+"\n}}}", l, s, true)
				})
			}
		}
		return !e.Stopped()
	})

	// transformers
	patterns := []string{"a", "b", "ab", "a|ab", "a*", "b+?", ".", "^", "$", "(?m)^", `\b`, "[^a]", "é", "<[^>]*>", "(?s).*", "x"}
	var res []*regexp.Regexp
	for _, p := range patterns {
		res = append(res, regexp.MustCompile(p))
	}
	talpha := []string{"a", "b", "<", ">", "é", "\n"}
	max = pick(e, 5, 7)
	e.Bound("all texts of <=%d out of %d characters, each transformed by each of %d patterns", max, len(talpha), len(patterns))
	sequences(talpha, 0, max, func(s string, ix []int) bool {
		if e.Mine() {
			e.Exec(fmt.Sprintf("transform %q", s), func() string {
				for _, re := range res {
					e.Trans(1)
					if m := checkTransform(e, s, re); m != "" {
						return m
					}
				}
				return ""
			})
		}
		return !e.Stopped()
	})
	e.Bound("texts of 1..64 and 500 repetitions, transformed by each pattern, and highlighted by each and by all of them")
	for _, unit := range []string{"ab", "a<b>é", "b\n", "xa ", "\n"} {
		for n := 1; n <= 65; n++ {
			if n == 65 {
				n = 500
			}
			s := strings.Repeat(unit, n)
			e.Each(fmt.Sprintf("transform %d times %q", n, unit), func() string {
				for i, re := range res {
					e.Trans(2)
					if m := checkTransform(e, s, re); m != "" {
						return patterns[i] + ": " + m
					}
					if m := checkTransformers(e, "booklit", s, n%2 == 0, res[i:i+1]); m != "" {
						return patterns[i] + ": " + m
					}
				}
				return checkTransformers(e, "booklit", s, n%2 == 0, res)
			})
		}
	}
	max = pick(e, 2, 3)
	e.Bound("all highlighted codes of <=%d tokens, transformed by all sequences of 0..2 of %d patterns, inline and block", max, len(patterns))
	sequences([]string{"a", "b", "ab", "<", "\\b", "\n", "é"}, 0, max, func(s string, ix []int) bool {
		for _, block := range []bool{false, true} {
			if e.Mine() {
				block := block
				e.Exec(fmt.Sprintf("transformers %q block %v", s, block), func() string {
					if m := checkTransformers(e, "booklit", s, block, nil); m != "" {
						return m
					}
					for i := range res {
						if m := checkTransformers(e, "booklit", s, block, res[i:i+1]); m != "" {
							return patterns[i] + ": " + m
						}
						for j := range res {
							e.Trans(1)
							if m := checkTransformers(e, "booklit", s, block, []*regexp.Regexp{res[i], res[j]}); m != "" {
								return patterns[i] + " " + patterns[j] + ": " + m
							}
						}
					}
					return ""
				})
			}
		}
		return !e.Stopped()
	})
}
