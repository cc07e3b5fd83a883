package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Rule: "a state is a content tree, or a document with a title; trees are stripped by the real code and compared with a reference, documents are built and read back", Run: runC17, QuickBudget: 90})
}

// dropEmpty removes parts without content, so that it doesn't matter whether
// stripping leaves an empty item or none.
func dropEmpty(in []item) []item {
	var out []item
	for _, it := range norm(in) {
		if len(it.parts) > 0 {
			var parts [][]item
			for _, p := range it.parts {
				p = dropEmpty(p)
				if len(p) == 0 || len(p) == 1 && p[0].k == "partial" || len(p) == 1 && p[0].k == "row" && len(p[0].parts) == 0 {
					continue
				}
				parts = append(parts, p)
			}
			it.parts = parts
		}
		out = append(out, it)
	}
	return out
}

func hasAux(in []item) bool {
	for _, it := range in {
		if it.k == "aux" {
			return true
		}
		for _, p := range it.parts {
			if hasAux(p) {
				return true
			}
		}
	}
	return false
}

func checkStrip(e *Env, t *term, sec *booklit.Section) string {
	for _, slack := range []bool{false, true} {
		a := (&termBuilder{label: "a", sec: sec, slack: slack}).build(t)
		b := (&termBuilder{label: "a", sec: sec, slack: slack}).build(t)
		e.Traces(1)
		e.Trans(t.size())
		s := booklit.StripAux(a)
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("the original was %s, after stripping it is %s", canon(conv(b)), canon(conv(a)))
		}
		got := conv(s)
		if hasAux(got) {
			return "auxiliary content remains: " + canon(got)
		}
		want := refStripAux(conv(b))
		if g, w := canon(dropEmpty(got)), canon(dropEmpty(want)); g != w {
			return fmt.Sprintf("stripped: %s\nexpected: %s", g, w)
		}
		if s == nil {
			return "stripping yields nil"
		}
		again := booklit.StripAux(s)
		if g, w := canon(conv(again)), canon(got); g != w {
			return fmt.Sprintf("stripped: %s\nstripped twice: %s", w, g)
		}
		if !reflect.DeepEqual(a, b) {
			return "stripping twice changed the original"
		}
	}
	return ""
}

// regions gives the texts of the headings, of the tables of contents
// and of the marked references on a page, without blanks.
func regions(page string) (headings, entries, refs []string) {
	z := html.NewTokenizer(strings.NewReader(page))
	var cur *[]string
	nav := 0
	body := false
	text := func(s string) {
		s = strings.Join(strings.Fields(s), "")
		for s != "" {
			i := strings.IndexAny(s, "<>")
			if i < 0 || s[i] != '<' && s[i] != '>' {
				break
			}
			if cur != nil {
				(*cur)[len(*cur)-1] += s[:i]
			}
			if s[i] == '<' {
				refs = append(refs, "")
				cur = &refs
			} else {
				cur = nil
			}
			s = s[i+1:]
		}
		if cur != nil {
			(*cur)[len(*cur)-1] += s
		}
	}
	for {
		switch z.Next() {
		case html.ErrorToken:
			return
		case html.TextToken:
			if body {
				text(string(z.Text()))
			}
		case html.StartTagToken:
			n, has := z.TagName()
			name := string(n)
			class := ""
			for has {
				var k, v []byte
				k, v, has = z.TagAttr()
				if string(k) == "class" {
					class = string(v)
				}
			}
			switch {
			case name == "body":
				body = true
			case name == "nav":
				if nav++; nav == 1 {
					entries = append(entries, "")
					cur = &entries
				}
			case class == "section-header":
				headings = append(headings, "")
				cur = &headings
			}
		case html.EndTagToken:
			n, _ := z.TagName()
			switch name := string(n); {
			case name == "nav":
				if nav--; nav == 0 {
					cur = nil
				}
			case len(name) == 2 && name[0] == 'h' && name[1] >= '1' && name[1] <= '6':
				cur = nil
			}
		}
	}
}

type auxDriver struct {
	*builder
	tmpl *siteDriver
}

// check builds a document whose section has the title; lower-case letters are
// shown everywhere, upper-case ones (auxiliary) only in headings.
func (d *auxDriver) check(e *Env, title string) string {
	e.Traces(1)
	lower := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' {
				return r
			}
			return -1
		}, s)
	}
	both := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
				return r
			}
			return -1
		}, s)
	}
	title = marked(title)
	doc := "\\title{" + title + "}{index}\n\n\\table-of-contents\n\n<\\reference{t1}> <\\reference{t1}{" + title + "}> <\\reference{index}> <\\reference{g}>\n\n\\section{\n\\title{" + title + "}{t1}\n\n\\section{\n\\title{" + title + "}{t2}\n\n\\target{g}{" + title + "}\n}\n}\n"
	files := map[string]string{"index.lit": doc}
	m, merr, _ := d.model(files, "index.lit")
	if merr != nil {
		return "harness: " + merr.String()
	}
	stripped := refStripAux(m.title)
	// an item that is wholly auxiliary may be dropped or left empty
	if canon(dropEmpty(stripped)) == canon(stripped) {
		if m := d.compareTree(map[string]string{"index.lit": "\\title{" + title + "}"}, "index.lit", false); m != "" {
			return "default tag: " + m
		}
	}
	full := both(istr(displayed(m.title)))
	short := lower(istr(refStripAux(m.title)))
	if x := lower(full); x != short {
		return fmt.Sprintf("harness: %q %q", x, short)
	}
	if both(short) != short {
		return "harness: " + short
	}
	pages, err := d.build(files)
	if err != nil {
		return "the build fails: " + err.Error()
	}
	hs, es, rs := regions(pages["index.html"])
	if len(hs) != 3 || len(es) != 1 || len(rs) != 4 {
		return fmt.Sprintf("the page has headings %q, entries %q, references %q", hs, es, rs)
	}
	for _, h := range hs {
		if both(h) != full {
			return fmt.Sprintf("heading %q, the title is %q", both(h), full)
		}
	}
	for _, x := range es {
		if both(x) != short+short {
			return fmt.Sprintf("table of contents %q, expected %q twice", both(x), short)
		}
	}
	for _, x := range rs {
		if both(x) != short {
			return fmt.Sprintf("reference %q, expected %q", both(x), short)
		}
	}
	// text
	out := filepath.Join(d.dir, "text")
	_ = os.MkdirAll(out, 0755)
	cmd := &booklitcmd.Command{In: filepath.Join(d.dir, "index.lit"), Out: out}
	cmd.TextEngine.FileExtension = "txt"
	cmd.TextEngine.Templates = d.tmpl.dir
	if err := cmd.Build(); err != nil {
		return "the text build fails: " + err.Error()
	}
	b, err := os.ReadFile(filepath.Join(out, "index.txt"))
	if err != nil {
		return err.Error()
	}
	t := string(b)
	for i := 0; i < 4; i++ {
		a, z := strings.Index(t, "<"), strings.Index(t, ">")
		if a < 0 || z < a {
			return "text: references are missing in " + string(b)
		}
		x := t[a+1 : z]
		if both(x) != short {
			return fmt.Sprintf("text: reference %q, expected %q", both(x), short)
		}
		t = t[:a] + "=" + t[z+1:]
	}
	toc := strings.SplitN(t, "@", 3)
	if len(toc) != 3 {
		return "text: no table of contents in " + t
	}
	if both(toc[1]) != short+short {
		return fmt.Sprintf("text: table of contents %q, expected %q twice", both(toc[1]), short)
	}
	return ""
}

// displayed removes auxiliary content from references only.
func displayed(in []item) []item {
	var out []item
	for _, it := range in {
		if it.k == "ref" {
			out = append(out, refStripAux([]item{it})...)
			continue
		}
		var parts [][]item
		for _, p := range it.parts {
			parts = append(parts, displayed(p))
		}
		it.parts = parts
		out = append(out, it)
	}
	return out
}

// marked makes the letters of a title distinct, upper-case inside \aux.
func marked(t string) string {
	var b strings.Builder
	n := 0
	var aux []bool
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\\':
			j := i + 1
			for j < len(t) && (t[j] >= 'a' && t[j] <= 'z' || t[j] == '-') {
				j++
			}
			b.WriteString(t[i:j])
			if strings.HasPrefix(t[i:], "\\aux{") {
				aux = append(aux, true)
				b.WriteByte('{')
				j++
			}
			i = j - 1
			continue
		case t[i] == '{':
			aux = append(aux, len(aux) > 0 && aux[len(aux)-1])
		case t[i] == '}':
			aux = aux[:len(aux)-1]
		case t[i] == '#':
			c := byte('a' + n%26)
			if len(aux) > 0 && aux[len(aux)-1] {
				c -= 32
			}
			b.WriteByte(c)
			n++
			continue
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

func runC17(e *Env) {
	sec := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
	kinds := []tkind{{"str", 0, 0}, {"empty", 0, 0}, {"image", 0, 0}, {"ref", 0, 0}, {"aux", 1, 1}, {"seq", 0, 3}, {"bold", 1, 1}, {"boldp", 2, 2}, {"para", 0, 3}, {"list", 0, 3}, {"row", 1, 3}, {"defs", 2, 2}, {"link", 1, 1}, {"refc", 1, 1}, {"pre", 0, 3}, {"rows", 1, 3}, {"ragged", 1, 3}, {"targetc", 2, 2}, {"olist", 0, 3}, {"block", 1, 1}, {"target", 0, 0}, {"toc", 0, 0}, {"section", 0, 0}, {"lazyleaf", 0, 0}, {"opt", 0, 0}, {"optc", 1, 1}}
	max := pick(e, 5, 5)
	e.Bound("all content trees of <=%d nodes over %d kinds of content with auxiliary content inside, with and without spare capacity in their slices", max, len(kinds))
	strip := func(t *term) bool {
		if !t.has("aux") && t.size() > 3 {
			return true
		}
		if e.Mine() {
			e.Exec(t.String(), func() string { return checkStrip(e, t, sec) })
		}
		return !e.Stopped()
	}
	allTerms(kinds, max, strip)
	small := []tkind{{"str", 0, 0}, {"aux", 1, 1}, {"seq", 1, 3}, {"list", 1, 3}, {"boldp", 2, 2}, {"row", 2, 3}}
	max = pick(e, 6, 8)
	e.Bound("all content trees of <=%d nodes over %d kinds", max, len(small))
	allTerms(small, max, strip)

	wide := []tkind{{"str", 0, 0}, {"aux", 1, 1}, {"seq", 0, 2}, {"grid", 4, 4}, {"defs4", 4, 4}, {"refc", 1, 1}}
	max = pick(e, 8, 9)
	e.Bound("all content trees of <=%d nodes over %d kinds with tables of two rows and columns and two definitions", max, len(wide))
	allTerms(wide, max, func(t *term) bool { return !t.has("grid", "defs4") || strip(t) })

	e.Bound("every kind of content with 1..40 contents, auxiliary in each single place, in all and in none; chains of 1..60 nested contents with auxiliary content at the end and in every place")
	str, ax := &term{k: "str"}, &term{k: "aux", kids: []*term{{k: "str"}}}
	for _, k := range []string{"seq", "para", "list", "olist", "pre", "row", "rows", "ragged"} {
		for n := 1; n <= 40; n++ {
			for i := -2; i < n; i++ {
				t := &term{k: k}
				for j := 0; j < n; j++ {
					if i == -2 || i == j {
						t.kids = append(t.kids, ax)
					} else {
						t.kids = append(t.kids, &term{k: "seq", kids: []*term{str, ax}})
					}
				}
				strip(t)
			}
		}
	}
	for _, k := range []string{"seq", "bold", "para", "list", "link", "refc", "block", "pre"} {
		for n := 1; n <= 60; n++ {
			t, u := ax, ax
			for j := 0; j < n; j++ {
				t = &term{k: k, kids: []*term{t}}
				v := u
				if k == "seq" || k == "list" || k == "para" || k == "pre" {
					u = &term{k: k, kids: []*term{ax, v, str}}
				} else {
					u = &term{k: k, kids: []*term{{k: "seq", kids: []*term{v, ax, str}}}}
				}
			}
			strip(t)
			strip(u)
		}
	}

	d := &auxDriver{newBuilder(e, "s"), newSiteDriver(e, "tmpl")}
	tm := map[string]string{}
	for k, v := range textAll {
		tm[k] = v
	}
	for _, k := range []string{"string", "sequence", "paragraph", "preformatted", "section", "page", "inset"} {
		delete(tm, k+".tmpl")
	}
	for k, v := range tm {
		switch k {
		case "reference.tmpl":
			tm[k] = "{{.Display | stripAux | render}}"
		case "toc.tmpl":
			delete(tm, k)
		default:
			if i := strings.IndexByte(v, '('); i > 0 && !strings.Contains(k, "list") && !strings.Contains(k, "table") && !strings.Contains(k, "def") && !strings.Contains(k, "link") {
				tm[k] = v[i:]
			}
		}
	}
	for k, v := range map[string]string{"list.tmpl": "{{range .Items}}{{. | render}} {{end}}", "table.tmpl": "{{range .Rows}}{{range .}}{{. | render}} {{end}}{{end}}", "definitions.tmpl": "{{range .}}{{.Subject | render}} {{.Definition | render}} {{end}}", "link.tmpl": "({{.Content | render}})", "image.tmpl": "", "target.tmpl": "", "section.tmpl": "{{.Title | render}}@{{.Body | render}}@{{range .Children}}{{. | render}}{{end}}", "page.tmpl": "{{. | render}}"} {
		tm[k] = v
	}
	// the first two @ enclose the table of contents
	tm["paragraph.tmpl"] = "{{range .}}{{. | render}} {{end}}"
	d.tmpl.put(tm)
	pieces := []piece{{"#", ""}, {"\\aux{", "}"}, {"\\bold{", "}"}, {"\\link{", "}{u}"}, {"\\list{", "}{#}"}, {"\\table{\\table-row{", "}{#}}"}, {"\\definitions{\\definition{", "}{#}}"}, {"\\code{", "}"}, {"\\reference{g}{", "}"}, {"\n\n", ""}, {"\\code{{\n#", "\n}}"}}
	max = pick(e, 3, 4)
	e.Bound("all titles of <=%d nested pieces out of %d, in headings, tables of contents and references of pages and text", max, len(pieces))
	balanced(pieces, 1, max, max, func(t string, n int) bool {
		if strings.HasPrefix(t, "\n") || !strings.Contains(t, "#") {
			return true
		}
		if e.Mine() {
			e.Exec("title: "+t, func() string { e.Trans(n); return d.check(e, t) })
		}
		return !e.Stopped()
	})
}
