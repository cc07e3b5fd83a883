package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C12", Level: "model_checking", Rule: "a state is a document tree with split settings, tags and references; it is built for real, the pages parsed, and every link followed", Run: runC12, QuickBudget: 90})
	register(&Check{ID: "C13", Level: "model_checking", Rule: "a state is a document tree with split and single-page declarations; it is built for real and files and text compared with a reference page model", Run: runC13, QuickBudget: 90})
	register(&Check{ID: "C14", Level: "model_checking", Rule: "a state is a document tree; section methods, headings and tables of contents of the real build are compared with a reference tree model", Run: runC14, QuickBudget: 90})
	register(&Check{ID: "C15", Level: "model_checking", Rule: "a state is a document tree with tags; the search index of the real build is compared with a reference model and with the links in the built pages", Run: runC15, QuickBudget: 90})
	register(&Check{ID: "C27", Level: "model_checking", Rule: "a state is a section tree with a subset of its sections moved to files in several directories; its real build is compared with that of the inline version", Run: runC27, QuickBudget: 150})
}

// builder builds sites with the real command.
// docTime is the modification time of all documents of builders with sameTime.
var docTime = time.Unix(1700000000, 0)

type builder struct {
	sameTime bool // all documents get the same modification time
	*siteDriver
	out string
}

func newBuilder(e *Env, name string) *builder {
	return &builder{siteDriver: newSiteDriver(e, name), out: filepath.Join(e.Dir, name+"-out")}
}

func clearDir(dir string) {
	entries, _ := os.ReadDir(dir)
	for _, x := range entries {
		_ = os.RemoveAll(filepath.Join(dir, x.Name()))
	}
}

func readDir(dir string) map[string]string {
	pages := map[string]string{}
	entries, _ := os.ReadDir(dir)
	for _, x := range entries {
		if x.IsDir() {
			for k, v := range readDir(filepath.Join(dir, x.Name())) {
				pages[x.Name()+"/"+k] = v
			}
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, x.Name()))
		if err != nil {
			panic(err)
		}
		pages[x.Name()] = string(b)
	}
	return pages
}

func (b *builder) build(files map[string]string, opts ...func(*booklitcmd.Command)) (map[string]string, error) {
	b.put(files)
	if b.sameTime {
		for name := range files {
			_ = os.Chtimes(filepath.Join(b.dir, name), docTime, docTime)
		}
	}
	clearDir(b.out)
	cmd := &booklitcmd.Command{In: filepath.Join(b.dir, "index.lit"), Out: b.out}
	for _, o := range opts {
		o(cmd)
	}
	booklit.AllowBrokenReferences = cmd.AllowBrokenReferences
	err := cmd.Build()
	booklit.AllowBrokenReferences = false
	return readDir(b.out), err
}

func names(m map[string]string) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// --- reading pages

type heading struct {
	level  int
	number string
	title  string
	id     string
}

type link struct {
	href    string
	text    string
	sec     string // title of the section it stands in
	tocHref bool
}

type tocEntry struct {
	number, title, href string
	sub                 []tocEntry
}

type htmlPage struct {
	doc      *html.Node
	text     string // of the body
	headings []heading
	links    []link
	ids      map[string][]string // id -> titles of the sections the elements stand in
	tocs     map[string][][]tocEntry
	order    []string
}

func nodeText(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var b strings.Builder
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		b.WriteString(nodeText(c))
	}
	return b.String()
}

func attr(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

func find(n *html.Node, tag string) *html.Node {
	if n.Type == html.ElementNode && n.Data == tag {
		return n
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if f := find(c, tag); f != nil {
			return f
		}
	}
	return nil
}

func readToc(nav *html.Node) []tocEntry {
	var out []tocEntry
	ul := find(nav, "ul")
	if ul == nil {
		return nil
	}
	for li := ul.FirstChild; li != nil; li = li.NextSibling {
		if li.Type != html.ElementNode || li.Data != "li" {
			continue
		}
		var t tocEntry
		for c := li.FirstChild; c != nil; c = c.NextSibling {
			if c.Type != html.ElementNode {
				continue
			}
			switch c.Data {
			case "a":
				t.href, _ = attr(c, "href")
				parts := strings.SplitN(strings.TrimSpace(nodeText(c)), " ", 2)
				t.number = parts[0]
				if len(parts) > 1 {
					t.title = strings.TrimSpace(parts[1])
				}
			case "nav":
				t.sub = append(t.sub, readToc(c)...)
			}
		}
		out = append(out, t)
	}
	return out
}

func parsePage(raw string) *htmlPage {
	doc, err := html.Parse(strings.NewReader(raw))
	if err != nil {
		panic(err)
	}
	p := &htmlPage{doc: doc, ids: map[string][]string{}, tocs: map[string][][]tocEntry{}}
	body := find(doc, "body")
	cur, num := "", ""
	var text strings.Builder
	var walk func(n *html.Node, toc bool)
	walk = func(n *html.Node, toc bool) {
		switch n.Type {
		case html.TextNode:
			text.WriteString(n.Data)
			return
		case html.ElementNode:
			if len(n.Data) == 2 && n.Data[0] == 'h' && n.Data[1] >= '1' && n.Data[1] <= '6' {
				h := heading{level: int(n.Data[1] - '0')}
				t := nodeText(n)
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					if cl, _ := attr(c, "class"); cl == "section-number" {
						h.number = strings.TrimSpace(nodeText(c))
						t = strings.Replace(t, nodeText(c), "", 1)
					}
				}
				h.title = strings.TrimSpace(t)
				cur, num = h.title, h.number
				if a := find(n, "a"); a != nil {
					h.id, _ = attr(a, "id")
				}
				p.headings = append(p.headings, h)
			}
			if id, ok := attr(n, "id"); ok {
				p.ids[id] = append(p.ids[id], cur)
			}
			if href, ok := attr(n, "href"); ok && n.Data == "a" {
				p.links = append(p.links, link{href: href, text: squeeze(nodeText(n)), sec: cur, tocHref: toc})
			}
			if n.Data == "nav" && !toc {
				p.tocs[num+" "+cur] = append(p.tocs[num+" "+cur], readToc(n))
				toc = true
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, toc)
		}
	}
	walk(body, false)
	p.text = text.String()
	return p
}

// squeeze reads text as a browser shows it.
func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// follow resolves a link as a browser would: the page and the fragment.
func follow(href string) (page, frag string, err error) {
	file, frag, _ := strings.Cut(href, "#")
	u, err := url.Parse(file)
	if err != nil {
		return "", "", err
	}
	if u.IsAbs() || u.Host != "" || u.RawQuery != "" || u.ForceQuery {
		return "", "", fmt.Errorf("%q is not a link to a page of the site", href)
	}
	return u.Path, frag, nil
}

func (p *htmlPage) sectionsOf(frag string) []string {
	if s, ok := p.ids[frag]; ok {
		return s
	}
	if dec, err := url.PathUnescape(frag); err == nil {
		return p.ids[dec]
	}
	return nil
}

// counted replaces every @@ by the number of the section opened there: the
// n-th group of per occurrences.
func counted(t string, per int) string {
	parts := strings.Split(t, "@@")
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			fmt.Fprint(&b, (i-1)/per+1)
		}
		b.WriteString(p)
	}
	return b.String()
}

// --- C13

var markers = regexp.MustCompile(`[TB]\d+`)

func checkPages(e *Env, b *builder, files map[string]string, ext string) string {
	e.Traces(1)
	files["inc.lit"] = "\\title{T900}{t900}\n\nB900\n\n\\split-sections\n\n\\section{\n\\title{T901}{t901}\n\nB901\n}\n"
	pages, err := b.build(files, func(c *booklitcmd.Command) {
		if ext != "html" {
			c.TextEngine.FileExtension = ext
		}
	})
	if err != nil {
		return "build fails: " + err.Error()
	}
	m, merr, _ := b.model(files, "index.lit")
	if merr != nil {
		return "harness document fails in the model: " + merr.String()
	}
	if !ownPages(m) {
		return ""
	}
	want := map[string]string{}
	for _, s := range m.all() {
		p := s.page()
		name := p.primary + "." + ext
		for _, mk := range []string{canonText(s.title), canonText(s.body)} {
			for _, x := range markers.FindAllString(mk, -1) {
				want[name] += x + " "
			}
		}
		if _, ok := want[name]; !ok {
			want[name] = ""
		}
	}
	if g, w := names(pages), names(want); g != w {
		return fmt.Sprintf("pages written: %s\nexpected:      %s", g, w)
	}
	for name, raw := range pages {
		text := raw
		if ext == "html" {
			text = parsePage(raw).text
		} else {
			text = raw[strings.IndexByte(raw, '\n')+1:]
		}
		if g := strings.Join(markers.FindAllString(text, -1), " ") + " "; strings.TrimSpace(g) != strings.TrimSpace(want[name]) {
			return fmt.Sprintf("%s shows %s\nexpected %s", name, g, want[name])
		}
	}
	return ""
}

// ownPages tells whether every page of the site has a name of its own.
func ownPages(m *rsec) bool {
	seen := map[string]bool{"": true}
	for _, s := range m.all() {
		if s.page() == s {
			if seen[s.primary] {
				return false
			}
			seen[s.primary] = true
		}
	}
	return true
}

func canonText(in []item) string { return istr(in) }

func runC13(e *Env) {
	b := newBuilder(e, "s")
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\section{\n\\title{T@@}{t@@}\n\nB@@\n\n", "\n}\n\n"}}
	max := pick(e, 6, 8)
	run := func(t string, n int) bool {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return checkPages(e, b, map[string]string{"index.lit": t}, "html") })
		}
		return !e.Stopped()
	}
	e.Bound("all documents of <=%d nested pieces (split, single-page, section) in every order and nesting", max)
	balanced(pieces, 0, max, 5, func(t string, n int) bool {
		if strings.Count(t, "\\section{") == 0 && n > 2 {
			return true
		}
		t = "\\title{T0}{index}\n\nB0\n\n" + counted(t, 3)
		if n < max {
			moved(e, t, func(files map[string]string) string { e.Trans(n); return checkPages(e, b, files, "html") })
		}
		return run(t, n)
	})
	e.Bound("those of <=%d pieces with every non-empty subset of the sections in files of their own", max-1)
	more := append(pieces, piece{"\\include-section{inc.lit}\n\n", ""}, piece{"B77\n\n", ""})
	more = append(more, piece{"\\section{\nB@@ @@ @@\n\n", "\n}\n\n"})
	max = pick(e, 4, 5)
	e.Bound("the same with an included splitting file, sections without title and text between the sections, <=%d pieces; and text pages", max)
	balanced(more, 0, max, 4, func(t string, n int) bool {
		if strings.Count(t, "inc.lit") > 1 {
			return true
		}
		t = "\\title{T0}{index}\n\nB0\n\n" + counted(t, 3)
		if !run(t, n) {
			return false
		}
		if e.Mine() {
			e.Exec("text:"+t, func() string { e.Trans(n); return checkPages(e, b, map[string]string{"index.lit": t}, "txt") })
		}
		return !e.Stopped()
	})
	e.Bound("%s", bigTrees("\\section{\n\\title{T@@}{t@@}\n\nB@@\n\n", 3, "\\title{T0}{index}\n\nB0\n\n", 100, run))
	e.Bound("chains of 1..30 sections splitting at every level, with a single-page declaration at each; fans of 1..40")
	for n := 1; n <= 30; n++ {
		for k := 0; k <= n; k++ {
			t := "\\title{T0}{index}\n\nB0\n\n"
			for i := 0; i < n; i++ {
				if i == k {
					t += "\\single-page\n\n"
				}
				t += "\\split-sections\n\n\\section{\n\\title{T@@}{t@@}\n\nB@@\n\n"
			}
			run(counted(t, 3)+strings.Repeat("}\n\n", n), n)
		}
		run("\\title{T0}{index}\n\nB0\n\n\\split-sections\n\n"+counted(strings.Repeat("\\section{\n\\title{T@@}{t@@}\n\nB@@\n}\n\n", n+10), 3), n)
	}
}

// --- C14

func tocOf(m *rsec) []tocEntry {
	if m.omit {
		return nil
	}
	var out []tocEntry
	for _, c := range m.children {
		out = append(out, tocEntry{number: c.number(), title: strings.TrimSpace(istr(refStripAux(c.title))), sub: tocOf(c)})
	}
	return out
}

func tocString(ts []tocEntry) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "[%s %s %s]", t.number, t.title, tocString(t.sub))
	}
	return b.String()
}

func (s *rsec) next() *rsec {
	if s.split() && len(s.children) > 0 {
		return s.children[0]
	}
	return s.nextSibling()
}

func (s *rsec) position() int {
	for i, c := range s.parent.children {
		if c == s {
			return i
		}
	}
	return -1
}

func (s *rsec) nextSibling() *rsec {
	for ; s.parent != nil; s = s.parent {
		if i := s.position(); i+1 < len(s.parent.children) {
			return s.parent.children[i+1]
		}
	}
	return nil
}

func (s *rsec) prev() *rsec {
	if s.parent == nil {
		return nil
	}
	if i := s.position(); i > 0 {
		return s.parent.children[i-1]
	}
	return s.parent
}

func (s *rsec) contains(o *rsec) bool {
	for ; o != nil; o = o.parent {
		if o == s {
			return true
		}
	}
	return false
}

func (s *rsec) anchors() bool {
	for _, t := range s.tags {
		if t.anchor != "" {
			return true
		}
	}
	if s.split() {
		return false
	}
	for _, c := range s.children {
		if c.anchors() {
			return true
		}
	}
	return false
}

func checkTree(e *Env, b *builder, files map[string]string) string {
	e.Traces(1)
	s, err := b.load(files, "index.lit")
	m, merr, _ := b.model(files, "index.lit")
	if err != nil || merr != nil {
		return fmt.Sprintf("load: %v %v", err, merr)
	}
	secs, ms := allSections(s), m.all()
	if len(secs) != len(ms) {
		return fmt.Sprintf("%d sections, expected %d", len(secs), len(ms))
	}
	idx := map[*booklit.Section]int{nil: -1}
	midx := map[*rsec]int{nil: -1}
	for i := range secs {
		idx[secs[i]] = i
		midx[ms[i]] = i
	}
	seen := map[string]bool{}
	for i, x := range secs {
		y := ms[i]
		e.Trans(1)
		got := fmt.Sprintf("number %q depth %d page depth %d top %d next %d sibling %d prev %d anchors %v %d", x.Number(), x.Depth(), x.PageDepth(), idx[x.Top()], idx[x.Next()], idx[x.NextSibling()], idx[x.Prev()], x.HasAnchors(), len(x.AnchorTags()))
		na := 0
		for _, t := range y.tags {
			if t.anchor != "" {
				na++
			}
		}
		want := fmt.Sprintf("number %q depth %d page depth %d top %d next %d sibling %d prev %d anchors %v %d", y.number(), y.depth(), y.pageDepth(), 0, midx[y.next()], midx[y.nextSibling()], midx[y.prev()], y.anchors(), na)
		if got != want {
			return fmt.Sprintf("section %d: %s\nexpected   %s", i, got, want)
		}
		if seen[x.Number()] {
			return "number " + x.Number() + " is used twice"
		}
		seen[x.Number()] = true
		for j, z := range secs {
			if x.Contains(z) != y.contains(ms[j]) {
				return fmt.Sprintf("section %d contains section %d: %v", i, j, x.Contains(z))
			}
			if x.IsOrHasChild(z) != (ms[j] == y || ms[j].parent == y) {
				return fmt.Sprintf("section %d is or has child %d: %v", i, j, x.IsOrHasChild(z))
			}
		}
	}
	if !ownPages(m) {
		return ""
	}
	pages, err := b.build(files)
	if err != nil {
		return "build: " + err.Error()
	}
	for _, y := range ms {
		if y.page() != y {
			continue
		}
		raw, ok := pages[y.primary+".html"]
		if !ok {
			return "no page " + y.primary
		}
		p := parsePage(raw)
		var want []string
		y.walk(func(z *rsec) {
			if z.page() == y {
				l := z.pageDepth() + 1
				if l > 6 {
					l = 6
				}
				want = append(want, fmt.Sprintf("h%d %s %s", l, z.number(), istr(z.title)))
			}
		})
		var got []string
		for _, h := range p.headings {
			got = append(got, fmt.Sprintf("h%d %s %s", h.level, h.number, h.title))
		}
		if strings.Join(got, "; ") != strings.Join(want, "; ") {
			return fmt.Sprintf("page %s has headings %v\nexpected %v", y.primary, got, want)
		}
		y.walk(func(z *rsec) {
			if z.page() != y || ok == false {
				return
			}
			n := 0
			for _, it := range flattenItems(z.body) {
				if it.k == "toc" {
					n++
				}
			}
			want := tocString(tocOf(z))
			have := p.tocs[z.number()+" "+istr(z.title)]
			if want == "" {
				n = 0
			}
			if len(have) != n {
				err = fmt.Errorf("section %s shows %d tables of contents, expected %d", istr(z.title), len(have), n)
				ok = false
				return
			}
			for _, h := range have {
				if g := tocString(h); g != want {
					err = fmt.Errorf("the table of contents of %s is %s\nexpected %s", istr(z.title), g, want)
					ok = false
				}
			}
		})
		if !ok {
			return err.Error()
		}
	}
	return ""
}

func flattenItems(in []item) []item {
	var out []item
	for _, it := range in {
		out = append(out, it)
		for _, p := range it.parts {
			out = append(out, flattenItems(p)...)
		}
	}
	return out
}

func runC14(e *Env) {
	b := newBuilder(e, "s")
	run := func(t string, n int) bool {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return checkTree(e, b, map[string]string{"index.lit": t}) })
		}
		return !e.Stopped()
	}
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\omit-children-from-table-of-contents\n\n", ""}, {"\\table-of-contents\n\n", ""}, {"\\target{g@@ @@ @@}\n\n", ""}, {"\\section{\n\\title{T@@}{t@@}\n\n\\table-of-contents\n\nB@@\n\n", "\n}\n\n"}}
	max := pick(e, 5, 6)
	e.Bound("all documents of <=%d nested pieces (split, single-page, omission, table of contents, anchor, section)", max)
	balanced(pieces, 0, max, 5, func(t string, n int) bool {
		if strings.Count(t, "\\section{") == 0 && n > 2 {
			return true
		}
		t = "\\title{T0}{index}\n\n\\table-of-contents\n\n" + counted(t, 3)
		if n < max {
			moved(e, t, func(files map[string]string) string { e.Trans(n); return checkTree(e, b, files) })
		}
		return run(t, n)
	})
	e.Bound("those of <=%d pieces with every non-empty subset of the sections in files of their own", max-1)
	sec := []piece{{"\\section{\n\\title{T@@}{t@@}\n\n\\table-of-contents\n\nB@@\n\n", "\n}\n\n"}}
	max = pick(e, 7, 9)
	e.Bound("all section trees of <=%d sections without flags; with titles containing auxiliary content and blocks", max)
	balanced(sec, 0, max, 9, func(t string, n int) bool { return run("\\title{T0}{index}\n\n"+counted(t, 3), n) })
	more := []piece{pieces[0], pieces[3], pieces[5], {"\\section{\nB@@ @@ @@\n\n", "\n}\n\n"}, {"\\include-section{inc.lit}\n\n", ""}, {"\\include-section{sub/inc.lit}\n\n", ""}}
	max = pick(e, 4, 5)
	e.Bound("all documents of <=%d nested pieces with sections without title and two files that are included, also repeatedly", max)
	balanced(more, 1, max, 4, func(t string, n int) bool {
		t = "\\title{T0}{index}\n\n" + counted(t, 3)
		if (strings.Contains(t, "inc.lit") || strings.Contains(t, "\\section{\nB")) && e.Mine() {
			e.Exec("more:"+t, func() string {
				e.Trans(n)
				return checkTree(e, b, map[string]string{"index.lit": t, "inc.lit": "\\title{I}{i}\n\nx\n\n\\section{\n\\title{J}\n\n\\target{j}\n}\n", "sub/inc.lit": "no title\n\n\\section{\ny\n}\n"})
			})
		}
		return !e.Stopped()
	})
	e.Bound("%s", bigTrees("\\section{\n\\title{T@@}{t@@}\n\n\\target{g@@}\n\nB@@\n\n", 4, "\\title{T0}{index}\n\n\\table-of-contents\n\n", 64, run))
	e.Bound("chains of depth 1..14, splitting at each level; fans of width 1..120")
	for n := 1; n <= 14; n++ {
		for k := 0; k <= n; k++ {
			for _, s := range []string{"\\split-sections\n\n", "\\single-page\n\n\\split-sections\n\n", "\\omit-children-from-table-of-contents\n\n"} {
				t := ""
				for i := 0; i < n; i++ {
					if i == k {
						t += s
					}
					t += sec[0].open
				}
				run("\\title{T0}{index}\n\n\\table-of-contents\n\n"+counted(t, 3)+strings.Repeat(sec[0].close, n), n)
			}
		}
	}
	for _, n := range []int{1, 2, 9, 10, 11, 12, 25, 99, 100, 101, 120} {
		for _, f := range []string{"", "\\split-sections\n\n"} {
			run("\\title{T0}{index}\n\n\\table-of-contents\n\n"+f+counted(strings.Repeat("\\section{\n\\title{T@@}{t@@}\n\nB@@\n}\n\n", n), 3), n)
		}
	}
}

// --- C12 and C15

// located tells what is wrong with a location of a tag, or "".
func located(pages map[string]*htmlPage, ext, href string, t rtag) string {
	page, frag, err := follow(href)
	if err != nil {
		return err.Error()
	}
	p, ok := pages[page]
	if !ok {
		return fmt.Sprintf("%q leads to page %q, which was not written", href, page)
	}
	title := strings.TrimSpace(istr(t.sec.title))
	if t.anchor == "" && t.sec.primary == "" {
		// a section without tags has no place of its own
		if want := t.sec.page().primary + "." + ext; page != want || frag != "" {
			return fmt.Sprintf("%q does not lead to the page %q", href, want)
		}
		return ""
	}
	if frag == "" {
		if strings.Contains(href, "#") {
			return fmt.Sprintf("%q has an empty fragment", href)
		}
		if t.anchor != "" {
			return fmt.Sprintf("%q does not lead to the anchor %q", href, t.anchor)
		}
		if len(p.headings) == 0 || p.headings[0].title != title {
			return fmt.Sprintf("%q leads to a page that doesn't start with section %q", href, title)
		}
		return ""
	}
	secs := p.sectionsOf(frag)
	if len(secs) != 1 {
		return fmt.Sprintf("%q leads to %d elements", href, len(secs))
	}
	if secs[0] != title {
		return fmt.Sprintf("%q leads into section %q, the tag is of section %q", href, secs[0], title)
	}
	if t.anchor != "" {
		if dec, _ := url.PathUnescape(frag); frag != t.anchor && dec != t.anchor {
			return fmt.Sprintf("%q does not lead to the anchor %q", href, t.anchor)
		}
		return ""
	}
	// a section's fragment is in its heading
	for _, h := range p.headings {
		if dec, _ := url.PathUnescape(frag); h.title == title && (h.id == frag || h.id == dec) {
			return ""
		}
	}
	return fmt.Sprintf("%q does not lead to the heading of %q", href, title)
}

func checkLinks(e *Env, b *builder, files map[string]string) string {
	e.Traces(1)
	t := strings.Join(values(files), "")
	files["inc.lit"] = "\\title{T900}{t900}\n\nREFS\n\n\\split-sections\n\n\\section{\n\\title{T901}{t901}\n\nREFS\n\\target{g901}\n}\n"
	if !strings.Contains(t, "inc.lit") {
		delete(files, "inc.lit")
	}
	bare, merr, _ := b.model(files, "index.lit")
	if merr != nil {
		return "harness document fails in the model: " + merr.String()
	}
	if !ownPages(bare) {
		return ""
	}
	refs := ""
	tags := map[string]rtag{}
	numbers := map[string]rtag{}
	esc := strings.NewReplacer(`\`, `\\`, "{", `\{`, "}", `\}`)
	for _, s := range bare.all() {
		numbers[s.number()] = rtag{sec: s}
		if s.page() == s && strings.Contains(s.primary, "/") {
			return "" // not a file name
		}
		for _, x := range s.tags {
			k := "L:" + x.name
			if _, dup := tags[squeeze(k)]; dup {
				return "" // tag names are not unique
			}
			tags[squeeze(k)] = x
			refs += "\\reference{" + esc.Replace(x.name) + "}{" + esc.Replace(k) + "}\n"
		}
	}
	for n, f := range files {
		files[n] = strings.ReplaceAll(f, "REFS", refs)
	}
	raw, err := b.build(files, func(c *booklitcmd.Command) { c.SaveSearchIndex = true })
	if err != nil {
		if strings.Contains(t, "/") || strings.Contains(t, "\x00") {
			return "" // not a file name
		}
		return "build fails: " + err.Error()
	}
	var index map[string]struct{ Location string }
	if err := json.Unmarshal([]byte(raw["search_index.json"]), &index); err != nil {
		return "search index: " + err.Error()
	}
	delete(raw, "search_index.json")
	pages := map[string]*htmlPage{}
	for n, r := range raw {
		pages[n] = parsePage(r)
	}
	n := 0
	for name, p := range pages {
		for _, l := range p.links {
			e.Trans(1)
			n++
			x, ok := tags[l.text]
			if l.tocHref {
				x, ok = numbers[strings.SplitN(l.text, " ", 2)[0]]
			}
			if !ok {
				return fmt.Sprintf("page %s has an unexpected link %q to %q", name, l.text, l.href)
			}
			if m := located(pages, "html", l.href, x); m != "" {
				return fmt.Sprintf("page %s, link %q: %s", name, l.text, m)
			}
		}
	}
	for k, x := range tags {
		d, ok := index[x.name]
		if !ok {
			return "the search index lacks " + k
		}
		if m := located(pages, "html", d.Location, x); m != "" {
			return fmt.Sprintf("search index entry %q: %s", x.name, m)
		}
	}
	if want := strings.Count(strings.Join(values(files), ""), "\\reference{"); n < want {
		return fmt.Sprintf("%d links on the pages, %d references written", n, want)
	}
	return ""
}

func values(m map[string]string) []string {
	var out []string
	for _, v := range m {
		out = append(out, v)
	}
	return out
}

var textLinkTemplates = map[string]string{
	"reference.tmpl": "[{{.Display | render}}]({{.Tag | url}})", "target.tmpl": "<id {{.TagName}}>",
	"section.tmpl": "<sec {{.PrimaryTag.Name}}>{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}",
	"page.tmpl":    "{{. | render}}",
}

var textTokens = regexp.MustCompile(`<(sec|id) ([^>]*)>|\[L:([^\]]*)\]\(([^)]*)\)`)

// checkTextLinks does the same for pages rendered as text.
func checkTextLinks(e *Env, b *builder, tmpl *siteDriver, t string) string {
	e.Traces(1)
	files := map[string]string{"index.lit": t}
	bare, merr, _ := b.model(files, "index.lit")
	if merr != nil {
		return "harness document fails in the model: " + merr.String()
	}
	refs := ""
	tags := map[string]rtag{}
	for _, s := range bare.all() {
		for _, x := range s.tags {
			tags[x.name] = x
			refs += "\\reference{" + x.name + "}{L:" + x.name + "}\n"
		}
	}
	files["index.lit"] = strings.ReplaceAll(strings.ReplaceAll(t, "REFS", refs), "\\table-of-contents", "")
	tmpl.put(textLinkTemplates)
	pages, err := b.build(files, func(c *booklitcmd.Command) { c.TextEngine.FileExtension = "md"; c.TextEngine.Templates = tmpl.dir })
	if err != nil {
		return "build fails: " + err.Error()
	}
	type place struct{ page, sec string }
	ids := map[place]string{} // page, id -> section
	first := map[string]string{}
	for n, raw := range pages {
		sec := ""
		for _, m := range textTokens.FindAllStringSubmatch(raw, -1) {
			switch m[1] {
			case "sec":
				sec = m[2]
				if first[n] == "" {
					first[n] = sec
				}
				ids[place{n, sec}] = sec
			case "id":
				ids[place{n, m[2]}] = sec
			}
		}
	}
	for n, raw := range pages {
		for _, m := range textTokens.FindAllStringSubmatch(raw, -1) {
			if m[1] != "" {
				continue
			}
			e.Trans(1)
			x, ok := tags[m[3]]
			if !ok {
				return fmt.Sprintf("unexpected link to %q", m[3])
			}
			page, frag, err := follow(m[4])
			if err != nil {
				return err.Error()
			}
			if _, ok := pages[page]; !ok {
				return fmt.Sprintf("page %s: %q leads to a page that was not written", n, m[4])
			}
			sec := first[page]
			if frag != "" {
				if sec, ok = ids[place{page, frag}]; !ok {
					return fmt.Sprintf("page %s: %q leads nowhere on the page", n, m[4])
				}
			}
			if sec != x.sec.primary {
				return fmt.Sprintf("page %s: %q leads to section %q, the tag %q is of %q", n, m[4], sec, x.name, x.sec.primary)
			}
			if x.anchor != "" && frag != x.anchor {
				return fmt.Sprintf("page %s: %q does not lead to anchor %q", n, m[4], x.anchor)
			}
		}
	}
	return ""
}

func runC12(e *Env) {
	b := newBuilder(e, "s")
	tmpl := newSiteDriver(e, "tmpl")
	run := func(t string, n int) bool {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return checkLinks(e, b, map[string]string{"index.lit": t}) })
		}
		return !e.Stopped()
	}
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\target{g@@-@@-@@-@@}\n\n", ""}, {"\\section{\n\\title{T@@}{t@@}{u@@}\n\n\\table-of-contents\n\nB@@ REFS\n\n", "\n}\n\n"}}
	max := pick(e, 5, 6)
	e.Bound("all documents of <=%d nested pieces (split, single-page, anchor, section with two tags), every section with a table of contents and references to every tag; HTML and text pages", max)
	balanced(pieces, 1, max, 4, func(t string, n int) bool {
		if strings.Count(t, "\\section{") == 0 && n > 2 {
			return true
		}
		t = "\\title{T0}{index}{home}\n\n\\table-of-contents\n\nREFS\n\n" + counted(t, 4)
		if !run(t, n) {
			return false
		}
		if n < max-1 || e.Thorough && n < max {
			moved(e, t, func(files map[string]string) string { e.Trans(n); return checkLinks(e, b, files) })
		}
		if n < max || e.Thorough {
			if e.Mine() {
				e.Exec("text:"+t, func() string { e.Trans(n); return checkTextLinks(e, b, tmpl, t) })
			}
		}
		return !e.Stopped()
	})
	e.Bound("those of <=%d pieces with every non-empty subset of the sections in files of their own", pick(e, max-2, max-1))
	more := append(pieces, piece{"\\include-section{inc.lit}\n\n", ""}, piece{"\\section{\n\\title{\\bold{T@@} \\aux{aux@@}}{t@@}{u@@}\n\nREFS\n\n", "\n}\n\n"}, piece{"\\section{\nREFS \\target{n@@-@@-@@-@@}\n\n", "\n}\n\n"})
	max = pick(e, 3, 4)
	e.Bound("the same with included files, auxiliary content in titles and sections without title, <=%d pieces", max)
	balanced(more, 1, max, 4, func(t string, n int) bool {
		if strings.Count(t, "inc.lit") != 1 && !strings.Contains(t, "aux") && !strings.Contains(t, "{n") {
			return true
		}
		return run("\\title{T0}{index}{home}\n\n\\table-of-contents\n\nREFS\n\n"+counted(t, 4), n)
	})
	e.Bound("%s", bigTrees("\\section{\n\\title{T@@}{t@@}\n\n\\target{g@@}\n\nREFS\n\n", 3, "\\title{T0}{index}{home}\n\n\\table-of-contents\n\nREFS\n\n", pick(e, 20, 33), run))
	e.Bound("%s, of all section tags, second tags and anchors (up to 200 characters) and titles", longTexts(func(s string) {
		if s = strings.ReplaceAll(s, " ", "-"); len(s) <= 200 {
			run("\\title{T0}{index}\n\n\\split-sections\n\n\\table-of-contents\n\nREFS\n\n\\section{\n\\title{T1}{"+s+"}{2nd"+s+"}\n\nREFS\n\n\\section{\n\\title{T2}{3rd"+s+"}\n\n\\target{"+s+"4th}\n}\n}\n", 3)
		}
		run("\\title{T0}{index}\n\n\\table-of-contents\n\nREFS\n\n\\section{\n\\title{"+s+"}{t1}\n\nREFS \\target{g}{"+s+"}{"+s+"}\n\n}\n", 1)
	}))
	alpha := []string{"a", " ", "#", "%", "?", "&", `"`, "<", "+", "é", ":", "'", "2", ";", "=", ".", `\{`, "@", "(", ",", "/", `\\`, "~", "|", "!", "[", "日"}
	max = pick(e, 2, 3)
	e.Bound("tag names: all strings of length 1..%d over %q as section tag, second tag and anchor, split and not; every character U+0021..U+024F", max, alpha)
	name := func(s string, n int) bool {
		for _, split := range []string{"", "\\split-sections\n\n"} {
			t := "\\title{T0}{index}\n\n" + split + "\\table-of-contents\n\nREFS\n\n\\section{\n\\title{T1}{" + s + "}{2nd" + s + "}\n\nREFS\n\n\\section{\n\\title{T2}{3rd" + s + "}\n\n\\target{" + s + "4th}\n}\n}\n\n\\section{\n\\title{T3}{x}\n\n\\target{5th" + s + "}\n\nREFS\n}\n"
			if !run(t, n) {
				return false
			}
		}
		return true
	}
	sequences(alpha, 1, max, func(s string, ix []int) bool { return name(s, len(ix)) })
	for r := rune(0x21); r < 0x250; r++ {
		if r != '\\' && r != '{' && r != '}' && r != 0x7f {
			name("x"+string(r)+"y", 1)
		}
	}
	for _, s := range []string{"javascript:alert", "http://x", "//x", "mailto:x", "data:x", "..", "../x", "C:x", "%41", "%2F", "a%20b", "&amp;", "&#65;", "index.html", "a?b#c"} {
		name(s, 1)
	}
}

// --- C15

type indexEntry struct {
	Location   string `json:"location"`
	Title      string `json:"title"`
	Text       string `json:"text"`
	Depth      int    `json:"depth"`
	SectionTag string `json:"section_tag"`
}

func checkIndex(e *Env, b *builder, files map[string]string) string {
	e.Traces(1)
	t := strings.Join(values(files), "")
	files["inc.lit"] = "\\title{Inc}{inc}\n\nincluded \\bold{text}\n\n\\section{\n\\title{Sub}{sub}\n\n\\target{tsub}{TS}{ts text}\n}\n"
	m, merr, _ := b.model(files, "index.lit")
	if merr != nil {
		return "harness document fails in the model: " + merr.String()
	}
	count := map[string]int{}
	for _, s := range m.all() {
		for _, x := range s.tags {
			count[x.name]++
			if count[x.name] > 1 {
				return "" // tag names are not unique
			}
		}
	}
	istrTag = func(tag string) string {
		if ts := m.find(tag); len(ts) == 1 {
			return istr(ts[0].title)
		}
		return "?"
	}
	defer func() { istrTag = nil }()
	raw, err := b.build(files, func(c *booklitcmd.Command) { c.SaveSearchIndex = true })
	if err != nil {
		return "build fails: " + err.Error()
	}
	src := raw["search_index.json"]
	if !json.Valid([]byte(src)) {
		return "the search index is not valid JSON: " + src
	}
	var index map[string]indexEntry
	dec := json.NewDecoder(strings.NewReader(src))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&index); err != nil {
		return "the search index is not as documented: " + err.Error()
	}
	if strings.Count(src, `"section_tag"`) < len(index) {
		return "entries lack fields: " + src
	}
	delete(raw, "search_index.json")
	pages := map[string]*htmlPage{}
	for n, r := range raw {
		pages[n] = parsePage(r)
	}
	normed := map[string]indexEntry{}
	for k, v := range index {
		normed[squeeze("L:"+k)] = v
	}
	if !ownPages(m) {
		return ""
	}
	if len(index) != len(count) {
		return fmt.Sprintf("%d entries for %d tags", len(index), len(count))
	}
	for _, s := range m.all() {
		for _, x := range s.tags {
			e.Trans(1)
			got, ok := index[x.name]
			if !ok {
				return fmt.Sprintf("no entry for tag %q", x.name)
			}
			text := istr(s.body)
			if x.hasCont {
				text = istr(x.content)
			}
			want := indexEntry{got.Location, istr(x.title), text, s.depth(), s.primary}
			if got != want {
				return fmt.Sprintf("entry %q: %+v\nexpected: %+v", x.name, got, want)
			}
			if strings.Contains(t, "set-partial") && x.anchor == "yy" || strings.Contains(t, "\\title{T \\") {
				continue // partials are not on the page; headings with blocks are not compared
			}
			if m := located(pages, "html", got.Location, x); m != "" {
				return fmt.Sprintf("entry %q: %s", x.name, m)
			}
		}
	}
	for n, p := range pages {
		for _, l := range p.links {
			if l.tocHref || !strings.HasPrefix(l.text, "L:") {
				continue
			}
			ent, ok := normed[l.text]
			if !ok {
				return fmt.Sprintf("page %s links %q, which is not in the index", n, l.text)
			}
			gp, gf, err1 := follow(l.href)
			ip, jf, err2 := follow(ent.Location)
			if g, e := url.PathUnescape(gf); e == nil {
				gf = g
			}
			if j, e := url.PathUnescape(jf); e == nil {
				jf = j
			}
			if err1 != nil || err2 != nil || gp != ip || gf != jf {
				return fmt.Sprintf("page %s links %q to %q, the index to %q", n, l.text, l.href, ent.Location)
			}
		}
	}
	return ""
}

func runC15(e *Env) {
	b := newBuilder(e, "s")
	run := func(t string, n int) bool {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return checkIndex(e, b, map[string]string{"index.lit": t}) })
		}
		return !e.Stopped()
	}
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\target{g#}\n\n", ""}, {"\\target{h#}{T \\bold{h#}}{c \\bold{d}}\n\n", ""}, {"\\target{i#}{I}{}\n\n", ""}, {"\\reference{index}{L:index} txt#\n\n", ""}, {"\\section{\n\\title{T#}{t#}{u#}\n\nB#\n\n", "\n}\n\n"}, {"\\section{\n\\title{Sec \\bold{#} \\aux{A}}\n\n", "\n}\n\n"}}
	max := pick(e, 4, 5)
	e.Bound("all documents of <=%d nested pieces out of %d (split, single-page, anchors with and without content, sections with explicit, second and default tags)", max, len(pieces))
	balanced(pieces, 1, max, 4, func(t string, n int) bool {
		t = "\\title{T0}{index}{home}\n\nbody\n\n" + numbered(t)
		if n < max {
			moved(e, t, func(files map[string]string) string { e.Trans(n); return checkIndex(e, b, files) })
		}
		return run(t, n)
	})
	e.Bound("those of <=%d pieces with every non-empty subset of the sections in files of their own", max-1)
	more := []piece{pieces[0], {"\\section{\nB#\n\n", "\n}\n\n"}, pieces[2], pieces[3], {"\\section{\n\\title{}{e#}\n\n", "\n}\n\n"}, pieces[6]}
	e.Bound("the same with sections without title or with an empty one, <=%d pieces", max)
	balanced(more, 1, max, 4, func(t string, n int) bool {
		if !strings.Contains(t, "\\section{\nB") && !strings.Contains(t, "\\title{}") {
			return true
		}
		return run("\\title{T0}{index}{home}\n\nbody\n\n"+numbered(t), n)
	})
	e.Bound("%s", bigTrees("\\section{\n\\title{T@@}{t@@}\n\nB@@ \\target{g@@}{G}{text} \\target{h@@}\n\n", 5, "\\title{T0}{index}{home}\n\nbody\n\n", 100, run))
	e.Bound("%s, as body, title, title and content of targets; as 1..60 lines and paragraphs", longTexts(func(s string) {
		run("\\title{T "+s+"}{index}\n\n"+s+"\n\n\\target{g}{G "+s+"}{"+s+"}\n\n\\section{\n\\title{S}{s}\n\nx "+s+"\n}\n", 1)
		if len(s) <= 61 {
			n := len(s)
			run("\\title{T}{index}\n\n"+strings.Repeat("a b\n", n)+"\n\\target{g}{G}{"+strings.Repeat("\\bold{c} ", n)+"}", n)
			run("\\title{T}{index}\n\n"+strings.Repeat("a b\n\n", n)+"\n\\target{g}{G}{\n"+strings.Repeat("c\n\n", n)+"}", n)
			run("\\title{T}{index}\n\n\\list"+strings.Repeat("{a}", n)+"\n\n\\ordered-list"+strings.Repeat("{b}", n)+"\n\n\\target{g}{G}{\\code{{\n"+strings.Repeat("c\n", n)+"}}}", n)
		}
	}))
	bodies := []string{"x", "\\bold{x} y", "\\list{a}{b\n\nc}{\\list{d}}", "\\ordered-list{a}{b}", "\\table{\\table-row{a}{b}}{\\table-row{c}}", "\\definitions{\\definition{s}{d}}", "\\code{{\n  a\n    b\n}}", "\\code{c}", "\\link{l}{http://x}", "\\image{p}{d}", "\\reference{index}", "\\reference{index}{R}", "\\aux{a}", "\\target{zz}{Z}{zc}", "\\target{ze}{Z}{} \\target{zf}{}{zc} \\target{zg}{}{} \\target{zh}{}", "{}", "\\target{zi}{\\aux{Z}}{\\aux{c} \\image{p}}", "\\table{\\table-row{a}}{\\table-row{b}{c}{d}}{\\table-row}", "\\table-of-contents", "\\inset{\na\n\nb\n}", "p\nq\n\nr", "\\set-partial{P}{\\target{yy}{Y}}", "\\include-section{inc.lit}", "\\section{\\title{In}{in} inline}", "\\italic{\\link{a \\bold{b}}{u}}", "\\reference{home}{L:home}"}
	e.Bound("texts: all pairs of %d body contents in a section, and all as title and as target content", len(bodies))
	for _, x := range bodies {
		for _, y := range bodies {
			if !run("\\title{T0}{index}{home}\n\n"+x+"\n\n\\section{\n\\title{S}{s}\n\n"+y+"\n\n"+x+"\n}\n", 2) {
				return
			}
			run("\\title{T0}{index}{home}\n\n\\bold{"+x+" "+y+"}", 2)
		}
		if !strings.Contains(x, "home") && !strings.Contains(x, "index") {
			run("\\title{T "+x+"}{index}{home}\n\n\\target{t1}{X "+x+"}{Y "+x+"}", 2)
		}
	}
	alpha := []string{"a", `"`, "'", "<", "&", `\\`, `\{`, "/", " ", "é", "\u2028", "\x01", "\x7f", "\t", "😀", ","}
	max = pick(e, 3, 4)
	e.Bound("all strings of length 1..%d over %q as text and title, and as tag of targets; every character U+0001..U+024F", max, alpha)
	str := func(s string, n int) bool {
		return run("\\title{x"+s+"}{index}{home}\n\nx"+s+"\n\n\\target{z"+s+"z}{x"+s+"}{y"+s+"}\n\n\\target{w"+s+"}\n\n\\reference{w"+s+"}{L:w"+s+"}", n)
	}
	sequences(alpha, 1, max, func(s string, ix []int) bool { return str(s, len(ix)) })
	for r := rune(1); r < 0x250; r++ {
		if r != '\\' && r != '{' && r != '}' && r != '\n' && r != '\r' {
			str(string(r), 1)
		}
	}
}

// --- C27

func runC27(e *Env) {
	b := newBuilder(e, "s")
	b.sameTime = true
	pieces := []piece{{"\\split-sections\n\n", ""}, {"\\single-page\n\n", ""}, {"\\table-of-contents\n\n", ""}, {"\\target{g#}{G}{text}\n\n", ""}, {"\\reference{t1} \\bold{x}\n\n", ""}, {"\\section{\n\\title{T}{t}\n\nB#\n\n", "\n}\n\n"}, {"\\omit-children-from-table-of-contents\n\n", ""}, {"\\set-partial{p}{v}\n\n", ""}, {"\\code{{\n  x\n   y#\n}}\n\n", ""}}
	max := pick(e, 4, 5)
	e.Bound("all documents of <=%d nested pieces with sections, times all non-empty subsets of the sections moved to files, times directory schemes (all in the same directory, each a directory deeper, each back up, each named like the root in a directory of its own, names differing only in case)", max)
	one := func(t string, n int) bool {
		k := strings.Count(t, "\\section{")
		if k == 0 {
			return true
		}
		if !e.Mine() {
			return !e.Stopped()
		}
		t = numbered(t)
		for i := 1; strings.Contains(t, "\\title{T}{t}"); i++ {
			t = strings.Replace(t, "\\title{T}{t}", fmt.Sprintf("\\title{T%d}{t%d}", i, i), 1)
		}
		t = "\\title{Root}{index}\n\n" + t
		e.Exec(t, func() string {
			e.Trans(n)
			idx := func(c *booklitcmd.Command) { c.SaveSearchIndex = true }
			base, err := b.build(map[string]string{"index.lit": t}, idx)
			e.Traces(1)
			berr := ""
			if err != nil {
				berr = fmt.Sprintf("%T", err)
			}
			var masks []int
			if k < 8 {
				for mask := 1; mask < 1<<k; mask++ {
					masks = append(masks, mask)
				}
			} else {
				// all, every other, all but one, single ones
				masks = []int{1<<k - 1, (1<<k - 1) / 3, (1<<k - 1) / 3 * 2, 1<<k - 1 - 1<<(k/2), 1, 1 << (k / 2), 1 << (k - 1)}
			}
			for _, mask := range masks {
				for scheme := 0; scheme < 5; scheme++ {
					files := moveSections(t, mask, scheme)
					e.Traces(1)
					e.Trans(1)
					got, err := b.build(files, idx)
					gerr := ""
					if err != nil {
						gerr = fmt.Sprintf("%T", err)
					}
					if gerr != berr {
						return fmt.Sprintf("inline: %s, with %v: %v", berr, files, err)
					}
					if berr != "" {
						continue
					}
					if names(got) != names(base) {
						return fmt.Sprintf("inline gives %s, %v gives %s", names(base), files, names(got))
					}
					for n := range base {
						if base[n] != got[n] {
							return fmt.Sprintf("%v\n%s differs: %s", files, n, diffText(got[n], base[n]))
						}
					}
				}
			}
			return ""
		})
		return !e.Stopped()
	}
	balanced(pieces, 1, max, 3, one)
	bt := bigTrees("\\section{\n\\title{T}{t}\n\nB#\n\n\\target{g#} \\reference{t1}\n\n", 0, "", 12, one)
	e.Bound("%s; with 8 and more sections all of them moved to files, every other, all but one, and the first, middle and last one", bt)
	m2 := pick(e, 5, 7)
	e.Bound("all trees of <=%d sections, likewise", m2)
	balanced(pieces[5:6], 1, m2, m2, one)
}

// moved runs a check for the document with every non-empty subset of its
// sections moved to files.
func moved(e *Env, t string, check func(files map[string]string) string) {
	for mask := 1; mask < 1<<strings.Count(t, "\\section{\n"); mask++ {
		e.Each(fmt.Sprintf("moved %b: %s", mask, t), func() string { return check(moveSections(t, mask, mask%5)) })
	}
}

// moveSections moves the sections selected by mask (in document order) to
// files and includes them from there.
func moveSections(t string, mask, scheme int) map[string]string {
	files := map[string]string{}
	n := 0
	var move func(t, dir string, depth int) (string, string) // content up to the unmatched "\n}\n", rest
	move = func(t, dir string, depth int) (string, string) {
		out := ""
		for t != "" {
			switch {
			case strings.HasPrefix(t, "\\section{\n"):
				i := n
				n++
				if mask&(1<<i) == 0 {
					in, rest := move(t[len("\\section{\n"):], dir, depth+1)
					out += "\\section{\n" + in + "\n}\n\n"
					t = rest
					continue
				}
				rel, nd := "", dir
				switch scheme {
				case 1:
					rel, nd = "d/", dir+"d/"
				case 2:
					if strings.HasPrefix(dir, "up") {
						rel, nd = "../", ""
					} else {
						rel, nd = "up/", dir+"up/"
					}
				}
				name := fmt.Sprintf("s%d.lit", i)
				switch scheme {
				case 3:
					rel = fmt.Sprintf("d%d/", i)
					nd = dir + rel
					name = "index.lit"
				case 4:
					b := []byte("abcdefgh")
					for j := range b {
						if i&(1<<j) != 0 {
							b[j] -= 'a' - 'A'
						}
					}
					name = string(b) + ".lit"
				}
				in, rest := move(t[len("\\section{\n"):], nd, depth+1)
				files[nd+name] = in + "\n"
				out += "\\include-section{" + rel + name + "}\n\n"
				t = rest
			case strings.HasPrefix(t, "\n}\n\n") && depth > 0:
				return out, t[len("\n}\n\n"):]
			default:
				out += t[:1]
				t = t[1:]
			}
		}
		return out, ""
	}
	c, _ := move(t, "", 0)
	files["index.lit"] = c
	return files
}

// bigTrees are documents beyond the sizes of the exhaustive enumerations:
// chains, fans, combs and full trees of sections, splitting at different
// levels. The section opens with open, in which @@ are numbers.
func bigTrees(open string, per int, head string, max int, run func(t string, n int) bool) string {
	end := "\n}\n\n"
	emit := func(t string, n int) { run(head+counted(t, per), n) }
	depths := []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20}
	for _, n := range depths {
		if n > max {
			break
		}
		for _, flag := range []string{"", "\\split-sections\n\n", "\\single-page\n\n"} {
			for k := -1; k < n && (flag != "" || k < 0); k++ {
				t := ""
				for i := 0; i < n; i++ {
					if i == k || k < 0 {
						t += flag
					}
					t += open
				}
				emit(t+strings.Repeat(end, n), n)
			}
		}
		// a section before and after each
		t, u := "", ""
		for i := 0; i < n; i++ {
			t += open + end + open
			u += end + open + end
		}
		emit(t+u, n)
		emit("\\split-sections\n\n"+t+u, n)
	}
	for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 32, 33, 64, 65, 100} {
		if n > max {
			break
		}
		for _, flag := range []string{"", "\\split-sections\n\n"} {
			emit(flag+strings.Repeat(open+end, n), n)
			emit(flag+open+flag+strings.Repeat(open+end, n)+end+open+end, n)
		}
	}
	var full func(w, d int, flag string) string
	full = func(w, d int, flag string) string {
		if d == 0 {
			return ""
		}
		return flag + strings.Repeat(open+full(w, d-1, flag)+end, w)
	}
	for _, s := range [][2]int{{2, 3}, {2, 4}, {3, 3}, {4, 2}, {5, 2}, {8, 2}, {9, 2}, {10, 2}, {12, 2}} {
		for _, flag := range []string{"", "\\split-sections\n\n"} {
			emit(full(s[0], s[1], flag), s[0]*s[1])
		}
	}
	return fmt.Sprintf("chains, fans, combs and full trees of up to %d sections deep or wide, splitting nowhere, at any one level and everywhere", max)
}

// longTexts are texts of different lengths.
func longTexts(f func(s string)) string {
	var sizes []int
	for n := 1; n <= 140; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{160, 199, 200, 201, 250, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 32768, 65535, 65536, 65537, 100000} {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		for _, x := range []string{"x", "é ", "w, "} {
			if n <= 10000 || x == "x" {
				f(strings.Repeat(x, n/len(x)) + "Z")
			}
		}
	}
	return fmt.Sprintf("texts of 1..140 and %d more lengths up to 100000, of letters, of characters of several bytes and of words", len(sizes)-140)
}
