package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/booklitcmd"
	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C26", Level: "model_checking", Rule: "a state is a source file with a location in it, or a failing document; the real terminal report and the real error page are read back and compared with a reference annotator", Run: runC26, QuickBudget: 120})
}

// snippet is a quoted source line with its marks.
type snippet struct {
	file string // "" in terminal reports
	line int
	eof  bool
	text string
	from int // marked columns, from 1; 0 when nothing is marked
	n    int
}

func (s snippet) String() string {
	return fmt.Sprintf("%s:%d%s %q marked %d+%d", s.file, s.line, map[bool]string{true: " (end of file)"}[s.eof], trunc(s.text, 200), s.from, s.n)
}

// refSnippet quotes a location of a file.
func refSnippet(file, content string, line, col, length int) snippet {
	s := snippet{file: file, line: line, from: col, n: length}
	lines := strings.SplitAfter(content, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	if line > len(lines) {
		s.eof = true
		return s
	}
	s.text = strings.TrimSuffix(strings.TrimSuffix(lines[line-1], "\n"), "\r")
	return s
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var quoted = regexp.MustCompile(`^( *)([0-9]+)\| `)

// terminalSnippets finds the quoted lines of a terminal report.
func terminalSnippets(report string) []snippet {
	var out []snippet
	lines := strings.Split(report, "\n")
	for i := 0; i < len(lines); i++ {
		m := quoted.FindString(lines[i])
		if m == "" {
			continue
		}
		s := snippet{text: lines[i][len(m):]}
		fmt.Sscan(strings.TrimSuffix(strings.TrimSpace(m), "|"), &s.line)
		if i+1 < len(lines) {
			marks := []rune(ansi.ReplaceAllString(lines[i+1], ""))
			for j, r := range marks {
				if r == '^' {
					if s.n == 0 {
						s.from = j - len(m) + 1
					}
					s.n++
				} else if r != ' ' && r != '\t' || s.n > 0 {
					s.n = -100 // no marks
				}
			}
			i++
		}
		out = append(out, s)
	}
	return out
}

// htmlSnippets finds the quoted lines of an error page.
func htmlSnippets(n *html.Node) []snippet {
	var out []snippet
	var walk func(n *html.Node)
	hasClass := func(n *html.Node, c string) bool {
		v, _ := attr(n, "class")
		return n.Type == html.ElementNode && v == c
	}
	walk = func(n *html.Node) {
		switch {
		case hasClass(n, "file-snippet"):
			out = append(out, snippet{})
		case hasClass(n, "file-path") && len(out) > 0:
			out[len(out)-1].file = strings.TrimSuffix(nodeText(n), ":")
		case hasClass(n, "lineno") && len(out) > 0:
			fmt.Sscan(strings.TrimSpace(nodeText(n)), &out[len(out)-1].line)
		case hasClass(n, "line") && len(out) > 0:
			s := &out[len(out)-1]
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				switch {
				case hasClass(c, "eof"):
					s.eof = true
				case hasClass(c, "annotated"):
					s.from = len([]rune(s.text)) + 1
					s.n = len([]rune(nodeText(c)))
					s.text += nodeText(c)
				default:
					s.text += nodeText(c)
				}
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(n)
	return out
}

// inLine limits the marks to the line, as error pages do.
func (s snippet) inLine() snippet {
	if s.eof {
		s.from, s.n = 0, 0
		return s
	}
	end, max := s.from+s.n, len([]rune(s.text))+1
	if s.from < 1 {
		s.from = 1
	}
	if s.from > max {
		s.from = max
	}
	if end > max {
		end = max
	}
	if end < s.from {
		end = s.from
	}
	s.n = end - s.from
	return s
}

// samePlace compares the snippets of a report with the expected ones.
func samePlace(where string, got, want []snippet, page bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("the %s quotes %v, expected %v", where, got, want)
	}
	for i, g := range got {
		w := want[i]
		if page {
			w = w.inLine()
			w.text = strings.ReplaceAll(strings.ReplaceAll(w.text, "\x00", "\uFFFD"), "\r", "\n")
		} else {
			w.file, w.eof = "", false
		}
		if w.n == 0 || page && w.eof {
			g.from, w.from = 0, 0
		}
		if g != w {
			return fmt.Sprintf("the %s quotes %v\nexpected %v", where, g, w)
		}
	}
	return ""
}

// --- every location of a file

func checkLocation(e *Env, path, content string, line, col, length int) string {
	e.Traces(2)
	e.Trans(1)
	loc := booklit.ErrorLocation{FilePath: path, NodeLocation: ast.Location{Line: line, Col: col}, Length: length}
	want := []snippet{refSnippet(path, content, line, col, length)}
	var term bytes.Buffer
	loc.AnnotateLocation(&term)
	if m := samePlace("terminal report", terminalSnippets(term.String()), want, false); m != "" {
		return m
	}
	if !strings.HasSuffix(term.String(), "\n") {
		return "the terminal report ends within a line"
	}
	if a := loc.Annotate("%s", "m%d"); a != fmt.Sprintf("%s:%d: m%%d", path, line) {
		return "the message is shown as " + a
	}
	var page bytes.Buffer
	if err := loc.AnnotatedHTML(&page); err != nil {
		return "the error page fails: " + err.Error()
	}
	return samePlace("error page", htmlSnippets(dom(page.String())), want, true)
}

// --- failing documents

// a failing construct and where the report has to point: @1, @2, ... mark the
// places in the order of the report
type construct struct {
	text    string
	lengths []int  // of the marks; none: where the text can't be continued
	msg     string // part of the message
}

var constructs = []construct{
	{`@1\nope`, []int{5}, "nope"},
	{`\nope{a}{b`, nil, ""},
	{"@1\\a-b{x}{{\n  y\n}}", []int{4}, "a-b"},
	{`\bold{@1\nope}`, []int{5}, "nope"},
	{`\list{é}{日 @1\nope é}`, []int{5}, "nope"},
	{`\bold{{{\nope}}}@1\nope`, []int{5}, "nope"},
	{"\\bold{\n  é\n\n  x @1\\nope y\n}", []int{5}, "nope"},
	{"\\code{{\n  <b>@1\\nope</b>\n}}", []int{5}, "nope"},
	{`@1\use-plugin{zz}`, []int{11}, "zz"},
	{`@1\include-section{zz.lit}`, []int{16}, "zz.lit"},
	{`@1\section{\bold}`, []int{8}, "bold"},
	{`\section{\title{x}\section{\title{y}@1\use-plugin{zz}}}`, []int{11}, "zz"},
	{"\\section{\n  \\title{x}\n\n  @1\\nope\n}", []int{5}, "nope"},
	{`\section{@2\title{a}@1\title{b}}`, []int{6, 6}, "twice"},
	{"\\section{\n  é@2\\title{a}\n\n  é @1\\title{b}\n}", []int{6, 6}, "twice"},
	{`@1\reference{zz}`, []int{10}, "zz"},
	{`\list{a}{é@1\reference{zz}{x}}`, []int{10}, "zz"},
	{`@2\target{t}é@3\target{t}@1\reference{t}`, []int{10, 0, 0}, "t"},
	{`\section{@2\title{u}{t}}\section{@3\title{v}{t}}\bold{@1\reference{t}}`, []int{10, 0, 0}, "t"},
	{`@1\reference{100%d <i>&amp; "é"}`, []int{10}, `100%d <i>&amp; "é"`},
	{`@2\target{5%s<b>}é@3\target{5%s<b>}@1\reference{5%s<b>}`, []int{10, 0, 0}, "5%s<b>"},
	{`@1\use-plugin{%v<i>}`, []int{11}, "%v<i>"},
	{`@1\include-section{%v<i>.lit}`, []int{16}, "%v<i>.lit"},
	{`}`, nil, ""},
	{`\bold{`, nil, ""},
	{`a \ b`, nil, ""},
	{"{- x", nil, ""},
	{"\xff", nil, ""},
	{"\\code{{{\nx", nil, ""},
}

// marks finds the marked offsets of a construct and removes the marks.
func (c *construct) marks() (text string, offs []int) {
	text = c.text
	offs = make([]int, len(c.lengths))
	for {
		i := strings.IndexByte(text, '@')
		if i < 0 {
			return
		}
		offs[text[i+1]-'1'] = i
		text = text[:i] + text[i+2:]
	}
}

type reportDriver struct {
	*siteDriver
	out string
}

func (d *reportDriver) fail(files map[string]string, start string) error {
	d.put(files)
	cmd := &booklitcmd.Command{In: filepath.Join(d.dir, start), Out: d.out}
	return cmd.Build()
}

// checkReport builds failing documents and reads the reports.
func (d *reportDriver) checkReport(e *Env, files map[string]string, start, file string, base int, c construct) string {
	e.Traces(2)
	e.Trans(len(files))
	err := d.fail(files, start)
	if err == nil {
		return "harness: the document builds"
	}
	path := filepath.Join(d.dir, file)
	text := files[file]
	var want []snippet
	_, offs := c.marks()
	for i, off := range offs {
		line, col := position(text, base+off)
		want = append(want, refSnippet(path, text, line, col, c.lengths[i]))
	}
	if c.lengths == nil {
		// where the text can't be continued
		p := refParse(text)
		if p.ok {
			return "harness: the document is in the grammar"
		}
		want = []snippet{refSnippet(path, text, p.errLine, p.errCol, 1)}
	}
	var pretty booklit.PrettyError
	if !errors.As(err, &pretty) {
		return fmt.Sprintf("failed with %T: %s", err, err)
	}
	var term bytes.Buffer
	pretty.PrettyPrint(&term)
	if m := samePlace("terminal report", terminalSnippets(term.String()), want, false); m != "" {
		return m
	}
	if m := garbled(term.String(), text, path); m != "" {
		return m
	}
	head := fmt.Sprintf("%s:%d: ", path, want[0].line)
	if !strings.HasPrefix(ansi.ReplaceAllString(term.String(), ""), head) {
		return fmt.Sprintf("the terminal report begins with %q, expected %q", trunc(term.String(), 300), head)
	}
	if !strings.Contains(term.String(), c.msg) {
		return "the terminal report doesn't show the cause: " + term.String()
	}
	if !strings.HasSuffix(term.String(), "\n") {
		return "the terminal report ends within a line: " + term.String()
	}
	for i, w := range want {
		if i > 0 && len(want) == 3 && !strings.Contains(term.String(), w.file) {
			return "the terminal report doesn't name " + w.file
		}
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := rec.Body.String()
	if strings.Contains(page, "failed to render error page") || !strings.Contains(page, "</html>") {
		return "the error page failed: " + trunc(page[strings.Index(page+"<body>", "<body>"):], 3000)
	}
	n := dom(page)
	if m := samePlace("error page", htmlSnippets(n), want, true); m != "" {
		return m
	}
	if !strings.Contains(nodeText(n), c.msg) {
		return "the error page doesn't show the cause: " + page
	}
	return ""
}

// checkAmbiguous lets a reference to a tag defined in several files fail.
func (d *reportDriver) checkAmbiguous(e *Env, defs, heads []string, i int) string {
	names := []string{"index.lit", "b.lit", "sub/c.lit"}
	ref := i % 3
	i /= 3
	e.Trans(3)
	files := map[string]string{}
	var places []snippet
	var at snippet
	for f, name := range names {
		text := "\\title{" + name + "}\n\n" + heads[i%len(heads)]
		i /= len(heads)
		parts := strings.Split(defs[i%len(defs)], "@")
		i /= len(defs)
		text += parts[0]
		var offs []int
		for _, p := range parts[1:] {
			offs = append(offs, len(text))
			text += p
		}
		text += "\n\n"
		refOff := len(text)
		if f == ref {
			text += "\\reference{t}\n\n"
		}
		if f == 0 {
			text += "\\include-section{b.lit}\n\n\\include-section{sub/c.lit}\n"
		}
		files[name] = text
		path := filepath.Join(d.dir, name)
		for _, o := range offs {
			line, col := position(text, o)
			places = append(places, refSnippet(path, text, line, col, 0))
		}
		if f == ref {
			line, col := position(text, refOff)
			at = refSnippet(path, text, line, col, len("\\reference"))
		}
	}
	err := d.fail(files, "index.lit")
	if len(places) == 1 {
		if err != nil {
			return "the reference to the only tag fails: " + err.Error()
		}
		return ""
	}
	var pretty booklit.PrettyError
	if !errors.As(err, &pretty) {
		return fmt.Sprintf("failed with %T: %v", err, err)
	}
	if len(places) == 0 {
		e.Count("unknown", 1)
	}
	e.Traces(2)
	sorted := func(s []snippet) []snippet {
		s = append([]snippet{}, s...)
		sort.Slice(s[1:], func(i, j int) bool { return s[1+i].String() < s[1+j].String() })
		return s
	}
	want := append([]snippet{at}, places...)
	var term bytes.Buffer
	pretty.PrettyPrint(&term)
	got := terminalSnippets(term.String())
	if len(got) != len(want) {
		return "the terminal report quotes other places: " + term.String()
	}
	// the files are named before the lines
	header := regexp.MustCompile(`(?m)^- (.*):$`).FindAllStringSubmatch(ansi.ReplaceAllString(term.String(), ""), -1)
	if len(header) != len(places) {
		return "the terminal report doesn't name the file of each place: " + term.String()
	}
	got[0].file = at.file
	for j, h := range header {
		got[1+j].file = h[1]
	}
	for j, g := range sorted(got) {
		w := sorted(want)[j]
		if j > 0 {
			g.from, g.n, w.from, w.n = 0, 0, 0, 0
		}
		if g != w {
			return fmt.Sprintf("the terminal report quotes %v\nexpected %v", g, w)
		}
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := htmlSnippets(dom(rec.Body.String()))
	if len(page) != len(want) {
		return fmt.Sprintf("the error page quotes %v, expected %v", page, want)
	}
	return samePlace("error page", sorted(page), sorted(want), true)
}

// checkChanged lets a document fail and changes its file before the report.
func (d *reportDriver) checkChanged(e *Env, doc string, change string, c construct) string {
	e.Traces(2)
	e.Trans(2)
	err := d.fail(map[string]string{"index.lit": doc}, "index.lit")
	if err == nil {
		return "harness: the document builds"
	}
	path := filepath.Join(d.dir, "index.lit")
	_ = os.Remove(path)
	defer func() {
		_ = os.RemoveAll(path)
		delete(d.written, "index.lit")
	}()
	switch change {
	case "removed":
	case "directory":
		_ = os.Mkdir(path, 0755)
	case "dangling link":
		_ = os.Symlink("nowhere", path)
	default:
		_ = os.WriteFile(path, []byte(change), 0644)
	}
	var pretty booklit.PrettyError
	if !errors.As(err, &pretty) {
		return fmt.Sprintf("failed with %T: %s", err, err)
	}
	var term bytes.Buffer
	pretty.PrettyPrint(&term)
	if !strings.Contains(term.String(), c.msg) || !strings.Contains(term.String(), path) {
		return "the terminal report doesn't show the cause: " + term.String()
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := rec.Body.String()
	if strings.Contains(page, "failed to render error page") || !strings.Contains(page, "</html>") {
		return "the error page failed: " + trunc(page[strings.Index(page+"<body>", "<body>"):], 3000)
	}
	if !strings.Contains(nodeText(dom(page)), c.msg) {
		return "the error page doesn't show the cause: " + page
	}
	return ""
}

// garbled finds formatting that went wrong, unless the input is like this.
func garbled(report string, inputs ...string) string {
	for _, bad := range []string{"%!", "(MISSING)", "(EXTRA", "(NOVERB)", "BADINDEX"} {
		if strings.Contains(report, bad) && !strings.Contains(strings.Join(inputs, ""), bad) {
			return "the report is garbled: " + report
		}
	}
	return ""
}

// --- errors within errors

const maxNesting = 3

var nestedTexts = []string{"plain", "100%d of %s%% <i>&amp; \"é\"", "two\nlines", ""}

func nestedLeaves() int { return 7 * len(nestedTexts) }

func nestings() int { return nestedLeaves() * (maxNesting + 1) * 2 }

// checkNested reports functions that failed with errors of other functions.
func checkNested(e *Env, i int) string {
	located := i%2 == 0
	i /= 2
	depth := i % (maxNesting + 1)
	i /= maxNesting + 1
	text := nestedTexts[i%len(nestedTexts)]
	i /= len(nestedTexts)
	var want []snippet
	var causes []string
	content := "é first <b>\nsecond\n\n  fourth %d\nfifth\n"
	place := func(name string, line, col, n int) booklit.ErrorLocation {
		path := filepath.Join(e.Dir, name)
		_ = os.WriteFile(path, []byte(content), 0644)
		if !located {
			return booklit.ErrorLocation{FilePath: path}
		}
		want = append(want, refSnippet(path, content, line, col, n))
		return booklit.ErrorLocation{FilePath: path, NodeLocation: ast.Location{Line: line, Col: col}, Length: n}
	}
	places := make([]booklit.ErrorLocation, depth)
	for k := range places {
		places[k] = place(fmt.Sprintf("f%d.lit", k), 2+k, 1+k, 2)
	}
	var err error
	terminalOnly := 0
	switch i {
	case 0:
		err = errors.New(text)
		causes = append(causes, text)
		if depth == 0 {
			err = booklit.UndefinedFunctionError{Function: text, ErrorLocation: place("u.lit", 1, 1, 1)}
		}
	case 1:
		err = booklit.ParseError{Err: errors.New(text), ErrorLocation: place("p %s.lit", 1, 3, 1)}
		causes = append(causes, text)
	case 2:
		err = booklit.UnknownTagError{TagName: text, ErrorLocation: place("t.lit", 4, 3, 2)}
		causes = append(causes, text)
	case 3:
		err = booklit.UnknownTagError{TagName: text, SimilarTags: []booklit.Tag{{Name: "sim%d<1>"}, {Name: "sim2"}}, ErrorLocation: place("t.lit", 4, 3, 2)}
		causes = append(causes, text, "sim%d<1>", "sim2")
	case 4:
		at := place("r.lit", 1, 1, 2)
		err = booklit.AmbiguousReferenceError{TagName: text, DefinedLocations: []booklit.ErrorLocation{place("d1.lit", 2, 1, 0), place("d2 %d.lit", 5, 2, 0)}, ErrorLocation: at}
		causes = append(causes, text)
		terminalOnly = 2
	case 5:
		err = booklit.UndefinedFunctionError{Function: text, ErrorLocation: place("u.lit", 1, 1, 1)}
		causes = append(causes, text)
	case 6:
		at := place("tt.lit", 4, 5, 3)
		err = booklit.TitleTwiceError{TitleLocation: place("tt.lit", 1, 2, 4), ErrorLocation: at}
		causes = append(causes, "twice")
	}
	return reportNested(e, err, text, located, places, want, causes, terminalOnly)
}

// reportNested reports an error within those of functions called at the
// places.
func reportNested(e *Env, err error, text string, located bool, places []booklit.ErrorLocation, want []snippet, causes []string, terminalOnly int) string {
	depth := len(places)
	for k := depth - 1; k >= 0; k-- {
		err = booklit.FailedFunctionError{Function: fmt.Sprintf("fn-%d", k), Err: err, ErrorLocation: places[k]}
		causes = append(causes, fmt.Sprintf("fn-%d", k))
	}
	e.Traces(2)
	e.Trans(depth + 1)
	var term bytes.Buffer
	err.(booklit.PrettyError).PrettyPrint(&term)
	report := ansi.ReplaceAllString(term.String(), "")
	got := terminalSnippets(term.String())
	if m := samePlace("terminal report", got, want, false); m != "" {
		return m + "\n" + report
	}
	if m := garbled(report, text); m != "" {
		return m
	}
	named := want
	if located {
		named = append(want[:depth:depth], want[len(want)-terminalOnly:]...)
	}
	for _, w := range named {
		if !strings.Contains(report, w.file) {
			return "the terminal report doesn't name " + w.file + ": " + report
		}
	}
	for _, c := range causes {
		for _, l := range strings.Split(c, "\n") {
			if !strings.Contains(report, l) {
				return fmt.Sprintf("the terminal report doesn't show %q: %s", l, report)
			}
		}
	}
	for _, wrapped := range []error{err, fmt.Errorf("w%%: %w", err)} {
		rec := httptest.NewRecorder()
		booklit.ErrorResponse(rec, wrapped)
		page := rec.Body.String()
		if strings.Contains(page, "failed to render error page") || !strings.Contains(page, "</html>") {
			return "the error page failed: " + page[strings.Index(page+"<body>", "<body>"):]
		}
		n := dom(page)
		if m := samePlace("error page", htmlSnippets(n), want, true); m != "" {
			return m
		}
		for _, c := range causes {
			if c == "twice" {
				c = "itle"
			}
			if !strings.Contains(nodeText(n), c) {
				return fmt.Sprintf("the error page doesn't show %q: %s", c, page)
			}
		}
		if m := garbled(nodeText(n), text); m != "" {
			return m
		}
	}
	return ""
}

// checkMany reports an error with n similar tags, n definitions, or n functions
// that failed because of it.
func checkMany(e *Env, kind, n int) string {
	var want []snippet
	var places []booklit.ErrorLocation
	text := "tag"
	causes := []string{text}
	var lines []string
	for i := 1; i <= n+1; i++ {
		lines = append(lines, fmt.Sprintf("<%d> é", i))
	}
	content := strings.Join(lines, "\n") + "\n"
	path := filepath.Join(e.Dir, "many.lit")
	if err := os.WriteFile(path, []byte(content), 0644); err != nil {
		panic(err)
	}
	place := func(line, col, n int) booklit.ErrorLocation {
		want = append(want, refSnippet(path, content, line, col, n))
		return booklit.ErrorLocation{FilePath: path, NodeLocation: ast.Location{Line: line, Col: col}, Length: n}
	}
	var err error
	terminalOnly := 0
	switch kind {
	case 0:
		var sim []booklit.Tag
		for i := 0; i < n; i++ {
			sim = append(sim, booklit.Tag{Name: fmt.Sprintf("similar-%d!", i)})
			causes = append(causes, sim[i].Name)
		}
		err = booklit.UnknownTagError{TagName: text, SimilarTags: sim, ErrorLocation: place(n+1, 1, 2)}
	case 1:
		at := place(n+1, 2, 2)
		var locs []booklit.ErrorLocation
		for i := 0; i < n; i++ {
			locs = append(locs, place(i+1, 1, 0))
		}
		err = booklit.AmbiguousReferenceError{TagName: text, DefinedLocations: locs, ErrorLocation: at}
		terminalOnly = n
	case 2:
		for i := 0; i < n; i++ {
			places = append(places, place(i+1, 1+i%4, 2))
		}
		err = booklit.UndefinedFunctionError{Function: text, ErrorLocation: place(n+1, 1, 1)}
	}
	return reportNested(e, err, text, true, places, want, causes, terminalOnly)
}

func runC26(e *Env) {
	d := &reportDriver{newSiteDriver(e, "s"), filepath.Join(e.Dir, "out")}
	_ = os.MkdirAll(d.out, 0755)

	// locations
	for i := 0; i < nestings(); i++ {
		if !e.Mine() {
			continue
		}
		i := i
		e.Exec(fmt.Sprintf("errors within errors, %d", i), func() string { return checkNested(e, i) })
	}
	e.Bound("every kind of error (and texts with formatting verbs and markup) on its own and within the errors of 1..%d functions, with and without places", maxNesting)
	e.Bound("1..40 similar tags, definitions, and functions failing within each other; files of 10001 lines, every line around each change of the number of digits")
	for kind := 0; kind < 3; kind++ {
		for n := 1; n <= 40; n++ {
			e.Each(fmt.Sprintf("%d times kind %d", n, kind), func() string { return checkMany(e, kind, n) })
		}
	}
	var long strings.Builder
	for i := 1; i <= 10001; i++ {
		fmt.Fprintf(&long, "é <%d>\n", i)
	}
	longPath := filepath.Join(e.Dir, "long.lit")
	_ = os.WriteFile(longPath, []byte(long.String()), 0644)
	for _, at := range []int{10, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 10000} {
		for line := at - 1; line <= at+1; line++ {
			e.Each(fmt.Sprintf("line %d of 10001", line), func() string {
				for col := 0; col <= 10; col++ {
					for n := 0; n <= 3; n++ {
						if m := checkLocation(e, longPath, long.String(), line, col, n); m != "" {
							return fmt.Sprintf("%d:%d length %d: %s", line, col, n, m)
						}
					}
				}
				return ""
			})
		}
	}
	lines := []string{"", "a", "é\t<b>&amp;\"", "日本 x", "\\a{b}", "12| x", "\xff\xfe y"}
	ends := []string{"\n", "\r\n"}
	k := pick(e, 3, 4)
	e.Bound("all files of 0..%d lines out of %d, with LF and CRLF, with and without a line break at the end; every line up to 2 beyond the end, column 0..length+2 and lengths 0..3", k, len(lines))
	path := filepath.Join(e.Dir, "loc.lit")
	var files func(n int, content string)
	visit := func(content string) {
		if !e.Mine() {
			return
		}
		e.Exec(fmt.Sprintf("locations in %q", content), func() string {
			if err := os.WriteFile(path, []byte(content), 0644); err != nil {
				return err.Error()
			}
			for line := 1; line <= strings.Count(content, "\n")+3; line++ {
				s := refSnippet(path, content, line, 1, 1)
				for col := 0; col <= len([]rune(s.text))+2; col++ {
					for n := 0; n <= 3; n++ {
						if m := checkLocation(e, path, content, line, col, n); m != "" {
							return fmt.Sprintf("%d:%d length %d: %s", line, col, n, m)
						}
					}
				}
			}
			return ""
		})
	}
	files = func(n int, content string) {
		visit(content)
		if n == 0 {
			return
		}
		for _, l := range lines {
			if l != "" {
				visit(content + l)
			}
			for _, end := range ends {
				files(n-1, content+l+end)
			}
		}
	}
	files(k, "")
	var odd []string
	for c := 0; c < 256; c++ {
		if c != '\n' && c != '\r' {
			odd = append(odd, string([]byte{byte(c)}))
		}
	}
	odd = append(odd, "\u0085", "\u00a0", "\u00ad", "\u0300", "\u200b", "\u2028", "\u2029", "\u3000", "\ufeff", "\ufffd", "\U0001F600", "\U0010FFFF")
	e.Bound("every byte and %d special characters at the beginning, in the middle and at the end of a line of its own and a longer one", len(odd)-254)
	for _, o := range odd {
		for _, l := range []string{o, o + o, o + "a", "a" + o, "a" + o + "b", " " + o + " "} {
			for _, form := range []string{"%s", "%s\n", "p\n%s\n", "p\n%s\nq\n"} {
				visit(strings.Replace(form, "%s", l, 1))
			}
		}
	}
	sizes := []int{80, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000, 1 << 20}
	e.Bound("lines of %v bytes, marked at the beginning, around 4096 and 65536, and at the end", sizes)
	for _, n := range sizes {
		for _, x := range []string{"x", "é", "<"} {
			for _, pre := range []string{"", "a\n", strings.Repeat("y", n) + "\n"} {
				for _, post := range []string{"", "\n", "\r\nb"} {
					n, x, pre, post := n, x, pre, post
					if n > 100000 && (x != "x" || len(pre) > 10) {
						continue
					}
					if e.Mine() {
						e.Exec(fmt.Sprintf("line of %d %s after %d bytes, then %q", n, x, len(pre), post), func() string {
							content := pre + strings.Repeat(x, n/len(x)) + post
							if err := os.WriteFile(path, []byte(content), 0644); err != nil {
								return err.Error()
							}
							for _, col := range []int{1, 2, 4090, 4096, 4097, 65536, n / len(x)} {
								if m := checkLocation(e, path, content, strings.Count(pre, "\n")+1, col, 3); m != "" {
									return fmt.Sprintf("column %d: %s", col, m)
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
	counts := []int{9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000}
	e.Bound("line numbers around %v", counts)
	for _, n := range counts {
		if e.Mine() {
			n := n
			e.Exec(fmt.Sprintf("line %d", n), func() string {
				content := strings.Repeat("a\n", n-1) + "é here\n"
				if err := os.WriteFile(path, []byte(content), 0644); err != nil {
					return err.Error()
				}
				for l := n - 1; l <= n+1; l++ {
					for col := 0; col < 8; col++ {
						if m := checkLocation(e, path, content, l, col, 2); m != "" {
							return m
						}
					}
				}
				return ""
			})
		}
	}

	// documents
	toks := []string{"", "a", "é ", "日", "\t", "<b>&amp;", `\bold{b} `, "{-c-}", `\\`, "12| ", strings.Repeat("é", 3000), strings.Repeat("x", 70000), "  "}
	above := []string{"", "l\n", "l\n\n", "é\r\n\r\n<i>\n", "{- \n\n -}\n", strings.Repeat("q\n", 120)}
	below := []string{"", "\n", "\r\n", " tail é", "\nnext", "\r\n\r\n<u>"}
	places := []string{"document", "included", "inline section", "included inline section"}
	pairs := pick(e, 0, 1)
	e.Bound("%d failing constructs (undefined and failing functions, parse errors, unknown and ambiguous tags, titles set twice, nested) with each of %d texts%s before it in its line, %d line shapes above it, %d after it; in a document, an inline section and included files", len(constructs), len(toks), map[int]string{0: "", 1: " or two of them"}[pairs], len(above), len(below))
	for ci, c := range constructs {
		ctext, _ := c.marks()
		for ti, t := range toks {
			for t2i, t2 := range toks {
				if t2i > 0 && pairs == 0 || t2i > 0 && (ti == 0 || len(t)+len(t2) > 10000) {
					continue
				}
				for ai, a := range above {
					for bi, b := range below {
						for pi, place := range places {
							if len(t)+len(t2) > 10000 && (ai > 1 || pi > 1) || c.lengths == nil && pi%2 == 0 && pi > 0 {
								continue
							}
							if !e.Mine() {
								continue
							}
							pre, c := a+t+t2, c
							doc := pre + ctext + b
							base := len(pre)
							fs := map[string]string{}
							start, file := "index.lit", "index.lit"
							if strings.Contains(place, "inline") {
								w := "top\n\n\\section{\n"
								if strings.Contains(pre+ctext+b, "\n") {
									w += "\\title{s}{s}\n\n"
								}
								doc = w + doc + "\n}\n"
								base += len(w)
							}
							if c.lengths == nil && strings.Contains(place, "inline") {
								continue // another error
							}
							if strings.HasPrefix(place, "included") {
								file = "sub/é%d <inc>.lit"
								fs[start] = "\\title{i}{i}\n\n\\section{\\title{m}{m}\\include-section{" + file + "}}\n"
							}
							fs[file] = doc
							e.Exec(fmt.Sprintf("construct %d, texts %d %d, above %d, below %d, %s", ci, ti, t2i, ai, bi, place), func() string {
								return d.checkReport(e, fs, start, file, base, c)
							})
						}
						if e.Stopped() {
							return
						}
					}
				}
			}
		}
	}
	defs := []string{"", "@\\target{t}{T}", "é @\\target{t}\n\n\\bold{日 @\\target{t}{T}}", "\\section{\n  @\\title{S}{t}\n}"}
	heads := []string{"", "l\n\n", strings.Repeat("q\n\n", 5)}
	e.Bound("a tag defined in three files, each with %d texts that define it up to twice at %d places, and a reference to it in each of them", len(defs), len(heads))
	n := len(defs) * len(heads)
	for i := 0; i < n*n*n*3; i++ {
		if !e.Mine() {
			continue
		}
		i := i
		e.Exec(fmt.Sprintf("a tag defined in several files, %d", i), func() string { return d.checkAmbiguous(e, defs, heads, i) })
	}
	changes := []string{"removed", "directory", "dangling link", "", "\n", "x", "é\n", "\x00\xff", "<b>\n</b>\n", strings.Repeat("z", 5000), strings.Repeat("\n", 50)}
	e.Bound("%d failing constructs whose file is changed in %d ways before the report", len(constructs), len(changes))
	for ci, c := range constructs {
		ctext, _ := c.marks()
		for _, ch := range changes {
			for _, pre := range []string{"", "a b\n\nc é ", "\n\n\n\n"} {
				if e.Mine() {
					c, ch, pre := c, ch, pre
					e.Exec(fmt.Sprintf("construct %d after %q, file %q", ci, pre, trunc(ch, 40)), func() string { return d.checkChanged(e, pre+ctext, ch, c) })
				}
			}
		}
	}
}
