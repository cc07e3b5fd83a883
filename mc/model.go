package main

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Model of section trees: what the documented built-in functions do, evaluated
// on documents read by the reference parser.

type rloc struct{ line, col, off int }

func (l rloc) String() string { return fmt.Sprintf("%d:%d:%d", l.line, l.col, l.off) }

func locOf(i *rInv) rloc { return rloc{i.line, i.col, i.off} }

type rtag struct {
	name    string
	title   []item
	anchor  string
	content []item
	hasCont bool
	loc     rloc
	sec     *rsec
}

type rsec struct {
	path     string // own file, or ""
	title    []item
	hasTitle bool
	titleLoc rloc
	primary  string
	tags     []rtag
	body     []item
	parent   *rsec
	children []*rsec
	style    string
	partials map[string][]item
	prevent  bool // single-page called here
	splits   bool // split-sections called here
	omit     bool
	loc      rloc
	plugins  []string
	calls    map[string]int
}

func (s *rsec) file() string {
	for ; s != nil; s = s.parent {
		if s.path != "" {
			return s.path
		}
	}
	return ""
}

func (s *rsec) root() *rsec {
	for s.parent != nil {
		s = s.parent
	}
	return s
}

// prevented: single-page applies to the section.
func (s *rsec) prevented() bool {
	for ; s != nil; s = s.parent {
		if s.prevent {
			return true
		}
	}
	return false
}

// split: the section's children have their own pages.
func (s *rsec) split() bool { return s.splits && !s.prevented() }

// page is the section on whose page s is rendered.
func (s *rsec) page() *rsec {
	for s.parent != nil && !s.parent.split() {
		s = s.parent
	}
	return s
}

func (s *rsec) depth() int {
	n := 0
	for s.parent != nil {
		s = s.parent
		n++
	}
	return n
}

func (s *rsec) pageDepth() int {
	n := 0
	for s.parent != nil && !s.parent.splits {
		s = s.parent
		n++
	}
	return n
}

func (s *rsec) number() string {
	if s.parent == nil {
		return ""
	}
	n := 0
	for i, c := range s.parent.children {
		if c == s {
			n = i + 1
		}
	}
	if p := s.parent.number(); p != "" {
		return p + "." + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

func (s *rsec) walk(f func(*rsec)) {
	f(s)
	for _, c := range s.children {
		c.walk(f)
	}
}

func (s *rsec) all() []*rsec {
	var out []*rsec
	s.walk(func(x *rsec) { out = append(out, x) })
	return out
}

func (s *rsec) find(tag string) []rtag {
	var out []rtag
	for _, x := range s.root().all() {
		for _, t := range x.tags {
			if t.name == tag {
				out = append(out, t)
			}
		}
	}
	return out
}

// rerr is a failure to load.
type rerr struct {
	kind  string // parse, undefined, arity, failed, titletwice, missing
	fn    string
	file  string
	loc   rloc
	first rloc // of the first title
	msg   string
	err   error
	wraps []rwrap // functions through which a plain error was passed on, innermost first
}

type rwrap struct {
	fn, file string
	loc      rloc
}

func (e *rerr) String() string { return fmt.Sprintf("%+v", *e) }

// plain errors get wrapped by the function that returns them
func (e *rerr) pretty() bool {
	return len(e.wraps) > 0 || e.kind != "arity" && e.kind != "missing" && e.kind != "badtype"
}

type rsite struct {
	files   map[string]string
	dir     string // prefix of file paths
	known   map[string]bool
	secs    int
	events  []revent
	devents []string // calls of the dispatch plugins
}

type revaluator struct {
	site *rsite
	sec  *rsec
	err  *rerr
}

type sig struct {
	min, max int // arguments; max -1: any
}

var builtins = map[string]sig{
	"UsePlugin": {1, 1}, "Styled": {1, 1}, "Title": {1, -1}, "Aux": {1, 1}, "Section": {1, 1}, "IncludeSection": {1, 1},
	"SinglePage": {0, 0}, "SplitSections": {0, 0}, "OmitChildrenFromTableOfContents": {0, 0}, "TableOfContents": {0, 0},
	"Code": {1, 1}, "Italic": {1, 1}, "Bold": {1, 1}, "Larger": {1, 1}, "Smaller": {1, 1}, "Strike": {1, 1}, "Superscript": {1, 1},
	"Subscript": {1, 1}, "Inset": {1, 1}, "Aside": {1, 1}, "Link": {2, 2}, "Reference": {1, -1}, "Target": {1, -1}, "List": {0, -1},
	"OrderedList": {0, -1}, "Image": {1, -1}, "SetPartial": {2, 2}, "Table": {0, -1}, "TableRow": {0, -1}, "Definitions": {0, -1}, "Definition": {2, 2},
}

// functions of the harness plugins, by plugin
var harnessPlugins = map[string]map[string]sig{
	"vp": {"A": {0, -1}, "B": {0, -1}, "N": {0, -1}, "S": {0, -1}},
	"vq": {"Who": {0, 0}, "WithPartial": {2, 2}, "Fail": {1, 1}, "Q": {0, -1}},
	"vr": {"Who": {0, 0}, "R": {0, -1}, "Bold": {1, 1}},
}

var styles = map[string]string{"Code": "verbatim", "Italic": "italic", "Bold": "bold", "Larger": "larger", "Smaller": "smaller", "Strike": "strike",
	"Superscript": "superscript", "Subscript": "subscript", "Inset": "inset", "Aside": "aside"}

func (ev *revaluator) lookup(inv *rInv) (plugin string, s sig, ok bool) {
	m := methodName(inv.name)
	for _, p := range ev.sec.plugins {
		if p == "baselit" {
			s, ok = builtins[m]
		} else if ms, is := dmethods[p]; is {
			_, ok = ms[m]
		} else {
			s, ok = harnessPlugins[p][m]
		}
		if ok {
			return p, s, true
		}
	}
	return "", sig{}, false
}

func (ev *revaluator) fail(e rerr) {
	if ev.err == nil {
		e.file = ev.sec.file()
		ev.err = &e
	}
}

// eval evaluates a node; present tells whether it yields content at all.
func (ev *revaluator) eval(n rnode) (out []item, present bool) {
	if ev.err != nil {
		return nil, false
	}
	switch v := n.(type) {
	case nil:
		return []item{text("")}, true
	case rStr:
		return []item{text(string(v))}, true
	case rSeq:
		for _, x := range v {
			o, p := ev.eval(x)
			out = append(out, o...)
			present = present || p
		}
		return out, present
	case rPara:
		var lines [][]item
		for _, l := range v {
			if o, p := ev.eval(l); p {
				lines = append(lines, o)
			}
		}
		if len(lines) == 0 {
			return nil, false
		}
		if len(lines) == 1 && !flow(lines[0]) {
			return lines[0], true
		}
		return []item{{k: "P", parts: lines}}, true
	case rPre:
		var lines [][]item
		for _, l := range v {
			if o, p := ev.eval(l); p {
				lines = append(lines, o)
			}
		}
		return []item{{k: "F", parts: lines}}, true
	case *rInv:
		return ev.call(v)
	}
	panic(fmt.Sprintf("%T", n))
}

func (ev *revaluator) call(inv *rInv) ([]item, bool) {
	plugin, s, ok := ev.lookup(inv)
	if !ok {
		ev.fail(rerr{kind: "undefined", fn: inv.name, loc: locOf(inv)})
		return nil, false
	}
	if dsigs[plugin] != nil {
		return refDispatch(ev, plugin, inv)
	}
	if len(inv.args) < s.min || s.max >= 0 && len(inv.args) > s.max {
		ev.fail(rerr{kind: "arity", fn: inv.name, loc: locOf(inv)})
		return nil, false
	}
	m := methodName(inv.name)
	if plugin == "baselit" && m == "Section" {
		child := ev.site.evaluate(ev.sec, "", inv.args[0], ev.sec.plugins, &ev.err)
		if ev.err != nil {
			if !ev.err.pretty() {
				ev.err.wraps = append(ev.err.wraps, rwrap{inv.name, ev.sec.file(), locOf(inv)})
			}
			return nil, false
		}
		child.loc = locOf(inv)
		ev.sec.children = append(ev.sec.children, child)
		return nil, false
	}
	var args [][]item
	for _, a := range inv.args {
		o, _ := ev.eval(a)
		if ev.err != nil {
			return nil, false
		}
		args = append(args, o)
	}
	if plugin != "baselit" {
		return ev.harness(plugin, m, inv, args)
	}
	one := func(it item) ([]item, bool) { return []item{it}, true }
	failed := func(msg string) ([]item, bool) {
		ev.fail(rerr{kind: "failed", fn: inv.name, loc: locOf(inv), msg: msg})
		return nil, false
	}
	if st, ok := styles[m]; ok {
		return one(item{k: "styled", s: st, parts: [][]item{args[0]}})
	}
	sec := ev.sec
	switch m {
	case "UsePlugin":
		name := istr(args[0])
		if _, ok := harnessPlugins[name]; !ok && name != "baselit" && dsigs[name] == nil {
			return failed("unknown plugin '" + name + "'")
		}
		sec.plugins = append(append([]string{}, sec.plugins...), name)
	case "Styled":
		sec.style = istr(args[0])
	case "Title":
		if sec.hasTitle {
			ev.fail(rerr{kind: "titletwice", fn: inv.name, loc: locOf(inv), first: sec.titleLoc})
			return nil, false
		}
		sec.title = args[0]
		sec.hasTitle = true
		sec.titleLoc = locOf(inv)
		var tags []string
		for _, a := range args[1:] {
			tags = append(tags, istr(a))
		}
		if len(tags) == 0 {
			tags = []string{refDefaultTag(args[0])}
		}
		sec.tags = nil
		for _, t := range tags {
			sec.tags = append(sec.tags, rtag{name: t, title: args[0], loc: locOf(inv), sec: sec})
		}
		sec.primary = tags[0]
	case "Aux":
		return one(item{k: "aux", parts: [][]item{args[0]}})
	case "IncludeSection":
		p := path.Join(path.Dir(sec.file()), istr(args[0]))
		for a := sec; a != nil; a = a.parent {
			if a.path == p {
				return failed("section includes itself: " + p)
			}
		}
		child := ev.site.load(sec, p, &ev.err)
		if ev.err != nil {
			if !ev.err.pretty() {
				ev.err.wraps = append(ev.err.wraps, rwrap{inv.name, sec.file(), locOf(inv)})
			}
			return nil, false
		}
		sec.children = append(sec.children, child)
	case "SinglePage":
		sec.prevent = true
	case "SplitSections":
		sec.splits = true
	case "OmitChildrenFromTableOfContents":
		sec.omit = true
	case "TableOfContents":
		return one(item{k: "toc"})
	case "Link":
		return one(item{k: "link", s: istr(args[1]), parts: [][]item{args[0]}})
	case "Reference":
		it := item{k: "ref", s: istr(args[0]), loc: locOf(inv)}
		if len(args) > 1 {
			it.parts = append(it.parts, args[1])
		}
		return one(it)
	case "Target":
		it := item{k: "target", s: istr(args[0]), loc: locOf(inv)}
		switch len(args) {
		case 2:
			it.parts = [][]item{args[1]}
		case 3:
			it.parts = [][]item{args[1], args[2]}
		default:
			it.parts = [][]item{{text(it.s)}}
		}
		return one(it)
	case "List", "TableRow":
		return one(item{k: "list", parts: args})
	case "OrderedList":
		return one(item{k: "olist", parts: args})
	case "Image":
		d := ""
		if len(args) > 1 {
			d = istr(args[1])
		}
		return one(item{k: "image", s: istr(args[0]) + "\x00" + d})
	case "SetPartial":
		if sec.partials == nil {
			sec.partials = map[string][]item{}
		}
		sec.partials[istr(args[0])] = args[1]
	case "Table":
		it := item{k: "table"}
		for _, a := range args {
			l, ok := onlyList(a)
			if !ok {
				return failed("table row is not a list")
			}
			it.parts = append(it.parts, []item{{k: "row", parts: l.parts}})
		}
		return one(it)
	case "Definition":
		return one(item{k: "list", parts: args})
	case "Definitions":
		it := item{k: "defs"}
		for _, a := range args {
			l, ok := onlyList(a)
			if !ok {
				return failed("definition item is not a list")
			}
			if len(l.parts) != 2 {
				return failed("definition item must have two entries")
			}
			it.parts = append(it.parts, []item{{k: "def", parts: l.parts}})
		}
		return one(it)
	}
	return nil, false
}

func onlyList(in []item) (item, bool) {
	if len(in) == 1 && (in[0].k == "list" || in[0].k == "olist") {
		return in[0], true
	}
	return item{}, false
}

func (ev *revaluator) harness(plugin, m string, inv *rInv, args [][]item) ([]item, bool) {
	record := func(as [][]item) {
		ev.site.events = append(ev.site.events, revent{name: strings.ToLower(m), args: as, line: inv.line, col: inv.col, off: inv.off})
	}
	wrap := func(as [][]item) [][]item {
		var out []item
		for _, a := range as {
			out = append(out, item{k: "styled", s: "arg", parts: [][]item{a}})
		}
		return [][]item{out}
	}
	switch m {
	case "A", "Q", "R":
		record(args)
		return []item{{k: "styled", s: strings.ToLower(m), parts: wrap(args)}}, true
	case "B":
		record(args)
		return []item{{k: "styledblock", s: "b", block: true, parts: wrap(args)}}, true
	case "S":
		var ss [][]item
		for _, a := range args {
			ss = append(ss, []item{text(istr(a))})
		}
		record(ss)
		return []item{{k: "styled", s: "s", parts: wrap(ss)}}, true
	case "N":
		record(args)
		return nil, false
	case "Who":
		// tells which plugin instance answers, and how often it was asked
		if ev.sec.calls == nil {
			ev.sec.calls = map[string]int{}
		}
		k := ""
		for i, p := range ev.sec.plugins {
			if p == plugin {
				k = fmt.Sprint(plugin, i)
				break
			}
		}
		ev.sec.calls[k]++
		return []item{text(fmt.Sprintf("[%s #%d]", plugin, ev.sec.calls[k]))}, true
	case "Bold":
		return []item{text("[bold by vr]")}, true
	case "WithPartial":
		return []item{{k: "styled", s: "bold", parts: [][]item{args[0], append([]item{{k: "partial", s: "Extra"}}, args[1]...)}}}, true
	case "Fail":
		ev.fail(rerr{kind: "failed", fn: inv.name, loc: locOf(inv), msg: istr(args[0])})
	}
	return nil, false
}

// evaluate evaluates a node as a new section.
func (site *rsite) evaluate(parent *rsec, path string, n rnode, plugins []string, err **rerr) *rsec {
	s := &rsec{parent: parent, path: path, plugins: append([]string{}, plugins...)}
	ev := &revaluator{site: site, sec: s}
	out, _ := ev.eval(n)
	if ev.err != nil {
		*err = ev.err
		return nil
	}
	s.body = out
	return s
}

func (site *rsite) load(parent *rsec, path string, err **rerr) *rsec {
	t, ok := site.files[path]
	if !ok {
		*err = &rerr{kind: "missing", file: path}
		return nil
	}
	p := refParse(t)
	if !p.ok {
		*err = &rerr{kind: "parse", file: path, loc: rloc{p.errLine, p.errCol, p.errOff}}
		return nil
	}
	return site.evaluate(parent, path, p.doc, []string{"baselit"}, err)
}

// loadSite loads a document and collects its tags.
func loadModel(files map[string]string, start string) (*rsec, *rerr, []revent) {
	site := &rsite{files: files}
	var err *rerr
	s := site.load(nil, start, &err)
	if err != nil {
		return nil, err, site.events
	}
	s.walk(func(x *rsec) { x.collect() })
	return s, nil, site.events
}

// collect adds the targets in title, body and partials, in order.
func (s *rsec) collect() {
	var walk func(in []item)
	walk = func(in []item) {
		for _, it := range in {
			switch it.k {
			case "target":
				t := rtag{name: it.s, anchor: it.s, title: it.parts[0], loc: it.loc, sec: s}
				if len(it.parts) > 1 {
					t.content, t.hasCont = it.parts[1], true
				}
				s.tags = append(s.tags, t)
			case "ref":
			default:
				for _, p := range it.parts {
					walk(p)
				}
			}
		}
	}
	walk(s.title)
	walk(s.body)
	var names []string
	for n := range s.partials {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		walk(s.partials[n])
	}
}

// stripAux removes auxiliary content at any depth.
func refStripAux(in []item) []item {
	var out []item
	for _, it := range in {
		if it.k == "aux" {
			continue
		}
		if len(it.parts) > 0 {
			var parts [][]item
			for _, p := range it.parts {
				parts = append(parts, refStripAux(p))
			}
			it.parts = parts
		}
		out = append(out, it)
	}
	return out
}

func refDefaultTag(title []item) string {
	t := strings.ReplaceAll(istr(refStripAux(title)), " & ", " and ")
	var b strings.Builder
	blank := false
	for _, r := range t {
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f':
			if !blank {
				b.WriteByte('-')
			}
			blank = true
			continue
		case r >= 'a' && r <= 'z', r >= '0' && r <= '9', r == '-', r == '_':
			b.WriteRune(r)
		case r >= 'A' && r <= 'Z':
			b.WriteRune(r - 'A' + 'a')
		}
		blank = false
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// Dumps of both kinds of trees, for comparison.

func (s *rsec) dump(loc bool) string {
	var b strings.Builder
	s.dumpTo(&b, loc, "")
	return b.String()
}

func fl(loc bool, l rloc) string {
	if !loc {
		return ""
	}
	return "@" + l.String()
}

func (s *rsec) dumpTo(b *strings.Builder, loc bool, ind string) {
	convLoc = loc
	defer func() { convLoc = false }()
	fmt.Fprintf(b, "%ssection %q%s number=%q depth=%d pagedepth=%d style=%q omit=%v plugins=%d primary=%q\n", ind, s.path, fl(loc, s.loc), s.number(), s.depth(), s.pageDepth(), s.style, s.omit, len(s.plugins), s.primary)
	fmt.Fprintf(b, "%s  title %s%s\n", ind, canon(s.title), fl(loc, s.titleLoc))
	for _, t := range s.tags {
		c := "-"
		if t.hasCont {
			c = canon(t.content)
		}
		fmt.Fprintf(b, "%s  tag %q #%q title=%s content=%s%s\n", ind, t.name, t.anchor, canon(t.title), c, fl(loc, t.loc))
	}
	fmt.Fprintf(b, "%s  body %s\n", ind, canon(s.body))
	var names []string
	for n := range s.partials {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(b, "%s  partial %q %s\n", ind, n, canon(s.partials[n]))
	}
	for _, c := range s.children {
		c.dumpTo(b, loc, ind+"  ")
	}
}
