package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/vito/booklit"
)

// ---------------------------------------------------------------------------
// Canonical content. Concatenation structure is dropped (sequences are
// flattened, adjacent text joined, empty text removed); everything else stays.

type item struct {
	k     string // "s" text, "P" paragraph, "F" preformatted, otherwise a kind
	s     string
	block bool // forced block (calls returning block content)
	parts [][]item
	loc   rloc // of targets and references
}

// convLoc makes canonical content show locations.
var convLoc bool

func text(s string) item { return item{k: "s", s: s} }

func norm(in []item) []item {
	var out []item
	for _, it := range in {
		if it.k == "s" {
			if it.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == "s" {
				out[n-1].s += it.s
				continue
			}
		}
		out = append(out, it)
	}
	return out
}

func canonTo(b *strings.Builder, in []item) {
	for i, it := range norm(in) {
		if i > 0 {
			b.WriteByte(' ')
		}
		if it.k == "s" {
			fmt.Fprintf(b, "%q", it.s)
			continue
		}
		b.WriteString(it.k)
		if it.s != "" {
			fmt.Fprintf(b, "%q", it.s)
		}
		if convLoc && (it.k == "ref" || it.k == "target") {
			b.WriteString("@" + it.loc.String())
		}
		b.WriteByte('(')
		for _, p := range it.parts {
			canonTo(b, p)
			b.WriteByte('|')
		}
		b.WriteByte(')')
	}
}

func canon(in []item) string {
	var b strings.Builder
	canonTo(&b, in)
	return b.String()
}

// conv converts real content to canonical items. It walks the concrete types
// rather than using the visitor, so that it doesn't depend on the code's own
// traversal.
func conv(c booklit.Content) []item {
	switch v := c.(type) {
	case nil:
		return nil
	case booklit.String:
		return []item{text(string(v))}
	case booklit.Sequence:
		var out []item
		for _, x := range v {
			out = append(out, conv(x)...)
		}
		return out
	case booklit.Paragraph:
		return []item{{k: "P", parts: convAll(v)}}
	case booklit.Preformatted:
		return []item{{k: "F", parts: convAll(v)}}
	case booklit.Styled:
		it := item{k: "styled", s: string(v.Style), parts: [][]item{conv(v.Content)}, block: v.Block}
		if v.Block {
			it.k = "styledblock"
		}
		names := []string{}
		for n := range v.Partials {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			it.parts = append(it.parts, append([]item{{k: "partial", s: n}}, conv(v.Partials[n])...))
		}
		return []item{it}
	case booklit.List:
		k := "list"
		if v.Ordered {
			k = "olist"
		}
		return []item{{k: k, parts: convAll(v.Items)}}
	case booklit.Table:
		it := item{k: "table"}
		for _, row := range v.Rows {
			it.parts = append(it.parts, []item{{k: "row", parts: convAll(row)}})
		}
		return []item{it}
	case booklit.Definitions:
		it := item{k: "defs"}
		for _, d := range v {
			it.parts = append(it.parts, []item{{k: "def", parts: [][]item{conv(d.Subject), conv(d.Definition)}}})
		}
		return []item{it}
	case booklit.Link:
		return []item{{k: "link", s: v.Target, parts: [][]item{conv(v.Content)}}}
	case booklit.Aux:
		return []item{{k: "aux", parts: [][]item{conv(v.Content)}}}
	case booklit.Image:
		return []item{{k: "image", s: v.Path + "\x00" + v.Description}}
	case booklit.Target:
		it := item{k: "target", s: v.TagName, loc: astLoc(v.Location), parts: [][]item{conv(v.Title)}}
		if v.Content != nil {
			it.parts = append(it.parts, conv(v.Content))
		}
		return []item{it}
	case *booklit.Reference:
		it := item{k: "ref", s: v.TagName, loc: astLoc(v.Location)}
		if v.Optional {
			it.s += " (optional)"
		}
		if v.Content != nil {
			it.parts = append(it.parts, conv(v.Content))
		}
		return []item{it}
	case booklit.TableOfContents:
		return []item{{k: "toc"}}
	case *booklit.Lazy:
		return []item{{k: "lazy"}}
	case *booklit.Section:
		return []item{{k: "section", parts: [][]item{conv(v.Title), conv(v.Body)}}}
	default:
		if r := reflect.ValueOf(c); r.Kind() == reflect.Ptr && !r.IsNil() {
			if p, ok := r.Elem().Interface().(booklit.Content); ok {
				return conv(p)
			}
		}
		return []item{{k: fmt.Sprintf("%T", c)}}
	}
}

func convAll(cs []booklit.Content) [][]item {
	var out [][]item
	for _, c := range cs {
		out = append(out, conv(c))
	}
	return out
}

// flow reports whether items are flow content, per the documentation: blocks
// are paragraphs, preformatted text, lists, tables, definitions, tables of
// contents, sections and styled content that is or contains a block.
func flow(in []item) bool {
	for _, it := range in {
		switch it.k {
		case "P", "F", "list", "olist", "table", "defs", "toc", "section", "styledblock":
			return false
		case "styled", "link", "aux", "ref0":
			if len(it.parts) > 0 && !flow(it.parts[0]) {
				return false
			}
		}
		if it.block {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Reference parser: the documented syntax, written by hand as a recursive
// descent over the bytes, tracking the furthest point at which text could not
// be continued.

type rnode interface{}

type rStr string
type rSeq []rnode
type rPara []rSeq
type rPre []rSeq
type rInv struct {
	name string
	args []rnode // nil: empty argument
	off  int
	line int
	col  int
}

type rparser struct {
	t     string
	far   int // furthest failure
	reach int // furthest byte looked at
	not   bool
}

func (p *rparser) adv(pos int) {
	if pos > p.reach {
		p.reach = pos
	}
}

// try records the outcome of matching a terminal at pos.
func (p *rparser) try(ok bool, pos int) {
	if ok == p.not && pos > p.far {
		p.far = pos
	}
}

func (p *rparser) lit(pos int, s string) (int, bool) {
	start := pos
	for i := 0; i < len(s); i++ {
		if pos >= len(p.t) || p.t[pos] != s[i] {
			p.try(false, start)
			return start, false
		}
		pos++
		p.adv(pos)
	}
	p.try(true, start)
	return pos, true
}

// one matches one character for which f holds.
func (p *rparser) one(pos int, f func(r rune) bool) (int, bool) {
	if pos >= len(p.t) {
		p.try(false, pos)
		return pos, false
	}
	r, n := utf8.DecodeRuneInString(p.t[pos:])
	if !f(r) {
		p.try(false, pos)
		return pos, false
	}
	p.try(true, pos)
	p.adv(pos + n)
	return pos + n, true
}

func isBlank(r rune) bool   { return r == ' ' || r == '\t' }
func isText(r rune) bool    { return r != '\\' && r != '{' && r != '}' && r != '\r' && r != '\n' }
func isSpecial(r rune) bool { return r == '\\' || r == '{' || r == '}' }
func isName(r rune) bool    { return r >= 'a' && r <= 'z' || r == '-' }
func isVerb(r rune) bool    { return r != '\r' && r != '\n' && r != '}' }

func (p *rparser) blanks(pos int) int {
	for {
		n, ok := p.one(pos, isBlank)
		if !ok {
			return pos
		}
		pos = n
	}
}

func (p *rparser) lineBreak(pos int) (int, bool) {
	if n, ok := p.lit(pos, "\n"); ok {
		return n, true
	}
	return p.lit(pos, "\r\n")
}

func (p *rparser) neg(f func() bool) bool {
	p.not = !p.not
	ok := f()
	p.not = !p.not
	return !ok
}

func (p *rparser) comment(start int) (int, bool) {
	pos := p.blanks(start)
	pos, ok := p.lit(pos, "{-")
	if !ok {
		return start, false
	}
	for {
		if n, ok := p.comment(pos); ok {
			pos = n
			continue
		}
		at := pos
		if !p.neg(func() bool { _, ok := p.lit(at, "-}"); return ok }) {
			break
		}
		n, ok := p.one(pos, func(rune) bool { return true })
		if !ok {
			break
		}
		pos = n
	}
	pos, ok = p.lit(pos, "-}")
	if !ok {
		return start, false
	}
	return pos, true
}

func (p *rparser) comments(pos int) int {
	for {
		n, ok := p.comment(pos)
		if !ok {
			return pos
		}
		pos = n
	}
}

func (p *rparser) spacing(pos int) int {
	for {
		if n, ok := p.lineBreak(pos); ok {
			pos = n
		} else if n, ok := p.comment(pos); ok {
			pos = n
		} else {
			return pos
		}
	}
}

// parse returns the document, or nil.
func (p *rparser) document() (rSeq, bool) {
	doc, pos, ok := p.paragraphs(0)
	if !ok {
		return nil, false
	}
	if !p.neg(func() bool { _, ok := p.one(pos, func(rune) bool { return true }); return ok }) {
		return nil, false
	}
	return doc, true
}

func (p *rparser) paragraphs(start int) (rSeq, int, bool) {
	pos := p.spacing(start)
	var out rSeq
	for {
		para, n, ok := p.paragraph(pos)
		if !ok {
			break
		}
		out = append(out, para)
		pos = p.spacing(n)
	}
	return out, pos, len(out) > 0
}

func (p *rparser) paragraph(start int) (rPara, int, bool) {
	pos := start
	var out rPara
	for {
		l, n, ok := p.line(pos)
		if !ok {
			break
		}
		out = append(out, l)
		pos = n
		if n, ok := p.lineBreak(pos); ok {
			pos = n
		}
	}
	return out, pos, len(out) > 0
}

func (p *rparser) line(start int) (rSeq, int, bool) {
	pos := p.blanks(start)
	var out rSeq
	for {
		w, n, ok := p.word(pos)
		if !ok {
			break
		}
		out = append(out, w)
		pos = n
	}
	return out, pos, len(out) > 0
}

func (p *rparser) word(start int) (rnode, int, bool) {
	pos := p.comments(start)
	var val rnode
	if s, n, ok := p.str(pos); ok {
		val, pos = s, n
	} else if v, n, ok := p.invoke(pos); ok {
		val, pos = v, n
	} else if v, n, ok := p.interpolated(pos); ok {
		val, pos = v, n
	} else {
		return nil, start, false
	}
	return val, p.comments(pos), true
}

func (p *rparser) str(start int) (rStr, int, bool) {
	pos := start
	for {
		n, ok := p.one(pos, isText)
		if !ok {
			break
		}
		pos = n
	}
	if pos > start {
		return rStr(p.t[start:pos]), pos, true
	}
	pos, ok := p.lit(start, `\`)
	if !ok {
		return "", start, false
	}
	n, ok := p.one(pos, isSpecial)
	if !ok {
		return "", start, false
	}
	return rStr(p.t[pos:n]), n, true
}

func (p *rparser) interpolated(start int) (rnode, int, bool) {
	pos, ok := p.lit(start, "{")
	if !ok {
		return nil, start, false
	}
	var val rnode = rSeq{}
	if w, n, ok := p.word(pos); ok {
		val, pos = w, n
	}
	pos = p.comments(pos)
	pos, ok = p.lit(pos, "}")
	if !ok {
		return nil, start, false
	}
	return val, pos, true
}

// position of an offset: a line break belongs to the line it starts, column 0.
func position(t string, off int) (line, col int) {
	line = 1
	for i := 0; i < len(t) && i <= off; {
		_, n := utf8.DecodeRuneInString(t[i:])
		col++
		if t[i] == '\n' {
			line++
			col = 0
		}
		i += n
	}
	if off >= len(t) {
		col++
	}
	return line, col
}

func (p *rparser) invoke(start int) (*rInv, int, bool) {
	pos, ok := p.lit(start, `\`)
	if !ok {
		return nil, start, false
	}
	nameAt := pos
	for {
		n, ok := p.one(pos, isName)
		if !ok {
			break
		}
		pos = n
	}
	if pos == nameAt {
		return nil, start, false
	}
	inv := &rInv{name: p.t[nameAt:pos], off: start}
	inv.line, inv.col = position(p.t, start)
	for {
		a, n, ok := p.argument(pos)
		if !ok {
			break
		}
		inv.args = append(inv.args, a)
		pos = n
	}
	return inv, pos, true
}

func (p *rparser) argument(pos int) (rnode, int, bool) {
	if a, n, ok := p.verbatimArg(pos); ok {
		return a, n, true
	}
	if a, n, ok := p.preformattedArg(pos); ok {
		return a, n, true
	}
	return p.plainArg(pos)
}

func (p *rparser) verbatimArg(start int) (rnode, int, bool) {
	pos, ok := p.lit(start, "{{{")
	if !ok {
		return nil, start, false
	}
	var val rnode
	if lines, n, ok := p.blockLines(pos, p.verbatimWord, false); ok {
		val, pos = lines, n
	} else {
		var line rSeq
		for {
			w, n, ok := p.verbatimWord(pos)
			if !ok {
				break
			}
			line = append(line, w)
			pos = n
		}
		val = line
	}
	pos, ok = p.lit(pos, "}}}")
	if !ok {
		return nil, start, false
	}
	return val, pos, true
}

func (p *rparser) preformattedArg(start int) (rnode, int, bool) {
	pos, ok := p.lit(start, "{{")
	if !ok {
		return nil, start, false
	}
	val, pos, ok := p.blockLines(pos, p.word, true)
	if !ok {
		return nil, start, false
	}
	pos, ok = p.lit(pos, "}}")
	if !ok {
		return nil, start, false
	}
	return val, pos, true
}

// blockLines parses a line break, any number of complete lines, and blanks.
func (p *rparser) blockLines(start int, word func(int) (rnode, int, bool), comments bool) (rPre, int, bool) {
	pos, ok := p.lineBreak(start)
	if !ok {
		return nil, start, false
	}
	out := rPre{}
	skip := 0
	for {
		end := p.blanks(pos)
		indent := p.t[pos:end]
		var words rSeq
		at := end
		for {
			if w, n, ok := word(at); ok {
				words = append(words, w)
				at = n
			} else if n, ok := at, false; comments {
				if n, ok = p.comment(at); !ok {
					break
				}
				at = n
			} else {
				break
			}
		}
		n, ok := p.lineBreak(at)
		if !ok {
			break
		}
		if len(out) == 0 {
			skip = len(indent)
		}
		if skip <= len(indent) {
			indent = indent[skip:]
		} else {
			indent = ""
		}
		out = append(out, append(rSeq{rStr(indent)}, words...))
		pos = n
	}
	return out, p.blanks(pos), true
}

func (p *rparser) verbatimWord(start int) (rnode, int, bool) {
	pos := start
	for {
		n, ok := p.one(pos, isVerb)
		if !ok {
			break
		}
		pos = n
	}
	if pos > start {
		return rStr(p.t[start:pos]), pos, true
	}
	pos, ok := p.lit(start, "}")
	if !ok {
		return nil, start, false
	}
	if !p.neg(func() bool { _, ok := p.lit(pos, "}}"); return ok }) {
		return nil, start, false
	}
	return rStr("}"), pos, true
}

func (p *rparser) plainArg(start int) (rnode, int, bool) {
	pos, ok := p.lit(start, "{")
	if !ok {
		return nil, start, false
	}
	var val rnode
	if l, n, ok := p.wrapped(pos); ok {
		val, pos = l, n
	} else if ps, n, ok := p.paragraphs(pos); ok {
		val, pos = ps, p.blanks(n)
	} else {
		pos = p.spacing(pos)
	}
	pos, ok = p.lit(pos, "}")
	if !ok {
		return nil, start, false
	}
	return val, pos, true
}

func (p *rparser) wrapped(start int) (rSeq, int, bool) {
	w, pos, ok := p.word(start)
	if !ok {
		return nil, start, false
	}
	out := rSeq{w}
	for {
		if w, n, ok := p.word(pos); ok {
			out = append(out, w)
			pos = n
		} else if n, ok := p.lineBreak(pos); ok {
			pos = p.blanks(n)
			out = append(out, rStr(" "))
		} else if n, ok := p.comment(pos); ok {
			pos = n
		} else {
			break
		}
	}
	return out, pos, true
}

// parsed is what the reference says about a document.
type parsed struct {
	ok      bool
	doc     rSeq
	errOff  int
	errLine int
	errCol  int
	badUTF8 bool
}

func refParse(t string) parsed {
	p := &rparser{t: t}
	doc, ok := p.document()
	// text that isn't UTF-8 is an error where it is first looked at
	for i := 0; i < len(t) && i <= p.reach; {
		r, n := utf8.DecodeRuneInString(t[i:])
		if r == utf8.RuneError && n == 1 {
			line, col := position(t, i)
			return parsed{errOff: i, errLine: line, errCol: col, badUTF8: true}
		}
		i += n
	}
	if !ok {
		line, col := position(t, p.far)
		return parsed{errOff: p.far, errLine: line, errCol: col}
	}
	return parsed{ok: true, doc: doc}
}

// ---------------------------------------------------------------------------
// Reference evaluator.

type revent struct {
	name      string
	args      [][]item
	line, col int
	off       int
}

func (r revent) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s@%d:%d:%d(", r.name, r.line, r.col, r.off)
	for i, a := range r.args {
		if i > 0 {
			b.WriteByte('|')
		}
		canonTo(&b, a)
	}
	b.WriteByte(')')
	return b.String()
}

// refEval evaluates with a function deciding each call. It stops at the first
// error.
type refEval struct {
	call   func(inv *rInv, args [][]item) (out []item, present bool, err string)
	events []revent
	before func(inv *rInv) (err string) // checks done before arguments are evaluated
	failed *rInv
	err    string
}

func (e *refEval) eval(n rnode) (out []item, present bool) {
	if e.err != "" {
		return nil, false
	}
	switch v := n.(type) {
	case nil:
		return []item{text("")}, true
	case rStr:
		return []item{text(string(v))}, true
	case rSeq:
		for _, x := range v {
			o, p := e.eval(x)
			out = append(out, o...)
			present = present || p
		}
		return out, present
	case rPara:
		var lines [][]item
		for _, l := range v {
			o, p := e.eval(l)
			if p {
				lines = append(lines, o)
			}
		}
		if len(lines) == 0 {
			return nil, false
		}
		if len(lines) == 1 && !flow(lines[0]) {
			return lines[0], true
		}
		return []item{{k: "P", parts: lines}}, true
	case rPre:
		var lines [][]item
		for _, l := range v {
			o, p := e.eval(l)
			if p {
				lines = append(lines, o)
			}
		}
		return []item{{k: "F", parts: lines}}, true
	case *rInv:
		if e.before != nil {
			if err := e.before(v); err != "" {
				e.err, e.failed = err, v
				return nil, false
			}
		}
		var args [][]item
		for _, a := range v.args {
			o, _ := e.eval(a)
			if e.err != "" {
				return nil, false
			}
			args = append(args, o)
		}
		o, p, err := e.call(v, args)
		if err != "" {
			e.err, e.failed = err, v
			return nil, false
		}
		return o, p
	}
	panic(fmt.Sprintf("%T", n))
}
