package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

// recorder receives the calls the harness plugin sees.
var recorder *[]revent

// vp is the harness plugin: its functions record that they ran and return
// content that shows their arguments.
type vp struct{ section *booklit.Section }

func newVP(s *booklit.Section) booklit.Plugin { return &vp{section: s} }

func (p *vp) record(name string, args [][]item) {
	if recorder != nil {
		l := p.section.InvokeLocation
		*recorder = append(*recorder, revent{name: name, args: args, line: l.Line, col: l.Col, off: l.Offset})
	}
}

func callContent(name string, args []booklit.Content) booklit.Sequence {
	seq := booklit.Sequence{}
	for _, a := range args {
		seq = append(seq, booklit.Styled{Style: "arg", Content: a})
	}
	return seq
}

// A returns flow content if its arguments are.
func (p *vp) A(args ...booklit.Content) booklit.Content {
	p.record("a", convAll(args))
	return booklit.Styled{Style: "a", Content: callContent("a", args)}
}

// B returns block content.
func (p *vp) B(args ...booklit.Content) (booklit.Content, error) {
	p.record("b", convAll(args))
	return booklit.Styled{Style: "b", Block: true, Content: callContent("b", args)}, nil
}

// N returns nothing.
func (p *vp) N(args ...booklit.Content) {
	p.record("n", convAll(args))
}

// S takes text.
func (p *vp) S(args ...string) booklit.Content {
	var cs []booklit.Content
	for _, a := range args {
		cs = append(cs, booklit.String(a))
	}
	p.record("s", convAll(cs))
	return booklit.Styled{Style: "s", Content: callContent("s", cs)}
}

// refVP is the reference behaviour of vp.
func refVP(e *refEval) func(inv *rInv, args [][]item) ([]item, bool, string) {
	return func(inv *rInv, args [][]item) ([]item, bool, string) {
		e.events = append(e.events, revent{name: inv.name, args: args, line: inv.line, col: inv.col, off: inv.off})
		var as []item
		for _, a := range args {
			as = append(as, item{k: "styled", s: "arg", parts: [][]item{a}})
		}
		name := methodName(inv.name)
		e.events[len(e.events)-1].name = strings.ToLower(name)
		switch name {
		case "A":
			return []item{{k: "styled", s: "a", parts: [][]item{as}}}, true, ""
		case "B":
			return []item{{k: "styledblock", s: "b", block: true, parts: [][]item{as}}}, true, ""
		case "S":
			var as []item
			for i := range args {
				str := istr(args[i])
				e.events[len(e.events)-1].args[i] = []item{text(str)}
				as = append(as, item{k: "styled", s: "arg", parts: [][]item{{text(str)}}})
			}
			return []item{{k: "styled", s: "s", parts: [][]item{as}}}, true, ""
		case "N":
			return nil, false, ""
		}
		return nil, false, "undefined"
	}
}

func refVPDefined(inv *rInv) string {
	switch methodName(inv.name) {
	case "A", "B", "N", "S":
		return ""
	}
	return "undefined"
}

// methodName is the Go method a function name stands for: its hyphen-separated
// words in camel case.
func methodName(name string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(name); i++ {
		switch {
		case name[i] == '-':
			up = true
		case up:
			b.WriteByte(name[i] - 'a' + 'A')
			up = false
		default:
			b.WriteByte(name[i])
		}
	}
	return b.String()
}

type docDriver struct {
	dir  string
	path string
}

func newDocDriver(e *Env) *docDriver {
	d := &docDriver{dir: filepath.Join(e.Dir, "doc")}
	_ = os.MkdirAll(d.dir, 0755)
	d.path = filepath.Join(d.dir, "doc.lit")
	return d
}

type loaded struct {
	section *booklit.Section
	err     error
	events  []revent
	body    string
}

var vpFactories = []booklit.PluginFactory{baselit.NewPlugin, newVP}

func (d *docDriver) load(t string) loaded {
	if err := os.WriteFile(d.path, []byte(t), 0644); err != nil {
		panic(err)
	}
	var ev []revent
	recorder = &ev
	defer func() { recorder = nil }()
	p := &load.Processor{}
	s, err := p.LoadFile(d.path, vpFactories)
	l := loaded{section: s, err: err, events: ev}
	if err == nil {
		l.body = canon(conv(s.Body))
	}
	return l
}

type expect struct {
	parsed
	body   string
	events []revent
	failed *rInv
	err    string
}

func refLoad(t string) expect {
	x := expect{parsed: refParse(t)}
	if !x.ok {
		return x
	}
	e := &refEval{before: refVPDefined}
	e.call = refVP(e)
	out, _ := e.eval(x.doc)
	x.events = e.events
	x.err, x.failed = e.err, e.failed
	if e.err == "" {
		x.body = canon(out)
	}
	return x
}

// compareDoc is the whole-document oracle; locations are compared if loc.
func (d *docDriver) compareDoc(t string, loc bool) string {
	got := d.load(t)
	want := refLoad(t)
	return compareLoaded(d.path, t, got, want, loc)
}

func eventsString(ev []revent, loc bool) string {
	var b strings.Builder
	for _, e := range ev {
		if !loc {
			e.line, e.col, e.off = 0, 0, 0
		}
		b.WriteString(e.String())
		b.WriteByte(' ')
	}
	return b.String()
}

func compareLoaded(path, t string, got loaded, want expect, loc bool) string {
	if !want.ok {
		if got.err == nil {
			return fmt.Sprintf("a document that is not in the grammar was accepted as %s", got.body)
		}
		var pe booklit.ParseError
		if !errors.As(got.err, &pe) {
			return fmt.Sprintf("a document that is not in the grammar failed with %T (%s) instead of a parse error", got.err, got.err)
		}
		if len(got.events) > 0 {
			return "functions were called although the document does not parse: " + eventsString(got.events, false)
		}
		return ""
	}
	if want.err == "undefined" {
		var ue booklit.UndefinedFunctionError
		if got.err == nil || !errors.As(got.err, &ue) || ue.Function != want.failed.name {
			return fmt.Sprintf("expected undefined function \\%s, got %v", want.failed.name, got.err)
		}
		if loc && (ue.NodeLocation.Line != want.failed.line || ue.NodeLocation.Col != want.failed.col || ue.NodeLocation.Offset != want.failed.off || ue.FilePath != path) {
			return fmt.Sprintf("undefined function \\%s is located at %s %+v, written at %d:%d offset %d", ue.Function, ue.FilePath, ue.NodeLocation, want.failed.line, want.failed.col, want.failed.off)
		}
	} else if got.err != nil {
		return fmt.Sprintf("failed to load: %T: %s", got.err, got.err)
	}
	if g, w := eventsString(got.events, loc), eventsString(want.events, loc); g != w {
		return fmt.Sprintf("calls made:     %s\ncalls expected: %s", g, w)
	}
	if want.err == "" && got.body != want.body {
		return fmt.Sprintf("content:  %s\nexpected: %s", got.body, want.body)
	}
	return ""
}

// istrTag gives the text of a reference without content.
var istrTag func(tag string) string

// istr is the text of items when a function takes a string.
func istr(in []item) string {
	var b strings.Builder
	for _, it := range in {
		switch it.k {
		case "s":
			b.WriteString(it.s)
		case "P":
			t := ""
			for _, l := range it.parts {
				if t != "" {
					t += " "
				}
				t += istr(l)
			}
			if t != "" {
				t += "\n\n"
			}
			b.WriteString(t)
		case "F":
			for _, l := range it.parts {
				b.WriteString(istr(l) + "\n")
			}
		case "target", "toc":
		case "ref":
			if len(it.parts) > 0 {
				b.WriteString(istr(it.parts[0]))
			} else if istrTag != nil {
				b.WriteString(istrTag(it.s))
			}
		case "image":
			b.WriteString("{image: " + it.s[:strings.IndexByte(it.s, 0)] + "}")
		case "list", "olist":
			for i, x := range it.parts {
				t := ""
				for _, line := range strings.Split(strings.TrimRight(istr(x), "\n"), "\n") {
					switch {
					case t == "":
						t = line
					case line == "":
						t += "\n"
					default:
						t += "\n  " + line
					}
				}
				if it.k == "olist" {
					fmt.Fprintf(&b, "%d. %s\n\n", i+1, t)
				} else {
					b.WriteString("* " + t + "\n\n")
				}
			}
		case "table":
			for _, r := range it.parts {
				b.WriteString("|")
				for _, c := range r[0].parts {
					b.WriteString(" " + istr(c) + " |")
				}
				b.WriteString("\n")
			}
			b.WriteString("\n")
		case "defs":
			for _, x := range it.parts {
				b.WriteString(istr(x[0].parts[0]) + ": " + istr(x[0].parts[1]) + "\n")
			}
			b.WriteString("\n")
		default:
			if len(it.parts) > 0 {
				b.WriteString(istr(it.parts[0]))
			}
		}
	}
	return b.String()
}
