package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Rule: "a state is a document of calls under a stack of plugins; it is loaded for real and calls, arguments, results and errors compared with a reference evaluator", Run: runC08, QuickBudget: 90})
}

type dsig struct{ params, ret string }

// outcome is what a call of the dispatch plugin returns.
type outcome struct {
	c   booklit.Content
	err error
}

// d8 is the state of the current case.
var d8 struct {
	outcomes map[string]string // function -> kind of outcome
	plain    error
	pretty   error
	wrapped  error // an error that wraps one with its own report
	events   []string
	loc      bool
}

type prettyErr struct{ msg string }

func (e *prettyErr) Error() string                { return e.msg }
func (e *prettyErr) PrettyPrint(w io.Writer)      { fmt.Fprintln(w, e.msg) }
func (e *prettyErr) PrettyHTML(w io.Writer) error { _, err := fmt.Fprintln(w, e.msg); return err }

type dispatcher struct {
	name    string
	section *booklit.Section
}

func (p *dispatcher) call(fn string, args ...interface{}) outcome {
	ev := p.name + "." + fn + "@" + astLoc(p.section.InvokeLocation).String()
	var shown []booklit.Content
	one := func(a interface{}) {
		switch v := a.(type) {
		case string:
			ev += fmt.Sprintf(" s:%q", v)
			shown = append(shown, booklit.String(v))
		case booklit.Content:
			ev += " c:" + canon(conv(v))
			shown = append(shown, v)
		case ast.Node:
			ev += " n:" + nodeString(v)
			shown = append(shown, booklit.String("node"))
		default:
			ev += fmt.Sprintf(" %T", a)
		}
	}
	for _, a := range args {
		switch v := a.(type) {
		case []string:
			for _, x := range v {
				one(x)
			}
		case []booklit.Content:
			for _, x := range v {
				one(x)
			}
		case []int:
		case []ast.Node:
			for _, x := range v {
				one(x)
			}
		default:
			one(a)
		}
	}
	d8.events = append(d8.events, ev)
	var o outcome
	switch d8.outcomes[fn] {
	case "nil":
	case "error":
		o.c = booklit.String("ignored")
		o.err = d8.plain
	case "pretty":
		o.err = d8.pretty
	case "wrapped":
		o.err = d8.wrapped
	case "block":
		o.c = booklit.Styled{Style: booklit.Style(fn), Block: true, Content: booklit.Sequence(shown)}
	case "list":
		o.c = booklit.List{Items: shown}
	case "empty":
		o.c = booklit.Empty
	default:
		o.c = booklit.Styled{Style: booklit.Style(fn), Content: callContent(fn, shown)}
	}
	return o
}

// d2 has some functions of the same names as d1, with other signatures.
type d2 struct{ dispatcher }

func (p *d2) FCRC(s string) booklit.Content { return p.call("f-c-r-c", s).c }
func (p *d2) FRC(c booklit.Content)         { p.call("f-r-c", c) }
func (p *d2) FSRC() booklit.Content         { return p.call("f-s-r-c").c }
func (p *d2) FIRC(c booklit.Content) (booklit.Content, error) {
	o := p.call("f-i-r-c", c)
	return o.c, o.err
}
func (p *d2) Bold(c booklit.Content, d string) booklit.Content { return p.call("bold", c, d).c }
func (p *d2) G(c booklit.Content) booklit.Content              { return p.call("g", c).c }
func (p *d2) unexported(c booklit.Content) booklit.Content     { return p.call("unexported", c).c }

var d2sigs = map[string]dsig{"f-c-r-c": {"s", "c"}, "f-r-c": {"c", "o"}, "f-s-r-c": {"", "c"}, "f-i-r-c": {"c", "ce"}, "bold": {"cs", "c"}, "g": {"c", "c"}}

// d3 is a plugin that is a value, embeds another, and has names in camel case.
type d3embedded struct{ *dispatcher }

func (p d3embedded) Inner(c booklit.Content) booklit.Content { return p.call("inner", c).c }

type d3 struct{ d3embedded }

func (p d3) A() booklit.Content                     { return p.call("a").c }
func (p d3) B() booklit.Content                     { return p.call("b").c }
func (p d3) Ab() booklit.Content                    { return p.call("ab").c }
func (p d3) AB() booklit.Content                    { return p.call("a-b").c }
func (p d3) BA() booklit.Content                    { return p.call("b-a").c }
func (p d3) ABA() booklit.Content                   { return p.call("a-b-a").c }
func (p d3) AbB() booklit.Content                   { return p.call("ab-b").c }
func (p d3) Bbb() booklit.Content                   { return p.call("bbb").c }
func (p d3) FCRC(c booklit.Content) booklit.Content { return p.call("f-c-r-c", c).c }

// Many has many parameters.
func (p d3) Many(a string, b booklit.Content, c ast.Node, d string, e booklit.Content, f ast.Node, g string, h booklit.Content, i string, j ast.Node) booklit.Content {
	return p.call("many", a, b, c, d, e, f, g, h, i, j).c
}
func (p d3) Last(a string, b booklit.Content, c ast.Node, d string, e booklit.Content, f ast.Node, g ...string) (booklit.Content, error) {
	o := p.call("last", a, b, c, d, e, f, g)
	return o.c, o.err
}
func (p d3) VeryLongNameWithManyDifferentWordsInItWhichGoesOnAndOnUntilItFinallyEnds(c booklit.Content) booklit.Content {
	return p.call("very-long-name-with-many-different-words-in-it-which-goes-on-and-on-until-it-finally-ends", c).c
}
func (p d3) VeryLongNameWithManyDifferentWords(c booklit.Content) booklit.Content {
	return p.call("very-long-name-with-many-different-words", c).c
}
func (p d3) VeryLongName(c booklit.Content) booklit.Content { return p.call("very-long-name", c).c }
func (p d3) Verylongnamewithoutanyhyphenthatgoesonandonuntilitfinallyends(c booklit.Content) booklit.Content {
	return p.call("verylongnamewithoutanyhyphenthatgoesonandonuntilitfinallyends", c).c
}
func (p d3) Verylongnamewithoutany(c booklit.Content) booklit.Content {
	return p.call("verylongnamewithoutany", c).c
}
func (p d3) ABABABABABABABABABABABABABABABAB() booklit.Content {
	return p.call("a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b").c
}

var d3sigs = map[string]dsig{"inner": {"c", "c"}, "a": {"", "c"}, "b": {"", "c"}, "ab": {"", "c"}, "a-b": {"", "c"}, "b-a": {"", "c"}, "a-b-a": {"", "c"}, "ab-b": {"", "c"}, "bbb": {"", "c"}, "f-c-r-c": {"c", "c"},
	"many": {"scnscnscsn", "c"}, "last": {"scnscnS", "ce"},
	"very-long-name-with-many-different-words-in-it-which-goes-on-and-on-until-it-finally-ends": {"c", "c"}, "very-long-name-with-many-different-words": {"c", "c"}, "very-long-name": {"c", "c"},
	"verylongnamewithoutanyhyphenthatgoesonandonuntilitfinallyends": {"c", "c"}, "verylongnamewithoutany": {"c", "c"}, "a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b-a-b": {"", "c"}}

var dsigs = map[string]map[string]dsig{"d1": d1sigs, "d2": d2sigs, "d3": d3sigs}

type dmethod struct {
	name string
	dsig
}

// dmethods are the plugins' methods.
var dmethods = map[string]map[string]dmethod{}

func init() {
	for p, sigs := range dsigs {
		dmethods[p] = map[string]dmethod{}
		for n, s := range sigs {
			dmethods[p][methodName(n)] = dmethod{n, s}
		}
	}
}

func dFactory(name string) booklit.PluginFactory {
	return func(s *booklit.Section) booklit.Plugin {
		d := dispatcher{name, s}
		switch name {
		case "d1":
			return &d1{d}
		case "d2":
			return &d2{d}
		case "d3":
			return d3{d3embedded{&d}}
		}
		return baselit.NewPlugin(s)
	}
}

func init() {
	for _, n := range []string{"d1", "d2", "d3"} {
		booklit.RegisterPlugin(n, dFactory(n))
	}
}

// nodeString shows a syntax tree; adjacent text is joined and the nesting of
// sequences dropped.
func nodeString(n ast.Node) string {
	var b strings.Builder
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		switch v := n.(type) {
		case nil:
		case ast.String:
			b.WriteString(nodeText8(string(v)))
		case ast.Sequence:
			for _, x := range v {
				walk(x)
			}
		case ast.Paragraph:
			b.WriteString("P(")
			for _, x := range v {
				walk(x)
				b.WriteByte('|')
			}
			b.WriteString(")")
		case ast.Preformatted:
			b.WriteString("F(")
			for _, x := range v {
				walk(x)
				b.WriteByte('|')
			}
			b.WriteString(")")
		case ast.Invoke:
			fmt.Fprintf(&b, "\\%s@%s", v.Function, astLoc(v.Location))
			for _, x := range v.Arguments {
				b.WriteByte('{')
				walk(x)
				b.WriteByte('}')
			}
		default:
			fmt.Fprintf(&b, "%T", n)
		}
	}
	walk(n)
	return b.String()
}

func nodeText8(s string) string {
	return strings.NewReplacer(`\`, `\\`, "{", `\{`, "}", `\}`).Replace(s)
}

func rnodeString(n rnode) string {
	var b strings.Builder
	var walk func(n rnode)
	walk = func(n rnode) {
		switch v := n.(type) {
		case nil:
		case rStr:
			b.WriteString(nodeText8(string(v)))
		case rSeq:
			for _, x := range v {
				walk(x)
			}
		case rPara:
			b.WriteString("P(")
			for _, x := range v {
				walk(x)
				b.WriteByte('|')
			}
			b.WriteString(")")
		case rPre:
			b.WriteString("F(")
			for _, x := range v {
				walk(x)
				b.WriteByte('|')
			}
			b.WriteString(")")
		case *rInv:
			fmt.Fprintf(&b, "\\%s@%s", v.name, locOf(v))
			for _, x := range v.args {
				b.WriteByte('{')
				walk(x)
				b.WriteByte('}')
			}
		}
	}
	walk(n)
	return b.String()
}

// refDispatch evaluates a call of a dispatch plugin in the model.
func refDispatch(ev *revaluator, plugin string, inv *rInv) ([]item, bool) {
	s := dmethods[plugin][methodName(inv.name)]
	params, variadic := s.params, byte(0)
	if n := len(params); n > 0 && params[n-1] < 'a' {
		variadic = params[n-1] + 'a' - 'A'
		params = params[:n-1]
	}
	if len(inv.args) < len(params) || variadic == 0 && len(inv.args) > len(params) {
		ev.fail(rerr{kind: "arity", fn: inv.name, loc: locOf(inv)})
		return nil, false
	}
	shown := [][]item{}
	desc := plugin + "." + s.name + "@" + locOf(inv).String()
	for i, a := range inv.args {
		k := variadic
		if i < len(params) {
			k = params[i]
		}
		switch k {
		case 's', 'c':
			o, _ := ev.eval(a)
			if ev.err != nil {
				return nil, false
			}
			if k == 's' {
				o = []item{text(istr(o))}
				desc += fmt.Sprintf(" s:%q", istr(o))
			} else {
				desc += " c:" + canon(o)
			}
			shown = append(shown, o)
		case 'n':
			desc += " n:" + rnodeString(a)
			shown = append(shown, []item{text("node")})
		default:
			ev.fail(rerr{kind: "badtype", fn: inv.name, loc: locOf(inv)})
			return nil, false
		}
	}
	ev.site.devents = append(ev.site.devents, desc)
	out := d8.outcomes[s.name]
	if strings.HasSuffix(s.ret, "e") || s.ret == "e" {
		switch {
		case s.ret != "e" && s.ret != "ce":
		case out == "error":
			ev.fail(rerr{kind: "returned", fn: inv.name, loc: locOf(inv), err: d8.plain})
			return nil, false
		case out == "wrapped":
			ev.fail(rerr{kind: "returned", fn: inv.name, loc: locOf(inv), err: d8.wrapped})
			return nil, false
		case out == "pretty":
			ev.fail(rerr{kind: "pretty", fn: inv.name, loc: locOf(inv), err: d8.pretty})
			return nil, false
		}
	}
	switch s.ret {
	case "o", "e":
		return nil, false
	case "c", "ce":
	default:
		ev.fail(rerr{kind: "badtype", fn: inv.name, loc: locOf(inv)})
		return nil, false
	}
	var args, flat []item
	for _, a := range shown {
		args = append(args, item{k: "styled", s: "arg", parts: [][]item{a}})
		flat = append(flat, a...)
	}
	switch out {
	case "nil":
		return nil, false
	case "error":
		return []item{text("ignored")}, true
	case "pretty", "wrapped":
		return nil, false
	case "block":
		return []item{{k: "styledblock", s: s.name, block: true, parts: [][]item{flat}}}, true
	case "list":
		return []item{{k: "list", parts: shown}}, true
	case "empty":
		return []item{text("")}, true
	}
	return []item{{k: "styled", s: s.name, parts: [][]item{args}}}, true
}

type dispatchCase struct {
	text     string
	plugins  []string
	outcomes map[string]string
}

func (c dispatchCase) key() string { return fmt.Sprintf("%v %v %s", c.plugins, c.outcomes, c.text) }

func (d *docDriver) checkDispatch(e *Env, c dispatchCase) string {
	e.Traces(1)
	d8.outcomes = c.outcomes
	d8.plain = errors.New("plain failure")
	d8.pretty = &prettyErr{"pretty failure"}
	d8.wrapped = fmt.Errorf("wrapping: %w", d8.pretty)
	d8.events = nil
	var fs []booklit.PluginFactory
	for _, p := range c.plugins {
		fs = append(fs, dFactory(p))
	}
	sd := &siteDriver{dir: d.dir, written: map[string]string{}}
	sd.put(map[string]string{"doc.lit": c.text})
	p := &load.Processor{}
	s, err := p.LoadFile(d.path, fs)

	site := &rsite{files: map[string]string{d.path: c.text}}
	var merr *rerr
	pr := refParse(c.text)
	if !pr.ok {
		return "the harness document does not parse: " + c.text
	}
	m := site.evaluate(nil, d.path, pr.doc, c.plugins, &merr)
	if g, w := strings.Join(d8.events, "\n"), strings.Join(site.devents, "\n"); g != w {
		return fmt.Sprintf("calls made:\n%s\nexpected:\n%s", g, w)
	}
	e.Trans(len(d8.events))
	if merr != nil && merr.kind == "badtype" {
		if err == nil {
			return fmt.Sprintf("loaded as %s; \\%s has a type that is not supported", canon(conv(s.Body)), merr.fn)
		}
		return ""
	}
	if merr != nil && len(merr.wraps) == 0 {
		switch merr.kind {
		case "returned":
			fe, ok := err.(booklit.FailedFunctionError)
			if !ok || fe.Function != merr.fn || fe.Err != merr.err {
				return fmt.Sprintf("failed with %T: %v; \\%s returned an error", err, err, merr.fn)
			}
			if fe.FilePath != d.path || astLoc(fe.NodeLocation) != merr.loc || fe.Length != len(merr.fn)+1 {
				return fmt.Sprintf("error of \\%s is at %s %s length %d, the call at %s", merr.fn, fe.FilePath, astLoc(fe.NodeLocation), fe.Length, merr.loc)
			}
			return ""
		case "pretty":
			if err != merr.err {
				return fmt.Sprintf("failed with %T: %v; \\%s returned an error with its own report", err, err, merr.fn)
			}
			return ""
		}
	}
	if msg := compareErr(err, merr); msg != "" {
		return msg
	}
	if merr != nil {
		return ""
	}
	m.collect()
	if d := diffText(canon(conv(s.Body)), canon(m.body)); d != "" {
		return d
	}
	return diffText(dumpReal(s, true), m.dump(true))
}

func runC08(e *Env) {
	d := newDocDriver(e)
	run := func(c dispatchCase) bool {
		if e.Mine() {
			e.Exec(c.key(), func() string { return d.checkDispatch(e, c) })
		}
		return !e.Stopped()
	}
	var fns []string
	for f := range d1sigs {
		fns = append(fns, f)
	}
	sort.Strings(fns)

	// signatures, argument counts, argument forms and outcomes
	forms := []string{"{x}", "{}", "{\n  x\n\n  y\n}", "{{\n  x\n    y\n}}", "{{{ \\x } }}}", "{\\f-c-r-c{x}}", "{a \\f-r-o b}", "{\\f-r-o}", "{\\f-c-r-ce{\n  x\n}}", "{\\nope}", "{x\n  \\f-s-r-e{z}}", "{{\n  \\f-r-o\n  x\n}}", "{ \\bold{y} \\\\}"}
	outs := []string{"", "nil", "error", "pretty", "wrapped", "block", "list", "empty"}
	contexts := []string{"%s", "a %s b", "p\n%s\nq", "\\bold{%s}", "\\bold{{\n  %s\n  x\n}}", "\\section{\nx %s\n}", "{- \\f-c-r-c -}%s{- \\nope -}"}
	max := pick(e, 2, 3)
	e.Bound("every one of %d method signatures (all sequences of <=2 parameters of text, content and node, variadic ones, unsupported ones; every shape of results) with all sequences of <=%d arguments of %d forms, in %d contexts, with %d outcomes", len(fns), max, len(forms), len(contexts), len(outs))
	for _, f := range fns {
		for n := 0; n <= max+1; n++ {
			fm := forms
			if n == max+1 {
				fm = forms[:2]
			}
			ok := true
			sequences(fm, n, n, func(args string, ix []int) bool {
				cs := contexts
				os := outs
				if n >= 2 && !(n == 2 && e.Thorough) {
					cs, os = contexts[:1], outs[:1]
				}
				for _, c := range cs {
					for _, o := range os {
						oc := map[string]string{}
						if o != "" {
							oc[f] = o
						}
						if !run(dispatchCase{fmt.Sprintf(c, "\\"+f+args), []string{"baselit", "d1"}, oc}) {
							ok = false
							return false
						}
					}
				}
				return true
			})
			if !ok {
				return
			}
		}
	}

	// compositions of calls
	pieces := []piece{{"x", ""}, {"\n", ""}, {"\n\n", ""}, {"\\f-c-r-c{", "}"}, {"\\f-s-r-c{", "}"}, {"\\f-vc-r-ce{a}{", "}"}, {"\\f-n-r-c{", "}"}, {"\\f-r-o{-c-}", ""}, {"\\f-c-r-e{", "}"}, {"\\f-s-c-r-ce{", "}{b}"}, {"\\f-c-r-c{\n", "\n}"}}
	max = pick(e, 4, 5)
	e.Bound("all documents of <=%d nested pieces out of %d, for every outcome of one function", max, len(pieces))
	balanced(pieces, 2, max, 5, func(t string, n int) bool {
		if !refParse(t).ok {
			return true
		}
		for _, oc := range []map[string]string{nil, {"f-c-r-c": "nil"}, {"f-c-r-c": "block"}, {"f-c-r-e": "error"}, {"f-s-c-r-ce": "pretty"}, {"f-vc-r-ce": "error", "f-c-r-c": "empty"}} {
			use := oc == nil
			for f := range oc {
				use = use || strings.Contains(t, f)
			}
			if use && !run(dispatchCase{t, []string{"d1"}, oc}) {
				return false
			}
		}
		return true
	})

	// which plugin answers
	names := []string{"baselit", "d1", "d2", "d3"}
	calls := []string{"\\f-c-r-c{x}", "\\f-r-c", "\\f-r-c{x}", "\\f-s-r-c{x}", "\\f-i-r-c{x}", "\\bold{x}", "\\bold{x}{y}", "\\g{x}", "\\unexported{x}", "\\inner{x}", "\\call{x}", "\\a", "\\string{x}", "\\section{\\g{x} \\bold{y}}", "\\section{\\use-plugin{d2}\\g{x} \\bold{y}{z}}", "\\use-plugin{d3}", "\\use-plugin{d2}", "\\use-plugin{nope}"}
	max = pick(e, 2, 3)
	e.Bound("all stacks of <=3 plugins out of %q with all sequences of <=%d calls out of %d", names, max, len(calls))
	var stacks [][]string
	sequences([]string{"0", "1", "2", "3"}, 0, 3, func(_ string, ix []int) bool {
		var st []string
		for _, i := range ix {
			st = append(st, names[i])
		}
		stacks = append(stacks, st)
		return true
	})
	for _, st := range stacks {
		sequences(calls, 1, max, func(t string, ix []int) bool { return run(dispatchCase{t, st, nil}) })
	}

	// names
	max = pick(e, 6, 8)
	e.Bound("all function names of length 1..%d over a, b and hyphen", max)
	sequences([]string{"a", "b", "-"}, 1, max, func(t string, ix []int) bool {
		return !refParse("\\"+t).ok || run(dispatchCase{"x \\" + t + " y", []string{"d3", "d1"}, nil})
	})

	// sizes
	e.Bound("calls of 0..40 arguments, each kind of argument at each position of the first 16; calls nested 1..60 deep and 1..120 in a row; functions of many parameters and with long names, exact and with a word or character more or less; stacks of 1..24 plugins, each one in turn the only one with the function")
	some := []string{"{x}", "{\n  x\n}", "{\\f-c-r-c{x}}", "{}", "{\\nope}", "{{\n  x\n}}"}
	for _, f := range []string{"f-vc-r-ce", "f-vs-r-c", "f-vn-r-c", "f-s-vs-r-c", "last", "many", "f-c-r-c", "f-r-c"} {
		for n := 0; n <= 40; n++ {
			run(dispatchCase{"\\" + f + strings.Repeat("{x}", n), []string{"d3", "d1"}, nil})
			for k := 0; k < n && k < 16; k++ {
				for _, a := range some[1:] {
					run(dispatchCase{"p \\" + f + strings.Repeat("{x}", k) + a + strings.Repeat("{y}", n-k-1), []string{"d1", "d3"}, nil})
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	for n := 1; n <= 120; n++ {
		if n <= 60 {
			for _, f := range []string{"\\f-c-r-c{", "\\f-s-r-c{", "\\f-n-r-c{", "\\f-vc-r-ce{a}{", "\\f-c-r-c{\n"} {
				run(dispatchCase{strings.Repeat(f, n) + "x" + strings.Repeat(map[bool]string{true: "\n}", false: "}"}[strings.HasSuffix(f, "\n")], n), []string{"d1"}, nil})
			}
		}
		for _, c := range []string{"\\f-c-r-c{x}", "\\f-r-o ", "\\f-s-r-c{x}\n", "\\f-r-ce\n\n"} {
			run(dispatchCase{strings.Repeat(c, n), []string{"d1"}, nil})
			run(dispatchCase{strings.Repeat(c, n) + "\\nope", []string{"d1"}, nil})
		}
	}
	for f, sig := range d3sigs {
		if sig.params != "c" && sig.params != "" {
			continue
		}
		arg := strings.Repeat("{x}", len(sig.params))
		for i := 0; i <= len(f); i++ {
			for _, v := range []string{f[:i], f[:i] + "-" + f[i:], f[:i] + "x" + f[i:]} {
				if refParse("\\" + v + arg).ok {
					run(dispatchCase{"\\" + v + arg, []string{"d3"}, nil})
				}
			}
		}
	}
	for n := 1; n <= 24; n++ {
		for k := 0; k < n; k++ {
			var st []string
			for i := 0; i < n; i++ {
				if i == k {
					st = append(st, "d3")
				} else {
					st = append(st, "d1")
				}
			}
			run(dispatchCase{"\\a-b-a \\f-c-r-c{x} \\f-r-c", st, nil})
		}
	}
}
