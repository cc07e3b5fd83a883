package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

func init() {
	register(&Check{ID: "C19", Level: "model_checking", Rule: "a state is a history of appends over all values obtained so far, a content tree, or a document that reuses content; after every step all values are compared with the model", Run: runC19, QuickBudget: 90})
}

// --- histories of appends

type appendOp struct{ args []int } // values joined, the first being appended to

func initialValues() []booklit.Content {
	shared := make(booklit.Sequence, 2, 6)
	shared[0], shared[1] = booklit.String("s"), booklit.String("t")
	spare := make(booklit.Sequence, 0, 4)
	return []booklit.Content{
		nil,
		booklit.String("a"),
		shared,
		spare,
		shared[:1],
		booklit.Paragraph{booklit.String("p")},
		booklit.Sequence{booklit.Sequence{booklit.String("n")}, booklit.String("m")},
		booklit.Empty,
	}
}

func flat(c booklit.Content) string {
	if c == nil {
		return "nil"
	}
	return canon(conv(c))
}

// runHistory performs the appends and compares all values after each.
func runHistory(e *Env, init int, ops []appendOp) string {
	vals := initialValues()[:init]
	var model [][]item
	var present []bool
	for _, v := range vals {
		model = append(model, conv(v))
		present = append(present, v != nil)
	}
	desc := ""
	for _, op := range ops {
		var rest []booklit.Content
		m := append([]item{}, model[op.args[0]]...)
		p := present[op.args[0]]
		for _, i := range op.args[1:] {
			rest = append(rest, vals[i])
			m = append(m, model[i]...)
			p = p || present[i]
		}
		vals = append(vals, booklit.Append(vals[op.args[0]], rest...))
		model = append(model, m)
		present = append(present, p)
		desc += fmt.Sprintf(" v%d=append%v", len(vals)-1, op.args)
		e.Trans(1)
		for i, v := range vals {
			if present[i] != (v != nil) {
				return fmt.Sprintf("after%s, value %d is %v", desc, i, v)
			}
			if g, w := flat(v), flat2(model[i], present[i]); g != w {
				return fmt.Sprintf("after%s, value %d is %s, expected %s", desc, i, g, w)
			}
			if v != nil && v.IsFlow() != flow(model[i]) {
				return fmt.Sprintf("after%s, value %d (%s) is classified as flow: %v", desc, i, flat(v), v.IsFlow())
			}
			if v != nil && v.String() != istr(model[i]) {
				return fmt.Sprintf("after%s, value %d (%s) has the text %q, expected %q", desc, i, flat(v), v.String(), istr(model[i]))
			}
		}
	}
	return ""
}

func flat2(in []item, present bool) string {
	if !present {
		return "nil"
	}
	return canon(in)
}

// --- documents that reuse content

// vs is a plugin that returns the same values again and again.
type vs struct {
	s      *booklit.Section
	shared booklit.Sequence
	part   booklit.Sequence
	kept   booklit.Content
}

var vsAll []*vs

func newVS(s *booklit.Section) booklit.Plugin {
	sh := make(booklit.Sequence, 2, 8)
	sh[0], sh[1] = booklit.String("<1>"), booklit.String("<2>")
	p := &vs{s: s, shared: sh, part: sh[:1]}
	vsAll = append(vsAll, p)
	return p
}

func (p *vs) Sh() booklit.Content { return p.shared }
func (p *vs) Pt() booklit.Content { return p.part }
func (p *vs) Em() booklit.Content { return make(booklit.Sequence, 0, 4) }
func (p *vs) Bl() booklit.Content { return booklit.Paragraph{p.shared} }
func (p *vs) Ke(c booklit.Content) booklit.Content {
	p.kept = c
	return c
}
func (p *vs) Ag() (booklit.Content, error) { return p.kept, nil }
func (p *vs) Ap(c booklit.Content) booklit.Content {
	p.kept = booklit.Append(p.kept, c)
	return p.kept
}

func refVS() *refEval {
	e := &refEval{}
	var kept []item
	has := false
	sh := []item{text("<1><2>")}
	e.call = func(inv *rInv, args [][]item) ([]item, bool, string) {
		switch inv.name {
		case "sh":
			return sh, true, ""
		case "pt":
			return []item{text("<1>")}, true, ""
		case "em":
			return nil, true, ""
		case "bl":
			return []item{{k: "P", parts: [][]item{sh}}}, true, ""
		case "ke":
			kept, has = args[0], true
			return kept, true, ""
		case "ag":
			return kept, has, ""
		case "ap":
			kept, has = append(append([]item{}, kept...), args[0]...), true
			return kept, true, ""
		case "bold":
			return []item{{k: "styled", s: "bold", parts: [][]item{args[0]}}}, true, ""
		case "list":
			return []item{{k: "list", parts: args}}, true, ""
		}
		return nil, false, "undefined"
	}
	return e
}

func checkReuse(e *Env, d *docDriver, t string) string {
	e.Traces(1)
	if err := os.WriteFile(d.path, []byte(t), 0644); err != nil {
		return err.Error()
	}
	vsAll = nil
	s, err := (&load.Processor{}).LoadFile(d.path, []booklit.PluginFactory{baselit.NewPlugin, newVS})
	p := refParse(t)
	if !p.ok {
		if err == nil {
			return "harness: the document is not in the grammar but loads"
		}
		return ""
	}
	if err != nil {
		return err.Error()
	}
	re := refVS()
	out, _ := re.eval(p.doc)
	if re.err != "" {
		return "harness: " + re.err
	}
	if g, w := canon(conv(s.Body)), canon(out); g != w {
		return fmt.Sprintf("content:  %s\nexpected: %s", g, w)
	}
	for _, v := range vsAll {
		if len(v.shared) != 2 || v.shared[0] != booklit.String("<1>") || v.shared[1] != booklit.String("<2>") || len(v.part) != 1 {
			return "a plugin's own value was changed: " + canon(conv(v.shared))
		}
		full := v.shared[:cap(v.shared)]
		for i := 2; i < len(full); i++ {
			if full[i] != nil {
				return fmt.Sprintf("the storage of a plugin's own value was written to: %v", full[i])
			}
		}
	}
	return ""
}

func checkFlow(e *Env, t *term, sec *booklit.Section) string {
	e.Traces(1)
	e.Trans(t.size())
	a := (&termBuilder{label: "a", sec: sec, slack: true}).build(t)
	b := (&termBuilder{label: "a", sec: sec, slack: true}).build(t)
	its := conv(a)
	want := flow(its)
	if a.IsFlow() != want {
		return fmt.Sprintf("IsFlow is %v for %s", a.IsFlow(), canon(its))
	}
	// a document's paragraph of it
	for _, before := range []booklit.Content{nil, booklit.String("x"), booklit.Sequence{}, booklit.Sequence{booklit.String("x")}} {
		r := booklit.Append(before, a)
		w := append(append([]item{}, conv(before)...), its...)
		if g, w := canon(conv(r)), canon(w); g != w {
			return fmt.Sprintf("appended: %s\nexpected: %s", g, w)
		}
		if r.IsFlow() != flow(w) {
			return fmt.Sprintf("appended, IsFlow is %v for %s", r.IsFlow(), canon(w))
		}
		r2 := booklit.Append(a, before, booklit.String("y"), nil)
		w = append(append(append([]item{}, its...), conv(before)...), text("y"))
		if g, w := canon(conv(r2)), canon(w); g != w {
			return fmt.Sprintf("appended to it: %s\nexpected: %s", g, w)
		}
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("appending changed %s into %s", canon(conv(b)), canon(conv(a)))
	}
	return ""
}

func runC19(e *Env) {
	sec := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
	kinds := []tkind{{"str", 0, 0}, {"empty", 0, 0}, {"image", 0, 0}, {"ref", 0, 0}, {"aux", 1, 1}, {"seq", 0, 3}, {"bold", 1, 1}, {"boldp", 2, 2}, {"para", 0, 2}, {"list", 0, 2}, {"row", 1, 2}, {"defs", 2, 2}, {"link", 1, 1}, {"refc", 1, 1}, {"pre", 0, 2}, {"targetc", 2, 2}, {"block", 1, 1}, {"target", 0, 0}, {"toc", 0, 0}, {"olist", 1, 1}}
	max := pick(e, 4, 5)
	e.Bound("classification and appending: all content trees of <=%d nodes over %d kinds", max, len(kinds))
	allTerms(kinds, max, func(t *term) bool {
		if e.Mine() {
			e.Exec("content "+t.String(), func() string { return checkFlow(e, t, sec) })
		}
		return !e.Stopped()
	})

	// histories
	init := len(initialValues())
	depth := pick(e, 3, 4)
	e.Bound("all histories of 1..%d appends; each appends any one or (in the first steps) two of the values obtained so far, absent ones included, to any of them; %d initial values, several sharing storage with spare capacity", depth, init)
	var ops []appendOp
	var rec func(n int)
	rec = func(n int) {
		if len(ops) > 0 && len(ops) == n {
			if e.Mine() {
				key := fmt.Sprint("appends ", ops)
				e.Exec(key, func() string { e.Traces(1); return runHistory(e, init, ops) })
			}
			return
		}
		k := init + len(ops)
		for i := 0; i < k && !e.Stopped(); i++ {
			for j := 0; j < k; j++ {
				ops = append(ops, appendOp{[]int{i, j}})
				rec(n)
				ops = ops[:len(ops)-1]
				if n <= 2 {
					for l := 0; l < k; l++ {
						ops = append(ops, appendOp{[]int{i, j, l}})
						rec(n)
						ops = ops[:len(ops)-1]
					}
				}
			}
		}
	}
	for n := 1; n <= depth; n++ {
		rec(n)
	}

	e.Bound("histories of 1..24 appends to the last value, a fork of every value or in turn, of every initial value to every other")
	for i := 0; i < init; i++ {
		for j := 0; j < init; j++ {
			for n := 1; n <= 24; n++ {
				for mode := 0; mode < 4; mode++ {
					if !e.Mine() {
						continue
					}
					var h []appendOp
					last := i
					for k := 0; k < n; k++ {
						switch mode {
						case 0: // extend the last value
							h = append(h, appendOp{[]int{last, j}})
						case 1: // and fork the one before
							if k%2 == 1 {
								h = append(h, appendOp{[]int{last - 1 + k/(k+1), j}})
							} else {
								h = append(h, appendOp{[]int{last, j}})
							}
						case 2: // several at once
							op := appendOp{[]int{last}}
							for m := 0; m <= k; m++ {
								op.args = append(op.args, j)
							}
							h = append(h, op)
						case 3: // the value to itself
							if len(h) > 6 {
								continue
							}
							h = append(h, appendOp{[]int{last, last}})
						}
						last = init + len(h) - 1
					}
					h2 := append(append([]appendOp{}, h...), appendOp{[]int{init + len(h)/2, i}}, appendOp{[]int{init + len(h)/2, j}})
					e.Exec(fmt.Sprint("long appends ", i, j, n, mode), func() string { e.Traces(1); return runHistory(e, init, h2) })
				}
			}
		}
	}

	// documents
	d := newDocDriver(e)
	toks := []string{`\sh`, `\pt`, `\bl`, `\ag`, `\em`, `\ke{a}`, `\ke{\sh b}`, `\ap{c}`, "1", " ", "\n", "\n\n", `\bold{\sh d}`, `\list{\pt}{\sh e}`, `\ke{\ag\ag}`}
	max = pick(e, 4, 5)
	e.Bound("all documents of 1..%d out of %d tokens: calls which return shared, kept and extended content, text, line and paragraph breaks", max, len(toks))
	sequences(toks, 1, max, func(t string, ix []int) bool {
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(len(ix)); return checkReuse(e, d, t) })
		}
		return !e.Stopped()
	})
	nest := []piece{{`\sh`, ""}, {`\pt`, ""}, {`\ag`, ""}, {"1", ""}, {"\n", ""}, {"\n\n", ""}, {`\ke{`, "}"}, {`\ap{`, "}"}, {`\bold{`, "}"}, {`\bl`, ""}, {"\\ke{\n", "\n}"}}
	max = pick(e, 5, 6)
	e.Bound("all documents of <=%d nested pieces out of %d such", max, len(nest))
	balanced(nest, 2, max, 3, func(t string, n int) bool {
		if strings.Contains(t, "{}") || !strings.Contains(t, "{") {
			return true
		}
		if e.Mine() {
			e.Exec(t, func() string { e.Trans(n); return checkReuse(e, d, t) })
		}
		return !e.Stopped()
	})
}
