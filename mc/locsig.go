package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

// vl records the location every one of its calls is given; its functions have
// all kinds of signatures.
type vl struct{ section *booklit.Section }

type locEvent struct {
	fn  string
	loc ast.Location
}

var locEvents []locEvent

func newVL(s *booklit.Section) booklit.Plugin { return &vl{section: s} }

func (p *vl) at(fn string) booklit.Content {
	locEvents = append(locEvents, locEvent{fn, p.section.InvokeLocation})
	return booklit.String("x")
}

func (p *vl) LZero() booklit.Content                         { return p.at("l-zero") }
func (p *vl) LOne(a booklit.Content) booklit.Content         { return p.at("l-one") }
func (p *vl) LTwo(a, b booklit.Content) booklit.Content      { return p.at("l-two") }
func (p *vl) LThree(a, b, c booklit.Content) booklit.Content { return p.at("l-three") }
func (p *vl) LFour(a, b, c, d booklit.Content)               { p.at("l-four") }
func (p *vl) LText(a string) booklit.Content                 { return p.at("l-text") }
func (p *vl) LTexts(a, b string) (booklit.Content, error)    { return p.at("l-texts"), nil }
func (p *vl) LMixed(a string, b booklit.Content) error       { p.at("l-mixed"); return nil }
func (p *vl) LMixing(a booklit.Content, b string)            { p.at("l-mixing") }
func (p *vl) LMany(a ...booklit.Content) booklit.Content     { return p.at("l-many") }
func (p *vl) LOther(a booklit.Content, b ...booklit.Content) { p.at("l-other") }
func (p *vl) LRest(a, b string, c ...string) booklit.Content { return p.at("l-rest") }
func (p *vl) LNode(a ast.Node) booklit.Content               { return p.at("l-node") }
func (p *vl) LNodes(a booklit.Content, b ast.Node) error     { p.at("l-nodes"); return nil }
func (p *vl) LFail(a booklit.Content) error                  { p.at("l-fail"); return errors.New("no") }
func (p *vl) LFails(a, b string) (booklit.Content, error) {
	p.at("l-fails")
	return nil, errors.New("no")
}

type locFn struct {
	name  string
	args  int
	nodes string // the arguments which are not evaluated, by index
	fails bool
}

var locFns = []locFn{{"l-zero", 0, "", false}, {"l-one", 1, "", false}, {"l-two", 2, "", false}, {"l-three", 3, "", false}, {"l-four", 4, "", false}, {"l-text", 1, "", false}, {"l-texts", 2, "", false}, {"l-mixed", 2, "", false}, {"l-mixing", 2, "", false}, {"l-many", 0, "", false}, {"l-many", 1, "", false}, {"l-many", 2, "", false}, {"l-many", 5, "", false}, {"l-other", 1, "", false}, {"l-other", 3, "", false}, {"l-rest", 2, "", false}, {"l-rest", 4, "", false}, {"l-node", 1, "0", false}, {"l-nodes", 2, "1", false}, {"l-fail", 1, "", true}, {"l-fails", 2, "", true}}

// locText is a document being written, along with the locations of the calls
// in it, in the order in which they run.
type locText struct {
	t     string
	calls []locEvent
	fail  *locEvent
}

func (d *locText) loc() ast.Location {
	i := strings.LastIndex(d.t, "\n")
	return ast.Location{Line: strings.Count(d.t, "\n") + 1, Col: utf8.RuneCountInString(d.t[i+1:]) + 1, Offset: len(d.t)}
}

func (d *locText) call(f locFn, sep string, arg func(i int, runs bool), runs bool) {
	ev := locEvent{f.name, d.loc()}
	d.t += "\\" + f.name
	for i := 0; i < f.args; i++ {
		d.t += "{" + sep
		arg(i, runs && !strings.Contains(f.nodes, fmt.Sprint(i)) && d.fail == nil)
		d.t += "}"
	}
	if runs && d.fail == nil {
		d.calls = append(d.calls, ev)
		if f.fails {
			d.fail = &ev
		}
	}
}

func signatureLocations(e *Env) {
	dir := filepath.Join(e.Dir, "locs")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, "doc.lit")
	check := func(d *locText) string {
		if err := os.WriteFile(path, []byte(d.t), 0644); err != nil {
			panic(err)
		}
		locEvents = nil
		_, err := (&load.Processor{}).LoadFile(path, []booklit.PluginFactory{baselit.NewPlugin, newVL})
		if got, want := fmt.Sprint(locEvents), fmt.Sprint(d.calls); got != want {
			return fmt.Sprintf("calls ran at %s, they stand at %s", got, want)
		}
		if d.fail == nil {
			if err != nil {
				return "fails: " + err.Error()
			}
			return ""
		}
		var fe booklit.FailedFunctionError
		if !errors.As(err, &fe) || fe.NodeLocation != d.fail.loc || fe.Length != len(d.fail.fn)+1 || fe.FilePath != path {
			return fmt.Sprintf("error %#v of %v", err, *d.fail)
		}
		return ""
	}
	seps := []string{"", "é ", "\n  "}
	e.Bound("calls of functions with %d signatures in every argument of every other, in every argument of a third at 2 levels, %d separators", len(locFns), len(seps))
	for _, f := range locFns {
		for _, g := range locFns {
			for _, h := range append([]locFn{{name: ""}}, locFns...) {
				for _, sep := range seps {
					d := &locText{t: "é\n\nx "}
					d.call(f, sep, func(_ int, runs bool) {
						d.call(g, "", func(_ int, runs bool) {
							if h.name != "" {
								d.call(h, "", func(int, bool) { d.t += "y" }, runs)
							}
						}, runs)
					}, true)
					d.t += " "
					d.call(g, sep, func(int, bool) { d.t += "z" }, true)
					e.Each(d.t, func() string {
						e.Trans(len(d.calls))
						e.Traces(1)
						return check(d)
					})
					if e.Stopped() {
						return
					}
				}
			}
		}
	}
}
