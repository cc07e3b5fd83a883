package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

// vq and vr are further harness plugins, for \use-plugin.
type vq struct {
	s *booklit.Section
	n int
}

func (p *vq) Who() booklit.Content {
	p.n++
	return booklit.String(fmt.Sprintf("[vq #%d]", p.n))
}
func (p *vq) WithPartial(c, partial booklit.Content) booklit.Content {
	return booklit.Styled{Style: "bold", Content: c, Partials: booklit.Partials{"Extra": partial}}
}
func (p *vq) Fail(msg string) error { return errors.New(msg) }
func (p *vq) Q(args ...booklit.Content) booklit.Content {
	(&vp{section: p.s}).record("q", convAll(args))
	return booklit.Styled{Style: "q", Content: callContent("q", args)}
}

type vr struct {
	s *booklit.Section
	n int
}

func (p *vr) Who() booklit.Content {
	p.n++
	return booklit.String(fmt.Sprintf("[vr #%d]", p.n))
}
func (p *vr) R(args ...booklit.Content) booklit.Content {
	(&vp{section: p.s}).record("r", convAll(args))
	return booklit.Styled{Style: "r", Content: callContent("r", args)}
}
func (p *vr) Bold(booklit.Content) booklit.Content { return booklit.String("[bold by vr]") }

func init() {
	booklit.RegisterPlugin("vp", newVP)
	booklit.RegisterPlugin("vq", func(s *booklit.Section) booklit.Plugin { return &vq{s: s} })
	booklit.RegisterPlugin("vr", func(s *booklit.Section) booklit.Plugin { return &vr{s: s} })
}

// siteDriver keeps a directory of documents.
type siteDriver struct {
	dir     string
	written map[string]string
}

func newSiteDriver(e *Env, name string) *siteDriver {
	d := &siteDriver{dir: filepath.Join(e.Dir, name), written: map[string]string{}}
	_ = os.MkdirAll(d.dir, 0755)
	return d
}

// put makes the directory hold exactly the files (relative names).
func (d *siteDriver) put(files map[string]string) {
	for n := range d.written {
		if _, ok := files[n]; !ok {
			_ = os.Remove(filepath.Join(d.dir, n))
			delete(d.written, n)
		}
	}
	for n, t := range files {
		if old, ok := d.written[n]; ok && old == t {
			continue
		}
		p := filepath.Join(d.dir, n)
		if strings.Contains(n, "/") {
			_ = os.MkdirAll(filepath.Dir(p), 0755)
		}
		if err := os.WriteFile(p, []byte(t), 0644); err != nil {
			panic(err)
		}
		d.written[n] = t
	}
}

// abs gives the files their absolute names.
func (d *siteDriver) abs(files map[string]string) map[string]string {
	out := map[string]string{}
	for n, t := range files {
		out[filepath.Join(d.dir, n)] = t
	}
	return out
}

func (d *siteDriver) load(files map[string]string, start string) (*booklit.Section, error) {
	d.put(files)
	p := &load.Processor{}
	return p.LoadFile(filepath.Join(d.dir, start), []booklit.PluginFactory{baselit.NewPlugin})
}

func (d *siteDriver) model(files map[string]string, start string) (*rsec, *rerr, []revent) {
	return loadModel(d.abs(files), filepath.Join(d.dir, start))
}

func astLoc(l ast.Location) rloc { return rloc{l.Line, l.Col, l.Offset} }

func dumpReal(s *booklit.Section, loc bool) string {
	var b strings.Builder
	convLoc = loc
	defer func() { convLoc = false }()
	dumpRealTo(&b, s, loc, "")
	return b.String()
}

func dumpRealTo(b *strings.Builder, s *booklit.Section, loc bool, ind string) {
	fmt.Fprintf(b, "%ssection %q%s number=%q depth=%d pagedepth=%d style=%q omit=%v plugins=%d primary=%q\n", ind, s.Path, fl(loc, astLoc(s.Location)), s.Number(), s.Depth(), s.PageDepth(), s.Style,
		s.OmitChildrenFromTableOfContents, len(s.Plugins), s.PrimaryTag.Name)
	if s.PrimaryTag.Section != s {
		fmt.Fprintf(b, "%s  PRIMARY TAG OF ANOTHER SECTION %v\n", ind, s.PrimaryTag.Section)
	}
	fmt.Fprintf(b, "%s  title %s%s\n", ind, canon(conv(s.Title)), fl(loc, astLoc(s.TitleLocation)))
	for _, t := range s.Tags {
		c := "-"
		if t.Content != nil {
			c = canon(conv(t.Content))
		}
		fmt.Fprintf(b, "%s  tag %q #%q title=%s content=%s%s\n", ind, t.Name, t.Anchor, canon(conv(t.Title)), c, fl(loc, astLoc(t.Location)))
		if t.Section != s {
			fmt.Fprintf(b, "%s  TAG OF ANOTHER SECTION %v\n", ind, t.Section)
		}
	}
	fmt.Fprintf(b, "%s  body %s\n", ind, canon(conv(s.Body)))
	var names []string
	for n := range s.Partials {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(b, "%s  partial %q %s\n", ind, n, canon(conv(s.Partials[n])))
	}
	for _, c := range s.Children {
		if c.Parent != s {
			fmt.Fprintf(b, "%s  CHILD WITH ANOTHER PARENT\n", ind)
		}
		dumpRealTo(b, c, loc, ind+"  ")
	}
}

// compareErr compares a load error with the model's.
func compareErr(got error, want *rerr) string {
	if want == nil {
		if got != nil {
			return fmt.Sprintf("failed with %T: %s; it should load", got, got)
		}
		return ""
	}
	if got == nil {
		return fmt.Sprintf("loaded; it should fail with %s", want)
	}
	at := func(l booklit.ErrorLocation, file string, loc rloc, length int) string {
		if l.FilePath != file || astLoc(l.NodeLocation) != loc || l.Length != length {
			return fmt.Sprintf("error %T (%s) is at %s %s length %d; it should be at %s %s length %d", got, got, l.FilePath, astLoc(l.NodeLocation), l.Length, file, loc, length)
		}
		return ""
	}
	if len(want.wraps) > 0 {
		w := want.wraps[0]
		fe, ok := got.(booklit.FailedFunctionError)
		if !ok || fe.Function != w.fn {
			return fmt.Sprintf("failed with %T: %s; it should fail in \\%s with %s", got, got, w.fn, want)
		}
		if m := at(fe.ErrorLocation, w.file, w.loc, len(w.fn)+1); m != "" {
			return m
		}
		if want.kind == "arity" && !strings.Contains(fe.Err.Error(), want.fn) {
			return fmt.Sprintf("error %q does not name \\%s", fe.Err, want.fn)
		}
		return ""
	}
	switch want.kind {
	case "parse":
		pe, ok := got.(booklit.ParseError)
		if !ok {
			return fmt.Sprintf("failed with %T: %s; it should be a parse error", got, got)
		}
		return at(pe.ErrorLocation, want.file, want.loc, pe.Length)
	case "undefined":
		ue, ok := got.(booklit.UndefinedFunctionError)
		if !ok || ue.Function != want.fn {
			return fmt.Sprintf("failed with %T: %s; \\%s is undefined", got, got, want.fn)
		}
		return at(ue.ErrorLocation, want.file, want.loc, len(want.fn)+1)
	case "arity":
		if !strings.Contains(got.Error(), want.fn) || !strings.Contains(got.Error(), "argument") {
			return fmt.Sprintf("failed with %T: %s; the argument count of \\%s is wrong", got, got, want.fn)
		}
	case "failed":
		fe, ok := got.(booklit.FailedFunctionError)
		if !ok || fe.Function != want.fn || !strings.HasPrefix(fe.Err.Error(), want.msg) {
			return fmt.Sprintf("failed with %T: %s; \\%s should fail: %s", got, got, want.fn, want.msg)
		}
		return at(fe.ErrorLocation, want.file, want.loc, len(want.fn)+1)
	case "titletwice":
		te, ok := got.(booklit.TitleTwiceError)
		if !ok {
			return fmt.Sprintf("failed with %T: %s; the title is set twice", got, got)
		}
		if m := at(te.ErrorLocation, want.file, want.loc, 6); m != "" {
			return m
		}
		return at(te.TitleLocation, want.file, want.first, 6)
	case "missing":
		if !os.IsNotExist(got) {
			return fmt.Sprintf("failed with %T: %s; %s doesn't exist", got, got, want.file)
		}
	}
	return ""
}

// compareTree loads files for real and in the model and compares everything.
func (d *siteDriver) compareTree(files map[string]string, start string, loc bool) string {
	var events []revent
	recorder = &events
	s, err := d.load(files, start)
	recorder = nil
	m, merr, mevents := d.model(files, start)
	if msg := compareErr(err, merr); msg != "" {
		return msg
	}
	if g, w := eventsString(events, loc), eventsString(mevents, loc); g != w {
		return fmt.Sprintf("calls made:     %s\ncalls expected: %s", g, w)
	}
	if merr != nil {
		return ""
	}
	return diffText(dumpReal(s, loc), m.dump(loc))
}

// diffText shows where two texts differ first.
func diffText(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; ; i++ {
		gl, wl := "(nothing)", "(nothing)"
		if i < len(g) {
			gl = g[i]
		}
		if i < len(w) {
			wl = w[i]
		}
		if gl != wl {
			return fmt.Sprintf("got:      %s\nexpected: %s", gl, wl)
		}
	}
}
