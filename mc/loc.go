package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
)

func init() {
	register(&Check{ID: "C05", Level: "model_checking", Rule: "a state is a document with one assignment of LF/CRLF to its line breaks; its load result is compared with that of the same document with only LF", Run: runC05, QuickBudget: 90})
	register(&Check{ID: "C06", Level: "model_checking", Rule: "every document of the bounded space is a state; the locations of all calls, sections, titles, tags, references and errors of the real load are compared with an independent reference parser and evaluator", Run: runC06, QuickBudget: 90})
	register(&Check{ID: "C07", Level: "model_checking", Rule: "every byte string of the bounded space is a state; each is loaded by the real loader and the outcome and error position compared with an independent reference parser", Run: runC07, QuickBudget: 90})
}

// --- C05

type lineEndings struct {
	e *Env
	d *docDriver
}

func (l lineEndings) check(t string) bool {
	k := strings.Count(t, "\n")
	if k == 0 || k > 8 {
		return !l.e.Stopped()
	}
	if !l.e.Mine() {
		return !l.e.Stopped()
	}
	l.e.Exec(t, func() string {
		base := l.d.load(t)
		if base.err == nil && strings.Contains(base.body, `\r`) {
			return "a carriage return in content of a document without any: " + base.body
		}
		if base.err == nil {
			l.e.Count("accepted", 1)
		}
		be := eventsString(base.events, false)
		for mask := 1; mask < 1<<k; mask++ {
			var b strings.Builder
			n := 0
			for i := 0; i < len(t); i++ {
				if t[i] == '\n' {
					if mask&(1<<n) != 0 {
						b.WriteByte('\r')
					}
					n++
				}
				b.WriteByte(t[i])
			}
			l.e.Trans(1)
			l.e.Traces(1)
			got := l.d.load(b.String())
			switch {
			case (got.err == nil) != (base.err == nil):
				return fmt.Sprintf("%q: %v\nwith LF only: %v", b.String(), got.err, base.err)
			case got.body != base.body:
				return fmt.Sprintf("%q gives %s\nwith LF only: %s", b.String(), got.body, base.body)
			case eventsString(got.events, false) != be:
				return fmt.Sprintf("%q calls %s\nwith LF only: %s", b.String(), eventsString(got.events, false), be)
			}
		}
		return ""
	})
	return !l.e.Stopped()
}

func runC05(e *Env) {
	l := lineEndings{e, newDocDriver(e)}
	seq := func(label string, toks []string, max int) {
		e.Bound("%s: all token sequences of length 1..%d over %q with 1..8 line breaks, all assignments of LF/CRLF", label, max, toks)
		sequences(toks, 1, max, func(t string, ix []int) bool { return l.check(t) })
	}
	seq("text", []string{"a", " ", "\n", "{", "}", "{-", "-}", `\a`}, pick(e, 5, 6))
	seq("lines", []string{"a", "\n", "\\a{", "}", "\\b{\n", "\n}"}, pick(e, 6, 7))
	seq("blocks", []string{"\\a{{", "}}", "\\a{{{", "}}}", "\n", "  ", "x", "{-\n-}"}, pick(e, 5, 6))
	forms := []string{"{x}", "{\nx\n}", "{\n\nx\ny\n\nz\n}", "{x\ny}", "{x\n  y\n}", "{{\nx\n}}", "{{\n  x\n\n  y\n  }}", "{{{\nx\n}}}", "{{{\n  x\n  y}\n}}}", "{\n}", "{-\n-}", "{\n{-c\n-}\n}", "{{{x}}}"}
	e.Bound("all calls with 1..2 of %d argument forms and one level of nesting, 3 functions, 3 contexts, all assignments of LF/CRLF", len(forms))
	for _, fn := range []string{`\a`, `\b`, `\n`, `\s`} {
		for _, c := range [][2]string{{"", ""}, {"p\n", "\nq"}, {"p\n\n", "\n\nq"}} {
			for _, f := range forms {
				l.check(c[0] + fn + f + c[1])
				for _, g := range forms {
					if !l.check(c[0] + fn + f + g + c[1]) {
						return
					}
					if e.Thorough || fn == `\a` {
						l.check(c[0] + fn + strings.ReplaceAll(f, "x", `\a`+g) + c[1])
						l.check(c[0] + fn + strings.ReplaceAll(f, "x", "x "+`\b`+g+" y") + c[1])
					}
				}
			}
		}
	}
	// whole trees
	d := newSiteDriver(e, "tree")
	pieces := []piece{{"\\title{T}\n", ""}, {"\\title{\n  T\n}{t1}\n\n", ""}, {"x\ny\n\n", ""}, {"\\section{\n", "\n}\n"}, {"\\set-partial{p}{\nv\n}\n\n", ""}, {"\\reference{t1}\n", ""}, {"\\code{{\n  a\n}}\n\n", ""}, {"\\list{a\n}{\nb\n}\n", ""}}
	max := pick(e, 3, 4)
	e.Bound("section trees of <=%d pieces over %d pieces: LF, CRLF, and two alternating assignments", max, len(pieces))
	balanced(pieces, 1, max, 3, func(t string, n int) bool {
		if !e.Mine() {
			return !e.Stopped()
		}
		e.Exec(t, func() string {
			dump := func(v string) string {
				e.Traces(1)
				e.Trans(1)
				s, err := d.load(map[string]string{"index.lit": v}, "index.lit")
				if err != nil {
					return fmt.Sprintf("%T", err)
				}
				return dumpReal(s, false)
			}
			base := dump(t)
			for v := 1; v < 4; v++ {
				n := 0
				var b strings.Builder
				for i := 0; i < len(t); i++ {
					if t[i] == '\n' {
						n++
						if v == 3 || n%2 == v%2 {
							b.WriteByte('\r')
						}
					}
					b.WriteByte(t[i])
				}
				if m := diffText(dump(b.String()), base); m != "" {
					return fmt.Sprintf("%q\n%s", b.String(), m)
				}
			}
			return ""
		})
		return !e.Stopped()
	})
}

// --- C06

func treeCase(e *Env, d *siteDriver, files map[string]string, t string, n int, loc bool) {
	if !e.Mine() {
		return
	}
	e.Exec(t, func() string {
		e.Trans(n)
		e.Traces(1)
		fs := map[string]string{"index.lit": t}
		for k, v := range files {
			fs[k] = v
		}
		return d.compareTree(fs, "index.lit", loc)
	})
}

func runC06(e *Env) {
	d := newDocDriver(e)
	seqDocs(e, d, "calls", []string{`\a`, `\a{`, "}", "é", " ", "\n", "\r\n"}, pick(e, 6, 7), true)
	seqDocs(e, d, "forms", []string{`\a{{`, "}}", `\b{`, "}", "\n", "{-é-}", `\x`, "日 "}, pick(e, 5, 7), true)
	seqDocs(e, d, "offsets", []string{"\U0001f600", "é", "a", "\n", "\t", `\\`, `\{`, `\n`, "{\\a}", "{-\r\n-}"}, pick(e, 5, 6), true)
	forms := argForms([]string{`\a`, `é\n`, `\s{\a{x}}`, "x\n\\a", "\\nope"})
	e.Bound("calls with 1..2 arguments in %d forms containing calls, 6 contexts", len(forms))
	for _, c := range [][2]string{{"", ""}, {"é ", ""}, {"日\n", ""}, {"{-\n\n-}", ""}, {"\r\n\r\n", ""}, {"\\a{{\n  é ", "\n}}"}} {
		for _, f := range forms {
			docCase(e, d, c[0]+`\a`+f+c[1], 2, true)
			for _, g := range forms {
				docCase(e, d, c[0]+`\b`+f+g+c[1]+` \a`, 3, true)
			}
		}
		if e.Stopped() {
			return
		}
	}
	signatureLocations(e)
	sd := newSiteDriver(e, "tree")
	files := map[string]string{
		"sub/b.lit": "é\n\n\\title{B \\reference{t}}{b}\n\n\\use-plugin{vp}\n\\a{x \\a}\n\\target{u}\n\\section{\n  \\title{C}\n\n  é \\a\\reference{b}\n}\n",
		"sub/c.lit": "\\title{C}\n\n{-é\n-}é\\fail{no}", "sub/d.lit": "é\n\n  é\\nope", "e.lit": "x\n\\section{\n\\title{E}\n\n  \\title{F}}", "f.lit": "\\use-plugin{vq}\né\\fail{x}", "g.lit": "é\r\n\\section{\\section{\\aux{\\link}}}\n",
	}
	pieces := []piece{{"\\title{T}\n", ""}, {"é ", ""}, {"\n\n", ""}, {"{-\n-}", ""}, {`\reference{t}`, ""}, {`\target{é}`, ""}, {`\section{`, "}"}, {"\\section{\n  ", "\n}\n"}, {`\bold{`, "}"}, {`\a`, ""}, {`\use-plugin{vp}`, ""}}
	max := pick(e, 4, 5)
	e.Bound("section trees: all documents of <=%d properly nested pieces out of %d", max, len(pieces))
	balanced(pieces, 1, max, 3, func(t string, n int) bool {
		treeCase(e, sd, nil, t, n, true)
		return !e.Stopped()
	})
	pieces2 := []piece{{"é\n", ""}, {"\\section{\n  \\title{S}\n\n", "\n}\n"}, {`\include-section{sub/b.lit}`, ""}, {`\include-section{sub/c.lit}`, ""}, {`\include-section{sub/d.lit}`, ""}, {`\include-section{e.lit}`, ""}, {`\include-section{f.lit}`, ""}, {`\include-section{g.lit}`, ""}, {`\include-section{index.lit}`, ""}, {`\include-section{none.lit}`, ""}, {`\bold{`, "}"}, {`\title{`, "}"}, {`\target{x}{`, "}"}, {`\code`, ""}}
	max2 := pick(e, 3, 4)
	e.Bound("files: all documents of <=%d properly nested pieces out of %d, including files with calls and every kind of error", max2, len(pieces2))
	balanced(pieces2, 1, max2, 3, func(t string, n int) bool {
		treeCase(e, sd, files, t, n, true)
		return !e.Stopped()
	})
}

// --- C07

type bytesDriver struct {
	path string
}

func newBytesDriver(e *Env) *bytesDriver {
	return &bytesDriver{path: filepath.Join(e.Dir, "bytes.lit")}
}

func (d *bytesDriver) check(e *Env, t string) string { return d.checkAgainst(e, t, refParse(t)) }

func (d *bytesDriver) checkAgainst(e *Env, t string, want parsed) string {
	e.Trans(len(t))
	e.Traces(1)
	if err := os.WriteFile(d.path, []byte(t), 0644); err != nil {
		panic(err)
	}
	p := &load.Processor{}
	_, err := p.LoadFile(d.path, vpFactories)
	if want.ok {
		e.Count("accepted", 1)
		var pe booklit.ParseError
		if err != nil && errors.As(err, &pe) {
			return fmt.Sprintf("a valid document fails to parse: %s", err)
		}
		return ""
	}
	e.Count("rejected", 1)
	if err == nil {
		return "a document that is not in the grammar is accepted"
	}
	pe, ok := err.(booklit.ParseError)
	if !ok {
		return fmt.Sprintf("fails with %T (%s), not a parse error", err, err)
	}
	if pe.FilePath != d.path {
		return fmt.Sprintf("the parse error names file %q", pe.FilePath)
	}
	if pe.Err == nil || pe.Error() == "" || pe.Length != 1 {
		return fmt.Sprintf("the parse error is incomplete: %+v", pe)
	}
	l := pe.NodeLocation
	if l.Offset < 0 || l.Offset > len(t) {
		return fmt.Sprintf("offset %d is outside of the text (%d bytes)", l.Offset, len(t))
	}
	if line, col := position(t, l.Offset); line != l.Line || col != l.Col {
		return fmt.Sprintf("offset %d is line %d column %d, the error says %d:%d", l.Offset, line, col, l.Line, l.Col)
	}
	if l.Offset != want.errOff {
		return fmt.Sprintf("the error is at offset %d (%d:%d) (%s); the text can be continued up to offset %d (%d:%d)", l.Offset, l.Line, l.Col, pe.Err, want.errOff, want.errLine, want.errCol)
	}
	return ""
}

func runC07(e *Env) {
	d := newBytesDriver(e)
	run := func(t string) bool {
		if e.Mine() {
			e.Exec(t, func() string { return d.check(e, t) })
		}
		return !e.Stopped()
	}
	seq := func(label string, toks []string, max int) {
		e.Bound("%s: all sequences of length 0..%d over %q (%d)", label, max, toks, countSeq(len(toks), 0, max))
		sequences(toks, 0, max, func(t string, ix []int) bool { return run(t) })
	}
	e.Bound("all byte strings of length 1 and 2; every byte in 6 contexts")
	for i := 0; i < 256; i++ {
		run(string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			run(string([]byte{byte(i), byte(j)}))
		}
		for _, c := range [][2]string{{"a\n", "\nb"}, {"\\a{", "}"}, {"{-", "-}"}, {"\\a{{{", "}}}"}, {"\\a{{\n", "\n}}"}, {"é {", "} é"}} {
			run(c[0] + string([]byte{byte(i)}) + c[1])
			run(c[0] + "\xc3" + string([]byte{byte(i)}) + c[1])
		}
	}
	seq("syntax bytes", []string{"a", " ", "\n", "\r", "\\", "{", "}", "-", "\xc3", "\xa9", "\x00", "\xff"}, pick(e, 5, 6))
	seq("braces", []string{"{", "}", "-", "\\a", "\n", "x"}, pick(e, 7, 8))
	seq("calls", []string{`\a`, "{", "}", "\n", " ", "{-", "é", "\r\n"}, pick(e, 6, 7))
	seq("escapes", []string{`\`, "{", "}", "a", "Z", "é"}, pick(e, 6, 8))
	// truncations and single-byte edits of valid documents
	bases := []string{"\\title{T}{t}\n\n\\section{\n  \\title{U é}\n\n  a {b} \\\\ {- {-c-} \n -} d\r\n}\n", "\\a{{\n  x \\b{y}\n   z\n}}{{{\n } }} \\\n}}} é\n", "\\list{\n  a\n\n  b\n}{c\n  d}{}\n"}
	e.Bound("%d documents: every truncation, every single-byte deletion, and every replacement and insertion by 14 bytes at every place (thorough: every pair of deletions)", len(bases))
	edits := []string{"a", " ", "\n", "\r", "\\", "{", "}", "-", "\xc3", "\xff", "\x00", "{-", "{{{", "}}"}
	for _, b := range bases {
		for i := 0; i <= len(b); i++ {
			run(b[:i])
			run(b[i:])
			for _, x := range edits {
				run(b[:i] + x + b[i:])
				if i < len(b) {
					run(b[:i] + x + b[i+1:])
				}
			}
			if i < len(b) {
				run(b[:i] + b[i+1:])
				for j := i + 1; j < len(b) && (e.Thorough || j < i+12); j++ {
					run(b[:i] + b[i+1:j] + b[j+1:])
				}
			}
		}
	}
	// openers without end: any such text can be continued
	openers := []string{"\\bold{", "\\bold{\n", "{- ", "\\b{{{", "\\bold{{\n", "\\a{x}{y ", "\\a{\n  é\n\n  ", "x {-\n", "\\a{{- -}"}
	e.Bound("1..300 openers out of %d, alone and in alternating pairs, none closed", len(openers))
	for _, x := range openers {
		for _, y := range openers {
			for n := 1; n <= 300; n++ {
				if n > 30 && n%45 != 0 {
					continue
				}
				t := strings.Repeat(x+y, n/2) + strings.Repeat(x, n%2)
				if e.Mine() {
					e.Exec(t, func() string {
						l, c := position(t, len(t))
						return d.checkAgainst(e, t, parsed{errOff: len(t), errLine: l, errCol: c})
					})
				}
			}
		}
	}
	// the reference parser takes exponential time here
	e.Bound("runs of 1..10 opening and 1..3000 closing or plain tokens")
	for n := 1; n <= 10; n++ {
		for _, x := range []string{"{", `\a{`, "{-", "{{", "{{{"} {
			run(strings.Repeat(x, n))
			run("a\n" + strings.Repeat(x, n) + "é")
		}
	}
	for _, n := range []int{1, 2, 10, 255, 256, 1000, 3000} {
		for _, x := range []string{"}", "-}", "é", "\n", "\\", " ", "\r", "\r\n", "a\n", "\xa9", "\\\\"} {
			run(strings.Repeat(x, n))
			run(strings.Repeat(x, n) + "\\")
			run("x" + strings.Repeat(x, n) + "}")
		}
	}
}
