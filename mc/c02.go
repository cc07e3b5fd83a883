package main

import (
	"fmt"
	"strings"
)

func init() {
	const rule = "every document of the bounded space is a state, one transition per token; each is loaded by the real loader and content, calls and acceptance are compared with an independent reference parser and evaluator"
	register(&Check{ID: "C02", Level: "model_checking", Rule: rule + "; plus: inserting comments at every text position of every valid document up to a bound leaves its content as it was", Run: runC02, QuickBudget: 90})
	register(&Check{ID: "C03", Level: "model_checking", Rule: rule, Run: runC03, QuickBudget: 90})
	register(&Check{ID: "C04", Level: "model_checking", Rule: rule, Run: runC04, QuickBudget: 90})
}

var commentMenu = []string{"{--}", "{-1-}", "{-\n\n-}", "{- \\n{z} -}", "{-{-y-}-}", "{-}{-}", "{- \\zz } { -}", "{--{-\r\n-}--}", "{-\\}\\-}", "{-\n{-{--}\n-}x{-y-}\n\n-}"}

func runC02(e *Env) {
	d := newDocDriver(e)
	// comment contents: every character class inside a comment, and depth
	e.Bound("nesting depth 1..60 of comments, and comments of 1..5000 characters")
	for n := 1; n <= 60; n++ {
		docCase(e, d, "1"+strings.Repeat("{-", n)+"x"+strings.Repeat("-}", n)+"2", n, false)
		docCase(e, d, "1"+strings.Repeat("{-", n)+"x"+strings.Repeat("-}", n-1)+"2", n, false)
		docCase(e, d, "1"+strings.Repeat("{-c-}", n)+"2", n, false)
		docCase(e, d, "1 "+strings.Repeat("{-c-} ", n)+"2\n3", n, false)
		docCase(e, d, "1\n"+strings.Repeat("{-c-}\n", n)+"2", n, false)
		docCase(e, d, "\\a{1\n"+strings.Repeat("{-c-}\n", n)+"2}", n, false)
	}
	for _, n := range []int{100, 1000, 4090, 4096, 4097, 5000} {
		docCase(e, d, "1{-"+strings.Repeat("c", n)+"-}2", n, false)
		docCase(e, d, "1{-"+strings.Repeat("é\n", n)+"-}2", n, false)
	}
	e.Bound("every character in a comment")
	for r := rune(0); r < 0x250; r++ {
		for _, f := range []string{"1{-%s-}2", "1 {- %s -} 2", "{-%s-}\n\n1", "1{-%s{-%s-}-}2"} {
			docCase(e, d, strings.ReplaceAll(f, "%s", string(r)), 3, false)
		}
	}
	seqDocs(e, d, "comments", []string{"1", " ", "\n", "{-", "-}", "-", "{", "}", `\a`, "{-c-}", `\\`}, pick(e, 5, 6), false)
	seqDocs(e, d, "whole comments", []string{"1", " ", "\n", "{-c-}", "{-\n-}", `\a{`, "}", `\n`, "{"}, pick(e, 6, 7), false)
	seqDocs(e, d, "blocks", []string{"1", "  ", "\n", "{-c-}", "\\a{{\n", "}}", "\\a{{{\n", "}}}"}, pick(e, 6, 7), false)

	// metamorphic insertion
	toks := []string{"1", "é", " ", "\n", "\n\n", "{", "}", `\a`, `\a{`, `\{`, "\\a{{\n", "\n}}"}
	max := pick(e, 5, 6)
	e.Bound("insertion: every valid document of <=%d tokens over %q, every pair of insertion points next to a text character, %d comments and doubled comments", max, toks, len(commentMenu))
	sequences(toks, 1, max, func(t string, ix []int) bool {
		hasText := false
		for _, i := range ix {
			hasText = hasText || i < 2
		}
		if !hasText {
			return true
		}
		if !e.Mine() {
			return !e.Stopped()
		}
		e.Exec(t, func() string { return commentInsertion(e, d, t) })
		return !e.Stopped()
	})
}

// interpolations tells for every offset whether it stands directly in an
// interpolation. (Only for documents that load.)
func interpolations(t string) []bool {
	in := make([]bool, len(t)+1)
	var stack []byte
	afterCall := false
	for i := 0; i < len(t); i++ {
		in[i] = len(stack) > 0 && stack[len(stack)-1] == 'i'
		switch t[i] {
		case '\\':
			if t[i+1] != 'a' {
				i++
				in[i] = false
				afterCall = false
				continue
			}
			i++
			afterCall = true
			in[i] = false
		case '{':
			if afterCall {
				stack = append(stack, 'c')
			} else if len(stack) > 0 && stack[len(stack)-1] == 'c' && t[i-1] == '{' {
				stack = append(stack, 'c')
			} else {
				stack = append(stack, 'i')
			}
			afterCall = false
		case '}':
			if len(stack) > 0 {
				afterCall = stack[len(stack)-1] == 'c'
				stack = stack[:len(stack)-1]
			}
		default:
			afterCall = false
		}
	}
	return in
}

func commentInsertion(e *Env, d *docDriver, t string) string {
	base := d.load(t)
	if base.err != nil {
		return ""
	}
	e.Count("insertion_bases", 1)
	var points []int
	inInterp := interpolations(t)
	for i := 0; i <= len(t); i++ {
		if inInterp[i] && t[i-1] != '{' && t[i] != '}' {
			continue // an interpolation holds a single word; a comment would split it
		}
		after := i > 0 && (t[i-1] == '1' || t[i-1] == 0xa9)
		before := i < len(t) && (t[i] == '1' || t[i] == 0xc3)
		if before && !after && i > 0 && (t[i-1] == '}' || t[i-1] == 'a') {
			continue // directly after a call a brace opens an argument
		}
		if after || before {
			points = append(points, i)
		}
	}
	check := func(v string, alt ...string) string {
		got := d.load(v)
		e.Traces(1)
		e.Trans(1)
		if got.err != nil {
			return fmt.Sprintf("with comments, %q fails to load: %s", v, got.err)
		}
		if got.body == base.body && eventsString(got.events, false) == eventsString(base.events, false) {
			return ""
		}
		for _, a := range alt {
			ab := d.load(a)
			if ab.err == nil && got.body == ab.body && eventsString(got.events, false) == eventsString(ab.events, false) {
				return ""
			}
		}
		return fmt.Sprintf("with comments, %q gives\n%s\nwithout %s", v, got.body, base.body)
	}
	dropBlanks := func(i int) string { return strings.TrimRight(t[:i], " ") + t[i:] }
	for k, p := range points {
		for _, c := range commentMenu {
			if m := check(t[:p]+c+t[p:], dropBlanks(p)); m != "" {
				return m
			}
		}
		for n := 2; n <= 4; n++ {
			if m := check(t[:p]+strings.Repeat("{-c-}", n)+t[p:], dropBlanks(p)); m != "" {
				return m
			}
		}
		for _, q := range points[k+1:] {
			v := t[:p] + "{-c-}" + t[p:q] + "{-{-d-}\n-}" + t[q:]
			alt := []string{dropBlanks(p), dropBlanks(q)}
			both := strings.TrimRight(t[:p], " ") + strings.TrimRight(t[p:q], " ") + t[q:]
			if m := check(v, append(alt, both)...); m != "" {
				return m
			}
		}
	}
	return ""
}

// argument forms over contents
func argForms(cs []string) []string {
	out := []string{"{}", "{\n}", "{\n\n  }", "{{-c-}}"}
	for _, c := range cs {
		out = append(out,
			"{"+c+"}", "{ "+c+" }", "{"+c+"\n  z}", "{z\n"+c+"\n}", "{{"+c+"}}",
			"{\n"+c+"\n}", "{\n  "+c+"\n  z\n\n  "+c+"\n}", "{\n\n"+c+"}", "{\n"+c+"  }",
			"{{\n  "+c+"\n}}", "{{\n  "+c+"\n    z\n z\n  }}", "{{\n\n"+c+"\n\n}}", "{{{"+c+"}}}", "{{{\n  "+c+"\n   z\n}}}")
	}
	return out
}

func runC03(e *Env) {
	d := newDocDriver(e)
	e.Bound("sweeps: nesting depth 1..120 and 1..80 arguments in every argument form; names of 1..40 characters")
	opens := [][2]string{{`\a{`, "}"}, {"\\a{\n", "\n}"}, {"\\a{z ", " z}"}, {"\\a{{\n", "\n}}"}, {"{", "}"}, {"\\a{z}{", "}{z}"}, {"\\a{z\n  ", "\n  z}"}}
	for n := 1; n <= 120; n++ {
		for _, o := range opens {
			docCase(e, d, strings.Repeat(o[0], n)+"x"+strings.Repeat(o[1], n), n, false)
			docCase(e, d, strings.Repeat(o[0], n)+strings.Repeat(o[1], n), n, false)
		}
	}
	for n := 1; n <= 80; n++ {
		for _, f := range []string{"{x}", "{}", "{\nx\n}", "{{\n x\n}}", "{{{x}}}", "{x\ny}"} {
			docCase(e, d, `\a`+strings.Repeat(f, n)+" t", n, false)
			docCase(e, d, `\b`+strings.Repeat(f, n), n, false)
		}
	}
	for n := 1; n <= 40; n++ {
		docCase(e, d, `\`+strings.Repeat("x", n)+"{y}", n, false)
		docCase(e, d, `\`+strings.Repeat("x-", n)+"{y}", n, false)
	}
	toks := []string{`\a`, "{", "}", "x", " ", "\n", `\n`}
	seqDocs(e, d, "calls", toks, pick(e, 6, 7), false)
	seqDocs(e, d, "arguments", []string{`\a{`, `\b{`, "}", "x ", "\n", "\n\n", "é"}, pick(e, 6, 7), false)
	seqDocs(e, d, "text arguments", []string{`\s{`, `\s{{`, "}", "}}", "x", "\n ", "\n"}, pick(e, 5, 7), false)

	c0 := []string{"x", "x y", `\n`, `\a`, "{é}", `\\x`, `\b`}
	a0 := argForms(c0)
	contexts := [][2]string{{"", ""}, {"p ", " q"}, {"p\n", "\nq"}, {"p\n\n", "q"}}
	fns := []string{`\a`, `\b`, `\n`}
	emit := func(call string) {
		for _, c := range contexts {
			docCase(e, d, c[0]+call+c[1], 3, false)
		}
	}
	e.Bound("argument grammar: calls of %d functions with 0..2 arguments in %d argument forms over %d contents, nested to depth 2 (thorough: 3), in %d contexts", len(fns), 14, len(c0), len(contexts))
	var c1 []string
	for _, f := range fns {
		emit(f)
		for _, a := range a0 {
			emit(f + a)
			c1 = append(c1, f+a)
			for _, b := range a0 {
				if f == `\a` {
					emit(f + a + b)
				}
			}
		}
		if e.Stopped() {
			return
		}
	}
	a1 := argForms(c1)
	var c2 []string
	for _, a := range a1 {
		emit(`\a` + a)
		emit(`\b` + a + "{x}")
		emit(`\a{x}` + a)
		if e.Thorough {
			c2 = append(c2, `\a`+a)
		}
	}
	if e.Thorough {
		for _, a := range argForms(c2) {
			docCase(e, d, `p \a`+a+" q", 4, false)
			if e.Stopped() {
				return
			}
		}
	}
}

func runC04(e *Env) {
	d := newDocDriver(e)
	e.Bound("sweeps: blocks of 1..60 lines, indentation 0..40, nesting 1..30, lines of up to 9000 characters")
	for n := 0; n <= 60; n++ {
		ind := strings.Repeat(" ", n%41)
		for _, o := range [][2]string{{"{{", "}}"}, {"{{{", "}}}"}} {
			docCase(e, d, "\\a"+o[0]+"\n"+strings.Repeat(ind+"x\n", n)+o[1], n, false)
			docCase(e, d, "\\a"+o[0]+"\n"+ind+"x\n  "+ind+"y\nz\n"+ind+o[1], n, false)
			docCase(e, d, "\\a"+o[0]+"\n"+strings.Repeat("\t", n)+"x\n"+ind+"y\n"+o[1], n, false)
			docCase(e, d, "\\a"+o[0]+"\n"+strings.Repeat("\n", n)+"  x\n"+o[1], n, false)
		}
		docCase(e, d, "\\a{{{"+strings.Repeat("}", n)+"}}}", n, false)
		docCase(e, d, "\\a{{{"+strings.Repeat("{", n)+"}}}", n, false)
	}
	for n := 1; n <= 30; n++ {
		t := ""
		for i := 0; i < n; i++ {
			t += strings.Repeat(" ", i) + "\\a{{\n"
		}
		for i := n - 1; i >= 0; i-- {
			t += strings.Repeat(" ", i*2) + "x\n" + strings.Repeat(" ", i) + "}}" + map[bool]string{true: "", false: "\n"}[i == 0]
		}
		docCase(e, d, t, n, false)
	}
	for _, n := range []int{4095, 4096, 4097, 9000} {
		docCase(e, d, "\\a{{{\n"+strings.Repeat("x", n)+"\n  y\n}}}", n, false)
		docCase(e, d, "\\a{{\n  "+strings.Repeat("é ", n/2)+"\n  y\n}}", n, false)
	}
	e.Bound("every character in verbatim and preformatted text")
	for r := rune(0); r < 0x250; r++ {
		for _, f := range []string{"\\a{{{%s}}}", "\\a{{{\n  x%sy\n%s\n}}}", "\\a{{\n x%s\n}}", "\\a{{\n%s\n}}"} {
			docCase(e, d, strings.ReplaceAll(f, "%s", string(r)), 3, false)
		}
	}
	seqDocs(e, d, "block tokens", []string{"\\a{{", "}}", "\\a{{{", "}}}", "\n", "  ", " ", "x", "}"}, pick(e, 6, 7), false)
	seqDocs(e, d, "inert text", []string{"\\a{{{", "}}}", "\n", " x", "{-", "-}", "\\", "{", "}", "\\n"}, pick(e, 5, 6), false)
	seqDocs(e, d, "block lines", []string{"\\a{{\n", "}}", "\n", "  ", "\t", "x", "\\n", "\\{", "{-c-}"}, pick(e, 6, 7), false)

	// block programs
	type kind struct{ open, close string }
	kinds := []kind{{"{{", "}}"}, {"{{{", "}}}"}}
	indents := []string{"", "  ", "    ", "\t"}
	plain := []string{"", "x", "x  y ", "\\a", "\\{"}
	var small []string // inner blocks
	for _, k := range kinds {
		for _, i1 := range indents[:3] {
			for _, end := range []string{"", "   "} {
				small = append(small, "\\a"+k.open+"\n"+i1+"x\n"+end+k.close)
				for _, i2 := range indents[:3] {
					small = append(small, "\\a"+k.open+"\n"+i1+"x\n"+i2+"y\n"+end+k.close)
				}
			}
		}
	}
	var lines []string
	for _, in := range indents {
		for _, b := range plain {
			lines = append(lines, in+b+"\n")
		}
	}
	var nested []string
	for _, in := range indents {
		for _, s := range small {
			nested = append(nested, in+s+"\n", in+"p "+s+" q\n")
		}
	}
	e.Bound("block programs: blocks of 0..3 lines from %d lines; an inner block (%d) on any of 3 lines with %d-line context; pairs and triples of consecutive blocks", len(lines), len(nested), len(indents)*2)
	for _, k := range kinds {
		for _, end := range []string{"", "  "} {
			docCase(e, d, "\\a"+k.open+"\n"+end+k.close, 1, false)
			for _, l1 := range lines {
				docCase(e, d, "\\a"+k.open+"\n"+l1+end+k.close, 2, false)
				for _, l2 := range lines {
					docCase(e, d, "\\a"+k.open+"\n"+l1+l2+end+k.close+" t", 3, false)
					for _, l3 := range lines {
						docCase(e, d, "\\a"+k.open+"\n"+l1+l2+l3+end+k.close, 4, false)
					}
				}
			}
		}
	}
	var ctx []string
	for _, in := range indents {
		ctx = append(ctx, in+"z\n")
	}
	for _, k := range kinds[:1] {
		for _, n := range nested {
			for _, c1 := range append([]string{""}, ctx...) {
				for _, c2 := range append([]string{""}, ctx...) {
					docCase(e, d, "\\a"+k.open+"\n"+c1+n+c2+k.close, 4, false)
				}
			}
			if e.Thorough {
				for _, m := range nested {
					docCase(e, d, "\\a"+k.open+"\n"+n+"  z\n"+m+" z\n"+k.close, 5, false)
				}
				if e.Stopped() {
					return
				}
			}
		}
	}
	for _, a := range small {
		for _, b := range small {
			docCase(e, d, a+"\n\n"+b, 3, false)
			docCase(e, d, a+" "+b, 3, false)
			docCase(e, d, a+b[2:], 3, false) // second argument
			docCase(e, d, "\\b{\n"+a+"\n\n"+b+"\n}", 4, false)
			for _, c := range small[:6] {
				docCase(e, d, a+"\n"+b+"\n"+c, 4, false)
			}
		}
	}
}
