package main

import (
	"fmt"
	"sort"
	"strings"
)

// C34: what the built-in functions make of their arguments. Every case is a
// document whose real load is compared with the reference evaluator's.

func init() {
	register(&Check{ID: "C34", Level: "model_checking", Rule: "a state is a document calling built-in functions; the sections, content and errors of the real load are compared with an independent reference evaluator's", Run: runC34})
}

// functionName turns a method name into the name of its function.
func functionName(m string) string {
	var b strings.Builder
	for i, r := range m {
		if r >= 'A' && r <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

func runC34(e *Env) {
	d := newSiteDriver(e, "t")
	var fns []string
	for m := range builtins {
		fns = append(fns, functionName(m))
	}
	sort.Strings(fns)
	few := []string{`{}`, `{a}`, `{\list{b}{c}}`, "{\n  d\n\n  e\n}"}
	some := append([]string{}, few...)
	some = append(some, `{\bold{f}}`, `{\definition{\list{g}}{h}}`, `{\split-sections}`, `{\list{i}}`)
	all := append([]string{}, some...)
	all = append(all, `{ j  k }`, `{\list}`, `{\list{l}{m}{n}}`, `{\ordered-list{o}{p}}`, `{\table-row{q}{r}}`, "{{\n  s  t\n    \\bold{u}\n}}", "{{{\nv \\w\n}}}", `{\aux{x}}`,
		`{y \list{1}{2}}`, `{\list{3}{4} \list{5}{6}}`, `{\table{\table-row{7}{8}}}`, `{\definitions{\definition{9}{0}}}`, `{\target{ta}{Tb}{Tc}}`, `{\image{ia}{ib}}`, `{\link{la}{lb}}`,
		`{\table-of-contents}`, `{\reference{ra}{rb}}`, `{\section{se}}`, `{\nope}`, `{{\list{A}{B}}}`, "{\n  \\list{C}{D}\n}", `{\use-plugin{vq}}`, `{\italic{\bold{E}F}}`, "{- c -}", `{vr}`, `{baselit}`, `{{baselit}}`)
	skip := func(f string, args int) bool {
		switch f {
		case "include-section":
			return true // below
		case "reference", "image":
			return args > 2
		case "target":
			return args > 3
		}
		return false
	}
	contexts := []string{"%", "K % L", "\\bold{%}", "\\list{M}{%}\n\nN"}
	run := func(f string, args []string, contexts []string) {
		if skip(f, len(args)) {
			return
		}
		for _, c := range contexts {
			for _, t := range []string{"", "\\title{T}{t}\n\n"} {
				if f != "title" && f != "styled" && t == "" && len(args) > 1 {
					continue
				}
				treeCase(e, d, nil, t+strings.Replace(c, "%", "\\"+f+strings.ReplaceAll(strings.Join(args, ""), "{- c -}", "{{- c -}}"), 1), 1+len(args), true)
			}
		}
	}
	lists := func(kinds []string, n int, contexts []string) {
		ix := make([]int, n)
		for _, f := range fns {
			for i := range ix {
				ix[i] = 0
			}
			for {
				args := make([]string, n)
				for i, x := range ix {
					args[i] = kinds[x]
				}
				run(f, args, contexts)
				if e.Stopped() {
					return
				}
				k := n - 1
				for k >= 0 {
					if ix[k]++; ix[k] < len(kinds) {
						break
					}
					ix[k] = 0
					k--
				}
				if k < 0 {
					break
				}
			}
		}
	}
	e.Bound("each of %d functions with 0..2 arguments out of %d, 3 out of %d and 4 out of %d, in %d contexts; functions' arguments beyond the optional ones they document are left out", len(fns), len(all), len(some), len(few), len(contexts))
	lists(all, 0, contexts)
	lists(all, 1, contexts)
	lists(all, 2, contexts)
	lists(some, 3, contexts[:2])
	lists(few, 4, contexts[:2])
	if e.Thorough {
		e.Bound("3 arguments out of %d, 5 out of %d", len(all), len(few))
		lists(few, 5, contexts[:1])
		lists(all, 3, contexts[:1])
	}

	inc := map[string]string{"inc.lit": "\\title{I}{i}\n\n\\who", "sub/inc.lit": "\\title{J}{j}\n\n\\include-section{k.lit}\n\n\\bold{J}", "sub/k.lit": "\\title{K}{k}"}
	paths := []string{"inc.lit", "./inc.lit", "sub/inc.lit", "sub/../inc.lit", "sub//inc.lit", "../t/inc.lit", `\bold{inc.lit}`, "\n  inc.lit\n", "zz.lit", "sub/k.lit/zz.lit", "inc.lit/", " inc.lit", "in{- x -}c.lit", "inc\\bold{.lit}", "{inc.lit}", "index.lit", "sub/../index.lit"}
	e.Bound("files included by %d paths, alone and in every pair, in sections and as arguments", len(paths))
	for _, p := range paths {
		for _, w := range []string{"%", "\\bold{x % y}", "\\section{\n\\title{S}{s}\n\n%\n}", "\\use-plugin{vq}\n\n%", "\\include-section%{x}"} {
			if strings.HasPrefix(p, "inc.lit/") {
				continue // "not a directory"
			}
			t := strings.Replace(w, "%", "\\include-section{"+p+"}", 1)
			treeCase(e, d, inc, "\\title{T}{t}\n\n"+t, 1, true)
			for _, q := range paths[:8] {
				treeCase(e, d, inc, "\\title{T}{t}\n\n"+t+"\n\n\\include-section{"+q+"}", 2, true)
			}
		}
	}

	effects := []string{`\styled{x}`, `\styled{y}`, `\set-partial{p}{A}`, `\set-partial{p}{\list{B}{C}}`, `\set-partial{q}{}`, `\omit-children-from-table-of-contents`, `\split-sections`, `\single-page`, `\use-plugin{vr}`, `\who \bold{z}`, "\\section{\n\\title{S}{s}\n\n\\who \\bold{y}\n}", `\table-of-contents`, `\title{U}{u}`}
	m := pick(e, 4, 5)
	e.Bound("all sequences of 1..%d out of %d calls with effects on their section", m, len(effects))
	for _, sep := range []string{"\n\n", "\n"} {
		sequences(mapStrings(effects, func(s string) string { return s + sep }), 1, m, func(t string, ix []int) bool {
			seen := map[int]int{}
			for _, i := range ix {
				seen[i]++
			}
			if seen[10] <= 1 {
				treeCase(e, d, nil, "\\use-plugin{vq}\n\n"+t, len(ix), true)
			}
			return !e.Stopped()
		})
	}
	e.Bound("0..60 arguments, rows and definitions; functions nested up to 40 times")
	for n := 0; n <= 60; n++ {
		it := "\\title{T}{t}\n\n"
		treeCase(e, d, nil, numbered(it+"\\table"+strings.Repeat("{\\table-row{a#}{b#}}", n)), n, true)
		treeCase(e, d, nil, numbered(it+"\\table"+strings.Repeat("{\\list{a#}}{\\table-row{b#}{c#}{d#}}", n)), n, true)
		treeCase(e, d, nil, numbered(it+"\\definitions"+strings.Repeat("{\\definition{a#}{b#}}", n)), n, true)
		treeCase(e, d, nil, numbered(it+strings.Repeat("\\set-partial{p#}{v#}\n", n)), n, true)
		treeCase(e, d, nil, numbered(it+strings.Repeat("\\section{\n\\title{S#}\n\nx\n}\n", n)), n, true)
		if n <= 40 {
			for _, f := range []string{"bold", "list", "ordered-list", "code", "inset", "aux", "table-row", "section", "larger"} {
				treeCase(e, d, nil, it+strings.Repeat("\\"+f+"{x ", n)+strings.Repeat("}", n), n, true)
				treeCase(e, d, nil, it+strings.Repeat("\\"+f+"{\n  x\n\n", n)+strings.Repeat("}\n", n), n, true)
			}
			w := strings.Repeat("Wo rd ", n)
			treeCase(e, d, nil, it+"\\link{"+w+"}{"+w+"} \\image{"+w+"}{"+w+"} \\target{"+w+"}{"+w+"}{"+w+"} \\reference{"+w+"}{"+w+"} \\set-partial{"+w+"}{"+w+"} \\styled{"+w+"}", n, true)
		}
	}
	for n := 0; n <= 60; n++ {
		for _, f := range []string{"list", "ordered-list", "table-row", "title"} {
			t := "\\" + f
			for i := 0; i < n; i++ {
				t += fmt.Sprintf("{%d}", i)
			}
			treeCase(e, d, nil, t, n, true)
			treeCase(e, d, nil, "\\title{T}{t}\n\n\\table{"+t+"}{"+t+"}", n, true)
		}
	}
}
