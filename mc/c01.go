package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C01", Level: "model_checking",
		Rule: "every token sequence up to the bound is a state; one transition per token; each is loaded by the real loader and its content compared with an independent reference parser and evaluator",
		Run:  runC01, QuickBudget: 60})
}

// docCase explores one document.
func docCase(e *Env, d *docDriver, t string, tokens int, loc bool) {
	if !e.Mine() {
		return
	}
	e.Exec(t, func() string {
		e.Trans(tokens)
		e.Traces(1)
		got := d.load(t)
		want := refLoad(t)
		if want.ok {
			e.Count("accepted", 1)
		} else {
			e.Count("rejected", 1)
		}
		return compareLoaded(d.path, t, got, want, loc)
	})
}

func seqDocs(e *Env, d *docDriver, label string, tokens []string, max int, loc bool) {
	e.Bound("%s: all token sequences of length 0..%d over %q (%d)", label, max, tokens, countSeq(len(tokens), 0, max))
	sequences(tokens, 0, max, func(t string, ix []int) bool {
		docCase(e, d, t, len(ix), loc)
		return !e.Stopped()
	})
}

func pick(e *Env, quick, thorough int) int {
	if e.Thorough {
		return thorough
	}
	return quick
}

func runC01(e *Env) {
	d := newDocDriver(e)
	// sizes first: cheap and far from the small cases
	sizes := []int{1, 2, 3, 10, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537}
	units := []string{"a", "é", "ab ", "\\{", "{x}", "a\n", "a\n\n", "a {b} \\\\", "日本 "}
	e.Bound("size sweep: %d units repeated %v times", len(units), sizes)
	for _, u := range units {
		for _, n := range sizes {
			if n*len(u) > 70000 || (len(u) > 1 && n > 9000) {
				continue
			}
			docCase(e, d, strings.Repeat(u, n), n, false)
			docCase(e, d, "x"+strings.Repeat(u, n)+"y", n, false)
		}
	}
	// every character by itself, and between others
	e.Bound("every character U+0000..U+024F plus boundary characters, alone, between words, at line ends and escaped")
	var runes []rune
	for r := rune(0); r < 0x250; r++ {
		runes = append(runes, r)
	}
	runes = append(runes, 0x7ff, 0x800, 0x1680, 0x2003, 0x200b, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff)
	for _, r := range runes {
		for _, f := range []string{"%s", "a%sb", "a%s\nb", "a\n%sb", "\\%s", "a\n\n%s\n\nb", "{%s}", "  %s "} {
			docCase(e, d, fmt.Sprintf(f, string(r)), 3, false)
		}
	}
	seqDocs(e, d, "structure", []string{"a", "é", " ", "\t", "\n", "\r\n", `\\`, `\{`, `\}`, "{", "}"}, pick(e, 5, 6), false)
	seqDocs(e, d, "prose around calls that return text, a block or nothing", []string{"a", " ", "\n", `\b{x}`, `\a{y}`, `\n`, "{}"}, pick(e, 5, 6), false)
	seqDocs(e, d, "lines", []string{"a", " ", "\n", "{", "}", `\{`}, pick(e, 7, 9), false)
}
