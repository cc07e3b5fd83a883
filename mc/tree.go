package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/agext/levenshtein"
	"github.com/vito/booklit"
)

func init() {
	register(&Check{ID: "C10", Level: "model_checking", Rule: "every document of the bounded space is a state; titles, tags and title errors of the real load are compared with an independent reference parser and evaluator", Run: runC10})
	register(&Check{ID: "C11", Level: "model_checking", Rule: "a state is a section tree with tags and targets placed in it; every reference from every section is resolved by the real code and compared with a whole-tree search in the reference model", Run: runC11})
	register(&Check{ID: "C18", Level: "model_checking", Rule: "a state is a document with targets nested in content; the tags of the real load are compared with those collected by the reference model", Run: runC18})
	register(&Check{ID: "C28", Level: "model_checking", Rule: "a state is a tree of inline and included sections using plugins, styles and partials; the real load is compared with a reference scoping model", Run: runC28})
}

// numbered replaces every # by a running number.
func numbered(t string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '#' {
			n++
			fmt.Fprint(&b, n)
		} else {
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

func runC10(e *Env) {
	d := newSiteDriver(e, "t")
	alpha := []string{"a", "B", "7", " ", "-", "_", "&", "é", ".", "\t", `\{`, "\n"}
	max := pick(e, 4, 5)
	e.Bound("titles: all strings of length 0..%d over %q, and every character U+0020..U+024F in a title", max, alpha)
	sequences(alpha, 0, max, func(t string, ix []int) bool {
		treeCase(e, d, nil, `\title{`+t+"}", len(ix), true)
		return !e.Stopped()
	})
	for r := rune(0x20); r < 0x250; r++ {
		if r != '\\' && r != '{' && r != '}' {
			treeCase(e, d, nil, "\\title{x"+string(r)+"Y "+string(r)+" & z}", 3, true)
		}
	}
	for _, r := range []rune{0xa0, 0x130, 0x131, 0x2003, 0x2028, 0x3000, 0xfeff, 0x1e9e, 0x212a, 0x10400} {
		treeCase(e, d, nil, "\\title{X"+string(r)+" "+string(r)+"Y}", 3, true)
	}
	pieces := []piece{{"A", ""}, {" b", ""}, {" & ", ""}, {`\aux{`, "}"}, {`\bold{`, "}"}, {`\link{`, "}{http://x}"}, {`\code{`, "}"}, {`{`, "}"}, {`\target{tt}{`, "}"}}
	max = pick(e, 4, 5)
	e.Bound("title contents: all contents of <=%d nested pieces of %d", max, len(pieces))
	balanced(pieces, 1, max, 3, func(t string, n int) bool {
		treeCase(e, d, nil, `\title{`+t+"}\n\nbody", n, true)
		treeCase(e, d, nil, "\\title{\n"+t+"\n}{x}", n, true)
		return !e.Stopped()
	})
	blocks := []string{`\list{a}{\aux{b}c}`, `\list{\aux{a} c}{d}`, `\table{\table-row{a}{\aux{b} c}}`, `\definitions{\definition{A \aux{x}}{B}}`, "\\code{{\n  a \\aux{b}\n  c\n}}", "\n  para \\aux{one}\n\n  para two\n", `\image{p}{d}`, `\ordered-list{A}{B}`, `\bold{\aux{\bold{x}} y \aux{\list{z}}}`}
	e.Bound("block titles: %d", len(blocks))
	for _, b := range blocks {
		treeCase(e, d, nil, `\title{`+b+"}", 1, true)
		treeCase(e, d, nil, `\title{x `+b+" Y}", 1, true)
	}
	tags := []string{"{}", "{a}", "{A b}", "{é-1}", "{a}{a}", "{\nx\n}", `{\bold{q} r}`, `{\aux{s}}`}
	e.Bound("explicit tags: 0..4 tags out of %q", tags)
	sequences(tags, 0, pick(e, 4, 5), func(t string, ix []int) bool {
		treeCase(e, d, nil, `\title{T}`+t, len(ix), true)
		return !e.Stopped()
	})
	calls := []piece{{"\\title{T#}\n", ""}, {"\\title{U#}{u#}{v#}\n", ""}, {"\\title{}\n", ""}, {"x\n\n", ""}, {"\\section{\n", "\n}\n\n"}, {`\bold{`, "}"}, {`\aux{`, "}"}, {`\title{`, "}\n"}}
	max = pick(e, 4, 5)
	e.Bound("title calls: all documents of <=%d nested pieces out of %d, with titles at every position; also with every subset of the sections in files of their own", max, len(calls))
	balanced(calls, 1, max, 4, func(t string, n int) bool {
		treeCase(e, d, nil, numbered(t), n, true)
		moved(e, numbered(t), func(files map[string]string) string {
			e.Traces(1)
			return d.compareTree(files, "index.lit", true)
		})
		return !e.Stopped()
	})
	for n := 1; n <= 60; n++ {
		treeCase(e, d, nil, "\\title{T}"+strings.Repeat("{a}{b}", n), n, true)
		treeCase(e, d, nil, "\\title{"+strings.Repeat("Wo rd-", n)+"}", n, true)
		treeCase(e, d, nil, "\\title{"+strings.Repeat("\\aux{x} & \\bold{A}", n)+"}", n, true)
		treeCase(e, d, nil, "\\title{"+strings.Repeat("\\bold{A ", n)+"\\aux{q} & "+strings.Repeat("}", n)+"}", n, true)
		treeCase(e, d, nil, strings.Repeat("\\section{\n", n)+"\\title{Deep & \\aux{q} x}"+strings.Repeat("\n}\n", n), n, true)
		treeCase(e, d, nil, numbered(strings.Repeat("\\section{\n\\title{T# & S}\n}\n", n)), n, true)
	}
}

// --- C11

// sections lists a tree in preorder.
func allSections(s *booklit.Section) []*booklit.Section {
	out := []*booklit.Section{s}
	for _, c := range s.Children {
		out = append(out, allSections(c)...)
	}
	return out
}

type tagKey struct {
	sec          int
	name, anchor string
}

func keyList(ks []tagKey) string {
	var ss []string
	for _, k := range ks {
		ss = append(ss, fmt.Sprintf("%d:%s#%s", k.sec, k.name, k.anchor))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func findRefs(c booklit.Content, f func(*booklit.Reference)) {
	switch v := c.(type) {
	case booklit.Sequence:
		for _, x := range v {
			findRefs(x, f)
		}
	case booklit.Paragraph:
		for _, x := range v {
			findRefs(x, f)
		}
	case booklit.Styled:
		findRefs(v.Content, f)
	case *booklit.Reference:
		f(v)
	}
}

func checkRefs(e *Env, d *siteDriver, files map[string]string, names []string) string {
	s, err := d.load(files, "index.lit")
	m, merr, _ := d.model(files, "index.lit")
	if err != nil || merr != nil {
		return fmt.Sprintf("harness document fails: %v %v", err, merr)
	}
	secs, msecs := allSections(s), m.all()
	if len(secs) != len(msecs) {
		return fmt.Sprintf("%d sections, expected %d", len(secs), len(msecs))
	}
	index := map[*booklit.Section]int{}
	for i, x := range secs {
		index[x] = i
	}
	mindex := map[*rsec]int{}
	for i, x := range msecs {
		mindex[x] = i
	}
	real := func(ts []booklit.Tag) string {
		var ks []tagKey
		for _, t := range ts {
			ks = append(ks, tagKey{index[t.Section], t.Name, t.Anchor})
		}
		return keyList(ks)
	}
	model := func(match func(string) bool) (string, []rtag) {
		var ks []tagKey
		var ts []rtag
		for i, x := range msecs {
			for _, t := range x.tags {
				if match(t.name) {
					ks = append(ks, tagKey{i, t.name, t.anchor})
					ts = append(ts, t)
				}
			}
		}
		return keyList(ks), ts
	}
	for i, x := range secs {
		for _, n := range names {
			e.Trans(1)
			want, _ := model(func(o string) bool { return o == n })
			if got := real(x.FindTag(n)); got != want {
				return fmt.Sprintf("FindTag(%q) from section %d: %s; the tree has %s", n, i, got, want)
			}
			want, _ = model(func(o string) bool { return levenshtein.Match(n, o, nil) > 0.5 })
			if got := real(x.SimilarTags(n)); got != want {
				return fmt.Sprintf("SimilarTags(%q) from section %d: %s; the tree has %s", n, i, got, want)
			}
		}
	}
	msg := ""
	resolve := func(i int, r *booklit.Reference, again bool) string {
		e.Trans(1)
		want, wts := model(func(o string) bool { return o == r.TagName })
		tag, err := r.Tag()
		display, derr := r.Display()
		if r.Optional && len(wts) == 0 {
			if err != nil || tag != nil || r.Content == nil && (derr != nil || display != nil) || r.Content != nil && (derr != nil || canon(conv(display)) != canon(conv(r.Content))) {
				return fmt.Sprintf("the optional reference to %s from section %d gives %v, %v and displays %v, %v; there is no such tag", r.TagName, i, tag, err, display, derr)
			}
			return ""
		}
		if err == nil && tag == nil {
			return fmt.Sprintf("\\reference{%s} from section %d resolves to nothing", r.TagName, i)
		}
		switch {
		case len(wts) == 1:
			if err != nil {
				return fmt.Sprintf("\\reference{%s} from section %d fails: %s; the tag is %s", r.TagName, i, err, want)
			}
			if got := real([]booklit.Tag{*tag}); got != want {
				return fmt.Sprintf("\\reference{%s} from section %d resolves to %s, not %s", r.TagName, i, got, want)
			}
			shown := canon(wts[0].title)
			if r.Content != nil {
				shown = canon(conv(r.Content))
			}
			if derr != nil || canon(conv(display)) != shown {
				return fmt.Sprintf("\\reference{%s} displays %v (%v), not %s", r.TagName, display, derr, shown)
			}
		case booklit.AllowBrokenReferences:
			if err != nil || tag.Name != r.TagName {
				return fmt.Sprintf("with broken references allowed, \\reference{%s} gives %+v, %v", r.TagName, tag, err)
			}
			if r.Content == nil && (derr != nil || !strings.Contains(display.String(), r.TagName) || !strings.Contains(display.String(), "broken")) {
				return fmt.Sprintf("with broken references allowed, \\reference{%s} displays %v, %v", r.TagName, display, derr)
			}
		case len(wts) == 0:
			var ue booklit.UnknownTagError
			if !errors.As(err, &ue) || ue.TagName != r.TagName {
				return fmt.Sprintf("\\reference{%s} from section %d gives %v, %v; there is no such tag", r.TagName, i, tag, err)
			}
			sim, _ := model(func(o string) bool { return levenshtein.Match(r.TagName, o, nil) > 0.5 })
			if got := real(ue.SimilarTags); got != sim {
				return fmt.Sprintf("\\reference{%s} suggests %s; the similar tags are %s", r.TagName, got, sim)
			}
			if ue.FilePath != msecs[i].file() || ue.NodeLocation != r.Location || ue.Length != len("\\reference") {
				return fmt.Sprintf("the error for \\reference{%s} is located at %+v", r.TagName, ue.ErrorLocation)
			}
		default:
			var ae booklit.AmbiguousReferenceError
			if !errors.As(err, &ae) || ae.TagName != r.TagName {
				return fmt.Sprintf("\\reference{%s} from section %d gives %v, %v; the tag is ambiguous: %s", r.TagName, i, tag, err, want)
			}
			var gl, wl []string
			for _, l := range ae.DefinedLocations {
				gl = append(gl, l.FilePath+"@"+astLoc(l.NodeLocation).String())
			}
			for _, t := range wts {
				wl = append(wl, t.sec.file()+"@"+t.loc.String())
			}
			sort.Strings(gl)
			sort.Strings(wl)
			if strings.Join(gl, " ") != strings.Join(wl, " ") {
				return fmt.Sprintf("the ambiguity error for \\reference{%s} lists %v; it is defined at %v", r.TagName, gl, wl)
			}
			if ae.FilePath != msecs[i].file() || ae.NodeLocation != r.Location {
				return fmt.Sprintf("the error for \\reference{%s} is located at %+v", r.TagName, ae.ErrorLocation)
			}
		}
		return ""
	}
	for _, broken := range []bool{false, true, false} {
		booklit.AllowBrokenReferences = broken
		for i, x := range secs {
			findRefs(x.Body, func(r *booklit.Reference) {
				if msg == "" {
					msg = resolve(i, r, false)
				}
				if msg == "" {
					msg = resolve(i, &booklit.Reference{Section: r.Section, TagName: r.TagName, Content: r.Content, Location: r.Location, Optional: true}, false)
					if msg != "" {
						msg = "optional: " + msg
					}
				}
			})
		}
		booklit.AllowBrokenReferences = false
		if msg != "" {
			return msg
		}
	}
	return ""
}

func runC11(e *Env) {
	d := newSiteDriver(e, "t")
	// what a section defines; # is made unique
	defs := []string{"", "\\title{X}{x}\n\n", "\\title{T#}{x}{xa}\n\n", "\\title{T#}{t#}\n\n\\target{x}\n\n", "\\title{x}\n\n\\target{x}{X \\aux{2}}\n\n", "\\title{T#}{xb}\n\n\\set-partial{p}{\\target{x}}\n\n", "\\title{Yx}{xyx}\n\n",
		// the same tags twice within the section
		"\\title{T#}{y}{y}\n\n\\target{xa}{One}\n\n\\bold{\\target{xa}{Two}}\n\n"}
	refs := "\\reference{x}\n\\reference{y}\n\\reference{xa}{A}\n\\reference{zz}\n\\reference{}\n\\reference{X}\n\\bold{\\reference{xb}}\n\n"
	names := []string{"x", "xa", "xab", "X", "", "zzzz", "t1"}
	// shapes: nesting written as nested brackets
	var shapes func(n int) []string
	shapes = func(n int) []string { // forests with n sections
		if n == 0 {
			return []string{""}
		}
		var out []string
		for k := 0; k < n; k++ {
			for _, in := range shapes(k) {
				for _, rest := range shapes(n - 1 - k) {
					out = append(out, "("+in+")"+rest)
				}
			}
		}
		return out
	}
	max := pick(e, 3, 4)
	e.Bound("all section trees of 1..%d sections, each section one of %d definitions of section tags, second tags, targets in body and partials; 7 references from every section, optional ones as well; inline and included", max+1, len(defs))
	for n := 0; n <= max; n++ {
		for _, shape := range shapes(n) {
			ix := make([]int, n+1)
			for {
				e11(e, d, shape, ix, defs, refs, names)
				if e.Stopped() {
					return
				}
				k := n
				for k >= 0 {
					ix[k]++
					if ix[k] < len(defs) {
						break
					}
					ix[k] = 0
					k--
				}
				if k < 0 {
					break
				}
			}
		}
	}
	e.Bound("chains and fans of 1..25 sections with the tag in each single section, in each pair, and nowhere")
	for _, chain := range []bool{true, false} {
		for n := 1; n <= 25; n += 3 {
			shape := strings.Repeat("()", n)
			if chain {
				shape = strings.Repeat("(", n) + strings.Repeat(")", n)
			}
			for i := -1; i <= n; i++ {
				for j := i; j <= n; j++ {
					ix := make([]int, n+1)
					if i >= 0 {
						ix[i] = 1
						ix[j] = 3
					}
					e11(e, d, shape, ix, defs, refs, names)
				}
			}
		}
	}
	e.Bound("tag names of 1..80 characters, known, unknown and similar, from sections 0..12 deep")
	for n := 1; n <= 80; n++ {
		for _, depth := range []int{0, 1, 2, 5, 12} {
			if !e.Mine() {
				continue
			}
			n, depth := n, depth
			e.Exec(fmt.Sprintf("names of %d characters, %d deep", n, depth), func() string {
				w := strings.Repeat("ab-c", 20)[:n]
				refs := "\\reference{" + w + "}\n\\reference{" + w + "1}\n\\reference{z" + w + "}\n\\reference{" + w[:n/2+1] + "}\n\n"
				t := "\\title{T}{" + w + "}\n\n" + refs + "\\section{\n\\title{S}{" + w + "1x}\n\n\\target{" + w + "xy} " + refs + "\n}\n\n"
				for i := 0; i < depth; i++ {
					t += fmt.Sprintf("\\section{\n\\title{D}{d%d%s}\n\n%s", i, w, refs)
				}
				return checkRefs(e, d, map[string]string{"index.lit": t + strings.Repeat("\n}\n", depth)}, []string{w, w + "1", "z" + w, w[:n/2+1], w + w})
			})
		}
	}
	words := []string{"a", "b", "-"}
	e.Bound("suggestions: all pairs of names of length 1..4 over a, b, -")
	var ws []string
	sequences(words, 1, pick(e, 4, 5), func(t string, ix []int) bool { ws = append(ws, t); return true })
	for _, w := range ws {
		if !e.Mine() {
			continue
		}
		e.Exec("suggestions for "+w, func() string {
			t := "\\title{T}{" + strings.Join(ws, "}{") + "}\n\n\\reference{" + w + "c}"
			return checkRefs(e, d, map[string]string{"index.lit": t}, []string{w, w + "c"})
		})
	}
}

func e11(e *Env, d *siteDriver, shape string, ix []int, defs []string, refs string, names []string) {
	if !e.Mine() {
		return
	}
	key := fmt.Sprint(shape, ix)
	e.Exec(key, func() string {
		for _, inc := range []bool{false, true} {
			e.Traces(1)
			files := map[string]string{}
			n := 0
			var build func(shape string) (body, rest string)
			content := func(i int, inner string) string {
				return strings.ReplaceAll(defs[ix[i]], "#", fmt.Sprint(i)) + refs + inner
			}
			build = func(shape string) (string, string) {
				out := ""
				for strings.HasPrefix(shape, "(") {
					n++
					i := n
					var in string
					in, shape = build(shape[1:])
					c := content(i, in)
					if inc && i%2 == 1 {
						f := fmt.Sprintf("s%d.lit", i)
						files[f] = c
						out += "\\include-section{" + f + "}\n\n"
					} else {
						out += "\\section{\n" + c + "\n}\n\n"
					}
				}
				return out, strings.TrimPrefix(shape, ")")
			}
			in, _ := build(shape)
			files["index.lit"] = content(0, in)
			if m := checkRefs(e, d, files, names); m != "" {
				return m + "\n" + fmt.Sprint(files)
			}
			if len(files) == 1 && inc {
				break
			}
		}
		return ""
	})
}

// --- C18

func runC18(e *Env) {
	d := newSiteDriver(e, "t")
	pieces := []piece{{`\target{g#}`, ""}, {`\target{h#}{T \bold{#}}{\target{in#}}`, ""}, {"x ", ""}, {`\bold{`, "}"}, {`\aux{`, "}"}, {`\list{`, "}{y}"}, {`\ordered-list{y}{`, "}"}, {`\table{\table-row{`, "}{z}}"}, {`\table{\table-row{a}}{\table-row{b}{`, "}}{\\table-row}"}, {`\definitions{\definition{`, "}{z}}"}, {`\definitions{\definition{z}{`, "}}"}, {`\definitions{\definition{\target{k#}}{\target{l#}}}{\definition{\target{m#}}{`, "}}"}, {`\table{\table-row{\target{k#}}{\target{l#}}}{\table-row{\target{m#}}{`, "}}"},
		{`\link{`, "}{http://x}"}, {"\\code{{\n  x\n  ", "\n}}"}, {"\\inset{\n", "\n\n}"}, {`\with-partial{`, "}{z}"}, {`\with-partial{z}{`, "}"}, {`\reference{r}{`, "}"}, {`{`, "}"}, {"\n\n", ""}}
	positions := []string{"%", "\\title{%}{t}", "\\set-partial{p}{%}\n\nz", "\\title{T}{t}\n\n\\section{\n%\n}"}
	max := pick(e, 3, 4)
	e.Bound("all contents of <=%d nested pieces out of %d with at least one target, in body, title, partial and subsection", max, len(pieces))
	balanced(pieces, 1, max, max, func(t string, n int) bool {
		if !strings.Contains(t, `\target`) {
			return true
		}
		for _, p := range positions {
			treeCase(e, d, nil, "\\use-plugin{vq}\n\n"+numbered(strings.ReplaceAll(p, "%", t)), n, true)
		}
		return !e.Stopped()
	})
	parts := []string{"\\title{T \\target{a#}}{t}", "\\target{b#}", "\\set-partial{q}{\\target{c#} \\target{d#}}", "\\set-partial{p}{\\list{\\target{e#}}{\\target{f#}}}", "\\section{\n\\target{g#}\n}", "\\section{\n\\title{S}{s#}\n\n\\set-partial{z}{\\target{h#}}\n\\set-partial{a}{\\target{i#}}\n}", "\\set-partial{q}{x}", "\\include-section{inc.lit}"}
	inc := map[string]string{"inc.lit": "\\title{I}{i}\n\n\\target{ti}\n\\section{\n\\target{tj}{J}{text}\n}"}
	m2 := pick(e, 5, 6)
	e.Bound("all orders with repetition of 1..%d out of %d section parts holding targets", m2, len(parts))
	sequences(mapStrings(parts, func(s string) string { return s + "\n\n" }), 1, m2, func(t string, ix []int) bool {
		titles := 0
		for _, i := range ix {
			if i == 0 {
				titles++
			}
		}
		if titles <= 1 {
			treeCase(e, d, inc, numbered(t), len(ix), true)
		}
		return !e.Stopped()
	})
	for n := 1; n <= 40; n++ {
		tg := "{\\target{x#}{T}{c}}"
		for _, t := range []string{"\\list" + strings.Repeat(tg, n), "\\ordered-list" + strings.Repeat(tg, n), "\\table" + strings.Repeat("{\\table-row"+tg+tg+"}", n), "\\table{\\table-row" + strings.Repeat(tg, n) + "}{\\table-row" + strings.Repeat(tg, n) + "}", "\\definitions" + strings.Repeat("{\\definition"+tg+tg+"}", n), strings.Repeat(tg+"\n\n", n), "\\code{{\n" + strings.Repeat("  \\target{x#}\n", n) + "}}", strings.Repeat("\\set-partial{P#}"+tg+"\n", n), strings.Repeat("\\section{\n\\title{S#}"+"\n\n\\target{x#}\n}\n", n), strings.Repeat("\\section{\n\\target{x#}\n", n) + strings.Repeat("\n}", n), strings.Repeat("\\bold{\\target{x#} ", n) + strings.Repeat("}", n)} {
			treeCase(e, d, nil, numbered(t), n, true)
		}
	}
	e.Bound("1..40 targets in a row, in every kind of content, and nested")
	for n := 1; n <= 100; n++ {
		treeCase(e, d, nil, strings.Repeat("\\bold{\\list{", n)+"\\target{x}"+strings.Repeat("}}", n), n, true)
		treeCase(e, d, nil, numbered(strings.Repeat("\\target{x#} y\n", n)), n, true)
	}
}

func mapStrings(in []string, f func(string) string) []string {
	var out []string
	for _, s := range in {
		out = append(out, f(s))
	}
	return out
}

// --- C28

func runC28(e *Env) {
	d := newSiteDriver(e, "t")
	files := map[string]string{
		"who.lit": "\\who\n", "use.lit": "\\title{U}\n\n\\use-plugin{vq}\n\n\\who \\q{x}\n\n\\section{\n\\who\n}\n", "plain.lit": "\\styled{zz}\n\\set-partial{p}{inc}\nplain \\bold{x}\n", "sub/q.lit": "\\section{\n\\use-plugin{vq}\n\\q\n}\n\\section{\n\\q\n}\n",
		"omit.lit": "\\omit-children-from-table-of-contents\n\\section{\\title{O}}\n",
	}
	pieces := []piece{{"\\use-plugin{vq}\n", ""}, {"\\use-plugin{vr}\n", ""}, {"\\who\n", ""}, {"\\bold{\\q}\n", ""}, {"\\section{\n", "\n}\n"}, {`\include-section{who.lit}` + "\n", ""}, {`\include-section{use.lit}` + "\n", ""}, {`\include-section{sub/q.lit}` + "\n", ""}}
	max := pick(e, 5, 6)
	e.Bound("plugins: all programs of <=%d pieces out of %d (uses, calls, inline sections nested to 3, includes)", max, len(pieces))
	balanced(pieces, 1, max, 3, func(t string, n int) bool {
		treeCase(e, d, files, t, n, false)
		return !e.Stopped()
	})
	plugins := pieces
	e.Bound("chains of 4..20 sections and fans of up to 40 within one, each calling the functions, with plugins used at each level, in each section, repeatedly; likewise partials and styles; included files")
	for n := 4; n <= 40; n++ {
		for _, use := range []string{"\\use-plugin{vq}\n\\use-plugin{vr}\n", "\\use-plugin{vr}\n\\use-plugin{vq}\n", strings.Repeat("\\use-plugin{vq}\n", n), "\\styled{s#}\n\\set-partial{p}{v#}\n", "\\include-section{use.lit}\n\n\\include-section{plain.lit}\n", strings.Repeat("\\set-partial{p#}{v#}\n", n)} {
			for k := 0; k < n; k++ {
				call := "\\who\n\n\\bold{\\q}\n"
				if !strings.Contains(use, "plugin{v") && !strings.Contains(use, "include") {
					call = "\\bold{x}\n"
				}
				fan, chain := "", ""
				for i := 0; i < n; i++ {
					in := "\\section{\n\\title{S#}\n\n"
					if i == k {
						in += use
					}
					if i >= k && strings.Contains(use, "plugin{v") {
						in += call
					}
					chain += in
					// a sibling of the user must not have the plugins
					if i == k || !strings.Contains(use, "plugin{v") {
						fan += in + "\n}\n"
					} else {
						fan += "\\section{\n\\title{S#}\n\n\\bold{x}\n}\n"
					}
					if i == k+1 && k%4 == 0 {
						fan += "\\section{\n\\title{S#}\n\n" + call + "\n}\n"
					}
				}
				if n <= 20 {
					treeCase(e, d, files, numbered(chain+strings.Repeat("\n}\n", n)), n, false)
				}
				if k < 12 || k > n-3 {
					treeCase(e, d, files, numbered(fan), n, false)
					treeCase(e, d, files, numbered("\\section{\n"+use+fan+"\n}\n"), n, false)
				}
			}
		}
	}
	pieces = []piece{{"\\styled{s#}\n", ""}, {"\\set-partial{p}{v#}\n", ""}, {"\\set-partial{q}{\\bold{w#}}\n", ""}, {"\\omit-children-from-table-of-contents\n", ""}, {"\\title{T#}\n", ""}, {"\\section{\n", "\n}\n"}, {`\include-section{plain.lit}` + "\n", ""}, {`\include-section{omit.lit}` + "\n", ""}}
	e.Bound("styles, partials, omission, titles: all programs of <=%d pieces out of %d", max, len(pieces))
	balanced(pieces, 1, max, 3, func(t string, n int) bool {
		treeCase(e, d, files, numbered(t), n, false)
		return !e.Stopped()
	})
	all := append(append([]piece{}, plugins[:6]...), pieces...)
	max = pick(e, 4, 5)
	e.Bound("both together: all programs of <=%d pieces out of %d", max, len(all))
	balanced(all, 3, max, 3, func(t string, n int) bool {
		if strings.Contains(t, "plugin") && strings.Contains(t, "\\section{") {
			treeCase(e, d, files, numbered(t), n, false)
		}
		return !e.Stopped()
	})
	if !e.Mine() {
		return
	}
	e.Exec("instances", func() string {
		// every section has instances of its own, and the same factory twice two of them
		s, err := d.load(map[string]string{"index.lit": "\\use-plugin{vq}\n\\use-plugin{vq}\n\\section{\n\\use-plugin{vq}\n\\section{x}\n}\n\\section{y}"}, "index.lit")
		if err != nil {
			return err.Error()
		}
		seen := map[*vq]bool{}
		for i, x := range allSections(s) {
			for _, p := range x.Plugins {
				if q, ok := p.(*vq); ok {
					if seen[q] {
						return fmt.Sprintf("section %d shares a plugin instance", i)
					}
					if q.s != x {
						return fmt.Sprintf("a plugin instance of section %d was made for another section", i)
					}
					seen[q] = true
				}
			}
		}
		if len(seen) != 2+3+3+2 {
			return fmt.Sprintf("%d instances of the plugin, expected 10", len(seen))
		}
		return ""
	})
	_ = filepath.Join
}
