package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/vito/booklit"
)

// ---------------------------------------------------------------------------
// Content trees, built as plugins build them.

// term is a tree of content kinds.
type term struct {
	k    string
	kids []*term
}

// arities of the kinds; kinds are enumerated in this order
type tkind struct {
	k        string
	min, max int
}

func (t *term) size() int {
	n := 1
	for _, k := range t.kids {
		n += k.size()
	}
	return n
}

func (t *term) has(kinds ...string) bool {
	for _, k := range kinds {
		if t.k == k {
			return true
		}
	}
	for _, c := range t.kids {
		if c.has(kinds...) {
			return true
		}
	}
	return false
}

func (t *term) count(kind string) int {
	n := 0
	if t.k == kind {
		n = 1
	}
	for _, c := range t.kids {
		n += c.count(kind)
	}
	return n
}

func (t *term) String() string {
	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *term) write(b *strings.Builder) {
	b.WriteString(t.k)
	if len(t.kids) > 0 {
		b.WriteByte('(')
		for i, c := range t.kids {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.write(b)
		}
		b.WriteByte(')')
	}
}

// allTerms calls f with every term of 1..max nodes over the kinds.
func allTerms(kinds []tkind, max int, f func(*term) bool) {
	bySize := make([][]*term, max+1)
	for n := 1; n <= max; n++ {
		keep := n < max
		stop := false
		emit := func(t *term) {
			if keep {
				bySize[n] = append(bySize[n], t)
			}
			if !stop && !f(t) {
				stop = true
			}
		}
		for _, k := range kinds {
			for a := k.min; a <= k.max && a < n || a == 0 && n == 1 && k.min == 0; a++ {
				if a == 0 {
					if n == 1 {
						emit(&term{k: k.k})
					}
					continue
				}
				kids := make([]*term, a)
				var rec func(i, left int)
				rec = func(i, left int) {
					if stop {
						return
					}
					if i == a-1 {
						for _, c := range bySize[left] {
							kids[i] = c
							emit(&term{k: k.k, kids: append([]*term{}, kids...)})
						}
						return
					}
					for s := 1; s <= left-(a-1-i); s++ {
						for _, c := range bySize[s] {
							kids[i] = c
							rec(i+1, left-s)
						}
					}
				}
				rec(0, n-1)
			}
		}
		if stop {
			return
		}
	}
}

// bigTerms calls f with terms beyond the sizes of the exhaustive enumerations:
// every kind that has any number of contents with up to wide of them, and
// every kind around itself and around each other, up to deep times.
func bigTerms(kinds []tkind, wide, deep int, deeper []int, f func(*term) bool) string {
	str := &term{k: "str"}
	aux := &term{k: "aux", kids: []*term{str}}
	around := func(k tkind, t *term) *term {
		out := &term{k: k.k, kids: []*term{t}}
		for len(out.kids) < k.min {
			out.kids = append(out.kids, str)
		}
		return out
	}
	for _, k := range kinds {
		switch {
		case k.k == "grid" || k.k == "defs4" || k.max == 0:
			continue
		case k.min <= 1 && k.max > 1:
			for n := 1; n <= wide; n++ {
				a, b := &term{k: k.k}, &term{k: k.k}
				for i := 0; i < n; i++ {
					a.kids = append(a.kids, str)
					if i%3 == 1 {
						b.kids = append(b.kids, around(kinds[(n+i)%len(kinds)], str))
						if kinds[(n+i)%len(kinds)].max == 0 {
							b.kids[i] = str
						}
					} else {
						b.kids = append(b.kids, &term{k: "seq", kids: []*term{str, aux}})
					}
				}
				if !f(a) || !f(b) {
					return ""
				}
			}
		case k.k == "defs":
			for n := 1; n <= wide; n++ {
				a := &term{k: k.k}
				for i := 0; i < 2*n; i++ {
					a.kids = append(a.kids, str)
				}
				if !f(a) {
					return ""
				}
			}
		}
		for _, l := range kinds {
			if l.max == 0 || l.k == "grid" || l.k == "defs4" {
				continue
			}
			t := str
			last := deep
			if k == l {
				last = deeper[len(deeper)-1]
			}
			for n := 1; n <= last; n++ {
				if n%2 == 0 {
					t = around(l, t)
				} else {
					t = around(k, t)
				}
				if n > 3 && (n <= deep || slices.Contains(deeper, n)) && !f(t) {
					return ""
				}
			}
		}
	}
	return fmt.Sprintf("every kind with up to %d contents, and every pair of kinds around each other, up to %d deep, and around itself %v deep", wide, deep, deeper)
}

// termBuilder gives the texts of a term their names, in order: a1, a2, ...
type termBuilder struct {
	n     int
	label string
	sec   *booklit.Section // for references and tables of contents
	slack bool             // slices have spare capacity
	lazy  int              // lazies evaluated
}

func (b *termBuilder) text() booklit.String {
	b.n++
	return booklit.String(fmt.Sprintf("%s%d", b.label, b.n))
}

func (b *termBuilder) slice(ts []*term) []booklit.Content {
	n := len(ts)
	c := n
	if b.slack {
		c += 2
	}
	out := make([]booklit.Content, n, c)
	for i, t := range ts {
		out[i] = b.build(t)
	}
	return out
}

func (b *termBuilder) build(t *term) booklit.Content {
	switch t.k {
	case "str":
		return b.text()
	case "empty":
		return booklit.Empty
	case "image":
		return booklit.Image{Path: string(b.text()), Description: string(b.text())}
	case "target":
		s := b.text()
		return booklit.Target{TagName: string(s), Title: s}
	case "toc":
		return booklit.TableOfContents{Section: b.sec}
	case "ref":
		return &booklit.Reference{Section: b.sec, TagName: "tt"}
	case "seq":
		return booklit.Sequence(b.slice(t.kids))
	case "para":
		return booklit.Paragraph(b.slice(t.kids))
	case "pre":
		return booklit.Preformatted(b.slice(t.kids))
	case "list":
		return booklit.List{Items: b.slice(t.kids)}
	case "olist":
		return booklit.List{Items: b.slice(t.kids), Ordered: true}
	case "rows": // one column
		tb := booklit.Table{}
		for _, k := range t.kids {
			tb.Rows = append(tb.Rows, []booklit.Content{b.build(k)})
		}
		return tb
	case "row": // one row
		return booklit.Table{Rows: [][]booklit.Content{b.slice(t.kids)}}
	case "ragged": // all but the first in the second row
		x := b.build(t.kids[0])
		return booklit.Table{Rows: [][]booklit.Content{{x}, b.slice(t.kids[1:]), {}}}
	case "grid": // two rows
		a := b.slice(t.kids[:2])
		return booklit.Table{Rows: [][]booklit.Content{a, b.slice(t.kids[2:])}}
	case "defs", "defs4":
		ds := booklit.Definitions{}
		for i := 0; i+1 < len(t.kids); i += 2 {
			s := b.build(t.kids[i])
			ds = append(ds, booklit.Definition{Subject: s, Definition: b.build(t.kids[i+1])})
		}
		return ds
	case "aux":
		return booklit.Aux{Content: b.build(t.kids[0])}
	case "bold", "italic", "verbatim", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside", "nosuch":
		return booklit.Styled{Style: booklit.Style(t.k), Content: b.build(t.kids[0])}
	case "block":
		return booklit.Styled{Style: "bold", Block: true, Content: b.build(t.kids[0])}
	case "nosuchp":
		c := b.build(t.kids[0])
		return booklit.Styled{Style: "nosuch", Content: c, Partials: booklit.Partials{"Extra": b.build(t.kids[1])}}
	case "nosuchblock":
		return booklit.Styled{Style: "nosuch", Block: true, Content: b.build(t.kids[0])}
	case "nostyle":
		return booklit.Styled{Content: b.build(t.kids[0])}
	case "boldp":
		c := b.build(t.kids[0])
		return booklit.Styled{Style: "boldp", Content: c, Partials: booklit.Partials{"Extra": b.build(t.kids[1]), "None": nil}}
	case "link":
		return booklit.Link{Content: b.build(t.kids[0]), Target: string(b.text())}
	case "refc":
		return &booklit.Reference{Section: b.sec, TagName: "tt", Content: b.build(t.kids[0])}
	case "targetc":
		s := b.text()
		return booklit.Target{TagName: string(s), Title: b.build(t.kids[0]), Content: b.build(t.kids[1])}
	case "lazy":
		b.lazy++
		c := b.build(t.kids[0])
		return booklit.LazyFlow(func() (booklit.Content, error) { return c, nil })
	case "lazyleaf":
		return opaqueLazy
	case "section":
		return &booklit.Section{Title: b.text(), Body: b.text()}
	case "lazyblock":
		c := b.build(t.kids[0])
		return booklit.LazyBlock(func() (booklit.Content, error) { return c, nil })
	case "lazynil":
		return booklit.LazyFlow(func() (booklit.Content, error) { return nil, nil })
	case "opt": // of a tag that doesn't exist
		return &booklit.Reference{Section: b.sec, TagName: "no", Optional: true}
	case "optc":
		return &booklit.Reference{Section: b.sec, TagName: "no", Optional: true, Content: b.build(t.kids[0])}
	case "opthit":
		return &booklit.Reference{Section: b.sec, TagName: "tt", Optional: true}
	case "lazyerr":
		return booklit.LazyFlow(func() (booklit.Content, error) { return nil, errLazy })
	}
	panic(t.k)
}

var opaqueLazy = booklit.LazyFlow(func() (booklit.Content, error) { return booklit.String("deferred"), nil })

var errLazy = errors.New("lazy failure")
