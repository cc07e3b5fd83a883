//go:build maporder

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	_ "unsafe"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

//go:linkname verifChoose internal/runtime/maps.verifChoose
var verifChoose func(n int) int

func init() {
	verifChoose = chooseOrder
	booklit.RegisterPlugin("ord", func(s *booklit.Section) booklit.Plugin { return &ord{s} })
	register(&Check{ID: "C25", Level: "model_checking", Rule: "an execution is a build in which the runtime iterates over every map in an order the harness chooses, or a sequence of builds in one process; all results are compared with one of a new process", Run: runC25, QuickBudget: 120})
}

// orders is the state of one controlled execution: iterations that deviate
// take the order with that number, others the first (or the uniform one).
var orders struct {
	on      bool
	uniform int
	deviate []deviation
	log     []point
	n       int
}

// point is one iteration: how many orders it has and the calls it is within.
type point struct {
	n    int
	site [4]uintptr
}

// deviation is an order for one iteration, or for those of one site.
type deviation struct {
	at    int
	site  [4]uintptr
	order int
}

func chooseOrder(n int) int {
	if !orders.on {
		return 0
	}
	p := point{n: n}
	runtime.Callers(5, p.site[:]) // past this function, verifInit, Init and mapIterStart
	i := orders.n
	if i < len(orders.log) {
		orders.log[i] = p
	}
	orders.n++
	for _, d := range orders.deviate {
		if d.at == i || d.at < 0 && d.site == p.site {
			return d.order % n
		}
	}
	return orders.uniform % n
}

// ours tells whether an iteration is in the code under test or in something it
// calls with a map.
func (p point) ours() bool {
	frames := runtime.CallersFrames(p.site[:3])
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "github.com/vito/booklit") {
			return true
		}
		if !more {
			return false
		}
	}
}

type ord struct{ s *booklit.Section }

// Part sets a partial of the section.
func (p *ord) Part(name string, c booklit.Content) { p.s.SetPartial(name, c) }

// Parted returns content with partials: name, content, name, content, ...
func (p *ord) Parted(style string, args ...booklit.Content) booklit.Content {
	ps := booklit.Partials{}
	for i := 0; i+1 < len(args); i += 2 {
		ps[args[i].String()] = args[i+1]
	}
	return booklit.Styled{Style: booklit.Style(style), Content: booklit.String("parted"), Partials: ps}
}

// Stripped is its content without what is auxiliary.
func (p *ord) Stripped(c booklit.Content) booklit.Content { return booklit.StripAux(c) }

type ordDoc struct {
	name  string
	files map[string]string
	cmd   func(dir string, cmd *booklitcmd.Command)
}

func withTemplates(dir string, cmd *booklitcmd.Command) {
	cmd.HTMLEngine.Templates = filepath.Join(dir, "html")
	cmd.TextEngine.Templates = filepath.Join(dir, "text")
}

func asText(dir string, cmd *booklitcmd.Command) { cmd.TextEngine.FileExtension = "md" }

func both(fs ...func(string, *booklitcmd.Command)) func(string, *booklitcmd.Command) {
	return func(dir string, cmd *booklitcmd.Command) {
		for _, f := range fs {
			f(dir, cmd)
		}
	}
}

func ordTemplates() map[string]string {
	// later files define again what earlier ones defined
	t := map[string]string{}
	for _, n := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"} {
		t["html/"+n+".tmpl"] = `{{define "shared.tmpl"}}<shared-` + n + `>{{.Content | render}}</shared-` + n + `>{{end}}` + n
		t["text/"+n+".tmpl"] = `{{define "shared.tmpl"}}shared-` + n + `({{.Content | render}}){{end}}` + n
	}
	t["html/parts.tmpl"] = `<parts>{{range $k, $v := .Partials}}<p k="{{$k}}">{{$v | render}}</p>{{end}}</parts>`
	t["html/italic.tmpl"] = `<my-italic>{{.Content | render}}</my-italic>`
	t["text/italic.tmpl"] = `~{{.Content | render}}~`
	t["text/parts.tmpl"] = `PARTS{{range $k, $v := .Partials}}({{$k}} {{$v | render}}){{end}}`
	return t
}

func ordDocs() []ordDoc {
	page := func(text string) map[string]string {
		f := ordTemplates()
		f["index.lit"] = "\\title{Index}{index}\n\n\\use-plugin{ord}\n\n\\italic{it} \\bold{bo}\n\n" + text + "\n"
		return f
	}
	manyTags := ""
	for i := 0; i < 12; i++ {
		manyTags += fmt.Sprintf("\\target{tag-%c}{Tag %c}{text %c}\n\n", 'a'+i, 'a'+i, 'a'+i)
	}
	parts := func(n int, text string) string {
		out := ""
		for i := 0; i < n; i++ {
			out += fmt.Sprintf("\\part{P%c}{"+strings.ReplaceAll(text, "@", string(rune('a'+i)))+"}\n\n", 'a'+(i*5)%n)
		}
		return out
	}
	sections := func(n int, text string) string {
		out := ""
		for i := 0; i < n; i++ {
			out += strings.ReplaceAll("\\section{\n\\title{S @}{tag-@}{second-@}\n\n"+text+"\n}\n\n", "@", string(rune('a'+i)))
		}
		return out
	}
	index := func(_ string, cmd *booklitcmd.Command) { cmd.SaveSearchIndex = true }
	allow := func(_ string, cmd *booklitcmd.Command) { cmd.AllowBrokenReferences = true }
	docs := []ordDoc{
		{"tags and search index", page(manyTags + "\\reference{tag-a}"), index},
		{"three partials with tags", page(parts(3, "\\target{t@}{T@}")), index},
		{"six partials with tags and references", page(parts(6, "\\target{t@}{T@} \\reference{ta}")), index},
		{"three partials with broken references", page(parts(3, "\\reference{no-@}{x}")), nil},
		{"partials with the same tag", page(parts(4, "\\target{same}{S@}") + "\\reference{same}"), nil},
		{"styled partials with tags", page("\\parted{parts}{z}{\\target{tz}{Z}}{a}{\\target{ta}{A}}{m}{\\target{tm}{M}}\n\n\\reference{tm} \\table-of-contents"), both(index, withTemplates)},
		{"styled partials with broken references", page("\\parted{parts}{z}{\\reference{nz}{z}}{a}{\\reference{na}{a}}{m}{\\reference{nm}{m}}"), both(index, withTemplates)},
		{"styled partials without what is auxiliary", page("\\stripped{\\parted{parts}{z}{z\\aux{q}}{a}{\\aux{q}a}{m}{m}}"), withTemplates},
		{"titles with partials", page("\\split-sections\n\n\\section{\n\\title{S \\parted{parts}{z}{z\\aux{q}}{a}{\\aux{q}a}}\n\nx\n}\n\n\\table-of-contents"), both(index, withTemplates)},
		{"broken reference like many tags", page(manyTags + "\\reference{tag-z}"), nil},
		{"broken reference allowed", page(manyTags + "\\reference{tag-z} \\reference{tag-y}{y}"), both(allow, index)},
		{"ambiguous reference", page("\\target{dup}{A}\n\n\\section{\n\\title{S}\n\n\\target{dup}{B}\n\n\\section{\n\\title{SS}\n\n\\target{dup}{C}\n}\n}\n\n\\reference{dup}"), nil},
		{"undefined function", page("\\no-such-function{x}"), nil},
		{"functions of a plugin not in use", map[string]string{"index.lit": "\\title{Index}{index}\n\n\\stripped{x}\n"}, nil},
		{"functions of another section's plugin", map[string]string{"index.lit": "\\title{Index}{index}\n\n\\section{\n\\title{A}\n\n\\use-plugin{ord}\n\n\\stripped{x}\n}\n\n\\section{\n\\title{B}\n\n\\stripped{x}\n}\n"}, nil},
		{"unknown plugin", page("\\use-plugin{nosuch}"), nil},
		{"shared templates", page("\\parted{shared}{z}{z}"), withTemplates},
		{"highlighted code", page("\\use-plugin{chroma}\n\n\\syntax{go}{{{\nfunc f() map[string]int { return nil }\n}}}"), nil},
		{"sections in files", func() map[string]string {
			f := page("\\split-sections\n\n\\include-section{a.lit}\n\n\\include-section{b.lit}")
			f["a.lit"] = "\\title{A}{a}{also-a}{aa}\n\n\\reference{b}\n"
			f["b.lit"] = "\\title{B}{b}{also-b}\n\n\\section{\n\\title{B B}\n\n\\reference{a}\n}\n"
			return f
		}(), index},
		{"many sections", page("\\split-sections\n\n\\table-of-contents\n\n" + sections(9, "\\target{g-@}{G @} \\reference{tag-a}\n\n\\part{P}{\\target{p-@}{P @}}\n\n\\part{O}{\\target{o-@}{O @}}")), index},
		{"many partials", page(parts(14, "\\target{t@}{T@} \\reference{tb} @") + "\\table-of-contents"), index},
		{"many broken references and similar tags", page(sections(9, "\\reference{tag-@@}") + "\\reference{tog-x}"), both(allow, index)},
	}
	for _, i := range []int{0, 2, 5, 6, 7, 8, 16, 18} {
		d := docs[i]
		cmd := d.cmd
		d.name += ", as text"
		d.cmd = both(func(dir string, c *booklitcmd.Command) {
			if cmd != nil {
				cmd(dir, c)
			}
		}, asText)
		docs = append(docs, d)
	}
	return docs
}

// ordResult is everything a build shows, as one text.
func ordResult(dir string, d ordDoc) string {
	in := filepath.Join(dir, "in")
	out := filepath.Join(dir, "out")
	_ = os.RemoveAll(out)
	cmd := &booklitcmd.Command{In: filepath.Join(in, "index.lit"), Out: out}
	if d.cmd != nil {
		d.cmd(in, cmd)
	}
	var res []string
	controlled := orders.on
	err := cmd.Execute(nil)
	orders.on = false
	var names []string
	files, _ := os.ReadDir(out)
	for _, f := range files {
		names = append(names, f.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		b, _ := os.ReadFile(filepath.Join(out, n))
		res = append(res, n+":\n"+string(b))
	}
	show := func(err error) {
		if err == nil {
			return
		}
		orders.on = controlled
		text := fmt.Sprintf("%T: %s", err, err)
		w := httptest.NewRecorder()
		booklit.ErrorResponse(w, err)
		var b bytes.Buffer
		var pretty booklit.PrettyError
		if errors.As(err, &pretty) {
			pretty.PrettyPrint(&b)
		}
		orders.on = false
		res = append(res, text, w.Body.String(), b.String())
	}
	show(err)
	// the sections, and what each looks like by itself
	orders.on = controlled
	s, err := (&load.Processor{}).LoadFile(cmd.In, []booklit.PluginFactory{baselit.NewPlugin})
	orders.on = false
	if err == nil {
		res = append(res, dumpReal(s, true))
		for _, sec := range allSections(s) {
			orders.on = controlled
			tags := append(sec.SimilarTags("tag-z"), sec.AnchorTags()...)
			for _, t := range sec.Tags {
				tags = append(tags, sec.FindTag(t.Name)...)
			}
			orders.on = false
			for _, t := range tags {
				res = append(res, fmt.Sprintf("tag: %s %s %s", t.Name, t.Anchor, t.Section.Path))
			}
			for _, e := range []render.Engine{render.NewHTMLEngine(), render.NewTextEngine("txt")} {
				var b bytes.Buffer
				orders.on = controlled
				err := e.RenderSection(&b, sec)
				orders.on = false
				show(err)
				if err == nil {
					res = append(res, b.String())
				}
			}
		}
	} else {
		show(err)
	}
	return strings.ReplaceAll(strings.Join(res, "\n----\n"), dir, "DIR")
}

func (d ordDoc) put(dir string) {
	for n, t := range d.files {
		p := filepath.Join(dir, "in", n)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(t), 0644); err != nil {
			panic(err)
		}
	}
}

// fresh prints the result of a document in this new process.
func fresh(args []string) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	for _, d := range ordDocs() {
		if d.name == args[0] {
			_ = json.NewEncoder(os.Stdout).Encode(ordResult(args[1], d))
		}
	}
}

func runC25(e *Env) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	docs := ordDocs()
	dirs := make([]string, len(docs))
	for i, d := range docs {
		dirs[i] = filepath.Join(e.Dir, fmt.Sprintf("c25-%d", i))
		d.put(dirs[i])
	}
	wants := map[int]string{}
	want := func(i int) string {
		if w, ok := wants[i]; ok {
			return w
		}
		self, _ := os.Executable()
		out, err := exec.Command(self, "fresh", docs[i].name, dirs[i]).Output()
		var w string
		if err == nil {
			err = json.Unmarshal(out, &w)
		}
		if err != nil {
			panic(fmt.Sprintf("in a new process: %v %s", err, out))
		}
		wants[i] = w
		return w
	}
	differ := func(got, want, what string) string {
		if got == want {
			return ""
		}
		g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
		for i := range g {
			if i >= len(w) || g[i] != w[i] {
				wi := "(nothing)"
				if i < len(w) {
					wi = w[i]
				}
				return fmt.Sprintf("%s differ from a new process: %q, not %q", what, clip(g[i], 500), clip(wi, 500))
			}
		}
		return fmt.Sprintf("%s lack %q", what, w[len(g)])
	}
	orders.log = make([]point, 1<<16)
	run := func(i, uniform int, deviate ...deviation) (string, []point) {
		orders.on, orders.uniform, orders.deviate, orders.n = true, uniform, deviate, 0
		r := ordResult(dirs[i], docs[i])
		orders.on = false
		n := orders.n
		if n > len(orders.log) {
			n = len(orders.log)
		}
		e.Trans(n)
		e.beat()
		what := fmt.Sprintf("results with every map in order %d", uniform)
		for _, d := range deviate {
			what += fmt.Sprintf(", order %d at iteration %d", d.order, d.at)
		}
		return differ(r, want(i), what+","), append([]point{}, orders.log[:n]...)
	}
	points, own, sites := 0, 0, 0
	for i, d := range docs {
		for u := 0; u < 24; u++ {
			e.Each(fmt.Sprintf("every map in order %d: %s", u, d.name), func() string {
				m, _ := run(i, u)
				return m
			})
		}
		_, log := run(i, 0)
		points += len(log)
		var seen []point
	points:
		for at, p := range log {
			if e.Thorough || p.ours() && !strings.HasPrefix(d.name, "many ") {
				own++
				e.Each(fmt.Sprintf("iteration %d in each order: %s", at, d.name), func() string {
					for c := 1; c < p.n; c++ {
						m, after := run(i, 0, deviation{at: at, order: c})
						if m != "" {
							return m
						}
						if !p.ours() || !e.Thorough {
							continue
						}
						for q := at + 1; q < len(after); q++ {
							if !after[q].ours() {
								continue
							}
							for c2 := 1; c2 < after[q].n; c2++ {
								if m, _ := run(i, 0, deviation{at: at, order: c}, deviation{at: q, order: c2}); m != "" {
									return m
								}
							}
						}
					}
					return ""
				})
			}
			for k := range seen {
				if seen[k].site == p.site {
					if seen[k].n < p.n {
						seen[k].n = p.n
					}
					continue points
				}
			}
			seen = append(seen, p)
		}
		sites += len(seen)
		for k, p := range seen {
			e.Each(fmt.Sprintf("iterations of site %d in each order: %s", k, d.name), func() string {
				for c := 1; c < p.n; c++ {
					if m, _ := run(i, 0, deviation{at: -1, site: p.site, order: c}); m != "" {
						return m
					}
				}
				return ""
			})
		}
	}
	e.Bound("%d documents with partials, many tags, broken and ambiguous references, templates defined repeatedly, a search index, highlighted code, as HTML and text; their builds contain %d iterations over maps (libraries included) at %d sites (three calls deep). Every map in order k, all k; the iterations of each site in each order; %d iterations (quick: those in booklit and in what it calls, but not for the three documents with many sections, partials and references; thorough: all) one at a time in each order (thorough: booklit's also in pairs). Maps of up to four entries: every order; up to eight: every rotation and reversed rotation; larger: 16 starting points", len(docs), points, sites, own)
	seqs := 2
	if e.Thorough {
		seqs = 3
	}
	e.Bound("all sequences of %d documents built one after the other in one process", seqs)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == seqs {
			var names []string
			for _, i := range seq {
				names = append(names, docs[i].name)
			}
			e.Each(fmt.Sprintf("sequence %q", names), func() string {
				for k, i := range seq {
					if m := differ(ordResult(dirs[i], docs[i]), want(i), fmt.Sprintf("results of build %d", k+1)); m != "" {
						return m
					}
				}
				return ""
			})
			return
		}
		for i := range docs {
			rec(append(append([]int{}, seq...), i))
		}
	}
	rec(nil)
}
