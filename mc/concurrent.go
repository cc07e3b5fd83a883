//go:build sched

package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"verifmc/sched"
)

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Rule: "a schedule is an interleaving of requests to one real server, and of an editor of its files, under a controlled scheduler with the race detector on; every answer is compared with those of new servers", Run: runC22, QuickBudget: 450})
}

// Versions of the files of the site, by file. An empty text means the file is
// not there.
var c22Files = map[string]map[string]version{
	"index.lit": {
		"v1":     {"\\title{Home}{index}\n\n\\use-plugin{sy}\n\nfirst \\bold{home} \\later{lazily} \\reference{a}\n\n\\include-section{a.lit}\n", 10 * sec},
		"v2":     {"\\title{Home}{index}\n\n\\split-sections\n\nsecond \\bold{home} \\reference{a}\n\n\\include-section{a.lit}\n", 10*sec + 1},
		"broken": {"\\title{Home}{index}\n\nbroken } here\n", 20 * sec},
		"badref": {"\\title{Home}{index}\n\n\\split-sections\n\n\\reference{nowhere}{x}\n\n\\include-section{a.lit}\n", 30 * sec},
		"gone":   {},
	},
	"a.lit": {
		"v1":     {"\\title{A}{a}\n\na one \\bold{bold}\n", 10 * sec},
		"v2":     {"\\title{A}{a}\n\na two \\bold{bold}\n", 11 * sec},
		"broken": {"\\title{A}{a\n", 20 * sec},
		"gone":   {},
	},
	"bold.tmpl": {
		"v1":     {"B1[{{.Content | render}}]", 10 * sec},
		"v2":     {"B2[{{.Content | render}}]", 5 * sec},
		"broken": {"{{if}}", 20 * sec},
		"gone":   {},
	},
	"italic.tmpl": {
		"v1":   {"I1[{{.Content | render}}]", 10 * sec},
		"gone": {},
	},
}

type c22State struct{ index, a, bold, italic string }

func (s c22State) get(file string) string {
	switch file {
	case "index.lit":
		return s.index
	case "a.lit":
		return s.a
	case "bold.tmpl":
		return s.bold
	}
	return s.italic
}

func (s c22State) with(file, v string) c22State {
	switch file {
	case "index.lit":
		s.index = v
	case "a.lit":
		s.a = v
	case "bold.tmpl":
		s.bold = v
	default:
		s.italic = v
	}
	return s
}

var c22Order = []string{"index.lit", "a.lit", "bold.tmpl", "italic.tmpl"}

type c22Edit struct{ file, v string }

type c22Driver struct {
	e                  *Env
	docs, tmpls, stage string
	now                c22State
	fs                 http.Handler
	fresh              map[string]httpAnswer
}

func newC22Driver(e *Env) *c22Driver {
	d := &c22Driver{e: e, docs: filepath.Join(e.Dir, "c22"), tmpls: filepath.Join(e.Dir, "c22-tmpl"), stage: filepath.Join(e.Dir, "c22-stage"), fresh: map[string]httpAnswer{}}
	static := filepath.Join(e.Dir, "c22-static")
	for _, p := range []string{d.docs, d.tmpls, d.stage, static} {
		_ = os.MkdirAll(p, 0755)
	}
	_ = os.WriteFile(filepath.Join(static, "static.txt"), []byte("static text"), 0644)
	d.fs = http.FileServer(http.Dir(static))
	d.now = c22State{"gone", "gone", "gone", "gone"}
	// every version waits, with its time, to be moved in place
	for f, vs := range c22Files {
		for n, v := range vs {
			if v.text != "" {
				p := filepath.Join(d.stage, f+"."+n)
				if err := os.WriteFile(p, []byte(v.text), 0644); err != nil {
					panic(err)
				}
				if err := os.Chtimes(p, historyBase.Add(v.at), historyBase.Add(v.at)); err != nil {
					panic(err)
				}
			}
		}
	}
	return d
}

// edit replaces one file at once.
func (d *c22Driver) edit(file, v string) {
	dir := d.docs
	if strings.HasSuffix(file, ".tmpl") {
		dir = d.tmpls
	}
	p := filepath.Join(dir, file)
	if c22Files[file][v].text == "" {
		if err := os.Remove(p); err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		return
	}
	tmp := filepath.Join(d.stage, "moving")
	if err := os.Link(filepath.Join(d.stage, file+"."+v), tmp); err != nil {
		panic(err)
	}
	// renaming one link of a file over another does nothing
	_ = os.Remove(p)
	if err := os.Rename(tmp, p); err != nil {
		panic(err)
	}
}

func (d *c22Driver) set(s c22State) {
	for _, f := range c22Order {
		if d.now.get(f) != s.get(f) {
			d.edit(f, s.get(f))
		}
	}
	d.now = s
}

func (d *c22Driver) server() *booklitcmd.Server {
	return &booklitcmd.Server{In: filepath.Join(d.docs, "index.lit"), Processor: &load.Processor{}, Templates: d.tmpls, Engine: render.NewHTMLEngine(), FileServer: d.fs}
}

func ask(h http.Handler, req string) httpAnswer {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", req, nil))
	return httpAnswer{w.Code, w.Body.String(), w.Header().Get("Content-Type")}
}

func (d *c22Driver) expect(s c22State, req string) httpAnswer {
	k := fmt.Sprint(s, req)
	if a, ok := d.fresh[k]; ok {
		return a
	}
	old := d.now
	d.set(s)
	a := ask(d.server(), req)
	d.set(old)
	d.fresh[k] = a
	return a
}

type c22Event struct {
	at int
	s  c22State
}

// scene: requests (one thread each; a thread may ask several times), edits by
// an editor thread, requests answered beforehand.
func (d *c22Driver) scene(start c22State, warm []string, threads [][]string, edits []c22Edit, bound, slices, raceBound int) {
	outcome := ""
	d.e.explore(scenario{
		key: fmt.Sprintf("from %v, warmed by %q, threads %q, edits %v", start, warm, threads, edits), bound: bound, slices: slices, raceBound: raceBound, raceSlices: 1, fs: true,
		outcome: func() string { return outcome },
		setup: func() ([]func(), func(*sched.Outcome) string) {
			d.set(start)
			srv := d.server()
			for _, r := range warm {
				ask(srv, r)
			}
			type answer struct {
				httpAnswer
				from, to int
			}
			answers := make([][]answer, len(threads))
			var bodies []func()
			for i := range threads {
				i := i
				answers[i] = make([]answer, len(threads[i]))
				bodies = append(bodies, func() {
					for k, r := range threads[i] {
						from := sched.Steps()
						a := ask(srv, r)
						answers[i][k] = answer{a, from, sched.Steps()}
						sched.Point("asked")
					}
				})
			}
			var events []c22Event
			final := start
			if len(edits) > 0 {
				bodies = append(bodies, func() {
					for _, x := range edits {
						d.edit(x.file, x.v)
						final = final.with(x.file, x.v)
						events = append(events, c22Event{sched.Steps(), final})
						sched.Point("edited")
					}
				})
			}
			return bodies, func(o *sched.Outcome) string {
				d.now = final
				if o.Panic != nil {
					return fmt.Sprintf("panic: %v\n%s", o.Panic, o.Stack)
				}
				outcome = ""
				last := ask(srv, "/")
				for i := range answers {
					for k, a := range answers[i] {
						req := threads[i][k]
						// the versions of each file during the request
						during := map[string][]string{}
						cur := start
						note := func(s c22State) {
							for _, f := range c22Order {
								v := s.get(f)
								known := false
								for _, x := range during[f] {
									known = known || x == v
								}
								if !known {
									during[f] = append(during[f], v)
								}
							}
						}
						for _, ev := range events {
							if ev.at < a.from {
								cur = ev.s
							}
						}
						note(cur)
						for _, ev := range events {
							if ev.at >= a.from && ev.at <= a.to {
								note(ev.s)
							}
						}
						ok := false
						var allowed []string
						for _, vi := range during["index.lit"] {
							for _, va := range during["a.lit"] {
								for _, vb := range during["bold.tmpl"] {
									for _, vt := range during["italic.tmpl"] {
										s := c22State{vi, va, vb, vt}
										w := d.expect(s, req)
										if w == a.httpAnswer || (w.code >= 500 && a.code >= 500 && a.body != "" && len(events) > 0) {
											ok = true
										}
										allowed = append(allowed, fmt.Sprintf("%v: %d %q", s, w.code, clip(w.body, 600)))
									}
								}
							}
						}
						outcome += fmt.Sprintf("%d ", a.code)
						if !ok {
							return fmt.Sprintf("request %d of thread %d (GET %s, from %d to %d) is answered %d %s %q; it may be\n%s", k+1, i, req, a.from, a.to, a.code, a.kind, clip(a.body, 600), strings.Join(allowed, "\n"))
						}
					}
				}
				if want := d.expect(final, "/"); last != want {
					return fmt.Sprintf("afterwards GET / is answered %d %q, a new server's answer is %d %q", last.code, clip(last.body, 1500), want.code, clip(want.body, 1500))
				}
				return ""
			}
		},
	})
}

// unusedNames gives names that no document before had: one for functions, by
// more hyphens, and one for everything else.
func unusedNames(n int) (fn, name string) {
	fn = strings.Repeat("-", n%12) + "bold" + strings.Repeat("-", n/12%12) + " \\table" + strings.Repeat("-", 1+n/144%12) + "of" + strings.Repeat("-", 1+n/1728%12) + "contents"
	for i := 0; i < 4; i++ {
		name += string(rune('a' + n%26))
		n /= 26
	}
	return fn, name
}

var unusedCount int

// newScene: requests to a server of a site whose files and names are new every
// time, so that nothing of it is known when they arrive.
func (d *c22Driver) newScene(files map[string]string, threads []string, bound, slices, raceBound int) {
	site, outcome := "", ""
	d.e.explore(scenario{
		key: fmt.Sprintf("new names in %q, requests %q", files, threads), bound: bound, slices: slices, raceBound: raceBound, raceSlices: 1, fs: true,
		outcome: func() string { return outcome },
		setup: func() ([]func(), func(*sched.Outcome) string) {
			if site != "" {
				_ = os.RemoveAll(site)
			}
			unusedCount++
			fn, name := unusedNames(unusedCount)
			site = filepath.Join(d.e.Dir, "c22-new", name)
			fill := strings.NewReplacer("<F>", "\\"+fn, "<N>", name)
			for f, t := range files {
				p := filepath.Join(site, fill.Replace(f))
				_ = os.MkdirAll(filepath.Dir(p), 0755)
				if err := os.WriteFile(p, []byte(fill.Replace(t)), 0644); err != nil {
					panic(err)
				}
			}
			server := func() *booklitcmd.Server {
				return &booklitcmd.Server{In: filepath.Join(site, "index.lit"), Processor: &load.Processor{}, Templates: filepath.Join(site, "t"), Engine: render.NewHTMLEngine(), FileServer: d.fs}
			}
			srv := server()
			answers := make([]httpAnswer, len(threads))
			var bodies []func()
			for i, r := range threads {
				i, r := i, fill.Replace(r)
				bodies = append(bodies, func() { answers[i] = ask(srv, r) })
			}
			return bodies, func(o *sched.Outcome) string {
				if o.Panic != nil {
					return fmt.Sprintf("panic: %v\n%s", o.Panic, o.Stack)
				}
				outcome = ""
				for i, a := range answers {
					if want := ask(server(), fill.Replace(threads[i])); a != want {
						return fmt.Sprintf("GET %s is answered %d %q, a new server's answer is %d %q", fill.Replace(threads[i]), a.code, clip(a.body, 1500), want.code, clip(want.body, 1500))
					}
					outcome += fmt.Sprintf("%d ", a.code)
				}
				return ""
			}
		},
	})
	if site != "" {
		_ = os.RemoveAll(site)
	}
}

func runC22(e *Env) {
	logrus.SetLevel(logrus.PanicLevel) // the logger's lock would order the threads
	logrus.SetOutput(io.Discard)
	d := newC22Driver(e)
	v1 := c22State{"v1", "v1", "v1", "gone"}
	b := 2
	if e.Thorough {
		b = 3
	}
	tmpls := map[string]string{"t/st<N>.tmpl": "S[{{.Body | render}}]", "t/st<N>-page.tmpl": "P[{{. | render}}]", "t/bold.tmpl": "B<N>[{{.Content | render}}]"}
	site := func(index, sub string) map[string]string {
		m := map[string]string{"index.lit": index, "s<N>.lit": sub}
		for f, t := range tmpls {
			m[f] = t
		}
		return m
	}
	news := []map[string]string{
		site("\\title{Home <N>}{index}\n\n\\split-sections\n\n\\styled{st<N>}\n\n\\set-partial{p<N>}{x}\n\n<F>\n\n\\reference{<N>}\n\n\\include-section{s<N>.lit}\n", "\\title{S & T <N>}{<N>}\n\n<F> \\target{t<N>}{T} \\reference{t<N>} {- <N> -}\n"),
		site("\\title{Home <N>}{index}\n\n\\include-section{s<N>.lit}\n\n\\reference{t<N>x}\n", "\\title{S <N>}\n\n<F> \\target{t<N>}{T}\n"),
		site("\\title{Home <N>}{index}\n\n\\f<N>{x}\n", "x"),
		site("\\title{Home <N>}{index}\n\n\\use-plugin{p<N>}\n", "x"),
		site("\\title{Home <N>}{index}\n\n\\use-plugin{sy}\n\n\\styled{none<N>}\n\n\\later{<N>} {<N>\n", "x"),
	}
	e.Bound("%d sites whose files, functions, tags, titles, styles and templates are never seen before, two concurrent requests, one of another page or not: at most %d preemptions, 1 with the race detector", len(news), b-1)
	for _, n := range news {
		for _, rs := range [][]string{{"/", "/"}, {"/", "/<N>.html"}} {
			d.newScene(n, rs, b-1, 8, 1)
		}
	}
	starts := []c22State{v1, v1.with("index.lit", "v2"), v1.with("index.lit", "broken"), v1.with("index.lit", "badref"), v1.with("a.lit", "broken"), v1.with("bold.tmpl", "broken"), v1.with("bold.tmpl", "gone"), v1.with("a.lit", "gone"), v1.with("index.lit", "gone"), v1.with("italic.tmpl", "v1")}
	e.Bound("no editor: %d states of the site, cold and after a request, two concurrent requests over {/, /a.html, /static.txt, /nosuch.html}; three concurrent requests; two threads of two requests: all interleavings with at most %d preemptions at locks, file operations and plugin functions (three threads: %d)", len(starts), b, b-1)
	for _, s := range starts {
		for _, warm := range [][]string{nil, {"/"}} {
			for _, rs := range [][2]string{{"/", "/"}, {"/", "/a.html"}, {"/a.html", "/a.html"}, {"/", "/static.txt"}, {"/a.html", "/nosuch.html"}} {
				if rs[1] != "/" && rs[1] != "/a.html" && s != v1 {
					continue
				}
				d.scene(s, warm, [][]string{{rs[0]}, {rs[1]}}, nil, b, 8, 1)
			}
		}
	}
	for _, s := range []c22State{v1, v1.with("index.lit", "v2"), v1.with("index.lit", "badref")} {
		d.scene(s, nil, [][]string{{"/"}, {"/a.html"}, {"/"}}, nil, b-1, 8, 0)
		d.scene(s, nil, [][]string{{"/", "/a.html"}, {"/a.html", "/"}}, nil, b-1, 8, 0)
	}
	edits := [][]c22Edit{
		{{"index.lit", "v2"}},
		{{"a.lit", "v2"}},
		{{"bold.tmpl", "v2"}},
		{{"bold.tmpl", "gone"}},
		{{"italic.tmpl", "v1"}},
		{{"a.lit", "v2"}, {"a.lit", "v1"}},
		{{"index.lit", "v2"}, {"index.lit", "v1"}},
		{{"bold.tmpl", "v2"}, {"bold.tmpl", "v1"}},
		{{"index.lit", "broken"}, {"index.lit", "v2"}},
		{{"bold.tmpl", "broken"}, {"bold.tmpl", "v1"}},
		{{"a.lit", "gone"}, {"a.lit", "v2"}},
		{{"bold.tmpl", "gone"}, {"bold.tmpl", "v2"}},
		{{"index.lit", "v2"}, {"a.lit", "v2"}},
		{{"a.lit", "v2"}, {"bold.tmpl", "v2"}},
	}
	e.Bound("with an editor: %d sequences of one or two edits, including restored versions, during one request (at most %d preemptions) or two (at most %d), cold and after a request; a last request follows", len(edits), b+1, b)
	for _, x := range edits {
		for _, warm := range [][]string{nil, {"/"}} {
			d.scene(v1, warm, [][]string{{"/"}}, x, b+1, 8, 0)
			d.scene(v1, warm, [][]string{{"/"}, {"/a.html"}}, x, b-1, 8, 0)
			if e.Thorough {
				d.scene(v1, warm, [][]string{{"/"}, {"/"}}, x, b-1, 16, -1)
			}
		}
	}
}
