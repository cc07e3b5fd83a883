//go:build sched

package main

import (
	"errors"
	"fmt"
	"io"
	realos "os"
	"path/filepath"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"verifmc/sched"
	simos "verifmc/shim/os"
)

func init() {
	booklit.RegisterPlugin("mon", func(s *booklit.Section) booklit.Plugin { return &mon{s} })
	register(&Check{ID: "C30", Level: "model_checking", Rule: "a schedule is an interleaving of loads and of the monitors of their calls, which may fire at any time, under a controlled scheduler; results are compared with loads without monitors", Run: runC30, QuickBudget: 200})
}

// A monEvent is the start or the end of a plugin function's body.
type monEvent struct {
	call string // file:line
	end  bool
	at   int

	// the monitors at the start of the body: how long those take that are set,
	// and how many have begun
	set   []int64
	begun int
}

type monWarning struct {
	call string
	at   int
	late bool // after its load returned
}

type monLoad struct {
	events   []monEvent
	warnings []monWarning
	over     bool
	pending  int
	section  *booklit.Section
	failure  string
}

var monLoads []*monLoad

func monNow() *monLoad {
	if i := sched.Owner(); i >= 0 && i < len(monLoads) {
		return monLoads[i]
	}
	return nil
}

type mon struct{ s *booklit.Section }

func (p *mon) run() func() {
	call := fmt.Sprintf("%s:%d", filepath.Base(p.s.FilePath()), p.s.InvokeLocation.Line)
	if m := monNow(); m != nil {
		set, begun := sched.Timers()
		m.events = append(m.events, monEvent{call, false, sched.Steps(), set, begun})
	}
	sched.Point("working")
	return func() {
		if m := monNow(); m != nil {
			m.events = append(m.events, monEvent{call: call, end: true, at: sched.Steps()})
		}
	}
}

func (p *mon) Work(c booklit.Content) booklit.Content {
	defer p.run()()
	return booklit.Sequence{booklit.String("<"), c, booklit.String(">")}
}

func (p *mon) Quiet(args ...string) { defer p.run()() }

func (p *mon) Fail() (booklit.Content, error) {
	defer p.run()()
	return nil, errors.New("it failed")
}

func (p *mon) Pretty() error {
	defer p.run()()
	return booklit.UnknownTagError{TagName: "pretty", ErrorLocation: booklit.ErrorLocation{FilePath: p.s.FilePath(), NodeLocation: p.s.InvokeLocation, Length: 3}}
}

func (p *mon) Panic() {
	defer p.run()()
	panic("it panicked")
}

// monHook records the warnings.
type monHook struct{}

func (monHook) Levels() []logrus.Level { return []logrus.Level{logrus.WarnLevel} }

func (monHook) Fire(entry *logrus.Entry) error {
	if !strings.Contains(entry.Message, "still running") {
		return nil
	}
	m := monNow()
	if m == nil {
		return nil
	}
	sched.Point("warning")
	call := filepath.Base(entry.Message)
	if i := strings.Index(call, ": "); i > 0 {
		call = call[:i]
	}
	m.warnings = append(m.warnings, monWarning{call, sched.Steps(), m.over})
	return nil
}

// monDocs are documents with their calls, one a line.
var monDocs = []struct {
	name  string
	files map[string]string
	order []string // calls that follow one another

	within map[string]int // how many calls a call is within
}{
	{"one call", map[string]string{"main.lit": "\\work{a}\n"}, nil, nil},
	{"two calls", map[string]string{"main.lit": "\\work{a}\n\\work{b}\n"}, []string{"main.lit:1", "main.lit:2"}, nil},
	{"paragraphs", map[string]string{"main.lit": "\\work{a}\n\n\\quiet{x}{y}\n\n\\work{b}\n"}, []string{"main.lit:1", "main.lit:3", "main.lit:5"}, nil},
	{"nested", map[string]string{"main.lit": "\\work{\n\\work{b}\n}\n"}, nil, map[string]int{"main.lit:2": 1}},
	{"failing", map[string]string{"main.lit": "\\work{a}\n\n\\fail\n\nrest\n"}, []string{"main.lit:1", "main.lit:3"}, nil},
	{"failing argument", map[string]string{"main.lit": "\\work{\n\\fail\n}\n"}, nil, map[string]int{"main.lit:2": 1}},
	{"pretty", map[string]string{"main.lit": "\\work{a}\n\n\\pretty\n"}, []string{"main.lit:1", "main.lit:3"}, nil},
	{"panicking", map[string]string{"main.lit": "\\work{a}\n\n\\panic\n"}, []string{"main.lit:1", "main.lit:3"}, nil},
	{"panicking argument", map[string]string{"main.lit": "\\work{\n\\panic\n}\n"}, nil, map[string]int{"main.lit:2": 1}},
	{"undefined", map[string]string{"main.lit": "\\work{\n\\nosuch\n}\n"}, nil, nil},
	{"arity", map[string]string{"main.lit": "\\work{a}\n\\work{a}{b}\n"}, nil, nil},
	{"inline section", map[string]string{"main.lit": "\\work{a}\n\n\\section{\n\\title{S}\n\n\\work{b}\n}\n"}, []string{"main.lit:1", "main.lit:6"}, map[string]int{"main.lit:6": 1}},
	{"included section", map[string]string{"main.lit": "\\include-section{sub.lit}\n\n\\work{a}\n", "sub.lit": "\\title{Sub}\n\n\\use-plugin{mon}\n\n\\work{b}\n"}, []string{"sub.lit:5", "main.lit:3"}, map[string]int{"sub.lit:5": 1}},
	{"failing section", map[string]string{"main.lit": "\\section{\n\\title{S}\n\n\\fail\n}\n"}, nil, map[string]int{"main.lit:4": 1}},
	{"deep", map[string]string{"main.lit": "\\work{\n\\work{\n\\work{c}\n}\n}\n"}, nil, map[string]int{"main.lit:2": 1, "main.lit:3": 2}},
	{"string argument", map[string]string{"main.lit": "\\quiet{a}{x\n\\work{\n\\work{c}\n}}\n"}, nil, map[string]int{"main.lit:2": 1, "main.lit:3": 2}},
	{"list", map[string]string{"main.lit": "\\list{\n\\work{a}\n}{\n\\work{b}\n}\n"}, []string{"main.lit:2", "main.lit:4"}, map[string]int{"main.lit:2": 1, "main.lit:4": 1}},
	{"section in a section", map[string]string{"main.lit": "\\section{\n\\title{S}\n\n\\section{\n\\bold{\n\\work{a}\n}\n}\n}\n"}, nil, map[string]int{"main.lit:6": 3}},
	{"sections included by included ones", map[string]string{"main.lit": "\\include-section{sub.lit}\n", "sub.lit": "\\section{\n\\include-section{sub2.lit}\n}\n", "sub2.lit": "\\use-plugin{mon}\n\n\\work{b}\n"}, nil, map[string]int{"sub2.lit:3": 3}},
	{"preformatted", map[string]string{"main.lit": "\\code{{\n  x\n  \\work{{\n    \\work{b}\n  }}\n}}\n"}, nil, map[string]int{"main.lit:3": 1, "main.lit:4": 2}},
}

func runC30(e *Env) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel) // the logger's lock would order the threads
	if !raceOn {
		logrus.SetLevel(logrus.WarnLevel)
		logrus.AddHook(monHook{})
	}
	null, err := realos.OpenFile(realos.DevNull, realos.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	simos.Stderr = &simos.File{File: null}
	one := func(doc int, loads int, same bool, threshold time.Duration, bound, slices, raceBound int) {
		d := monDocs[doc]
		dir := filepath.Join(e.Dir, "c30", fmt.Sprint(doc))
		_ = realos.MkdirAll(dir, 0755)
		for n, t := range d.files {
			if err := realos.WriteFile(filepath.Join(dir, n), []byte(t), 0644); err != nil {
				panic(err)
			}
		}
		factories := []booklit.PluginFactory{baselit.NewPlugin, func(s *booklit.Section) booklit.Plugin { return &mon{s} }}
		do := func(p *load.Processor) (sec *booklit.Section, out string) {
			defer func() {
				if r := recover(); r != nil {
					out = fmt.Sprintf("panic: %v", r)
				}
			}()
			s, err := p.LoadFile(filepath.Join(dir, "main.lit"), factories)
			if err != nil {
				return nil, fmt.Sprintf("%T: %s", err, err)
			}
			return s, ""
		}
		shown := func(sec *booklit.Section, out string) string {
			if sec != nil {
				return dumpReal(sec, false)
			}
			return out
		}
		monLoads = nil
		want := shown(do(&load.Processor{}))
		outcome := ""
		e.explore(scenario{
			key: fmt.Sprintf("%s, %d loads, one processor=%v, threshold %s", d.name, loads, same, threshold), bound: bound, slices: slices, raceBound: raceBound, raceSlices: 1,
			outcome: func() string { return outcome },
			setup: func() ([]func(), func(*sched.Outcome) string) {
				shared := &load.Processor{SlowInvokeThreshold: threshold}
				monLoads = nil
				var bodies []func()
				for i := 0; i < loads; i++ {
					m := &monLoad{}
					monLoads = append(monLoads, m)
					bodies = append(bodies, func() {
						p := shared
						if !same {
							p = &load.Processor{SlowInvokeThreshold: threshold}
						}
						m.section, m.failure = do(p)
						m.pending = sched.Pending()
						m.over = true
						sched.Point("loaded")
					})
				}
				return bodies, func(o *sched.Outcome) string {
					if o.Panic != nil {
						return fmt.Sprintf("panic: %v\n%s", o.Panic, o.Stack)
					}
					warned := 0
					for i, m := range monLoads {
						if got := shown(m.section, m.failure); got != want {
							return fmt.Sprintf("load %d gives\n%s\nwithout a threshold it is\n%s", i, got, want)
						}
						if m.pending > 0 {
							return fmt.Sprintf("%d monitors are still pending when load %d has returned", m.pending, i)
						}
						if msg := judgeMonitors(m, d.within, threshold); msg != "" {
							return fmt.Sprintf("load %d: %s\nevents %+v", i, msg, m.events)
						}
						if msg := judgeWarnings(m, d.order); msg != "" {
							return fmt.Sprintf("load %d: %s\nevents %+v\nwarnings %+v", i, msg, m.events, m.warnings)
						}
						warned += len(m.warnings)
					}
					if o.Pending > 0 {
						return fmt.Sprintf("%d monitors are still pending at the end", o.Pending)
					}
					outcome = fmt.Sprintf("%d warnings", warned)
					return ""
				}
			},
		})
	}
	b, b2 := 4, 2
	if e.Thorough {
		b, b2 = 5, 3
	}
	e.Bound("%d documents (nested, failing, panicking, undefined and miscounted calls, inline and included sections); one load: all interleavings of it and its monitors with at most %d monitors fired or preemptions; two loads with one or two processors: %d; one less for the last %d documents", len(monDocs), b, b2, len(monDocs)-15)
	for doc := range monDocs {
		b, b2 := b, b2
		if doc >= 15 {
			b, b2 = b-1, b2-1
		}
		one(doc, 1, true, 1, b, 8, 2)
		one(doc, 1, true, time.Hour, b-1, 8, -1)
		for _, same := range []bool{true, false} {
			one(doc, 2, same, time.Second, b2, 8, 1)
		}
	}
}

// judgeMonitors decides whether each call is monitored while it runs, along
// with those it is within.
func judgeMonitors(m *monLoad, within map[string]int, threshold time.Duration) string {
	for _, ev := range m.events {
		if ev.end || ev.begun > 0 {
			continue
		}
		n := 0
		for _, d := range ev.set {
			if d == int64(threshold) {
				n++
			}
		}
		if n < within[ev.call]+1 {
			return fmt.Sprintf("%s runs within %d calls, and monitors are set after %v; there should be %d after %s", ev.call, within[ev.call], ev.set, within[ev.call]+1, threshold)
		}
	}
	return ""
}

// judgeWarnings decides whether each warning was for a call that was running.
func judgeWarnings(m *monLoad, order []string) string {
	seen := map[string]int{}
	for _, w := range m.warnings {
		if w.late {
			return "a warning for " + w.call + " is given after the load has returned"
		}
		if seen[w.call]++; seen[w.call] > 1 {
			return "two warnings for one call, " + w.call
		}
		// the call is over once something happens after its body has ended
		for i, ev := range m.events {
			if ev.call == w.call && ev.end && i+1 < len(m.events) && m.events[i+1].at < w.at {
				return fmt.Sprintf("a warning for %s is given although %s is already running", w.call, m.events[i+1].call)
			}
		}
		// and does not begin before those before it have ended
		for i := 1; i < len(order); i++ {
			if order[i] != w.call {
				continue
			}
			before := false
			for _, ev := range m.events {
				before = before || (ev.call == order[i-1] && ev.end && ev.at <= w.at)
			}
			if !before {
				return fmt.Sprintf("a warning for %s is given before it runs", w.call)
			}
		}
	}
	return ""
}
