//go:build sched

package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"verifmc/sched"
)

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Rule: "a schedule is an interleaving of threads asking for one deferred content under a controlled scheduler; results and the number of runs are checked on each, under the race detector", Run: runC20, QuickBudget: 120})
}

type lazyAnswer struct {
	text  string
	err   string
	panic string
	at    int // decisions taken when it was given
}

// lazyAskers are the ways to ask.
var lazyAskers = map[byte]func(l *booklit.Lazy, sec func() *booklit.Section) (string, error){
	'f': func(l *booklit.Lazy, _ func() *booklit.Section) (string, error) {
		c, err := l.Force()
		if err != nil {
			return "", err
		}
		if c == nil {
			return "nothing", nil
		}
		return c.String(), nil
	},
	'h': func(l *booklit.Lazy, sec func() *booklit.Section) (string, error) {
		var b bytes.Buffer
		err := render.NewHTMLEngine().RenderSection(&b, sec())
		return b.String(), err
	},
	't': func(l *booklit.Lazy, sec func() *booklit.Section) (string, error) {
		var b bytes.Buffer
		err := render.NewTextEngine("txt").RenderSection(&b, sec())
		return b.String(), err
	},
}

func lazySection(c booklit.Content) *booklit.Section {
	s := &booklit.Section{Title: booklit.String("T"), Body: booklit.Paragraph{booklit.Sequence{booklit.String("x"), c}}, Path: "index.lit"}
	s.SetTitle(booklit.String("T"), s.Location, "t")
	return s
}

func runC20(e *Env) {
	expect := map[string]string{}
	askDirect := func(how byte, c booklit.Content) string {
		k := string(how) + c.String()
		if v, ok := expect[k]; ok {
			return v
		}
		v := c.String()
		if how != 'f' {
			var err error
			v, err = lazyAskers[how](nil, func() *booklit.Section { return lazySection(c) })
			if err != nil {
				panic(err)
			}
		}
		expect[k] = v
		return v
	}
	content := func(run int) booklit.Content {
		return booklit.Sequence{booklit.String("run "), booklit.String(fmt.Sprint(run))}
	}
	one := func(kind string, block bool, askers string, yields, bound int) {
		outcome := ""
		e.explore(scenario{
			key: fmt.Sprintf("%s block=%v askers=%s yields=%d", kind, block, askers, yields), bound: bound, slices: len(askers) * len(askers) * len(askers), raceBound: 1, raceSlices: 1,
			outcome: func() string { return outcome },
			setup: func() ([]func(), func(*sched.Outcome) string) {
				n := len(askers)
				runs := make([]int, n)   // by thread
				endAt := make([]int, n)  // decisions when its run ended
				began := make([]bool, n) // a run began in the thread
				fn := func() (booklit.Content, error) {
					id := sched.ID()
					runs[id]++
					began[id] = true
					for i := 0; i < yields; i++ {
						sched.Point("in the function")
					}
					endAt[id] = sched.Steps()
					switch kind {
					case "fails":
						return nil, errors.New("failure " + fmt.Sprint(id))
					case "panics":
						panic("panic " + fmt.Sprint(id))
					case "nothing":
						return nil, nil
					case "content and error":
						return content(id), errors.New("failure " + fmt.Sprint(id))
					}
					return content(id), nil
				}
				mk := booklit.LazyFlow
				if block {
					mk = booklit.LazyBlock
				}
				lazy := mk(fn)
				if kind == "nested" {
					inner := mk(fn)
					lazy = mk(func() (booklit.Content, error) { return inner.Force() })
				}
				sec := lazySection(lazy)
				answers := make([][]lazyAnswer, n)
				var bodies []func()
				for i := range askers {
					i := i
					bodies = append(bodies, func() {
						for k := 0; k < 2; k++ {
							if k > 0 && askers[i] != 'f' && kind != "panics" {
								break
							}
							answers[i] = append(answers[i], func() (a lazyAnswer) {
								defer func() {
									if r := recover(); r != nil {
										a.panic = fmt.Sprint(r)
									}
									a.at = sched.Steps()
								}()
								s, err := lazyAskers[askers[i]](lazy, func() *booklit.Section { return sec })
								a.text = s
								if err != nil {
									a.err = err.Error()
								}
								return a
							}())
							sched.Point("asked")
						}
					})
				}
				return bodies, func(o *sched.Outcome) string {
					if o.Panic != nil {
						return fmt.Sprintf("panic: %v\n%s", o.Panic, o.Stack)
					}
					total, runner := 0, -1
					for i, r := range runs {
						total += r
						if r > 0 {
							runner = i
						}
					}
					outcome = fmt.Sprintf("run by %d", runner)
					if total != 1 {
						return fmt.Sprintf("the function ran %d times", total)
					}
					for i := range answers {
						for k, a := range answers[i] {
							who := fmt.Sprintf("asker %d (%c), question %d", i, askers[i], k+1)
							if a.at < endAt[runner] {
								return who + " is answered before the function has ended"
							}
							failure := "failure " + fmt.Sprint(runner)
							switch kind {
							case "fails", "content and error":
								if a.panic != "" || a.err == "" || !contains(a.err, failure) {
									return fmt.Sprintf("%s gets %+v, not the error %q", who, a, failure)
								}
							case "panics":
								if a.panic == "" && a.err == "" {
									return fmt.Sprintf("%s gets %q though the function panicked", who, a.text)
								}
							case "nothing":
								want := askDirect(askers[i], booklit.Empty)
								if a.panic != "" || a.err != "" || a.text != want && a.text != "nothing" {
									return fmt.Sprintf("%s gets %+v, not %q", who, a, want)
								}
							default:
								if want := askDirect(askers[i], content(runner)); a.panic != "" || a.err != "" || a.text != want {
									return fmt.Sprintf("%s gets %+v, not %q", who, a, want)
								}
							}
						}
					}
					return ""
				}
			},
		})
	}
	// force the expected renderings before any thread runs
	for _, how := range []byte("fht") {
		for i := 0; i < 4; i++ {
			askDirect(how, content(i))
		}
		askDirect(how, booklit.Empty)
	}
	kinds := []string{"succeeds", "fails", "panics", "content and error", "nothing", "nested"}
	direct, rendered := 4, 2
	if e.Thorough {
		direct, rendered = 8, 4
	}
	e.Bound("functions that succeed, fail, panic, return both or neither, or force another; 1 to 3 askers, each asking twice directly, or once through the HTML engine or the text engine; function bodies with 0 to 2 points; all interleavings with at most %d preemptions (when rendering: %d)", direct, rendered)
	for _, kind := range kinds {
		for _, block := range []bool{false, true} {
			for yields := 0; yields <= 2; yields++ {
				for _, askers := range []string{"f", "ff"} {
					one(kind, block, askers, yields, direct)
				}
			}
			for _, askers := range []string{"h", "t", "fh", "hh", "tt", "ht", "hf"} {
				one(kind, block, askers, 1, rendered)
			}
		}
		one(kind, false, "fff", 1, direct-1)
		one(kind, false, "fhf", 1, rendered)
		one(kind, false, "hth", 1, rendered)
	}
	e.Bound("contents in which 1..40 deferred contents stand side by side or force each other, asked 3 times each way")
	for n := 1; n <= 40; n++ {
		for shape := 0; shape < 4; shape++ {
			for _, order := range []string{"fff", "hhh", "ttt", "fht", "htf", "thf"} {
				n, shape := n, shape
				e.Each(fmt.Sprintf("%d deferred contents, shape %d, asked %s", n, shape, order), func() string {
					e.Trans(n)
					runs := make([]int, n)
					lazies := make([]*booklit.Lazy, n)
					failing := -1
					if shape == 3 {
						failing = n / 2
					}
					for i := n - 1; i >= 0; i-- {
						i := i
						fn := func() (booklit.Content, error) {
							runs[i]++
							if i == failing {
								return nil, errors.New("failure")
							}
							if shape%2 == 1 && i < n-1 { // forces the next
								return lazies[i+1].Force()
							}
							if shape == 2 && i < n-1 { // contains it
								return booklit.Sequence{booklit.String("a"), lazies[i+1]}, nil
							}
							return content(i), nil
						}
						lazies[i] = booklit.LazyFlow(fn)
						if i%2 == 1 {
							lazies[i] = booklit.LazyBlock(fn)
						}
					}
					top := lazies[0]
					if shape == 0 {
						all := booklit.Sequence{}
						for _, l := range lazies {
							all = append(all, l)
						}
						top = booklit.LazyFlow(func() (booklit.Content, error) {
							for _, l := range lazies {
								if _, err := l.Force(); err != nil {
									return nil, errors.New("failure")
								}
							}
							return all, nil
						})
					}
					answers := map[byte]string{}
					for _, how := range []byte(order) {
						got, err := lazyAskers[how](top, func() *booklit.Section { return lazySection(top) })
						if (err != nil) != (failing >= 0) {
							return fmt.Sprintf("asked %c: %q %v", how, got, err)
						}
						if err != nil {
							got = err.Error()
						}
						if a, ok := answers[how]; ok && a != got {
							return fmt.Sprintf("asked %c again: %q, before %q", how, got, a)
						}
						answers[how] = got
						if how != 'f' && err == nil && !contains(got, content(n-1).String()) {
							return fmt.Sprintf("asked %c: %q lacks the last content", how, got)
						}
					}
					for i, r := range runs {
						want := 1
						if failing >= 0 && i > failing || order == "fff" && shape == 2 && i > 0 {
							want = 0
						}
						if r != want {
							return fmt.Sprintf("function %d ran %d times, expected %d", i, r, want)
						}
					}
					return ""
				})
			}
		}
	}
}
