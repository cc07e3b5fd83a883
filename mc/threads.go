//go:build sched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/vito/booklit"
	"verifmc/sched"
)

// A scenario is a closed system of a few threads.
type scenario struct {
	key    string
	bound  int // preemptions
	slices int
	// under the race detector, which needs few of the schedules; bound -1: none
	raceBound, raceSlices int
	fs                    bool
	// setup prepares one execution and returns the threads and the oracle.
	setup func() ([]func(), func(*sched.Outcome) string)
	// nondet: outcomes are collected under these names
	outcome func() string
}

func init() {
	booklit.RegisterPlugin("sy", func(s *booklit.Section) booklit.Plugin { return &sy{s} })
}

// sy is a plugin whose functions let other threads go on.
type sy struct{ s *booklit.Section }

func (p *sy) Pause(c booklit.Content) booklit.Content {
	sched.Point("pause")
	return c
}

func (p *sy) Later(c booklit.Content) booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) {
		sched.Point("later")
		return c, nil
	})
}

func raceReport(e *Env) string {
	files, _ := filepath.Glob(filepath.Join(e.Dir, "race.*"))
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	return ""
}

func describe(o *sched.Outcome) string {
	var b strings.Builder
	last := -1
	for _, s := range o.Steps {
		if s.Choice != last {
			fmt.Fprintf(&b, " [%d]", s.Choice)
			last = s.Choice
		}
		fmt.Fprintf(&b, " %s", s.Name)
	}
	return b.String()
}

// explore decides one scenario, slice by slice.
func (e *Env) explore(s scenario) {
	if raceOn {
		s.bound, s.slices = s.raceBound, s.raceSlices
		s.key += " under the race detector"
	}
	if s.bound < 0 {
		return
	}
	for slice := 0; slice < s.slices; slice++ {
		if !e.Mine() {
			continue
		}
		var failing []int
		failed := false
		e.Exec(fmt.Sprintf("%s #%d/%d bound=%d", s.key, slice, s.slices, s.bound), func() string {
			msg := ""
			one := func(prefix []int) (*sched.Outcome, bool) {
				bodies, judge := s.setup()
				before := raceErrors()
				o := sched.Execute(bodies, prefix, s.fs, nil)
				e.beat()
				e.Trans(len(o.Steps))
				switch {
				case o.Diverged:
					e.Count("diverged", 1)
					e.res.Complete = false
					return o, true
				case o.Truncate:
					msg = "does not end"
				case o.Deadlock != "":
					msg = o.Deadlock
				default:
					msg = judge(o)
				}
				if msg == "" && raceErrors() != before {
					msg = "data race\n" + raceReport(e)
				}
				if msg == "" {
					if s.outcome != nil {
						e.Count("outcome: "+s.outcome(), 1)
					}
					if !e.stopped && time.Now().After(e.deadline) {
						e.stopped = true
						e.res.Complete = false
						return o, false
					}
					return o, true
				}
				msg += "\nschedule:" + describe(o)
				failing = failing[:0]
				for _, x := range o.Steps {
					failing = append(failing, x.Choice)
				}
				failed = true
				return o, false
			}
			if failed {
				one(append([]int{}, failing...))
				return msg
			}
			n, _ := sched.Explore(s.bound, slice, s.slices, one)
			if raceOn {
				e.Count("schedules_with_race_detector", int64(n))
			} else {
				e.Count("schedules", int64(n))
			}
			return msg
		})
	}
}
