// Package time is the standard time, except that within a controlled run the
// clock is the run's and timers start when the scheduler decides.
package time

import (
	std "time"

	"verifmc/sched"
)

var epoch = std.Date(2020, 1, 1, 0, 0, 0, 0, std.UTC)

func Now() Time {
	if n, ok := sched.Now(); ok {
		return epoch.Add(Duration(n))
	}
	return std.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

type Timer struct {
	C  <-chan Time
	t  *std.Timer
	st *sched.Timer
	f  func()
}

func AfterFunc(d Duration, f func()) *Timer {
	if st := sched.After(int64(d), f); st != nil {
		return &Timer{st: st, f: f}
	}
	return &Timer{t: std.AfterFunc(d, f)}
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	f := func() {
		select {
		case c <- Now():
		default:
		}
	}
	if st := sched.After(int64(d), f); st != nil {
		return &Timer{C: c, st: st, f: f}
	}
	t := std.NewTimer(d)
	return &Timer{C: t.C, t: t}
}

func (t *Timer) Stop() bool {
	if t.st != nil {
		return t.st.Stop()
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.st != nil {
		was := t.st.Stop()
		if st := sched.After(int64(d), t.f); st != nil {
			t.st = st
		}
		return was
	}
	return t.t.Reset(d)
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func Sleep(d Duration) {
	if sched.Point("Sleep") {
		return
	}
	std.Sleep(d)
}
