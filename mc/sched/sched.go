// Package sched runs a few threads under a controlled scheduler. Exactly one
// thread runs at a time; before each visible operation it hands control back,
// and the controller decides who goes on.
//
// The hand-over uses the runtime's semaphores directly and touches shared
// fields only in functions the race detector does not see, so that it adds no
// happens-before edges: races between threads stay visible to the detector
// whichever schedule runs.
package sched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(labels unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

const maxThreads = 64

// A Res is the state of something threads wait for.
type Res struct {
	Held    bool
	Readers int
	Count   int // of a wait group
	Signals int // of a condition
	run     *run
}

// What a thread does when it goes on.
const (
	OpPoint = iota // nothing to wait for
	OpLock
	OpRLock
	OpWaitZero // Count is 0
	OpSignal   // Signals > 0
)

type Thread struct {
	labels [4]uintptr // looks like an empty label set to the runtime
	magic  uint64
	run    *run
	id     int
	sem    uint32

	op    int
	res   *Res
	name  string
	path  string
	done  bool
	start bool // has been resumed at least once

	timer   bool
	parent  int // of a timer: who set it
	stopped bool
	quit    bool
	at      int64
	wait    int64
	panicky interface{}
	stack   string
}

const magic = 0x5ced_5ced_0001

type run struct {
	ctl     uint32
	threads [maxThreads]*Thread
	n       int
	now     int64
	steps   int
	fs      bool
	over    bool
	tooMany bool
	wg      sync.WaitGroup // lets the caller see what the threads did
}

//go:norace
func current() *Thread {
	p := getLabel()
	if p == nil {
		return nil
	}
	t := (*Thread)(p)
	if t.magic != magic || t.run == nil || t.run.over {
		return nil
	}
	return t
}

// Managed reports whether the caller is a thread of a run in progress.
func Managed() bool { return current() != nil }

// ID gives the caller's thread number, or -1.
//
//go:norace
func ID() int {
	if t := current(); t != nil {
		return t.id
	}
	return -1
}

// Owner gives the number of the thread that set the timer that is the caller,
// or the caller's.
//
//go:norace
func Owner() int {
	t := current()
	if t == nil {
		return -1
	}
	if t.timer {
		return t.parent
	}
	return t.id
}

// Pending counts the caller's timers that are set and have not started.
//
//go:norace
func Pending() int {
	t := current()
	if t == nil {
		return 0
	}
	n := 0
	for i := 0; i < t.run.n; i++ {
		x := t.run.threads[i]
		if x.timer && x.parent == t.id && !x.start && !x.stopped && !x.done {
			n++
		}
	}
	return n
}

// Timers gives the durations of the caller's timers that are set and have not
// started, and the number of those that have.
//
//go:norace
func Timers() (set []int64, started int) {
	t := current()
	if t == nil {
		return nil, 0
	}
	for i := 0; i < t.run.n; i++ {
		x := t.run.threads[i]
		if !x.timer || x.parent != t.id {
			continue
		}
		if x.start {
			started++
		} else if !x.stopped && !x.done {
			set = append(set, x.wait)
		}
	}
	return set, started
}

// Steps gives the number of decisions taken so far.
//
//go:norace
func Steps() int {
	if t := current(); t != nil {
		return t.run.steps
	}
	return -1
}

//go:norace
func yield(t *Thread, op int, res *Res, name, path string) {
	t.op, t.res, t.name, t.path = op, res, name, path
	semrelease(&t.run.ctl, false, 0)
	semacquire(&t.sem)
}

// Stale reports whether something is still taken by a run that is over, and
// makes it free.
//
//go:norace
func Stale(r *Res) bool {
	if r.run == nil || !r.run.over || (!r.Held && r.Readers == 0) {
		return false
	}
	r.Held, r.Readers, r.run = false, 0, nil
	return true
}

// Point is a place where another thread may go on. It reports whether the
// caller is managed.
//
//go:norace
func Point(name string) bool {
	t := current()
	if t == nil {
		return false
	}
	yield(t, OpPoint, nil, name, "")
	return true
}

// FS is a point at a file operation; only runs with an editor have those.
//
//go:norace
func FS(name, path string) {
	t := current()
	if t == nil || !t.run.fs {
		return
	}
	yield(t, OpPoint, nil, name, path)
}

// Lock waits until the resource is free and takes it.
//
//go:norace
func Lock(r *Res, name string) bool {
	t := current()
	if t == nil {
		return false
	}
	yield(t, OpLock, r, name, "")
	r.Held, r.run = true, t.run
	return true
}

//go:norace
func TryLock(r *Res, name string) (managed, ok bool) {
	t := current()
	if t == nil {
		return false, false
	}
	yield(t, OpPoint, r, name, "")
	if r.Held || r.Readers > 0 {
		return true, false
	}
	r.Held, r.run = true, t.run
	return true, true
}

//go:norace
func Unlock(r *Res, name string) bool {
	t := current()
	if t == nil {
		return false
	}
	r.Held = false
	yield(t, OpPoint, r, name, "")
	return true
}

//go:norace
func RLock(r *Res, name string) bool {
	t := current()
	if t == nil {
		return false
	}
	yield(t, OpRLock, r, name, "")
	r.Readers++
	r.run = t.run
	return true
}

//go:norace
func RUnlock(r *Res, name string) bool {
	t := current()
	if t == nil {
		return false
	}
	r.Readers--
	yield(t, OpPoint, r, name, "")
	return true
}

//go:norace
func AddCount(r *Res, n int) bool {
	t := current()
	r.Count += n
	if t == nil {
		return false
	}
	yield(t, OpPoint, r, "WaitGroup.Add", "")
	return true
}

//go:norace
func WaitZero(r *Res) bool {
	t := current()
	if t == nil {
		return false
	}
	yield(t, OpWaitZero, r, "WaitGroup.Wait", "")
	return true
}

//go:norace
func Signal(r *Res, n int) bool {
	if current() == nil {
		return false
	}
	r.Signals += n
	return true
}

//go:norace
func AwaitSignal(r *Res) bool {
	t := current()
	if t == nil {
		return false
	}
	yield(t, OpSignal, r, "Cond.Wait", "")
	r.Signals--
	return true
}

// Now is the run's clock, in nanoseconds.
//
//go:norace
func Now() (int64, bool) {
	t := current()
	if t == nil {
		return 0, false
	}
	t.run.now++
	return t.run.now, true
}

// A Timer is a thread that may start at any time once it is set, unless it is
// stopped first.
type Timer struct{ t *Thread }

//go:norace
func newThread(r *run, timer bool) *Thread {
	if r.n >= maxThreads {
		r.tooMany = true
		return nil
	}
	t := &Thread{magic: magic, run: r, id: r.n, timer: timer}
	r.threads[r.n] = t
	r.n++
	return t
}

// After makes a timer; nil when the caller is not managed.
//
//go:norace
func After(d int64, f func()) *Timer {
	c := current()
	if c == nil {
		return nil
	}
	t := newThread(c.run, true)
	if t == nil {
		return &Timer{&Thread{stopped: true}}
	}
	t.name = "timer"
	t.parent = c.id
	if c.timer {
		t.parent = c.parent
	}
	t.at = c.run.now + d
	t.wait = d
	spawn(t, f)
	return &Timer{t}
}

// Stop reports whether it kept the timer from starting.
//
//go:norace
func (t *Timer) Stop() bool {
	c := current()
	if c != nil {
		yield(c, OpPoint, nil, "Timer.Stop", "")
	}
	if t.t.start || t.t.stopped {
		return false
	}
	t.t.stopped = true
	return true
}

// Go starts another thread.
//
//go:norace
func Go(f func()) {
	c := current()
	if c == nil {
		go f()
		return
	}
	t := newThread(c.run, false)
	if t == nil {
		panic("too many threads")
	}
	t.name, t.parent = "start", c.id
	spawn(t, f)
	yield(c, OpPoint, nil, "go", "")
}

func spawn(t *Thread, f func()) {
	t.run.wg.Add(1)
	go body(t, f)
}

//go:norace
func body(t *Thread, f func()) {
	setLabel(unsafe.Pointer(t))
	semacquire(&t.sem)
	if t.quit {
		t.run.wg.Done()
	} else {
		runBody(t, f)
	}
	finish(t)
}

//go:norace
func finish(t *Thread) {
	t.done = true
	if !t.quit {
		semrelease(&t.run.ctl, false, 0)
	}
}

func runBody(t *Thread, f func()) {
	defer t.run.wg.Done()
	defer func() {
		if r := recover(); r != nil {
			t.panicky, t.stack = r, string(debug.Stack())
		}
	}()
	f()
}

// --- the controller

// A State is what the controller sees of a thread.
type State struct {
	ID      int
	Done    bool
	Enabled bool
	Timer   bool
	Pending bool // a timer that has not started and may
	Name    string
	Path    string
}

//go:norace
func look(r *run, out *[maxThreads]State) int {
	for i := 0; i < r.n; i++ {
		t := r.threads[i]
		s := State{ID: i, Done: t.done, Timer: t.timer, Name: t.name, Path: t.path}
		switch {
		case t.done || t.stopped:
			s.Done = true
		case t.timer && !t.start:
			s.Enabled, s.Pending = true, true
		default:
			switch t.op {
			case OpLock:
				s.Enabled = !t.res.Held && t.res.Readers == 0
			case OpRLock:
				s.Enabled = !t.res.Held
			case OpWaitZero:
				s.Enabled = t.res.Count <= 0
			case OpSignal:
				s.Enabled = t.res.Signals > 0
			default:
				s.Enabled = true
			}
		}
		out[i] = s
	}
	return r.n
}

//go:norace
func resume(r *run, id int) {
	t := r.threads[id]
	if t.timer && !t.start && r.now < t.at {
		r.now = t.at
	}
	t.start = true
	r.steps++
	semrelease(&t.sem, false, 0)
	semacquire(&r.ctl)
}

//go:norace
func end(r *run) {
	r.over = true
	for i := 0; i < r.n; i++ {
		t := r.threads[i]
		if t.timer && !t.start {
			t.quit = true
			semrelease(&t.sem, false, 0)
		}
	}
}

//go:norace
func panics(r *run) (interface{}, string, int) {
	for i := 0; i < r.n; i++ {
		if r.threads[i].panicky != nil {
			return r.threads[i].panicky, r.threads[i].stack, i
		}
	}
	return nil, "", -1
}

// A Step is one decision.
type Step struct {
	Choice  int   // thread
	Enabled []int // threads that could have gone on, in canonical order
	Cost    []int // preemptions each would have cost
	Name    string
}

type Outcome struct {
	Steps    []Step
	Deadlock string
	Panic    interface{}
	Stack    string
	Pending  int // timers still set when all threads were done
	Diverged bool
	Truncate bool // horizon reached
}

const horizon = 20000

// Execute runs the bodies as threads. The first len(prefix) decisions are
// given; after that the running thread goes on while it can, and otherwise the
// first that can. Timers start only when the prefix says so or, if fire is
// true, when nothing else can go on. step is called before each resumption.
func Execute(bodies []func(), prefix []int, fs bool, step func(id int, name string)) *Outcome {
	r := &run{fs: fs}
	for _, f := range bodies {
		t := newThread(r, false)
		t.name = "start"
		spawn(t, f)
	}
	o := &Outcome{}
	cur := -1
	var states [maxThreads]State
	for {
		n := look(r, &states)
		var enabled, cost []int
		alive := false
		curOn := cur >= 0 && states[cur].Enabled && !states[cur].Done
		for i := 0; i < n; i++ {
			s := &states[i]
			if s.Done {
				continue
			}
			if !s.Pending {
				alive = true
			}
		}
		if !alive {
			for i := 0; i < n; i++ {
				if states[i].Pending && !states[i].Done {
					o.Pending++
				}
			}
			break
		}
		add := func(i int) {
			c := 0
			if (curOn && i != cur) || states[i].Pending {
				c = 1
			}
			enabled, cost = append(enabled, i), append(cost, c)
		}
		if curOn {
			add(cur)
		}
		for _, pending := range []bool{false, true} {
			for i := 0; i < n; i++ {
				if i != cur && !states[i].Done && states[i].Enabled && states[i].Pending == pending {
					add(i)
				}
			}
		}
		if len(enabled) == 0 || states[enabled[0]].Pending {
			blocked := ""
			for i := 0; i < n; i++ {
				if !states[i].Done && !states[i].Pending {
					blocked += fmt.Sprintf(" thread %d waits at %s", i, states[i].Name)
				}
			}
			if len(enabled) == 0 {
				o.Deadlock = "deadlock:" + blocked
				break
			}
		}
		choice := enabled[0]
		if k := len(o.Steps); k < len(prefix) {
			choice = -1
			for _, i := range enabled {
				if i == prefix[k] {
					choice = i
				}
			}
			if choice < 0 {
				o.Diverged = true
				break
			}
		}
		if len(o.Steps) >= horizon {
			o.Truncate = true
			break
		}
		o.Steps = append(o.Steps, Step{choice, enabled, cost, states[choice].Name})
		if step != nil {
			step(choice, states[choice].Name)
		}
		cur = choice
		resume(r, choice)
	}
	end(r)
	o.Panic, o.Stack, _ = panics(r)
	if o.Deadlock == "" && !o.Diverged && !o.Truncate {
		r.wg.Wait()
	}
	return o
}

// Explore visits every schedule with at most bound preemptions. Slice and
// slices share the work: a schedule belongs to the slice its first two
// deviations from the default give; those with fewer are visited in every
// slice and counted in the first. run sets up, executes the prefix and judges;
// it returns false to stop.
func Explore(bound, slice, slices int, run func(prefix []int) (*Outcome, bool)) (schedules int, ok bool) {
	ok = true
	var rec func(prefix []int, used, depth, hash int)
	rec = func(prefix []int, used, depth, hash int) {
		if depth == 2 && hash%slices != slice {
			return
		}
		o, cont := run(prefix)
		if depth >= 2 || slice == 0 {
			schedules++
		}
		if !cont {
			ok = false
			return
		}
		if o.Deadlock != "" || o.Diverged || o.Truncate {
			return
		}
		choices := make([]int, len(o.Steps))
		for i, s := range o.Steps {
			choices[i] = s.Choice
		}
		for i := len(prefix); i < len(o.Steps) && ok; i++ {
			s := o.Steps[i]
			for j, id := range s.Enabled {
				if id == s.Choice || used+s.Cost[j] > bound {
					continue
				}
				rec(append(append(make([]int, 0, i+1), choices[:i]...), id), used+s.Cost[j], depth+1, hash*31+i*7+j)
				if !ok {
					return
				}
			}
		}
	}
	rec(nil, 0, 0, 0)
	return
}
