package sched

import "sync"

// Faults and open files, for runs that inject failures of file operations.

var (
	faultL  sync.Mutex
	inject  func(op, path string) error
	partial bool
	opened  map[string]int
)

// Inject sets what decides about file operations (nil: none fail, and open files are not counted) and clears
// the list of open files.
func Inject(f func(op, path string) error, part bool) {
	faultL.Lock()
	defer faultL.Unlock()
	inject, partial, opened = f, part, map[string]int{}
}

// active is read without the lock: a run that injects nothing must not order
// its threads.
//
//go:norace
func active() bool { return inject != nil }

// Fault asks whether an operation fails.
func Fault(op, path string) error {
	if !active() {
		return nil
	}
	faultL.Lock()
	defer faultL.Unlock()
	if inject == nil {
		return nil
	}
	return inject(op, path)
}

// Partial reports whether failing reads and writes do half their work first.
func Partial() bool {
	faultL.Lock()
	defer faultL.Unlock()
	return partial
}

// SetPartial is for an inject function that is about to fail an operation; it
// holds the lock.
func SetPartial(p bool) { partial = p }

func Opened(path string) {
	if !active() {
		return
	}
	faultL.Lock()
	defer faultL.Unlock()
	if opened != nil {
		opened[path]++
	}
}

func Closed(path string) {
	if !active() {
		return
	}
	faultL.Lock()
	defer faultL.Unlock()
	if opened != nil {
		opened[path]--
	}
}

// Open lists the files that are still open.
func Open() []string {
	faultL.Lock()
	defer faultL.Unlock()
	var out []string
	for p, n := range opened {
		if n > 0 {
			out = append(out, p)
		}
	}
	return out
}
