// Package filepath is the standard path/filepath with points and faults at
// what reads directories.
package filepath

import (
	"io/fs"
	std "path/filepath"

	"verifmc/sched"
)

// Glob ignores what it cannot read, as the standard one does.
func Glob(pattern string) ([]string, error) {
	sched.FS("readdir", pattern)
	if err := sched.Fault("readdir", pattern); err != nil {
		if _, err := std.Match(pattern, ""); err != nil {
			return nil, err
		}
		return nil, nil
	}
	return std.Glob(pattern)
}

func Walk(root string, f std.WalkFunc) error {
	sched.FS("readdir", root)
	if err := sched.Fault("readdir", root); err != nil {
		return f(root, nil, err)
	}
	return std.Walk(root, f)
}

func WalkDir(root string, f fs.WalkDirFunc) error {
	sched.FS("readdir", root)
	if err := sched.Fault("readdir", root); err != nil {
		return f(root, nil, err)
	}
	return std.WalkDir(root, f)
}
