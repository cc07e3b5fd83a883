// Package os is the standard os with scheduling points and injected faults at
// file operations.
package os

import (
	"io"
	std "os"
	"time"

	"verifmc/sched"
)

// A File counts its operations and whether it is open.
type File struct{ *std.File }

var (
	Stdin  = &File{std.Stdin}
	Stdout = &File{std.Stdout}
	Stderr = &File{std.Stderr}
)

func wrap(f *std.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	sched.Opened(f.Name())
	return &File{f}, nil
}

func fail(op, path string) error {
	sched.FS(op, path)
	if err := sched.Fault(op, path); err != nil {
		return &std.PathError{Op: op, Path: path, Err: err}
	}
	return nil
}

func NewFile(fd uintptr, name string) *File { return &File{std.NewFile(fd, name)} }

func OpenFile(name string, flag int, perm std.FileMode) (*File, error) {
	op := "open"
	if flag&(std.O_WRONLY|std.O_RDWR) != 0 {
		op = "create"
	}
	if err := fail(op, name); err != nil {
		return nil, err
	}
	return wrap(std.OpenFile(name, flag, perm))
}

func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := fail("create", dir); err != nil {
		return nil, err
	}
	return wrap(std.CreateTemp(dir, pattern))
}

func MkdirTemp(dir, pattern string) (string, error) {
	if err := fail("mkdir", dir); err != nil {
		return "", err
	}
	return std.MkdirTemp(dir, pattern)
}

func (f *File) Read(b []byte) (int, error) {
	if err := fail("read", f.Name()); err != nil {
		n := 0
		if sched.Partial() && len(b) > 1 {
			n, _ = f.File.Read(b[:len(b)/2])
		}
		return n, err
	}
	return f.File.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := fail("read", f.Name()); err != nil {
		return 0, err
	}
	return f.File.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if err := fail("write", f.Name()); err != nil {
		n := 0
		if sched.Partial() && len(b) > 1 {
			n, _ = f.File.Write(b[:len(b)/2])
		}
		return n, err
	}
	return f.File.Write(b)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := fail("write", f.Name()); err != nil {
		return 0, err
	}
	return f.File.WriteAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, struct{ io.Reader }{f}) }

func (f *File) Stat() (std.FileInfo, error) {
	if err := fail("stat", f.Name()); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *File) Sync() error {
	if err := fail("sync", f.Name()); err != nil {
		return err
	}
	return f.File.Sync()
}

func (f *File) Truncate(n int64) error {
	if err := fail("write", f.Name()); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func (f *File) ReadDir(n int) ([]std.DirEntry, error) {
	if err := fail("readdir", f.Name()); err != nil {
		return nil, err
	}
	return f.File.ReadDir(n)
}

func (f *File) Readdir(n int) ([]std.FileInfo, error) {
	if err := fail("readdir", f.Name()); err != nil {
		return nil, err
	}
	return f.File.Readdir(n)
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if err := fail("readdir", f.Name()); err != nil {
		return nil, err
	}
	return f.File.Readdirnames(n)
}

// Close releases the file even if it reports an error.
func (f *File) Close() error {
	ferr := fail("close", f.Name())
	if ferr != nil && sched.Partial() {
		// what was written is not saved; this fails on files opened for reading
		if info, err := f.File.Stat(); err == nil && info.Mode().IsRegular() {
			_ = f.File.Truncate(info.Size() / 2)
		}
	}
	err := f.File.Close()
	if err == nil {
		sched.Closed(f.Name())
	}
	if ferr != nil {
		return ferr
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm std.FileMode) error {
	f, err := OpenFile(name, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]std.DirEntry, error) {
	if err := fail("readdir", name); err != nil {
		return nil, err
	}
	return std.ReadDir(name)
}

func Stat(name string) (std.FileInfo, error) {
	if err := fail("stat", name); err != nil {
		return nil, err
	}
	return std.Stat(name)
}

func Lstat(name string) (std.FileInfo, error) {
	if err := fail("stat", name); err != nil {
		return nil, err
	}
	return std.Lstat(name)
}

func one(op, name string, f func() error) error {
	if err := fail(op, name); err != nil {
		return err
	}
	return f()
}

func Mkdir(name string, perm std.FileMode) error {
	return one("mkdir", name, func() error { return std.Mkdir(name, perm) })
}
func MkdirAll(name string, perm std.FileMode) error {
	return one("mkdir", name, func() error { return std.MkdirAll(name, perm) })
}
func Remove(name string) error { return one("remove", name, func() error { return std.Remove(name) }) }
func RemoveAll(name string) error {
	return one("remove", name, func() error { return std.RemoveAll(name) })
}
func Rename(a, b string) error { return one("rename", b, func() error { return std.Rename(a, b) }) }
func Chmod(name string, m std.FileMode) error {
	return one("chmod", name, func() error { return std.Chmod(name, m) })
}
func Chtimes(name string, a, m time.Time) error {
	return one("chtimes", name, func() error { return std.Chtimes(name, a, m) })
}
func Truncate(name string, n int64) error {
	return one("write", name, func() error { return std.Truncate(name, n) })
}
func Link(a, b string) error    { return one("link", b, func() error { return std.Link(a, b) }) }
func Symlink(a, b string) error { return one("link", b, func() error { return std.Symlink(a, b) }) }

// ExitHook is called instead of exiting.
var ExitHook func(code int)

func Exit(code int) {
	if ExitHook != nil {
		ExitHook(code)
	}
	std.Exit(code)
}
