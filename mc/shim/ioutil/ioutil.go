// Package ioutil is the standard io/ioutil on top of the shim of os.
package ioutil

import (
	"io"
	"io/fs"

	"verifmc/shim/os"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser        { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)        { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)       { return os.ReadFile(name) }
func TempDir(dir, pat string) (string, error)    { return os.MkdirTemp(dir, pat) }
func TempFile(dir, pat string) (*os.File, error) { return os.CreateTemp(dir, pat) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}

func ReadDir(name string) ([]fs.FileInfo, error) {
	entries, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range entries {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
