// Package ioutil replaces io/ioutil in the instrumented copy: its files are
// those of the os shim.
package ioutil

import (
	"io"
	"io/fs"
	std "io/ioutil"

	"watersim/shim/os"
)

var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
	ReadAll   = io.ReadAll
	ReadDir   = std.ReadDir
	TempDir   = std.TempDir
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}

func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
