// Package os replaces the standard package in the instrumented copy of the
// code under test: same API on real files in the run's scratch directory, with
// every open, stat, read, write, seek and close offered to the simulator,
// which may fail, shorten or delay it.
package os

import (
	"io"
	"io/fs"
	std "os"

	"watersim/simrt"
)

type File struct {
	f      *std.File
	name   string
	pos    int64
	closed bool
	flag   int
}

func hooks() simrt.DiskHooks { return simrt.Disk }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	simrt.Y(-40)
	if h := hooks(); h != nil {
		if err := h.Open(name, flag); err != nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: err}
		}
	}
	f, err := std.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if h := hooks(); h != nil {
		h.Opened(name)
	}
	return &File{f: f, name: name, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	simrt.Y(-40)
	f, err := std.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	if h := hooks(); h != nil {
		if err := h.Open(f.Name(), O_RDWR|O_CREATE); err != nil {
			f.Close()
			std.Remove(f.Name())
			return nil, &fs.PathError{Op: "open", Path: f.Name(), Err: err}
		}
		h.Opened(f.Name())
	}
	return &File{f: f, name: f.Name(), flag: O_RDWR}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Exit(code int) {
	if simrt.Cur() != nil {
		panic("os.Exit called by the code under test")
	}
	std.Exit(code)
}

func (f *File) valid() error {
	if f == nil || f.f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return f.f.Fd() }

func (f *File) Stat() (FileInfo, error) {
	if err := f.valid(); err != nil {
		return nil, err
	}
	simrt.Y(-41)
	if h := hooks(); h != nil {
		if err := h.Stat(f.name); err != nil {
			return nil, &fs.PathError{Op: "stat", Path: f.name, Err: err}
		}
	}
	return f.f.Stat()
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.valid(); err != nil {
		return 0, err
	}
	simrt.Y(-42)
	if h := hooks(); h != nil && len(p) > 0 {
		n, err := h.Read(f.name, f.pos, len(p))
		if err != nil && n == 0 {
			return 0, &fs.PathError{Op: "read", Path: f.name, Err: err}
		}
		if n < len(p) {
			p = p[:n]
		}
	}
	n, err := f.f.Read(p)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.valid(); err != nil {
		return 0, err
	}
	simrt.Y(-42)
	if h := hooks(); h != nil && len(p) > 0 {
		n, err := h.Read(f.name, off, len(p))
		if n < len(p) {
			m, err2 := f.f.ReadAt(p[:n], off)
			if err2 != nil {
				return m, err2
			}
			if err == nil {
				m2, err3 := f.f.ReadAt(p[n:], off+int64(n))
				return m + m2, err3
			}
			return m, &fs.PathError{Op: "read", Path: f.name, Err: err}
		}
	}
	return f.f.ReadAt(p, off)
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.valid(); err != nil {
		return 0, err
	}
	simrt.Y(-43)
	if h := hooks(); h != nil {
		n, err := h.Write(f.name, f.pos, len(p))
		if err != nil {
			m, _ := f.f.Write(p[:n])
			f.pos += int64(m)
			return m, &fs.PathError{Op: "write", Path: f.name, Err: err}
		}
	}
	n, err := f.f.Write(p)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.valid(); err != nil {
		return 0, err
	}
	simrt.Y(-43)
	if h := hooks(); h != nil {
		n, err := h.Write(f.name, off, len(p))
		if err != nil {
			m, _ := f.f.WriteAt(p[:n], off)
			return m, &fs.PathError{Op: "write", Path: f.name, Err: err}
		}
	}
	return f.f.WriteAt(p, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

type onlyReader struct{ io.Reader }

func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.valid(); err != nil {
		return 0, err
	}
	simrt.Y(-44)
	if h := hooks(); h != nil {
		if err := h.Seek(f.name); err != nil {
			return 0, &fs.PathError{Op: "seek", Path: f.name, Err: err}
		}
	}
	n, err := f.f.Seek(off, whence)
	if err == nil {
		f.pos = n
	}
	return n, err
}

func (f *File) Close() error {
	if err := f.valid(); err != nil {
		return err
	}
	simrt.Y(-45)
	if f.closed {
		return f.f.Close()
	}
	f.closed = true
	err := f.f.Close()
	if h := hooks(); h != nil {
		if e := h.Close(f.name); e != nil && err == nil {
			err = &fs.PathError{Op: "close", Path: f.name, Err: e}
		}
	}
	return err
}

func (f *File) Sync() error {
	if h := hooks(); h != nil {
		if err := h.Sync(f.name); err != nil {
			return &fs.PathError{Op: "sync", Path: f.name, Err: err}
		}
	}
	return nil
}

// Rename moves a file.
func Rename(from, to string) error {
	simrt.Y(-40)
	if h := hooks(); h != nil {
		if err := h.Rename(from, to); err != nil {
			return &LinkError{Op: "rename", Old: from, New: to, Err: err}
		}
	}
	return std.Rename(from, to)
}

func (f *File) Truncate(n int64) error {
	simrt.Y(-45)
	if h := hooks(); h != nil {
		if err := h.Truncate(f.name); err != nil {
			return &fs.PathError{Op: "truncate", Path: f.name, Err: err}
		}
	}
	return f.f.Truncate(n)
}

func (f *File) Chmod(m FileMode) error               { return f.f.Chmod(m) }
func (f *File) Readdir(n int) ([]FileInfo, error)    { return f.f.Readdir(n) }
func (f *File) ReadDir(n int) ([]DirEntry, error)    { return f.f.ReadDir(n) }
func (f *File) Readdirnames(n int) ([]string, error) { return f.f.Readdirnames(n) }

func Stat(name string) (FileInfo, error) {
	simrt.Y(-41)
	if h := hooks(); h != nil {
		if err := h.Stat(name); err != nil {
			return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
		}
	}
	return std.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	simrt.Y(-41)
	if h := hooks(); h != nil {
		if err := h.Stat(name); err != nil {
			return nil, &fs.PathError{Op: "lstat", Path: name, Err: err}
		}
	}
	return std.Lstat(name)
}
