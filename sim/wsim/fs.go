package wsim

import (
	"errors"
	"io"
	"io/fs"
	"math"
	"net/http"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"watersim/simrt"
)

// noDate stands for a file without a modification time.
const noDate = math.MinInt64

func modTime(mod int64) time.Time {
	if mod == noDate {
		return time.Time{}
	}
	return epoch.Add(time.Duration(mod) * time.Second).In(time.Local)
}

var epoch = time.Date(2024, 3, 5, 12, 0, 0, 0, time.UTC)

func errOf(s string) error {
	switch s {
	case "enospc":
		return syscall.ENOSPC
	case "eacces":
		return fs.ErrPermission
	case "enoent":
		return fs.ErrNotExist
	case "emfile":
		return syscall.EMFILE
	case "estale":
		return syscall.ESTALE
	case "etimedout":
		return syscall.ETIMEDOUT
	case "edquot":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

// fault finds the request's fault plan entry for an operation.
func (r *Rec) fault(op, name string) *Fault {
	if r == nil {
		return nil
	}
	for i := range r.Req.Faults {
		f := &r.Req.Faults[i]
		// a copy on its way to its place is written under any name
		if f.Op == op && (strings.HasSuffix(name, f.Path) || r.dst == f.Path && r.dst != "" && op != "read" && op != "seek") {
			return f
		}
	}
	return nil
}

func (r *Rec) slow(name string) {
	if r == nil || r.Model {
		return
	}
	if f := r.fault("stall", name); f != nil {
		r.fire("disk.stall")
		simrt.Stall()
	}
	if f := r.fault("slow", name); f != nil {
		r.fire("disk.slow")
		simrt.Sleep(int64(f.At) * 1000)
	}
}

// --- http.FileSystem over a TreeSpec ---

type simFS struct {
	t *TreeSpec
	// the reference model carries its request along; the real side asks the
	// simulator who is calling
	model *Rec
}

func (s *simFS) rec() *Rec {
	if s.model != nil {
		return s.model
	}
	return curRec()
}

func (s *simFS) Open(name string) (http.File, error) {
	simrt.Y(-70)
	rec := s.rec()
	if s.t.Strict && (name == "" || name[0] != '/' || name != path.Clean(name)) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	name = path.Clean("/" + name)
	ver := 0
	if rec != nil {
		ver = rec.Req.Ver
		rec.slow(name)
		if f := rec.fault("open", name); f != nil {
			rec.fire("fs.open_error")
			return nil, &fs.PathError{Op: "open", Path: name, Err: errOf(f.Err)}
		}
	}
	f, v := s.lookup(name, ver)
	if f == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if rec != nil {
		rec.Opens++
	}
	sf := &simFile{fs: s, rec: rec, name: name, f: f}
	if v != nil {
		sf.data, sf.mod = v.Data, v.Mod
		if rec != nil && sf.mod != noDate {
			sf.mod += int64(rec.Req.Age)
		}
	}
	return sf, nil
}

func (s *simFS) lookup(name string, ver int) (*TreeFile, *TreeVer) {
	for i := range s.t.Files {
		f := &s.t.Files[i]
		if f.Path != name {
			continue
		}
		if f.Dir {
			return f, nil
		}
		if ver >= len(f.Vers) {
			ver = len(f.Vers) - 1
		}
		if f.Vers[ver].Gone {
			return nil, nil
		}
		return f, &f.Vers[ver]
	}
	return nil, nil
}

type simFile struct {
	fs     *simFS
	rec    *Rec
	name   string
	f      *TreeFile
	data   []byte
	mod    int64
	off    int64
	closed bool
	listed bool
}

func (f *simFile) use(what string) bool {
	if f.closed {
		if f.rec != nil {
			f.rec.BadUse = what + " of a closed file " + f.name
		}
		return false
	}
	return true
}

func (f *simFile) Close() error {
	simrt.Y(-71)
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	if f.rec != nil {
		f.rec.Closes++
		if ft := f.rec.fault("close", f.name); ft != nil {
			f.rec.fire("fs.close_error")
			return errOf(ft.Err)
		}
	}
	return nil
}

func (f *simFile) Read(p []byte) (int, error) {
	simrt.Y(-72)
	if !f.use("read") {
		return 0, os.ErrClosed
	}
	if f.f.Dir {
		return 0, syscall.EISDIR
	}
	n := int64(len(p))
	if f.off >= int64(len(f.data)) {
		if ft := f.rec.fault("read", f.name); ft != nil && ft.At >= int64(len(f.data)) && n > 0 {
			return f.readFault(ft)
		}
		return 0, io.EOF
	}
	if n == 0 {
		return 0, nil
	}
	if left := int64(len(f.data)) - f.off; n > left {
		n = left
	}
	if ft := f.rec.fault("read", f.name); ft != nil {
		if f.off >= ft.At {
			return f.readFault(ft)
		}
		if f.off+n > ft.At {
			n = ft.At - f.off
		}
	}
	copy(p, f.data[f.off:f.off+n])
	f.off += n
	return int(n), nil
}

func (f *simFile) readFault(ft *Fault) (int, error) {
	f.rec.fire("fs.read_error")
	f.rec.fileReadFault = true
	if ft.Err == "eof" { // the file shrank under us
		return 0, io.EOF
	}
	return 0, errOf(ft.Err)
}

func (f *simFile) Seek(off int64, whence int) (int64, error) {
	simrt.Y(-73)
	if !f.use("seek") {
		return 0, os.ErrClosed
	}
	if ft := f.rec.fault("seek", f.name); ft != nil {
		f.rec.fire("fs.seek_error")
		f.rec.fileReadFault = true
		return 0, errOf(ft.Err)
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative seek")
	}
	f.off = off
	return off, nil
}

func (f *simFile) Stat() (fs.FileInfo, error) {
	simrt.Y(-74)
	if !f.use("stat") {
		return nil, os.ErrClosed
	}
	if ft := f.rec.fault("stat", f.name); ft != nil {
		f.rec.fire("fs.stat_error")
		f.rec.fileReadFault = true
		return nil, errOf(ft.Err)
	}
	return &simInfo{f}, nil
}

func (f *simFile) Readdir(n int) ([]fs.FileInfo, error) {
	if f.listed && n > 0 {
		return nil, io.EOF
	}
	f.listed = true
	var out []fs.FileInfo
	for i := range f.fs.t.Files {
		c := &f.fs.t.Files[i]
		if c.Path != "/" && path.Dir(c.Path) == f.name {
			out = append(out, &simInfo{&simFile{fs: f.fs, f: c, name: c.Path}})
		}
	}
	return out, nil
}

type simInfo struct{ f *simFile }

func (i *simInfo) Name() string { return path.Base(i.f.name) }
func (i *simInfo) Size() int64  { return int64(len(i.f.data)) }
func (i *simInfo) Mode() fs.FileMode {
	if i.f.f.Dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i *simInfo) ModTime() time.Time { return modTime(i.f.mod) }
func (i *simInfo) IsDir() bool        { return i.f.f.Dir }
func (i *simInfo) Sys() any           { return nil }

// --- the disk behind package os ---

type disk struct{}

func (disk) Open(name string, flag int) error {
	r := curRec()
	r.slow(name)
	if f := r.fault("open", name); f != nil {
		r.fire("disk.open_error")
		return errOf(f.Err)
	}
	return nil
}

func (disk) Opened(name string) {
	if r := curRec(); r != nil {
		r.Opens++
	}
}

func (disk) Stat(name string) error {
	r := curRec()
	if f := r.fault("stat", name); f != nil {
		r.fire("disk.stat_error")
		return errOf(f.Err)
	}
	return nil
}

func (disk) Seek(name string) error {
	r := curRec()
	if f := r.fault("seek", name); f != nil {
		r.fire("disk.seek_error")
		r.fileReadFault = true
		return errOf(f.Err)
	}
	return nil
}

func (disk) Sync(name string) error {
	r := curRec()
	if f := r.fault("sync", name); f != nil {
		r.fire("disk.sync_error")
		return errOf(f.Err)
	}
	return nil
}

func (disk) Truncate(name string) error {
	r := curRec()
	if f := r.fault("truncate", name); f != nil {
		r.fire("disk.truncate_error")
		return errOf(f.Err)
	}
	return nil
}

func (disk) Rename(from, to string) error {
	r := curRec()
	if f := r.fault("rename", to); f != nil {
		r.fire("disk.rename_error")
		return errOf(f.Err)
	}
	return nil
}

func (disk) Read(name string, off int64, n int) (int, error) {
	r := curRec()
	if f := r.fault("read", name); f != nil && off+int64(n) > f.At {
		if k := f.At - off; k > 0 {
			return int(k), nil
		}
		r.fire("disk.read_error")
		r.fileReadFault = true
		return 0, errOf(f.Err)
	}
	return n, nil
}

func (disk) Write(name string, off int64, n int) (int, error) {
	r := curRec()
	if f := r.fault("stallwrite", name); f != nil && r.Fired["disk.stall_write"] == 0 {
		r.fire("disk.stall_write")
		simrt.Stall()
	}
	if f := r.fault("write", name); f != nil && off+int64(n) > f.At {
		k := f.At - off
		if k < 0 {
			k = 0
		}
		if f.Err == "short" {
			r.fire("disk.short_write")
			return int(k), io.ErrShortWrite
		}
		r.fire("disk.write_error")
		return int(k), errOf(f.Err)
	}
	return n, nil
}

func (disk) Close(name string) error {
	r := curRec()
	if r == nil {
		return nil
	}
	r.Closes++
	if f := r.fault("close", name); f != nil {
		r.fire("disk.close_error")
		return errOf(f.Err)
	}
	return nil
}
