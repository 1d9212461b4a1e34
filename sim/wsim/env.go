package wsim

import (
	"os"
	"path/filepath"
	"time"
)

// Env is the scratch directory of one run: the real files behind the simulated
// disk.
type Env struct {
	dir   string
	files map[string]*FileSpec
	had   map[string]bool // what is there before the requests
}

func newEnv(dir string, c *Case) *Env {
	e := &Env{dir: dir, files: map[string]*FileSpec{}}
	os.MkdirAll(filepath.Join(dir, "www"), 0755)
	for i := range c.Files {
		f := &c.Files[i]
		p := e.path(f.Name)
		e.files[p] = f
		if f.Dir {
			os.MkdirAll(p, 0755)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, f.Data, 0644)
		t := epoch.Add(time.Duration(f.Mod) * time.Second)
		os.Chtimes(p, t, t)
	}
	// directories get their times last
	for i := range c.Files {
		if f := &c.Files[i]; f.Dir {
			t := epoch.Add(time.Duration(f.Mod) * time.Second)
			os.Chtimes(e.path(f.Name), t, t)
		}
	}
	t := epoch
	os.Chtimes(e.path("www"), t, t)
	e.had = map[string]bool{}
	for _, n := range e.list() {
		e.had[n] = true
	}
	return e
}

// list names what is in the scratch directory, two levels deep.
func (e *Env) list() (out []string) {
	l, _ := os.ReadDir(e.dir)
	for _, f := range l {
		out = append(out, f.Name())
		if f.IsDir() {
			s, _ := os.ReadDir(e.path(f.Name()))
			for _, g := range s {
				out = append(out, f.Name()+"/"+g.Name())
			}
		}
	}
	return
}

// left names what requests left next to the files they worked with.
func (e *Env) left() (out []string) {
	for _, n := range e.list() {
		if !e.had[n] {
			out = append(out, n)
		}
	}
	return
}

func (e *Env) path(name string) string { return filepath.Join(e.dir, name) }
func (e *Env) file(p string) *FileSpec { return e.files[p] }
func (e *Env) close()                  { os.RemoveAll(e.dir) }
