package hcache

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
)

// The disk scenarios run the store on a model file system. Here every sequence
// of operations up to a length is performed on the model and on a directory of
// the operating system, and all results are compared.

type anyFile interface {
	io.ReadWriteCloser
	io.Seeker
	Sync() error
	Stat() (fs.FileInfo, error)
	Truncate(int64) error
	Readdirnames(int) ([]string, error)
	Name() string
}

type fileSystem struct {
	openFile func(string, int, fs.FileMode) (anyFile, error)
	temp     func(dir, pattern string) (anyFile, error)
	rename   func(a, b string) error
	remove   func(string) error
	mkdir    func(string, fs.FileMode) error
	stat     func(string) (fs.FileInfo, error)
	link     func(a, b string) error
	truncate func(string, int64) error
	readFile func(string) ([]byte, error)
	write    func(string, []byte, fs.FileMode) error
	chtimes  func(string, time.Time, time.Time) error
	readDir  func(string) ([]fs.DirEntry, error)
	all      func(string) error
}

func wrapped[F anyFile](f F, err error) (anyFile, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

var realFS = fileSystem{
	func(n string, f int, m fs.FileMode) (anyFile, error) { return wrapped(os.OpenFile(n, f, m)) },
	func(d, p string) (anyFile, error) { return wrapped(os.CreateTemp(d, p)) },
	os.Rename, os.Remove, os.Mkdir, os.Stat, os.Link, os.Truncate, os.ReadFile, os.WriteFile, os.Chtimes, os.ReadDir, os.RemoveAll,
}

var modelFS = fileSystem{
	func(n string, f int, m fs.FileMode) (anyFile, error) { return wrapped(vos.OpenFile(n, f, m)) },
	func(d, p string) (anyFile, error) { return wrapped(vos.CreateTemp(d, p)) },
	vos.Rename, vos.Remove, vos.Mkdir, vos.Stat, vos.Link, vos.Truncate, vos.ReadFile, vos.WriteFile, vos.Chtimes, vos.ReadDir, vos.RemoveAll,
}

func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, fs.ErrNotExist):
		return "not exist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return "error"
}

// fsRun is the state of one run: a directory and an open file.
type fsRun struct {
	fileSystem
	dir string
	h   anyFile
	tmp string
}

var fsTime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

type fsOp struct {
	name string
	f    func(r *fsRun) string
}

func fsOps(more bool) []fsOp {
	var ops []fsOp
	add := func(name string, f func(r *fsRun) string) { ops = append(ops, fsOp{name, f}) }
	open := func(label, name string, flag int) {
		add(label+" "+name, func(r *fsRun) string {
			if r.h != nil {
				r.h.Close()
			}
			h, err := r.openFile(filepath.Join(r.dir, name), flag, 0o644)
			r.h = h
			return errClass(err)
		})
	}
	names := []string{"a", "b"}
	for _, n := range names {
		open("create", n, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
		open("open", n, os.O_RDONLY)
	}
	open("append", "a", os.O_WRONLY|os.O_APPEND)
	open("excl", "a", os.O_WRONLY|os.O_CREATE|os.O_EXCL)
	open("open", "d", os.O_RDONLY)
	open("create", "d", os.O_RDWR|os.O_CREATE)
	open("create", "a/x", os.O_RDWR|os.O_CREATE)
	open("open", "no/x", os.O_RDWR|os.O_CREATE)
	handle := func(label string, f func(h anyFile) string) {
		add(label, func(r *fsRun) string {
			if r.h == nil {
				return "none"
			}
			return f(r.h)
		})
	}
	handle("write", func(h anyFile) string { n, err := h.Write([]byte("xyz")); return fmt.Sprint(n, errClass(err)) })
	handle("read", func(h anyFile) string {
		b := make([]byte, 2)
		n, err := h.Read(b)
		return fmt.Sprint(n, string(b[:n]), errClass(err))
	})
	handle("sync", func(h anyFile) string { return errClass(h.Sync()) })
	handle("close", func(h anyFile) string { return errClass(h.Close()) })
	handle("seek", func(h anyFile) string {
		n, err := h.Seek(1, io.SeekStart)
		if err == nil {
			if s, e := h.Stat(); e == nil && s.IsDir() {
				h.Seek(0, io.SeekStart)
				return "dir"
			}
		}
		return fmt.Sprint(n, errClass(err))
	})
	handle("fstat", func(h anyFile) string {
		s, err := h.Stat()
		if err != nil {
			return errClass(err)
		}
		if strings.HasPrefix(s.Name(), "7-") {
			return fmt.Sprint("TMP", s.Size())
		}
		if s.IsDir() {
			return s.Name() + " dir"
		}
		return fmt.Sprint(s.Name(), s.Size())
	})
	handle("list", func(h anyFile) string {
		var all []string
		for {
			ns, err := h.Readdirnames(2)
			all = append(all, ns...)
			if err != nil || len(ns) == 0 {
				sort.Strings(all)
				return fmt.Sprint(all, len(ns), errClass(err))
			}
		}
	})
	rename := func(a, b string) {
		add("rename "+a+" "+b, func(r *fsRun) string {
			return errClass(r.rename(filepath.Join(r.dir, a), filepath.Join(r.dir, b)))
		})
	}
	rename("a", "b")
	rename("b", "a")
	rename("a", "d")
	rename("d", "a")
	rename("a", "d/a")
	rename("d/a", "b")
	if more {
		rename("a", "a")
		rename("a", "no/a")
	}
	for _, n := range []string{"a", "b", "d"} {
		n := n
		add("remove "+n, func(r *fsRun) string { return errClass(r.remove(filepath.Join(r.dir, n))) })
		add("stat "+n, func(r *fsRun) string {
			s, err := r.stat(filepath.Join(r.dir, n))
			if err != nil {
				return errClass(err)
			}
			if s.IsDir() {
				return s.Name() + " dir"
			}
			return fmt.Sprint(s.Name(), s.Size(), s.Mode().IsRegular(), s.ModTime().Equal(fsTime))
		})
		add("mkdir "+n, func(r *fsRun) string { return errClass(r.mkdir(filepath.Join(r.dir, n), 0o755)) })
	}
	add("temp", func(r *fsRun) string {
		if r.h != nil {
			r.h.Close()
		}
		h, err := r.temp(r.dir, "7-*.tmp")
		if r.h = h; err != nil {
			return errClass(err)
		}
		r.tmp = h.Name()
		base := filepath.Base(r.tmp)
		return fmt.Sprint(strings.HasPrefix(base, "7-") && strings.HasSuffix(base, ".tmp"), filepath.Dir(r.tmp) == r.dir)
	})
	add("commit", func(r *fsRun) string {
		if r.tmp == "" {
			return "none"
		}
		return errClass(r.rename(r.tmp, filepath.Join(r.dir, "a")))
	})
	add("rmtemp", func(r *fsRun) string {
		if r.tmp == "" {
			return "none"
		}
		return errClass(r.remove(r.tmp))
	})
	add("readfile a", func(r *fsRun) string {
		b, err := r.readFile(filepath.Join(r.dir, "a"))
		return fmt.Sprintf("%q %s", b, errClass(err))
	})
	add("writefile b", func(r *fsRun) string { return errClass(r.write(filepath.Join(r.dir, "b"), []byte("b!"), 0o644)) })
	add("chtimes a", func(r *fsRun) string { return errClass(r.chtimes(filepath.Join(r.dir, "a"), fsTime, fsTime)) })
	if more {
		add("link a b", func(r *fsRun) string {
			return errClass(r.link(filepath.Join(r.dir, "a"), filepath.Join(r.dir, "b")))
		})
		add("truncate a", func(r *fsRun) string { return errClass(r.truncate(filepath.Join(r.dir, "a"), 1)) })
		add("removeall d", func(r *fsRun) string { return errClass(r.all(filepath.Join(r.dir, "d"))) })
	}
	return ops
}

// dump describes what is in the directory.
func (r *fsRun) dump() string {
	var b strings.Builder
	var tmps []string
	var walk func(dir string)
	walk = func(dir string) {
		es, err := r.readDir(dir)
		if err != nil {
			fmt.Fprintf(&b, "(%s)", errClass(err))
			return
		}
		for _, e := range es {
			name := e.Name()
			if strings.HasPrefix(name, "7-") {
				name = "TMP"
			}
			if e.IsDir() {
				fmt.Fprintf(&b, "%s/{", name)
				walk(filepath.Join(dir, e.Name()))
				b.WriteString("}")
				continue
			}
			c, err := r.readFile(filepath.Join(dir, e.Name()))
			if name == "TMP" {
				tmps = append(tmps, fmt.Sprintf("%q %s", c, errClass(err)))
				continue
			}
			fmt.Fprintf(&b, "%s=%q%s ", name, c, errClass(err))
		}
	}
	walk(r.dir)
	sort.Strings(tmps)
	return b.String() + fmt.Sprint(tmps)
}

func init() {
	conform := func(depth int, more bool) func(x *mc.X) {
		return func(x *mc.X) {
			base, err := os.MkdirTemp("", "verif-conform-*")
			if err != nil {
				// Without a real directory there is nothing to compare with.
				x.Obs("no scratch directory")
				return
			}
			defer os.RemoveAll(base)
			real := &fsRun{fileSystem: realFS, dir: filepath.Join(base, "cache")}
			model := &fsRun{fileSystem: modelFS, dir: root}
			os.Mkdir(real.dir, 0o755)
			dfs()
			// What is there at the start.
			init := 1
			if depth < 3 || depth == 3 && x.Thorough() {
				init = x.Choose(3, "initial")
			}
			for _, r := range []*fsRun{real, model} {
				if init >= 1 {
					r.write(filepath.Join(r.dir, "a"), []byte("old"), 0o644)
				}
				if init >= 2 {
					r.mkdir(filepath.Join(r.dir, "d"), 0o755)
					r.write(filepath.Join(r.dir, "b"), nil, 0o644)
				}
			}
			defer func() {
				for _, r := range []*fsRun{real, model} {
					if r.h != nil {
						r.h.Close()
					}
				}
			}()
			ops := fsOps(more)
			var did []string
			for i := 0; i < depth; i++ {
				op := ops[x.Choose(len(ops), "operation")]
				did = append(did, op.name)
				a, b := op.f(real), op.f(model)
				x.Step(1)
				x.NonTrivial()
				x.Obs("%s: %s", op.name, a)
				x.Check(a == b, "model differs", "%d %q: the operating system says %q, the model %q", init, did, a, b)
			}
			a, b := real.dump(), model.dump()
			x.State(a)
			x.Check(a == b, "model differs", "%d %q: the operating system has %s, the model %s", init, did, a, b)
		}
	}
	add(&mc.Scenario{Name: "conformance/2", Prop: "C24", Tree: true, Quick: mc.Bound{}, Thorough: mc.Bound{}, Run: conform(2, true)})
	add(&mc.Scenario{Name: "conformance/3", Prop: "C24", Tree: true, Quick: mc.Bound{}, Thorough: mc.Bound{}, Run: conform(3, false)})
	add(&mc.Scenario{Name: "conformance/4", Prop: "C24", Tree: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: conform(4, false)})
}
