// Package vos stands in for package os in the code under test: an in-memory
// file system whose operations are scheduling points, can be made to fail, and
// whose unsynced data and directory operations can be lost in a simulated
// crash. The semantics follow POSIX: an unsynced write or directory operation
// may or may not survive a crash, a rename is atomic, and syncing a directory
// makes its entries durable. A conformance check compares it with the real
// file system.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/yields/ant/zverif/vsched"
)

// Op describes a file operation about to happen.
type Op struct {
	Kind string // open create write sync close stat rename remove readdir read dirsync mkdir truncate chtimes link
	Path string
	N    int // sequence number
}

func (o Op) String() string { return fmt.Sprintf("%d:%s(%s)", o.N, o.Kind, o.Path) }

// Mutates reports whether the operation can change what survives.
func (o Op) Mutates() bool {
	switch o.Kind {
	case "open", "stat", "readdir", "read", "close":
		return false
	}
	return true
}

// Action to take for an operation.
type Action int

const (
	OK Action = iota
	Fault
	Crash
)

type node struct {
	dir     bool
	data    []byte
	durable []byte
	synced  bool // the data is durable
	gone    bool // a directory that was removed
	entries map[string]*node
	dentry  map[string]*node // durable entries
	mtime   time.Time
	mode    fs.FileMode
	id      int
	sparse  int64 // size of a file that is larger than its data
}

type change struct {
	dir  *node
	name string
	to   *node
}

// FS is a file system.
type FS struct {
	root    *node
	pending [][]change
	nops    int
	tmp     int
	ids     int
	Reverse bool // directories are read in reverse order
	Hook    func(Op) Action
	Log     []Op
	crashed bool
	Open    int // open files
	Clock   func() time.Time
}

// New returns an empty file system.
func New() *FS {
	f := &FS{Clock: time.Now}
	f.root = f.mk(true)
	f.root.synced = true
	return f
}

var cur = New()

// Use makes f the current file system.
func Use(f *FS) { cur = f }

// Current returns the current file system.
func Current() *FS { return cur }

func (f *FS) mk(dir bool) *node {
	f.ids++
	n := &node{dir: dir, mtime: f.Clock(), id: f.ids, mode: 0o644}
	if dir {
		n.mode = fs.ModeDir | 0o755
		n.entries, n.dentry = map[string]*node{}, map[string]*node{}
	}
	return n
}

// op is called before every operation.
func (f *FS) op(kind, p string) error {
	release()
	vsched.P("fs:" + kind)
	acquire()
	f.nops++
	o := Op{kind, p, f.nops}
	f.Log = append(f.Log, o)
	if f.Hook != nil {
		switch f.Hook(o) {
		case Fault:
			return errnoOf(kind)
		case Crash:
			f.crashed = true
			vsched.Crash()
		}
	}
	return nil
}

// Crashed reports whether the crash happened.
func (f *FS) Crashed() bool { return f.crashed }

func errnoOf(kind string) error {
	switch kind {
	case "write":
		return syscall.ENOSPC
	case "open", "create":
		return syscall.EMFILE
	}
	return syscall.EIO
}

func (f *FS) lookup(p string) (*node, error) {
	if !path.IsAbs(p) {
		return nil, syscall.ENOENT
	}
	n := f.root
	for _, e := range strings.Split(path.Clean(p), "/") {
		if e == "" {
			continue
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		c := n.entries[e]
		if c == nil {
			return nil, syscall.ENOENT
		}
		n = c
	}
	return n, nil
}

func (f *FS) parent(p string) (*node, string, error) {
	p = path.Clean(p)
	if p == "/" || !path.IsAbs(p) {
		return nil, "", syscall.ENOENT
	}
	d, err := f.lookup(path.Dir(p))
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, path.Base(p), nil
}

func (f *FS) apply(cs ...change) {
	for _, c := range cs {
		if c.to == nil {
			delete(c.dir.entries, c.name)
		} else {
			c.dir.entries[c.name] = c.to
		}
		c.dir.mtime = f.Clock()
	}
	f.pending = append(f.pending, cs)
}

// sync makes n durable.
func (f *FS) sync(n *node) {
	if !n.dir {
		n.durable = append([]byte(nil), n.data...)
		n.synced = true
		return
	}
	var left [][]change
	for _, cs := range f.pending {
		mine := false
		for _, c := range cs {
			if c.dir == n {
				mine = true
			}
		}
		if mine {
			commit(cs)
		} else {
			left = append(left, cs)
		}
	}
	f.pending = left
}

func commit(cs []change) {
	for _, c := range cs {
		if c.to == nil {
			delete(c.dir.dentry, c.name)
		} else {
			c.dir.dentry[c.name] = c.to
		}
	}
}

// SyncAll makes everything durable.
func (f *FS) SyncAll() {
	for _, cs := range f.pending {
		commit(cs)
	}
	f.pending = nil
	var walk func(n *node)
	walk = func(n *node) {
		if !n.dir {
			f.sync(n)
		}
		for _, c := range n.entries {
			walk(c)
		}
	}
	walk(f.root)
}

// Image returns what a machine finds after a crash. choose picks among
// alternatives: which unsynced directory operations survived and what became of
// unsynced file data. With machine false only the process died: everything
// done so far survives.
func (f *FS) Image(machine bool, choose func(n int, label string) int) *FS {
	g := &FS{Clock: f.Clock, ids: f.ids, tmp: f.tmp, Reverse: f.Reverse}
	if machine {
		for i, cs := range f.pending {
			if choose(2, fmt.Sprintf("directory operation %d is durable", i)) == 1 {
				commit(cs)
			}
		}
	}
	seen := map[*node]*node{}
	var clone func(n *node) *node
	clone = func(n *node) *node {
		if c := seen[n]; c != nil {
			return c
		}
		c := &node{dir: n.dir, mtime: n.mtime, mode: n.mode, id: n.id, synced: true}
		seen[n] = c
		if n.dir {
			c.entries, c.dentry = map[string]*node{}, map[string]*node{}
			src := n.entries
			if machine {
				src = n.dentry
			}
			for _, name := range sortedNames(src) {
				k := clone(src[name])
				c.entries[name], c.dentry[name] = k, k
			}
			return c
		}
		data := n.data
		if machine && !n.synced {
			alts := [][]byte{n.durable}
			for _, a := range [][]byte{n.data, n.data[:len(n.data)/2], make([]byte, len(n.data))} {
				dup := false
				for _, b := range alts {
					if string(a) == string(b) {
						dup = true
					}
				}
				if !dup {
					alts = append(alts, a)
				}
			}
			data = alts[choose(len(alts), "unsynced data")]
		}
		c.data = append([]byte(nil), data...)
		c.durable = append([]byte(nil), data...)
		return c
	}
	g.root = clone(f.root)
	return g
}

func sortedNames(m map[string]*node) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// The methods below are for harnesses: no scheduling points, no faults.

// AddDir creates a directory.
func (f *FS) AddDir(p string) {
	n := f.root
	for _, e := range strings.Split(path.Clean(p), "/") {
		if e == "" {
			continue
		}
		c := n.entries[e]
		if c == nil {
			c = f.mk(true)
			n.entries[e], n.dentry[e] = c, c
		}
		n = c
	}
}

// AddFile creates a file.
func (f *FS) AddFile(p, data string, mtime time.Time) {
	d, name, err := f.parent(p)
	if err != nil {
		panic(err)
	}
	n := f.mk(false)
	n.data, n.durable, n.synced, n.mtime = []byte(data), []byte(data), true, mtime
	d.entries[name], d.dentry[name] = n, n
}

// AddSparse creates a file that is said to be of the given size, its content
// cannot be relied upon.
func (f *FS) AddSparse(p string, size int64, mtime time.Time) {
	f.AddFile(p, "", mtime)
	n, _ := f.lookup(p)
	n.sparse = size
}

// List returns the names in a directory.
func (f *FS) List(p string) []string {
	n, err := f.lookup(p)
	if err != nil {
		return nil
	}
	return sortedNames(n.entries)
}

// Content returns the content of a file.
func (f *FS) Content(p string) (string, bool) {
	n, err := f.lookup(p)
	if err != nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Corrupt replaces the content of a file.
func (f *FS) Corrupt(p, data string) {
	if n, err := f.lookup(p); err == nil {
		n.data = []byte(data)
	}
}

// Dump describes the whole file system.
func (f *FS) Dump() string {
	var b strings.Builder
	var walk func(p string, n *node)
	walk = func(p string, n *node) {
		for _, name := range sortedNames(n.entries) {
			c := n.entries[name]
			if c.dir {
				fmt.Fprintf(&b, "%s/%s/;", p, name)
				walk(p+"/"+name, c)
			} else {
				fmt.Fprintf(&b, "%s/%s=%q;", p, name, c.data)
			}
		}
	}
	walk("", f.root)
	return b.String()
}

// Ops returns the number of operations so far.
func (f *FS) Ops() int { return f.nops }

// File is an open file.
type File struct {
	fs     *FS
	n      *node
	name   string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	names  []string // directory reading
	read   bool
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// OpenFile implementation.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	defer in()()
	f := cur
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	if err := f.op(kind, name); err != nil {
		return nil, perr("open", name, err)
	}
	n, err := f.lookup(name)
	if err != nil {
		if err != syscall.ENOENT || flag&os.O_CREATE == 0 {
			return nil, perr("open", name, err)
		}
		d, base, perr2 := f.parent(name)
		if perr2 != nil {
			return nil, perr("open", name, perr2)
		}
		n = f.mk(false)
		n.mode = perm &^ 0o022
		f.apply(change{d, base, n})
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n.dir && acc != os.O_RDONLY {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && !n.dir {
		if len(n.data) > 0 {
			n.data, n.synced = nil, false
		}
		n.mtime = f.Clock()
	}
	f.Open++
	return &File{fs: f, n: n, name: name, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}, nil
}

// Open implementation.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create implementation.
func Create(name string) (*File, error) {
	defer in()()
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// CreateTemp implementation.
func CreateTemp(dir, pattern string) (*File, error) {
	defer in()()
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, fmt.Errorf("pattern contains path separator"))
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		// The numbers are small on purpose: a random name may be any number.
		cur.tmp++
		name := path.Join(dir, fmt.Sprintf("%s%d%s", pre, cur.tmp, suf))
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

// MkdirTemp implementation.
func MkdirTemp(dir, pattern string) (string, error) {
	defer in()()
	if dir == "" {
		dir = TempDir()
	}
	for {
		cur.tmp++
		name := path.Join(dir, strings.ReplaceAll(pattern, "*", "")+fmt.Sprint(cur.tmp))
		err := Mkdir(name, 0o700)
		if IsExist(err) {
			continue
		}
		return name, err
	}
}

// Name implementation.
func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

// Write implementation.
func (f *File) Write(p []byte) (int, error) {
	defer in()()
	if f == nil {
		return 0, os.ErrInvalid
	}
	ferr := f.fs.op("write", f.name)
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.app {
		f.pos = int64(len(f.n.data))
	}
	n := len(p)
	if ferr != nil {
		n /= 2
	}
	f.put(p[:n], f.pos)
	f.pos += int64(n)
	if ferr != nil {
		return n, perr("write", f.name, ferr)
	}
	return n, nil
}

func (f *File) put(p []byte, at int64) {
	if len(p) == 0 {
		return
	}
	for int64(len(f.n.data)) < at {
		f.n.data = append(f.n.data, 0)
	}
	d := append([]byte(nil), f.n.data[:at]...)
	d = append(d, p...)
	if e := at + int64(len(p)); e < int64(len(f.n.data)) {
		d = append(d, f.n.data[e:]...)
	}
	f.n.data, f.n.synced, f.n.mtime = d, false, f.fs.Clock()
}

// WriteString implementation.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt implementation.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	defer in()()
	if err := f.fs.op("write", f.name); err != nil {
		return 0, perr("write", f.name, err)
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	f.put(p, off)
	return len(p), nil
}

// ReadFrom implementation.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	defer in()()
	b, err := io.ReadAll(r)
	n, werr := f.Write(b)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}

// Read implementation.
func (f *File) Read(p []byte) (int, error) {
	defer in()()
	if f == nil {
		return 0, os.ErrInvalid
	}
	ferr := f.fs.op("read", f.name)
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if ferr != nil {
		return 0, perr("read", f.name, ferr)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

// ReadAt implementation.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	defer in()()
	if err := f.fs.op("read", f.name); err != nil {
		return 0, perr("read", f.name, err)
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Seek implementation.
func (f *File) Seek(off int64, whence int) (int64, error) {
	defer in()()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos, f.names, f.read = off, nil, false
	return off, nil
}

// Sync implementation.
func (f *File) Sync() error {
	defer in()()
	if f == nil {
		return os.ErrInvalid
	}
	kind := "sync"
	if f.n.dir {
		kind = "dirsync"
	}
	ferr := f.fs.op(kind, f.name)
	if err := f.check("sync"); err != nil {
		return err
	}
	if ferr != nil {
		return perr("sync", f.name, ferr)
	}
	f.fs.sync(f.n)
	return nil
}

// Close implementation.
func (f *File) Close() error {
	defer in()()
	if f == nil {
		return os.ErrInvalid
	}
	ferr := f.fs.op("close", f.name)
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	f.fs.Open--
	if ferr != nil {
		return perr("close", f.name, ferr)
	}
	return nil
}

// Stat implementation.
func (f *File) Stat() (fs.FileInfo, error) {
	defer in()()
	if f == nil {
		return nil, os.ErrInvalid
	}
	ferr := f.fs.op("stat", f.name)
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if ferr != nil {
		return nil, perr("stat", f.name, ferr)
	}
	return stat(f.n, path.Base(f.name)), nil
}

// Truncate implementation.
func (f *File) Truncate(size int64) error {
	defer in()()
	if err := f.fs.op("truncate", f.name); err != nil {
		return perr("truncate", f.name, err)
	}
	if err := f.check("truncate"); err != nil {
		return err
	}
	f.fs.truncate(f.n, size)
	return nil
}

func (f *FS) truncate(n *node, size int64) {
	d := append([]byte(nil), n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	n.data, n.synced, n.mtime = d[:size], false, f.Clock()
}

// Chmod implementation.
func (f *File) Chmod(m fs.FileMode) error { f.n.mode = f.n.mode&fs.ModeDir | m; return nil }

// SetDeadline implementation.
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

// Fd implementation.
func (f *File) Fd() uintptr { return ^uintptr(0) }

func (f *File) list() {
	if !f.read {
		f.read = true
		f.names = sortedNames(f.n.entries)
		if f.fs.Reverse {
			sort.Sort(sort.Reverse(sort.StringSlice(f.names)))
		}
	}
}

// Readdirnames implementation.
func (f *File) Readdirnames(n int) ([]string, error) {
	defer in()()
	if f == nil {
		return nil, os.ErrInvalid
	}
	ferr := f.fs.op("readdir", f.name)
	if f.closed {
		return nil, perr("readdirent", f.name, errors.New("use of closed file"))
	}
	if !f.n.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if ferr != nil {
		return nil, perr("readdirent", f.name, ferr)
	}
	if f.n.gone {
		return nil, perr("readdirent", f.name, syscall.ENOENT)
	}
	f.list()
	if n <= 0 {
		r := f.names
		f.names = nil
		return append([]string{}, r...), nil
	}
	if len(f.names) == 0 {
		return []string{}, io.EOF
	}
	if n > len(f.names) {
		n = len(f.names)
	}
	r := append([]string{}, f.names[:n]...)
	f.names = f.names[n:]
	return r, nil
}

// Readdir implementation.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	defer in()()
	names, err := f.Readdirnames(n)
	ret := []fs.FileInfo{}
	for _, name := range names {
		if c := f.n.entries[name]; c != nil {
			ret = append(ret, stat(c, name))
		}
	}
	return ret, err
}

// ReadDir implementation.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	defer in()()
	infos, err := f.Readdir(n)
	ret := []fs.DirEntry{}
	for _, i := range infos {
		ret = append(ret, fs.FileInfoToDirEntry(i))
	}
	return ret, err
}

type info struct {
	name string
	n    *node
	size int64
	mode fs.FileMode
	mt   time.Time
}

func stat(n *node, name string) fs.FileInfo {
	return &info{name, n, max(int64(len(n.data)), n.sparse), n.mode, n.mtime}
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() fs.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mt }
func (i *info) IsDir() bool        { return i.n.dir }
func (i *info) Sys() any           { return nil }

// Stat implementation.
func Stat(name string) (fs.FileInfo, error) {
	defer in()()
	if err := cur.op("stat", name); err != nil {
		return nil, perr("stat", name, err)
	}
	n, err := cur.lookup(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return stat(n, path.Base(name)), nil
}

// Lstat implementation.
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

// SameFile implementation.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

// Rename implementation.
func Rename(from, to string) error {
	defer in()()
	lerr := func(err error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: err} }
	f := cur
	if err := f.op("rename", to); err != nil {
		return lerr(err)
	}
	sd, sn, err := f.parent(from)
	if err != nil {
		return lerr(err)
	}
	dd, dn, err := f.parent(to)
	if err != nil {
		return lerr(err)
	}
	n := sd.entries[sn]
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if o := dd.entries[dn]; o != nil {
		if o.dir {
			return lerr(syscall.EEXIST)
		}
		if o == n {
			return nil
		}
		if n.dir {
			return lerr(syscall.ENOTDIR)
		}
	}
	f.apply(change{sd, sn, nil}, change{dd, dn, n})
	return nil
}

// Remove implementation.
func Remove(name string) error {
	defer in()()
	f := cur
	if err := f.op("remove", name); err != nil {
		return perr("remove", name, err)
	}
	return f.remove(name)
}

func (f *FS) remove(name string) error {
	d, base, err := f.parent(name)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.entries[base]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.entries) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.apply(change{d, base, nil})
	n.gone = n.dir
	return nil
}

// RemoveAll implementation.
func RemoveAll(name string) error {
	defer in()()
	f := cur
	n, err := f.lookup(name)
	if err != nil {
		return nil
	}
	for _, c := range sortedNames(n.entries) {
		if err := RemoveAll(path.Join(name, c)); err != nil {
			return err
		}
	}
	return Remove(name)
}

// Link implementation.
func Link(from, to string) error {
	defer in()()
	f := cur
	lerr := func(err error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: err} }
	if err := f.op("link", to); err != nil {
		return lerr(err)
	}
	n, err := f.lookup(from)
	if err != nil {
		return lerr(err)
	}
	d, base, err := f.parent(to)
	if err != nil {
		return lerr(err)
	}
	if d.entries[base] != nil {
		return lerr(syscall.EEXIST)
	}
	if n.dir {
		return lerr(syscall.EPERM)
	}
	f.apply(change{d, base, n})
	return nil
}

// Mkdir implementation.
func Mkdir(name string, perm fs.FileMode) error {
	defer in()()
	f := cur
	if err := f.op("mkdir", name); err != nil {
		return perr("mkdir", name, err)
	}
	d, base, err := f.parent(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d.entries[base] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	f.apply(change{d, base, f.mk(true)})
	return nil
}

// MkdirAll implementation.
func MkdirAll(name string, perm fs.FileMode) error {
	defer in()()
	if n, err := cur.lookup(name); err == nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(name); d != name {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

// ReadFile implementation.
func ReadFile(name string) ([]byte, error) {
	defer in()()
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ret := make([]byte, 0, 512)
	var buf [512]byte
	for {
		n, err := f.Read(buf[:])
		ret = append(ret, buf[:n]...)
		if err == io.EOF {
			return ret, nil
		}
		if err != nil {
			return ret, err
		}
	}
}

// WriteFile implementation.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	defer in()()
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// ReadDir implementation.
func ReadDir(name string) ([]fs.DirEntry, error) {
	defer in()()
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

// Truncate implementation.
func Truncate(name string, size int64) error {
	defer in()()
	if err := cur.op("truncate", name); err != nil {
		return perr("truncate", name, err)
	}
	n, err := cur.lookup(name)
	if err != nil {
		return perr("truncate", name, err)
	}
	if n.dir {
		return perr("truncate", name, syscall.EISDIR)
	}
	cur.truncate(n, size)
	return nil
}

// Chtimes implementation.
func Chtimes(name string, a, m time.Time) error {
	defer in()()
	if err := cur.op("chtimes", name); err != nil {
		return perr("chtimes", name, err)
	}
	n, err := cur.lookup(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = m
	return nil
}

// Chmod implementation.
func Chmod(name string, m fs.FileMode) error {
	defer in()()
	n, err := cur.lookup(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = n.mode&fs.ModeDir | m
	return nil
}

// TempDir implementation.
func TempDir() string { return "/tmp" }
