// Package vfilepath stands in for path/filepath.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"github.com/yields/ant/zverif/vos"
)

type WalkFunc = filepath.WalkFunc

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
	ErrBadPattern = filepath.ErrBadPattern

	Base       = filepath.Base
	Clean      = filepath.Clean
	Dir        = filepath.Dir
	Ext        = filepath.Ext
	FromSlash  = filepath.FromSlash
	IsAbs      = filepath.IsAbs
	IsLocal    = filepath.IsLocal
	Join       = filepath.Join
	Match      = filepath.Match
	Rel        = filepath.Rel
	Split      = filepath.Split
	SplitList  = filepath.SplitList
	ToSlash    = filepath.ToSlash
	VolumeName = filepath.VolumeName
	Abs        = filepath.Abs
)

func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) (ret []string, err error) {
	dir, pat := filepath.Split(pattern)
	dir = filepath.Clean(dir)
	if _, err := filepath.Match(pat, ""); err != nil {
		return nil, err
	}
	es, err := vos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	for _, e := range es {
		if ok, _ := filepath.Match(pat, e.Name()); ok {
			ret = append(ret, filepath.Join(dir, e.Name()))
		}
	}
	return ret, nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
