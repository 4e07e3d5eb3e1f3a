// Package vioutil stands in for io/ioutil.
package vioutil

import (
	"io"
	"io/fs"

	"github.com/yields/ant/zverif/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return vos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := vos.ReadDir(name)
	var ret []fs.FileInfo
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			ret = append(ret, i)
		}
	}
	return ret, err
}
