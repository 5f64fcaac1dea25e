//go:build go1.24

package vioutil

import (
	"io/fs"
	"sort"

	"github.com/getsolus/ferryd/src/verifmc/vos"
)

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func ReadFile(name string) ([]byte, error)            { return vos.ReadFile(name) }
func TempDir(dir, pattern string) (string, error)     { return vos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

func ReadDir(dirname string) ([]fs.FileInfo, error) {
	ents, err := vos.ReadDir(dirname)
	if err != nil {
		return nil, err
	}
	var l []fs.FileInfo
	for _, e := range ents {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		l = append(l, i)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}
