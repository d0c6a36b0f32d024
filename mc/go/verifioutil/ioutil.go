// Package verifioutil is "io/ioutil" on the simulated process.
package verifioutil

import (
	"io/fs"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

func ReadFile(name string) ([]byte, error)                 { return verifos.ReadFile(name) }
func WriteFile(name string, b []byte, p fs.FileMode) error { return verifos.WriteFile(name, b, p) }
func TempDir(dir, pattern string) (string, error)          { return verifos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*verifos.File, error)  { return verifos.CreateTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	entries, err := verifos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var infos []fs.FileInfo
	for _, e := range entries {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		infos = append(infos, i)
	}
	return infos, nil
}
