// Package veriffilepath is "path/filepath" with the functions that look at files routed to the
// simulated process.
package veriffilepath

import (
	"io/fs"
	real_ "path/filepath"
	"sort"
	"strings"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

func Glob(pattern string) ([]string, error) {
	if _, err := real_.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := verifos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real_.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var found []string
	for _, d := range dirs {
		entries, err := verifos.ReadDir(d)
		if err != nil {
			continue // as path/filepath
		}
		var names []string
		for _, e := range entries {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			if ok, err := real_.Match(file, n); err != nil {
				return nil, err
			} else if ok {
				found = append(found, real_.Join(d, n))
			}
		}
	}
	return found, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := verifos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == real_.SkipDir || err == real_.SkipAll {
		return nil
	}
	return err
}

func walk(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == real_.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	entries, err := verifos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == real_.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range entries {
		if err := walk(real_.Join(path, e.Name()), e, fn); err != nil {
			if err == real_.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn real_.WalkFunc) error {
	return WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(path, nil, err)
		}
		info, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(path, info, err)
	})
}

// EvalSymlinks: the simulated file system has no symbolic links in paths.
func EvalSymlinks(path string) (string, error) {
	if _, err := verifos.Lstat(path); err != nil {
		return "", err
	}
	return real_.Clean(path), nil
}

func Abs(path string) (string, error) {
	if real_.IsAbs(path) {
		return real_.Clean(path), nil
	}
	d, err := verifos.Getwd()
	if err != nil {
		return "", err
	}
	return real_.Join(d, path), nil
}
