package verifos

import (
	"io/fs"
	real_ "os"
	"path/filepath"
)

// DirFS is the tree of files below a directory.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &real_.PathError{Op: op, Path: name, Err: real_.ErrInvalid}
	}
	return filepath.Join(string(d), filepath.FromSlash(name)), nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.path("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.path("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.path("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

// Root is a directory whose files are opened by names relative to it.
type Root struct{ dir string }

func OpenRoot(dir string) (*Root, error) {
	info, err := Stat(dir)
	if err != nil {
		return nil, err
	}
	if !info.IsDir() {
		return nil, &real_.PathError{Op: "open", Path: dir, Err: real_.ErrInvalid}
	}
	return &Root{dir}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

func (r *Root) path(op, name string) (string, error) {
	if !filepath.IsLocal(name) {
		return "", &real_.PathError{Op: op, Path: name, Err: real_.ErrInvalid}
	}
	return filepath.Join(r.dir, name), nil
}

func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { return nil }
func (r *Root) FS() fs.FS    { return dirFS(r.dir) }

func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}

func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, real_.O_RDONLY, 0) }
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, real_.O_RDWR|real_.O_CREATE|real_.O_TRUNC, 0o666)
}

func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenRoot(p)
}

func (r *Root) on(op, name string, f func(string) error) error {
	p, err := r.path(op, name)
	if err != nil {
		return err
	}
	return f(p)
}

func (r *Root) Mkdir(name string, perm fs.FileMode) error {
	return r.on("mkdirat", name, func(p string) error { return Mkdir(p, perm) })
}
func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
	return r.on("mkdirat", name, func(p string) error { return MkdirAll(p, perm) })
}
func (r *Root) Remove(name string) error    { return r.on("unlinkat", name, Remove) }
func (r *Root) RemoveAll(name string) error { return r.on("RemoveAll", name, RemoveAll) }
func (r *Root) WriteFile(name string, b []byte, perm fs.FileMode) error {
	return r.on("openat", name, func(p string) error { return WriteFile(p, b, perm) })
}

func (r *Root) Rename(from, to string) error {
	return r.on("renameat", from, func(p string) error {
		return r.on("renameat", to, func(q string) error { return Rename(p, q) })
	})
}

func (r *Root) ReadFile(name string) ([]byte, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (r *Root) Stat(name string) (fs.FileInfo, error) {
	p, err := r.path("statat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

func (r *Root) Lstat(name string) (fs.FileInfo, error) { return r.Stat(name) }
