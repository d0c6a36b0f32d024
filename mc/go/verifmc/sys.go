package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/danielleontiev/neojhat/internal/verifmain"
	"github.com/danielleontiev/neojhat/internal/verifos"
)

// Res is what a run of the command shows to its user.
type Res struct {
	Out, Err string
	Code     int
	Crash    string
	Killed   bool
	Ops      int
}

func (r Res) String() string {
	s := fmt.Sprintf("status %d", r.Code)
	if r.Killed {
		s = "killed"
	}
	if r.Crash != "" {
		s += ", crash: " + head(r.Crash, 1200)
	}
	return s + fmt.Sprintf(", output %q, stderr %q", head(r.Out, 1500), head(r.Err, 300))
}

// Sys is a place where commands run: an in-memory one or a scratch directory with the
// unmodified binary.
type Sys struct {
	c    *Ctx
	fs   *verifos.FS
	dir  string
	real bool
	// Prep sees the simulated process before it starts.
	Prep func(p *verifos.Proc)
}

func (c *Ctx) Sys() *Sys {
	s := &Sys{c: c, real: c.real}
	if c.real {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = scratchDir()
			c.cleanup = append(c.cleanup, func() { os.RemoveAll(base) })
		}
		d, err := os.MkdirTemp(base, "real-")
		if err != nil {
			panic(err)
		}
		s.dir = d
		c.cleanup = append(c.cleanup, func() { os.RemoveAll(d) })
	} else {
		s.fs = verifos.NewFS()
		s.dir = "/d"
		s.fs.MkdirAll("/d")
	}
	return s
}

// RealSys is a scratch directory with the unmodified binary, whatever the execution.
func (c *Ctx) RealSys() *Sys {
	r := c.real
	c.real, c.usedReal = true, true
	defer func() { c.real = r }()
	return c.Sys()
}

// Real tells whether this is the unmodified binary.
func (s *Sys) Real() bool { return s.real }

func (s *Sys) Path(name string) string { return s.dir + "/" + name }

func (s *Sys) Put(name string, b []byte) {
	if s.real {
		if d := os.Getenv("VERIF_EXPORT"); d != "" { // for mc/jdk/check.py
			os.WriteFile(fmt.Sprintf("%s/%x", d, sha256.Sum256(b)), b, 0o644)
		}
		if err := os.WriteFile(s.Path(name), b, 0o644); err != nil {
			panic(err)
		}
		return
	}
	s.fs.Put(s.Path(name), b)
}

func (s *Sys) Mkdir(name string) {
	if s.real {
		if err := os.MkdirAll(s.Path(name), 0o755); err != nil {
			panic(err)
		}
		return
	}
	s.fs.MkdirAll(s.Path(name))
}

func (s *Sys) Get(name string) (string, bool) {
	if s.real {
		b, err := os.ReadFile(s.Path(name))
		return string(b), err == nil
	}
	b, ok := s.fs.Get(s.Path(name))
	return string(b), ok
}

// Mtime tells when the file was written last.
func (s *Sys) Mtime(name string) int64 {
	if s.real {
		if i, err := os.Stat(s.Path(name)); err == nil {
			return i.ModTime().UnixNano()
		}
		return -1
	}
	return s.fs.Mtime(s.Path(name))
}

func (s *Sys) Remove(name string) {
	if s.real {
		os.RemoveAll(s.Path(name))
		return
	}
	s.fs.Del(s.Path(name))
}

func (s *Sys) Move(a, b string) {
	if s.real {
		if err := os.Rename(s.Path(a), s.Path(b)); err != nil {
			panic(err)
		}
		return
	}
	s.fs.Mv(s.Path(a), s.Path(b))
}

// List returns all paths below the scratch directory, directories with a trailing slash.
func (s *Sys) List() []string {
	var r []string
	if s.real {
		filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && p != s.dir {
				q := strings.TrimPrefix(p, s.dir+"/")
				if i.IsDir() {
					q += "/"
				}
				r = append(r, q)
			}
			return nil
		})
		sort.Strings(r)
		return r
	}
	for _, p := range s.fs.List() {
		if q, ok := strings.CutPrefix(p, s.dir+"/"); ok && q != "" {
			r = append(r, q)
		}
	}
	return r
}

// Image is the contents of all files.
func (s *Sys) Image() map[string]string {
	m := map[string]string{}
	for _, p := range s.List() {
		if !strings.HasSuffix(p, "/") {
			m[p], _ = s.Get(p)
		} else {
			m[p] = ""
		}
	}
	return m
}

func (s *Sys) Fork() *Sys {
	t := *s
	t.fs = s.fs.Clone()
	t.Prep = nil
	return &t
}

var realBin = func() string {
	exe, _ := os.Executable()
	return filepath.Join(filepath.Dir(exe), "neojhat")
}()

func (s *Sys) Run(args ...string) Res {
	if s.real {
		s.c.Steps(1)
		return runReal(s.dir, args...)
	}
	p := &verifos.Proc{FS: s.fs, Args: append([]string{"neojhat"}, args...)}
	p.Limit = 300_000 + 30*s.fs.Bytes()
	if s.Prep != nil {
		s.Prep(p)
	}
	p.Run(verifmain.Main)
	s.c.Steps(p.Ops)
	return procRes(p)
}

func procRes(p *verifos.Proc) Res {
	return Res{Out: string(p.Out), Err: string(p.ErrOut), Code: p.Code, Crash: p.Panic, Killed: p.Killed, Ops: p.Ops}
}

func runReal(dir string, args ...string) Res {
	ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
	defer cancel()
	cmd := exec.CommandContext(ctx, realBin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := Res{Out: o.String(), Err: e.String()}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
			if ctx.Err() != nil {
				r.Crash = "no end after " + fmt.Sprint(hangAfter)
			} else if r.Code < 0 {
				r.Crash = x.String()
			} else if r.Code == 2 && (strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "fatal error")) {
				r.Crash = r.Err
			}
		} else {
			r.Crash = err.Error()
		}
	}
	return r
}

// ---------------------------------------------------------------- commands

// Cmd is a sub-command with its options.
type Cmd struct {
	Sub         string
	File        string // relative to the scratch directory
	Color       bool
	Locals      bool
	AllProps    bool
	Size        bool // sort by size
	Html        bool
	Interactive bool
}

func (s *Sys) args(k Cmd) []string {
	b := func(name string, v bool) string { return fmt.Sprintf("-%s=%v", name, v) }
	a := []string{k.Sub, "-hprof", s.Path(k.File), b("no-color", !k.Color), b("non-interactive", !k.Interactive)}
	switch k.Sub {
	case "threads":
		a = append(a, b("local-vars", k.Locals))
	case "summary":
		a = append(a, b("all-props", k.AllProps))
	case "objects":
		if k.Size {
			a = append(a, "-sort-by", "size")
		} else {
			a = append(a, "-sort-by", "count")
		}
	}
	if k.Html {
		a = append(a, "-output", "html")
	} else {
		a = append(a, "-output", "plain")
	}
	return a
}

func (s *Sys) Do(k Cmd) Res { return s.Run(s.args(k)...) }

func (k Cmd) String() string {
	s := k.Sub
	for _, f := range []struct {
		on bool
		n  string
	}{{k.Color, "color"}, {k.Locals, "local-vars"}, {k.AllProps, "all-props"}, {k.Size, "by-size"}, {k.Html, "html"}, {k.Interactive, "interactive"}} {
		if f.on {
			s += "+" + f.n
		}
	}
	return s
}

// allCmds are the three sub-commands with every report variant.
func basicCmds(file string) []Cmd {
	return []Cmd{{Sub: "threads", File: file, Locals: true}, {Sub: "summary", File: file, AllProps: true}, {Sub: "objects", File: file}}
}

var reportMarks = []string{"Instances:", "- Environment", "- Heap", ", ID=", "<html", "Class Name", "JVM Uptime"}

// rejected checks that the run failed properly: an error message, status 1 and no report.
func (r Res) rejected() error {
	if r.Crash != "" {
		return fmt.Errorf("crash instead of an error: %v", r)
	}
	if r.Code != 1 {
		return fmt.Errorf("not rejected: %v", r)
	}
	if strings.TrimSpace(r.Out+r.Err) == "" {
		return fmt.Errorf("no error message: %v", r)
	}
	for _, m := range reportMarks {
		if strings.Contains(r.Out, m) {
			return fmt.Errorf("report although the run failed: %v", r)
		}
	}
	return nil
}

// ended checks that the run ended in one of the two proper ways.
func (r Res) ended() error {
	if r.Crash == "" && r.Code == 0 {
		return nil
	}
	return r.rejected()
}

func within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}
