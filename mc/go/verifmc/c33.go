package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/danielleontiev/neojhat/internal/verifmain"
	"github.com/danielleontiev/neojhat/internal/verifos"
)

// ---------------------------------------------------------------- C33: the surroundings of a run

// around is what surrounds a run besides the dump and the options.
type around struct {
	env    []string // added to or, without "=", removed from the usual environment
	shell  string   // commands of the shell that starts the run
	cwd    string   // relative to the scratch directory
	path   string   // the dump's path; %s is the scratch directory
	stdin  string
	stdout string
	stderr string
}

type surrounding struct {
	name string
	set  func(a *around)
}

// surroundings are the dimensions in which a run's surroundings differ from the usual one.
func surroundings() [][]surrounding {
	env := func(vs ...string) (r []surrounding) {
		for _, v := range vs {
			r = append(r, surrounding{v, func(a *around) { a.env = append(a.env, strings.Split(v, ",")...) }})
		}
		return
	}
	sh := func(cmds ...string) (r []surrounding) {
		for _, v := range cmds {
			r = append(r, surrounding{v, func(a *around) { a.shell += v + "; " }})
		}
		return
	}
	file := func(what string, kinds ...string) (r []surrounding) {
		for _, v := range kinds {
			r = append(r, surrounding{what + " " + v, func(a *around) {
				switch what {
				case "stdin":
					a.stdin = v
				case "stdout":
					a.stdout = v
				case "stderr":
					a.stderr = v
				}
			}})
		}
		return
	}
	at := func(pairs ...[2]string) (r []surrounding) {
		for _, v := range pairs {
			r = append(r, surrounding{"path " + v[1] + " in " + v[0], func(a *around) { a.cwd, a.path = v[0], v[1] }})
		}
		return
	}
	return [][]surrounding{
		env("TZ", "TZ=", "TZ=America/New_York", "TZ=Asia/Kathmandu", "TZ=Pacific/Kiritimati", "TZ=:none", "TZ=XXX-23:59:59"),
		env("LANG", "LANG=C", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_ALL=C", "LC_ALL=ja_JP.eucJP", "LC_NUMERIC=de_DE.UTF-8,LC_TIME=de_DE.UTF-8", "LC_COLLATE=sv_SE.UTF-8"),
		env("NO_COLOR=1", "NO_COLOR=", "CLICOLOR=0", "CLICOLOR_FORCE=1", "FORCE_COLOR=3", "COLORTERM=truecolor"),
		env("TERM=dumb", "TERM=", "TERM=xterm-256color", "TERM=linux"),
		env("COLUMNS=1", "COLUMNS=20,LINES=5", "COLUMNS=40", "COLUMNS=60", "COLUMNS=80", "COLUMNS=100", "COLUMNS=100000"),
		env("GOMAXPROCS=1", "GOMAXPROCS=2", "GOMAXPROCS=64"),
		env("GOGC=1", "GOGC=off"),
		env("HOME", "HOME=/", "HOME=relative"),
		env("TMPDIR=/nonexistent", "TMPDIR=relative", "XDG_CACHE_HOME=/nonexistent", "XDG_CONFIG_HOME=relative"),
		env("PATH", "PATH=", "PATH=."),
		env("DEBUG=1", "VERBOSE=1", "CI=true", "PAGER=false", "JAVA_HOME=/nonexistent,JAVA_TOOL_OPTIONS=-Xmx1g", "HPROF=y.hprof,NEOJHAT_OPTS=-no-color", "PWD=/nonexistent", "PWD"),
		sh("umask 0", "umask 007", "umask 077"),
		sh("ulimit -n 32", "ulimit -s 1024", "ulimit -c 0"),
		file("stdin", "closed", "pipe", "file", "dump"),
		file("stdout", "file", "append", "pty", "socket", "rdwr"),
		file("stderr", "null", "closed", "pty", "file", "full"),
		at([2]string{"", "x.hprof"}, [2]string{"", "./x.hprof"}, [2]string{"", "sub/../x.hprof"}, [2]string{"sub", "../x.hprof"}, [2]string{"sub", "%s//x.hprof"},
			[2]string{"sub", "%s/./x.hprof"}, [2]string{"", "link.hprof"}, [2]string{"sub", "link/x.hprof"}, [2]string{"", "sub/hard.hprof"}, [2]string{"gone", "%s/x.hprof"}),
	}
}

var variableValues = []string{"", "0", "1", "true", "20", "50", "80", "100", "-1", "/nonexistent", ".", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP", "POSIX", "dumb", "-no-color", "x=y,z"}

// around33 is a JVM whose reports have long, short, and international names.
func around33() (*World, []byte) {
	x := cached("around33", func() worldBytes {
		w := newWorld(8, stdTS).Core()
		w.summaryClasses()
		object := w.C("java/lang/Object")
		var last *Cls
		for _, name := range []string{"Main", "I", "com/example/Id", "com/example/Item", "com/example/application/service/InternalIdentifierOfAnItem$Builder",
			"com/example/\u0130\u0131\u00dfi", "com/example/ID", "\u4f8b/\u540d\u524d", "com/example/item"} {
			last = w.Class(name, object, F{"i", tInt})
			w.New(last, nil)
		}
		w.Prim(tByte, make([]byte, 50_000))
		a := w.Array(w.arrayOf("[Ljava/lang/String;"), []uint64{0})
		for i := 0; i < 1500; i++ {
			w.New(w.C("com/example/Item"), nil)
		}
		f := &FrameSpec{Class: w.C("com/example/Id"), Method: "findById", Desc: "(Lcom/example/Id;I)Lcom/example/Item;", File: "Id.java", Line: 1234}
		g := &FrameSpec{Class: last, Method: "init", Desc: "()V", File: "Item.java", Line: 6}
		w.AddThread(&Thread{Name: "Worker I \u0130\u0131 \u4f8b", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f, g},
			Locals: []LocalSpec{{0, rootJavaFrame, a, "java.lang.String[]"}}})
		props := append(append([]KV(nil), envProps...), KV{"a.key", "a value"}, KV{"I.key", "1234567.89"}, KV{"\u00f6.key", "III"}, KV{"z.key", strings.Repeat("long value ", 20)})
		w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
		return worldBytes{w, w.Bytes()}
	})
	return x.w, x.b
}

// pty opens a terminal that does not change what is written to it.
func pty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 && err == nil {
			err = e
		}
	}
	var zero, n int32
	ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return
	}
	var t syscall.Termios
	ioctl(slave, syscall.TCGETS, unsafe.Pointer(&t))
	t.Oflag &^= syscall.OPOST
	t.Lflag &^= syscall.ECHO
	ioctl(slave, syscall.TCSETS, unsafe.Pointer(&t))
	ws := [4]uint16{24, 40}
	ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	return
}

// runAround runs the unmodified binary in the given surroundings.
func (s *Sys) runAround(a around, k Cmd) (r Res) {
	ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
	defer cancel()
	args := s.args(k)
	if a.path != "" {
		args[2] = strings.ReplaceAll(a.path, "%s", s.dir)
	}
	base := []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8", "TERM=xterm"}
	var env []string
	for _, v := range append(base, a.env...) {
		name, _, set := strings.Cut(v, "=")
		i := 0
		for _, o := range env {
			if !strings.HasPrefix(o, name+"=") {
				env[i] = o
				i++
			}
		}
		env = env[:i]
		if set {
			env = append(env, v)
		}
	}
	shell := a.shell + `exec "$0" "$@"`
	cwd := s.dir + "/" + a.cwd
	if a.cwd == "gone" {
		cwd = s.dir
		shell = `/bin/mkdir gone && cd gone && /bin/rmdir ../gone; ` + shell
	}
	if a.stdin == "closed" {
		shell += " <&-"
	}
	if a.stderr == "closed" {
		shell += " 2>&-"
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", shell, realBin}, args...)...)
	cmd.Dir, cmd.Env = cwd, env
	var closers []io.Closer
	defer func() {
		for _, x := range closers {
			x.Close()
		}
	}()
	open := func(f *os.File, err error) *os.File {
		if err != nil {
			panic(err)
		}
		closers = append(closers, f)
		return f
	}
	switch a.stdin {
	case "pipe":
		cmd.Stdin = strings.NewReader("nothing of interest\n")
	case "file":
		cmd.Stdin = open(os.Open("/bin/sh"))
	case "dump":
		cmd.Stdin = open(os.Open(s.dir + "/x.hprof"))
	}
	var out, errs bytes.Buffer
	var after []func()
	sink := func(kind, name string, to *bytes.Buffer) io.Writer {
		switch kind {
		case "null":
			return open(os.OpenFile("/dev/null", os.O_WRONLY, 0))
		case "full":
			return open(os.OpenFile("/dev/full", os.O_WRONLY, 0))
		case "file", "append", "rdwr":
			mode := map[string]int{"file": os.O_WRONLY, "append": os.O_WRONLY | os.O_APPEND, "rdwr": os.O_RDWR}[kind]
			p := s.dir + "/" + name
			after = append(after, func() {
				b, _ := os.ReadFile(p)
				to.Write(b)
				os.Remove(p)
			})
			return open(os.OpenFile(p, mode|os.O_CREATE, 0o600))
		case "pty", "socket":
			var m, w *os.File
			var err error
			if kind == "pty" {
				if m, w, err = pty(); err != nil {
					s.c.Skip()
				}
			} else {
				fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
				if err != nil {
					panic(err)
				}
				m, w = os.NewFile(uintptr(fds[0]), "a"), os.NewFile(uintptr(fds[1]), "b")
			}
			closers = append(closers, m)
			done := make(chan struct{})
			go func() {
				io.Copy(to, m)
				close(done)
			}()
			after = append(after, func() {
				w.Close()
				<-done
			})
			return w
		}
		return to
	}
	cmd.Stdout = sink(a.stdout, "stdout.txt", &out)
	cmd.Stderr = sink(a.stderr, "stderr.txt", &errs)
	cmd.WaitDelay = time.Second
	s.c.Steps(1)
	err := cmd.Run()
	for _, f := range after {
		f()
	}
	r.Out, r.Err = out.String(), errs.String()
	if x, ok := err.(*exec.ExitError); ok {
		r.Code = x.ExitCode()
		if r.Code < 0 {
			r.Crash = x.String()
		}
		if ctx.Err() != nil {
			r.Crash = "no end after " + fmt.Sprint(hangAfter)
		}
	} else if err != nil {
		r.Crash, r.Code = err.Error(), 3
	}
	return
}

func init() {
	register(&Property{ID: "C33", Level: "model_checking",
		Rule:   "one state per (command, index there or not, surroundings)",
		Assume: []string{"the surroundings are those listed in the space; the owner has the rights of the owner"},
		Spaces: func(thorough bool) []Space {
			cmds := func() []Cmd {
				return []Cmd{
					{Sub: "summary", AllProps: true, File: "x.hprof"},
					{Sub: "threads", Locals: true, File: "x.hprof", Color: true, Interactive: true},
					{Sub: "objects", Size: true, File: "x.hprof"},
					{Sub: "summary", Html: true, AllProps: true, File: "x.hprof"},
					{Sub: "objects", File: "x.hprof", Color: true},
					{Sub: "threads", File: "x.hprof", Html: true, Locals: true},
				}
			}
			place := func(s *Sys, b []byte) {
				s.Put("x.hprof", b)
				s.Mkdir("sub")
				for _, x := range [][2]string{{"x.hprof", "link.hprof"}, {"..", "sub/link"}} {
					if err := os.Symlink(x[0], s.Path(x[1])); err != nil {
						panic(err)
					}
				}
				if err := os.Link(s.Path("x.hprof"), s.Path("sub/hard.hprof")); err != nil {
					panic(err)
				}
			}
			deviating := func(name string, n, cs int) Space {
				return Space{Name: name, Fn: func(c *Ctx) {
					dims := surroundings()
					k := cmds()[c.Choose(cs)]
					indexed := (n == 1 || thorough) && c.Bool()
					var a around
					what := ""
					from := 0
					for i := 0; i < n; i++ {
						if len(dims)-from < n-i {
							c.Skip()
						}
						d := c.Choose(len(dims) - from) // a dimension behind the last one
						d += from
						v := Pick(c, dims[d])
						v.set(&a)
						what += v.name + "; "
						from = d + 1
					}
					odd := 0 // the display takes a second: only where it could matter
					for _, v := range []bool{a.stderr != "", a.stdout != "", strings.Contains(what, "TERM="), strings.Contains(what, "COLUMNS=")} {
						if v {
							odd++
						}
					}
					if odd < n {
						k.Interactive = false
					}
					c.State(fmt.Sprint(k, " ", indexed, " ", what))
					w, b := around33()
					usual := cached("c33"+k.String(), func() string {
						s := c.RealSys()
						place(s, b)
						r := s.runAround(around{}, k)
						if err := w.expect(k, r); err != nil {
							c.Fail("usual surroundings: %v", err)
						}
						return r.Out
					})
					s := c.RealSys()
					place(s, b)
					if indexed { // by a run in usual surroundings
						s.must33(c, w, around{}, k, "first run")
					}
					hist := fmt.Sprintf("%s, index there: %v, with %s", k, indexed, what)
					r := s.runAround(a, k)
					if err := w.expect(k, r); err != nil {
						c.Fail("%s: %v", hist, err)
					}
					if r.Out != usual {
						c.Fail("%s: the report differs from the usual one: %s", hist, firstDiff(usual, r.Out))
					}
					if !indexed { // the index built there serves usual runs
						b := around{path: a.path, cwd: a.cwd}
						if r := s.runAround(b, k); r.Out != usual || r.Code != 0 {
							c.Fail("usual run after %s: %v", hist, r)
						}
					}
				}}
			}
			// the time of day, by the virtual clock
			clock := Space{Name: "clock", Fn: func(c *Ctx) {
				k := Pick(c, allCmds("x.hprof"))
				indexed := c.Bool()
				var at time.Duration
				if i := c.Choose(64); i > 0 {
					at = time.Duration(1)<<(i-1) - 1 // up to 146 years after 2000
				}
				c.State(fmt.Sprint(k, " ", indexed, " ", at))
				w, b := around33()
				s := c.Sys()
				s.Put("x.hprof", b)
				if indexed {
					c.must(w, s, k, "first run: ")
				}
				usual := cached("c33clock"+k.String(), func() string {
					t := s.Fork()
					return c.must(w, t, k, "usual clock: ").Out
				})
				var p *verifos.Proc
				problem := virtual(func() {
					time.Sleep(at)
					p = &verifos.Proc{FS: s.fs, Args: append([]string{"neojhat"}, s.args(k)...)}
					verifos.SetCurrent(p)
					<-p.Start(verifmain.Main)
					p.Dead = true
				})
				verifos.SetCurrent(nil)
				if problem != "" {
					c.Fail("%s at %v: %s", k, at, problem)
				}
				c.Steps(p.Ops)
				if r := procRes(p); r.Out != usual || r.Code != 0 || r.Crash != "" {
					c.Fail("%s, index there: %v, %v after 2000: the report differs: %s: %v", k, indexed, at, firstDiff(usual, r.Out), r)
				}
			}}
			// all variables the command looks at
			variables := Space{Name: "variables", Devs: 2, Fn: func(c *Ctx) {
				k := Pick(c, cmds())
				indexed := c.Bool()
				c.State(fmt.Sprint(k, " ", indexed))
				w, b := around33()
				s := c.Sys()
				s.Put("x.hprof", b)
				if indexed {
					c.must(w, s, k, "first run: ")
				}
				usual := cached("c33variables"+k.String(), func() string {
					t := s.Fork()
					t.Prep = func(p *verifos.Proc) { p.Ask = func(string) (string, bool) { return "", false } }
					return c.must(w, t, k, "without environment: ").Out
				})
				var env []string
				s.Prep = func(p *verifos.Proc) {
					p.Ask = func(name string) (string, bool) {
						i := c.Dev(1 + len(variableValues))
						if i == 0 {
							return "", false
						}
						env = append(env, name+"="+variableValues[i-1])
						return variableValues[i-1], true
					}
				}
				r := s.Do(k)
				if r.Out != usual || r.Code != 0 || r.Crash != "" {
					c.Fail("%s, index there: %v, with %q: the report differs: %s: %v", k, indexed, env, firstDiff(usual, r.Out), r)
				}
			}}
			sp := []Space{variables, clock, deviating("surroundings", 1, 6), deviating("pairs", 2, 2)}
			if thorough {
				sp = append(sp, deviating("all-pairs", 2, 6), deviating("triples", 3, 2))
			}
			return sp
		}})

	// ------------------------------------------------------------ C34: who can read the index

	register(&Property{ID: "C34", Level: "model_checking",
		Rule:   "one state per (dump, command, umask, instant)",
		Assume: []string{"access is decided by the owner, group and others bits; directories above the dump's are not considered"},
		Spaces: func(thorough bool) []Space {
			umasks := func(c *Ctx) fs.FileMode { return fs.FileMode(c.Choose(64)) }
			instants := Space{Name: "instants", Fn: func(c *Ctx) {
				x := Pick(c, subjects())
				k := Pick(c, basicCmds("x.hprof"))
				u := umasks(c)
				c.State(fmt.Sprintf("%s %s %03o", x.name, k, u))
				s := c.Sys()
				s.fs.Umask = u
				s.Put("x.hprof", x.b)
				var last string
				look := func(at string) {
					if l := leak(s.List(), func(p string) (fs.FileMode, bool) { return s.fs.Mode(s.Path(p)) }); l != "" && last == "" {
						last = at + ": " + l
					}
				}
				var before string
				s.hooked(func(o *verifos.Op) (a verifos.Answer) {
					look(before)
					before = "after " + opString(*o)
					return
				})
				r := s.Do(k)
				look("at the end")
				if last != "" {
					c.Fail("%s with umask %03o, %s", k, u, last)
				}
				if err := x.check(k, r); err != nil {
					c.Fail("%s with umask %03o: %v", k, u, err)
				}
			}}
			real := Space{Name: "binary", Fn: func(c *Ctx) {
				x := Pick(c, subjects()[:2])
				k := Pick(c, basicCmds("x.hprof"))
				mode := Pick(c, []fs.FileMode{0o600, 0o640, 0o644, 0o666, 0o400})
				u := umasks(c)
				c.State(fmt.Sprintf("%s %s %03o of a dump %03o", x.name, k, u, mode))
				s := c.RealSys()
				s.Put("x.hprof", x.b)
				if err := os.Chmod(s.Path("x.hprof"), mode); err != nil {
					panic(err)
				}
				for i := 0; i < 2; i++ {
					r := s.runAround(around{shell: fmt.Sprintf("umask %03o; ", u)}, k)
					if err := x.check(k, r); err != nil {
						c.Fail("%s with umask %03o: %v", k, u, err)
					}
					if l := leak(s.List(), func(p string) (fs.FileMode, bool) {
						i, err := os.Stat(s.Path(p))
						if err != nil {
							return 0, false
						}
						return i.Mode(), true
					}); l != "" {
						c.Fail("%s with umask %03o: %s", k, u, l)
					}
					if i, err := os.Stat(s.Path("x.hprof")); err != nil || i.Mode().Perm() != mode {
						c.Fail("%s with umask %03o changes the dump's permissions", k, u)
					}
				}
			}}
			return []Space{real, instants}
		}})
	registerC35()
}

func (s *Sys) must33(c *Ctx, w *World, a around, k Cmd, what string) {
	if err := w.expect(k, s.runAround(a, k)); err != nil {
		c.Fail("%s: %v", what, err)
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("byte %d: %q instead of %q", i, head(b[from:], 100), head(a[from:], 100))
}

// leak tells which file besides the dump somebody else than its owner can read or change.
func leak(list []string, mode func(p string) (fs.FileMode, bool)) string {
	for _, p := range list {
		if p == "x.hprof" {
			continue
		}
		m, ok := mode(strings.TrimSuffix(p, "/"))
		if !ok {
			continue
		}
		for _, who := range []struct {
			name  string
			shift uint
		}{{"the group", 3}, {"everybody", 0}} {
			reach := true
			for d := path.Dir(strings.TrimSuffix(p, "/")); d != "."; d = path.Dir(d) {
				if dm, ok := mode(d); ok && dm>>who.shift&1 == 0 {
					reach = false
				}
			}
			bits := m >> who.shift & 7
			switch {
			case !reach:
			case m.IsDir() && bits&3 == 3:
				return fmt.Sprintf("%s may put files into %s (%v)", who.name, p, m)
			case !m.IsDir() && bits&4 != 0:
				return fmt.Sprintf("%s may read %s (%v)", who.name, p, m)
			case !m.IsDir() && bits&2 != 0:
				return fmt.Sprintf("%s may change %s (%v)", who.name, p, m)
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C35: work

// work is what a run asks the file system for.
type work struct{ ops, dumpReads, dumpBytes, indexReads, indexBytes, writes, written int }

func (s *Sys) workOf(k Cmd) (x work, r Res) {
	s.hooked(func(o *verifos.Op) (a verifos.Answer) {
		x.ops++
		dump := strings.HasSuffix(o.Path, "x.hprof")
		switch {
		case o.Kind != "read" && o.Kind != "readat" && o.Kind != "write":
		case o.Kind == "write":
			x.writes++
			x.written += o.N
		case dump:
			x.dumpReads++
			x.dumpBytes += o.N
		default:
			x.indexReads++
			x.indexBytes += o.N
		}
		return
	})
	r = s.Do(k)
	s.unhooked()
	return
}

func registerC35() {
	register(&Property{ID: "C35", Level: "model_checking",
		Rule:   "one state per (identifier size, kinds and number of objects, command)",
		Assume: []string{"work is counted in operations on files and bytes asked for; computations are not counted"},
		Spaces: func(thorough bool) []Space {
			type built struct {
				w *World
				b []byte
			}
			const few = 200
			// a JVM with n more objects of some kinds
			world := func(ids, kinds, spread, n int) built {
				build := func() built {
					w := newWorld(ids, stdTS).Core()
					w.summaryClasses()
					main := w.Class("Main", w.C("java/lang/Object"))
					point := w.Class("app/Point", w.C("java/lang/Object"), F{"x", tLong}, F{"y", tLong})
					arr := w.arrayOf("[Lapp/Point;")
					a := w.Array(arr, []uint64{0})
					more := func(n int) (first, last []uint64) {
						for i := 0; i < n; i++ {
							var ids []uint64
							if kinds&1 != 0 {
								ids = append(ids, w.New(point, nil))
							}
							if kinds&2 != 0 {
								ids = append(ids, w.Array(arr, []uint64{a, a}))
							}
							if kinds&4 != 0 {
								ids = append(ids, w.Prim(tByte, make([]byte, 20)))
							}
							if i == 0 {
								first = ids
							}
							last = ids
						}
						return
					}
					far := func(when int) { // the objects from here on are far away
						if spread == when {
							w.nextID = 1<<(8*ids-1) + 0x1000
						}
					}
					far(1)
					first, _ := more(1)
					far(2)
					_, last := more(n/2 - 1)
					f := &FrameSpec{Class: main, Method: "main", Desc: "()V", File: "Main.java", Line: 6}
					var locals []LocalSpec
					add := func(ids []uint64) {
						i := 0
						for _, x := range []struct {
							bit  int
							name string
						}{{1, "app.Point"}, {2, "app.Point[]"}, {4, "byte[]"}} {
							if kinds&x.bit != 0 {
								locals = append(locals, LocalSpec{0, rootJavaFrame, ids[i], x.name})
								i++
							}
						}
					}
					add(first)
					add(last)
					w.AddThread(&Thread{Name: "main", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f}, Locals: locals})
					w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
					far(3)
					more(n/2 - 1)
					far(4)
					more(1)
					return built{w: w, b: w.Bytes()}
				}
				if n == few {
					return cached(fmt.Sprint("c35", ids, kinds, " ", spread), build)
				}
				return build()
			}
			sizes := []int{1000, 2000, 5000, 20000, 65536, 200000, 400000}
			if thorough {
				sizes = append(sizes, 1000000)
			}
			return []Space{{Name: "growth", Workers: 7, Fn: func(c *Ctx) {
				ids := Pick(c, []int{4, 8})
				kinds := 1 + c.Choose(7)
				n := Pick(c, sizes)
				spread := 0
				if n <= 20000 || thorough {
					spread = c.Choose(5)
				}
				c.State(fmt.Sprint(ids, " ", kinds, " ", n, " ", spread))
				small, big := world(ids, kinds, spread, few), world(ids, kinds, spread, n)
				objects := 0
				for b := kinds; b > 0; b >>= 1 {
					objects += b & 1 * n
				}
				s, t := c.Sys(), c.Sys()
				s.Put("x.hprof", small.b)
				t.Put("x.hprof", big.b)
				for i, k := range append(append(allCmds("x.hprof"), allCmds("x.hprof")[:3]...), basicCmds("x.hprof")...) {
					x, r1 := s.workOf(k)
					y, r2 := t.workOf(k)
					c.Steps(x.ops + y.ops)
					for _, e := range []error{small.w.expect(k, r1), big.w.expect(k, r2)} {
						if e != nil {
							c.Fail("%v", e)
						}
					}
					what := fmt.Sprintf("run %d (%s) on %d objects in %d bytes with identifiers of %d bytes: %+v (on %d objects: %+v)", i+1, k, objects, len(big.b), ids, y, few, x)
					grown := len(big.b) - len(small.b)
					switch {
					case i == 0: // builds the index
						if y.dumpBytes > x.dumpBytes+grown+grown/4+1<<20 {
							c.Fail("the dump is read more than once: %s", what)
						}
						if y.dumpReads > x.dumpReads+grown/512+1000 {
							c.Fail("the dump is read in too small portions: %s", what)
						}
						if y.written > x.written+128*objects+1<<20 || y.writes > x.writes+objects/500+1000 {
							c.Fail("the index is too large or written in too small portions: %s", what)
						}
					case y.writes > x.writes+100 || y.written > x.written+1<<16:
						c.Fail("the index is written again: %s", what)
					case y.dumpBytes > 4*x.dumpBytes+1<<20 || y.dumpReads > 4*x.dumpReads+500:
						c.Fail("the report reads more of the dump than it shows: %s", what)
					}
					// a lookup takes a number of steps that does not grow faster than the logarithm
					if y.indexBytes > 4*x.indexBytes+1<<20 || y.indexReads > 4*x.indexReads+500 {
						c.Fail("too much of the index is read: %s", what)
					}
					if i > 0 && y.ops > 4*x.ops+1000 {
						c.Fail("too many operations: %s", what)
					}
				}
			}}}
		}})
}
