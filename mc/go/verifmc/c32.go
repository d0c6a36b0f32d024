package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"time"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

// longWorld is a dump whose reports are longer than the buffers of the usual writers.
func longWorld() (*World, []byte) {
	x := cached("c32long", func() worldBytes {
		w := newWorld(8, stdTS).Core()
		w.summaryClasses()
		main := w.Class("Main", w.C("java/lang/Object"))
		str := w.arrayOf("[Ljava/lang/String;")
		a := w.Array(str, []uint64{0})
		for i := 0; i < 25; i++ {
			f := &FrameSpec{Class: main, Method: fmt.Sprintf("method%d", i), Desc: "([Ljava/lang/String;)V", File: "Main.java", Line: int32(6 + i)}
			g := &FrameSpec{Class: main, Method: "run", Desc: "()V", File: "Main.java", Line: int32(60 + i)}
			w.AddThread(&Thread{Name: fmt.Sprintf("worker %d", i), Coder: -1, TID: int64(i + 1), Prio: 5, Status: 5, Frames: []*FrameSpec{f, g},
				Locals: []LocalSpec{{0, rootJavaFrame, a, "java.lang.String[]"}}})
		}
		for i := 0; i < 60; i++ {
			w.New(w.Class(fmt.Sprintf("pkg/of/Classes%d", i), w.C("java/lang/Object")), nil)
		}
		props := append([]KV(nil), envProps...)
		for i := 0; i < 60; i++ {
			props = append(props, KV{fmt.Sprintf("a.key.%d", i), fmt.Sprintf("the value number %d of the list of properties", i)})
		}
		w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
		return worldBytes{w, w.Bytes()}
	})
	return x.w, x.b
}

// lost judges a run that could not write all of its output. intact tells that nothing was
// refused.
func lost(w *World, k Cmd, r Res, intact bool) error {
	if r.Crash != "" {
		return fmt.Errorf("crash: %v", r)
	}
	if intact || r.Code == 0 {
		if err := w.expect(k, r); err != nil {
			return fmt.Errorf("status 0 although the report is not written completely: %w", err)
		}
		return nil
	}
	if r.Code != 1 {
		return fmt.Errorf("not a failure with status 1: %v", r)
	}
	return nil
}

func init() {
	register(&Property{ID: "C32", Level: "fault_enumeration",
		Rule:   "one state per (dump, command, index there or not, refused writes)",
		Assume: []string{"standard output reports its errors to the writer (a pipe's reader or a network file system that loses data later is not covered)"},
		Spaces: func(thorough bool) []Space {
			worlds := func(c *Ctx) (*World, []byte, string) {
				if c.Bool() {
					w, b := longWorld()
					return w, b, "long"
				}
				w, b := cliWorld()
				return w, b, "short"
			}
			later := func(c *Ctx, w *World, s *Sys, k Cmd, what string) {
				s.unhooked()
				c.must(w, s, k, "undisturbed run after "+what+": ")
			}
			prepared := func(c *Ctx, w *World, b []byte, which string, indexed bool) *Sys {
				s := c.Sys()
				if !indexed {
					s.Put("x.hprof", b)
					return s
				}
				s.fs = cached("c32fs"+which, func() *verifos.FS {
					s.Put("x.hprof", b)
					c.must(w, s, Cmd{Sub: "objects", File: "x.hprof"}, "first run: ")
					return s.fs
				}).Clone()
				return s
			}
			// the output of the undisturbed command
			undisturbed := func(c *Ctx, s *Sys, w *World, k Cmd, which string) (n, writes int) {
				type lengths struct{ n, writes int }
				x := cached(fmt.Sprint("c32", which, k), func() (x lengths) {
					t := s.Fork()
					t.Prep = func(p *verifos.Proc) {
						p.OnOut = func(fd int, b []byte) {
							if fd == 1 {
								x.writes++
							}
						}
					}
					x.n = len(c.must(w, t, k, "").Out)
					return
				})
				return x.n, x.writes
			}
			errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF}

			// standard output takes exactly so many bytes
			full := Space{Name: "full-after", Fn: func(c *Ctx) {
				w, b, which := worlds(c)
				k := Pick(c, allCmds("x.hprof"))
				s := prepared(c, w, b, which, which == "long")
				n, _ := undisturbed(c, s, w, k, which)
				step := 1
				switch {
				case which == "long" && thorough:
					step = 3
				case which == "long":
					step = 31
				}
				at := c.Choose(n/step+4)*step - step // also in front of the multiples' ends
				switch {
				case at < 0:
					at = n - 1
				case at > n+step:
					at = n - 2
				}
				c.State(fmt.Sprint(which, " ", k, " full after ", at))
				room := at
				s.Prep = func(p *verifos.Proc) {
					p.OnWrite = func(fd, n int) (a verifos.Answer) {
						if fd != 1 {
							return
						}
						if n > room {
							a.Err, a.N = syscall.ENOSPC, room
							room = 0
							return
						}
						room -= n
						return
					}
				}
				what := fmt.Sprintf("%s with standard output full after %d of %d bytes", k, at, n)
				if err := lost(w, k, s.Do(k), at >= n); err != nil {
					c.Fail("%s: %v", what, err)
				}
				if at%16 == 0 {
					later(c, w, s, k, what)
				}
			}}

			// one or two writes fail, the others do not
			single := Space{Name: "failing-writes", Fn: func(c *Ctx) {
				w, b, which := worlds(c)
				ks := allCmds("x.hprof")
				k := Pick(c, ks)
				indexed := which == "long" || c.Bool()
				s := prepared(c, w, b, which, indexed)
				_, writes := undisturbed(c, s, w, k, which)
				many, front := writes, 40
				if !thorough { // the first and the last
					many, front = min(writes, 60), 40
					if which == "long" {
						many, front = min(writes, 60), 40
					}
				}
				i := c.Choose(many)
				if i >= front && writes > many {
					i += writes - many
				}
				es := errnos
				if !thorough {
					es = es[:3]
				}
				e := Pick(c, es)
				part := c.Choose(3)
				second := 0
				if thorough {
					second = c.Choose(3)
				}
				what := fmt.Sprint(which, " ", k, " write ", i, " of ", writes, " fails with ", e, " part ", part, " second ", second)
				c.State(what + fmt.Sprint(indexed))
				at := 0
				s.Prep = func(p *verifos.Proc) {
					p.OnWrite = func(fd, n int) (a verifos.Answer) {
						if fd != 1 {
							return
						}
						if at == i || second != 0 && at == i+second {
							a.Err = e
							switch part {
							case 1:
								a.N = n / 2
							case 2:
								a.N = n - 1
							}
						}
						at++
						return
					}
				}
				if err := lost(w, k, s.Do(k), false); err != nil {
					c.Fail("%s: %v", what, err)
				}
				later(c, w, s, k, what)
			}}

			// the unmodified binary on a full device, a closed pipe and a descriptor only for reading
			real := Space{Name: "binary", Fn: func(c *Ctx) {
				w, b, which := worlds(c)
				k := Pick(c, allCmds("x.hprof"))
				k.Interactive = k.Size || k.Locals // shows progress while the index is built
				out := Pick(c, []string{"full", "pipe", "read-only"})
				indexed := c.Bool()
				c.State(fmt.Sprint(which, " ", k, " ", out, " ", indexed))
				s := c.RealSys()
				s.Put("x.hprof", b)
				if indexed {
					c.must(w, s, Cmd{Sub: "objects", File: "x.hprof"}, "first run: ")
				}
				r := s.runInto(out, k)
				if r.Code == 0 {
					c.Fail("%s with standard output %q: status 0 although the report is not written: %v", k, out, r)
				}
				if out == "full" || out == "read-only" {
					if r.Crash != "" || r.Code != 1 {
						c.Fail("%s with standard output %q: not a failure with status 1: %v", k, out, r)
					}
				}
				later(c, w, s, k, out)
			}}
			return []Space{real, single, full}
		}})
}

// runInto runs the unmodified binary with a standard output that refuses the report.
func (s *Sys) runInto(out string, k Cmd) (r Res) {
	ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
	defer cancel()
	cmd := exec.CommandContext(ctx, realBin, s.args(k)...)
	var f *os.File
	var err error
	switch out {
	case "full":
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "read-only":
		f, err = os.Open("/dev/null")
	case "pipe":
		var rd *os.File
		if rd, f, err = os.Pipe(); err == nil {
			rd.Close()
		}
	}
	if err != nil {
		return Res{Crash: err.Error(), Code: 3}
	}
	defer f.Close()
	cmd.Dir = s.dir
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8"}
	var e bytes.Buffer
	cmd.Stdout, cmd.Stderr = f, &e
	cmd.WaitDelay = time.Second
	s.c.Steps(1)
	err = cmd.Run()
	r.Err = e.String()
	if x, ok := err.(*exec.ExitError); ok {
		r.Code = x.ExitCode()
		if r.Code < 0 {
			r.Crash = x.String()
		}
		if ctx.Err() != nil {
			r.Crash = "no end after " + fmt.Sprint(hangAfter)
		}
	} else if err != nil {
		r.Crash, r.Code = err.Error(), 3
	}
	return
}
