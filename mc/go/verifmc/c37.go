package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

// ---------------------------------------------------------------- C37: leftovers

// everything lists all paths, also those outside of the dump's directory.
func (s *Sys) everything() []string {
	if s.real {
		return s.List()
	}
	return s.fs.List()
}

// leftovers tells what is new besides the index of the dump.
func leftovers(before, now []string) (extra, index []string) {
	old := map[string]bool{}
	for _, p := range before {
		old[p] = true
	}
	for _, p := range now {
		switch {
		case old[p]:
		case strings.Contains(p, "x.hprof.db/"):
			index = append(index, p[strings.Index(p, ".db/")+4:])
		default:
			extra = append(extra, p)
		}
	}
	sort.Strings(index)
	return
}

// clean fails if a run has left something behind.
func clean(c *Ctx, s *Sys, x *subject, before []string, what string) {
	extra, index := leftovers(before, s.everything())
	if len(extra) > 0 {
		c.Fail("%s: left behind %v", what, extra)
	}
	if len(index) == 0 {
		return
	}
	if x.w == nil {
		c.Fail("%s: an index of a dump that cannot be read: %v", what, index)
	}
	want := cached("c37"+fmt.Sprint(c.real)+x.name, func() string {
		t := c.Sys()
		t.Put("x.hprof", x.b)
		was := t.everything()
		t.Do(Cmd{Sub: "objects", File: "x.hprof"})
		_, full := leftovers(was, t.everything())
		return fmt.Sprint(full)
	})
	if got := fmt.Sprint(index); got != want {
		c.Fail("%s: left behind the index %s, a complete one is %s", what, got, want)
	}
}

func init() {
	register(&Property{ID: "C37", Level: "fault_enumeration", Rule: "one state per (dump, command, what goes wrong)",
		Assume: []string{"a failure that hits the removal of a file is exempt: then the file cannot be removed"},
		Spaces: func(thorough bool) []Space {
			cmds := []Cmd{{Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "summary", File: "x.hprof", AllProps: true, Html: true}, {Sub: "objects", File: "x.hprof", Size: true}}
			errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EMFILE}
			answer := func(c *Ctx, o *verifos.Op) (a verifos.Answer, what string) {
				es := errs
				if o.Kind == "read" || o.Kind == "readat" || o.Kind == "seek" {
					es = errs[1:2]
				}
				a.Err = Pick(c, es)
				if o.Kind == "write" {
					a.Short, a.N = true, Pick(c, []int{0, o.N / 2, o.N})
				}
				return a, fmt.Sprintf("%s failing with %v (%d)", opString(*o), a.Err, a.N)
			}
			dump := func(c *Ctx) (*subject, Cmd, *Sys, []string) {
				x, k := Pick(c, subjects()), Pick(c, cmds)
				s := c.Sys()
				s.Put("x.hprof", x.b)
				return x, k, s, s.everything()
			}
			opsOf := func(s *Sys, x *subject, k Cmd) []verifos.Op {
				return cached("c37ops"+x.name+k.String(), func() []verifos.Op { return s.opsOf(k) })
			}
			fault := Space{Name: "one-fault", Fn: func(c *Ctx) {
				x, k, s, before := dump(c)
				o := Pick(c, opsOf(s, x, k))
				if o.Kind == "remove" {
					c.Skip()
				}
				a, what := answer(c, &o)
				c.State(fmt.Sprint(x.name, " ", k, " ", o.Idx, " ", what))
				s.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx == o.Idx {
						return a
					}
					return verifos.Answer{}
				})
				s.Do(k)
				clean(c, s, x, before, fmt.Sprint(k, ", ", what))
			}}
			// from some operation on all of a kind fail; the next run, too
			lasting := Space{Name: "lasting-fault", Fn: func(c *Ctx) {
				x, k, s, before := dump(c)
				kinds := [][]string{{"write"}, {"sync", "close"}, {"create", "mkdir", "open"}, {"rename"}, {"read", "readat", "seek"}}
				class := Pick(c, kinds)
				hit := func(o *verifos.Op) bool {
					for _, n := range class {
						if o.Kind == n && (n != "open" || strings.Contains(o.Path, "x.hprof")) {
							return true
						}
					}
					return false
				}
				var at []int
				for _, o := range opsOf(s, x, k) {
					if hit(&o) {
						at = append(at, o.Idx)
					}
				}
				if len(at) == 0 {
					c.Skip()
				}
				from := Pick(c, at)
				e := Pick(c, errs[:2])
				runs := 1 + c.Choose(2)
				what := fmt.Sprintf("%s, %v failing with %v from operation %d on, %d runs", k, class, e, from, runs)
				c.State(x.name + " " + what)
				for i := 0; i < runs; i++ {
					s.hooked(func(q *verifos.Op) verifos.Answer {
						if hit(q) && (i > 0 || q.Idx >= from) {
							return verifos.Answer{Err: e}
						}
						return verifos.Answer{}
					})
					s.Do(k)
					clean(c, s, x, before, what)
				}
			}}
			two := Space{Name: "two-faults", Fn: func(c *Ctx) {
				x, k, s, before := dump(c)
				ops := opsOf(s, x, k)
				o := Pick(c, ops)
				if o.Kind == "remove" || o.Kind == "read" || o.Kind == "readat" || o.Kind == "seek" {
					c.Skip()
				}
				c.State(fmt.Sprint(x.name, " ", k, " ", o.Idx))
				gap := 1 + c.Choose(40)
				hit := ""
				s.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx == o.Idx || q.Idx == o.Idx+gap && q.Kind != "remove" {
						hit += opString(*q) + ", "
						return verifos.Answer{Err: syscall.EIO}
					}
					return verifos.Answer{}
				})
				s.Do(k)
				clean(c, s, x, before, fmt.Sprint(k, ", failing ", hit))
			}}
			cut := Space{Name: "damaged", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				x, k := subjects()[0], cmds[0]
				if thorough {
					x, k = Pick(c, []*subject{subjects()[0], subjects()[2]}), Pick(c, cmds)
				}
				b := append([]byte(nil), x.b...)
				what := ""
				if at := c.Choose(len(b)); c.Bool() {
					b = b[:at]
					what = fmt.Sprint(k, ", dump cut at ", at)
				} else {
					b[at] ^= 0x5a
					what = fmt.Sprint(k, ", byte ", at, " changed")
				}
				c.State(x.name + " " + what)
				s := c.Sys()
				s.Put("x.hprof", b)
				before := s.everything()
				r := s.Do(k)
				y := *x
				if _, index := leftovers(before, s.everything()); len(index) == 0 && r.Code == 0 {
					c.Fail("%s: a report without an index", what)
				}
				clean(c, s, &y, before, what)
			}}
			paper := Space{Name: "no-output", Fn: func(c *Ctx) {
				x, k, s, before := dump(c)
				room := c.Choose(6) * 100
				what := fmt.Sprint(k, ", room for ", room, " bytes of output")
				c.State(x.name + " " + what)
				s.Prep = func(p *verifos.Proc) {
					p.OnWrite = func(fd, n int) verifos.Answer {
						if fd == 1 && n > room {
							return verifos.Answer{Err: syscall.ENOSPC, Short: true, N: room}
						}
						return verifos.Answer{}
					}
				}
				s.Do(k)
				s.Prep = nil
				clean(c, s, x, before, what)
			}}
			fin := func(c *Ctx, s *Sys, x *subject, cmds []Cmd, res []Res, killed map[int]bool, base string, sched []byte) {
				c.State(base + " " + string(sched))
				if strings.Contains(base, "init 2") {
					return // what a killed run has left is not theirs
				}
				clean(c, s, x, []string{"/d/", "/d/x.hprof"}, fmt.Sprintf("%v, schedule %s", cmds, sched))
			}
			if thorough {
				return []Space{fault, lasting, paper, cut, concurrent("concurrent", 2, 3, false, fin), concurrent("three", 3, 2, false, fin), two}
			}
			return []Space{fault, lasting, paper, cut, two, concurrent("concurrent", 2, 2, false, fin)}
		}})
}
