package main

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"syscall"

	"github.com/danielleontiev/neojhat/internal/verifmain"
	"github.com/danielleontiev/neojhat/internal/verifos"
)

var eof = io.EOF

// The properties about the environment: kills, faults, histories, interleavings, power loss.

// opsOf lists the operations of a command on a system.
func (s *Sys) opsOf(k Cmd) (ops []verifos.Op) {
	t := s.Fork()
	t.hooked(func(o *verifos.Op) verifos.Answer { ops = append(ops, *o); return verifos.Answer{} })
	t.Do(k)
	return
}

// subject is a dump with what must come of it.
type subject struct {
	name string
	w    *World // nil: must be rejected
	b    []byte
}

func (x *subject) check(k Cmd, r Res) error {
	if x.w == nil {
		return r.rejected()
	}
	return x.w.expect(k, r)
}

func subjects() []*subject {
	return cached("subjects", func() (r []*subject) {
		w8, b8 := cachedStd(8)
		w4, b4 := cachedStd(4)
		r = append(r, &subject{"standard", w8, b8}, &subject{"truncated", nil, b8[:len(b8)-300]}, &subject{"four", w4, b4},
			&subject{"cut-header", nil, b8[:20]}, &subject{"cut-end", nil, b8[:len(b8)-1]})
		bad := append([]byte(nil), b8...)
		bad = append(bad[:31], append([]byte{0x77, 0, 0, 0, 0, 0, 0, 0, 0}, bad[31:]...)...)
		r = append(r, &subject{"unknown-tag", nil, bad})
		return
	})
}

func cachedStd(ids int) (*World, []byte) {
	w := standard(ids, stdTS)
	return w, w.Bytes()
}

func torn(n int) (r []int) {
	seen := map[int]bool{}
	for _, k := range []int{0, 1, 16, n / 2, n - 17, n - 16, n - 1, n} {
		if k >= 0 && k <= n && !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	return
}

func opString(o verifos.Op) string {
	s := o.Kind + " " + strings.TrimPrefix(o.Path, "/d/")
	if o.To != "" {
		s += " to " + strings.TrimPrefix(o.To, "/d/")
	}
	return s
}

// killAt makes the next process die at its op with the index, after writing part of it.
func killAt(at, part int) func(o *verifos.Op) verifos.Answer {
	return func(o *verifos.Op) verifos.Answer {
		if o.Idx != at {
			return verifos.Answer{}
		}
		return verifos.Answer{Kill: true, Short: o.Kind == "write", N: part}
	}
}

func init() {
	register(&Property{ID: "C07", Level: "fault_enumeration", Rule: "one state per (dump, command, kill points)",
		Assume: []string{"a killed process leaves its completed operations and a prefix of the interrupted write; writes are not reordered (see C31 for power loss)"},
		Spaces: func(thorough bool) []Space {
			single := Space{Name: "one-kill", Fn: func(c *Ctx) {
				x := Pick(c, subjects())
				k := Pick(c, []Cmd{{Sub: "threads", File: "x.hprof"}, {Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "objects", File: "x.hprof", Size: true, Html: true}})
				warm := c.Bool()
				s := c.Sys()
				s.Put("x.hprof", x.b)
				if warm {
					s.Do(Cmd{Sub: "objects", File: "x.hprof"})
				}
				ops := s.opsOf(k)
				o := Pick(c, ops)
				part := 0
				if o.Kind == "write" {
					part = Pick(c, torn(o.N))
				}
				c.State(fmt.Sprint(x.name, " ", k, " warm ", warm, " killed at ", o.Idx, " ", opString(o), " ", part))
				s.hooked(killAt(o.Idx, part))
				if r := s.Do(k); !r.Killed {
					c.Fail("not killed: %v", r)
				}
				s.unhooked()
				for _, k2 := range append([]Cmd{k}, basicCmds("x.hprof")...) {
					if err := x.check(k2, s.Do(k2)); err != nil {
						c.Fail("after a kill of %s at operation %d (%s, %d bytes written): %v", k, o.Idx, opString(o), part, err)
					}
				}
				if b, _ := s.Get("x.hprof"); b != string(x.b) {
					c.Fail("the dump was changed")
				}
			}}
			mut := func(ops []verifos.Op) (r []verifos.Op) {
				for _, o := range ops {
					if o.Mutates() {
						r = append(r, o)
					}
				}
				return
			}
			runs := 2
			if thorough {
				runs = 3
			}
			several := Space{Name: "several-kills", Fn: func(c *Ctx) {
				x := Pick(c, subjects()[:2])
				s := c.Sys()
				s.Put("x.hprof", x.b)
				what := ""
				cmds := basicCmds("x.hprof")
				for i := 0; i < runs; i++ {
					k := cmds[i]
					ops := mut(s.opsOf(k))
					if len(ops) == 0 {
						break
					}
					o := Pick(c, ops)
					part := 0
					if o.Kind == "write" {
						part = Pick(c, []int{0, o.N / 2, o.N})
					}
					what += fmt.Sprintf("%s killed at %s (%d), ", k, opString(o), part)
					if i == 0 {
						c.State(x.name + " first kill " + fmt.Sprint(o.Idx, " ", part))
					}
					s.hooked(killAt(o.Idx, part))
					s.Do(k)
					s.unhooked()
				}
				c.State(x.name + " " + what)
				for _, k2 := range cmds {
					if err := x.check(k2, s.Do(k2)); err != nil {
						c.Fail("after %s: %v", what, err)
					}
				}
			}}
			return []Space{single, several}
		}})

	register(&Property{ID: "C08", Level: "fault_enumeration", Rule: "one state per (dump, command, injected faults)",
		Assume: []string{"a failing write has written a prefix; a failing close may have lost data written through that handle; a failing read returns no data"},
		Spaces: func(thorough bool) []Space {
			errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES}
			after := func(c *Ctx, s *Sys, x *subject, what string) {
				s.unhooked()
				for _, k2 := range basicCmds("x.hprof") {
					if err := x.check(k2, s.Do(k2)); err != nil {
						c.Fail("undisturbed run after %s: %v", what, err)
					}
				}
				if b, _ := s.Get("x.hprof"); b != string(x.b) {
					c.Fail("the dump was changed after %s", what)
				}
			}
			outcome := func(c *Ctx, x *subject, k Cmd, r Res, what string) {
				if err := r.rejected(); err != nil {
					if err2 := x.check(k, r); err2 != nil {
						c.Fail("%s: neither a proper failure (%v) nor the right report (%v)", what, err, err2)
					}
				}
			}
			faultOf := func(c *Ctx, o verifos.Op, all bool) (a verifos.Answer, what string) {
				es := errs
				if !all {
					es = errs[:1]
				}
				e := Pick(c, es)
				a.Err = e
				switch o.Kind {
				case "write":
					a.Short = true
					parts := torn(o.N)
					parts = parts[:max(1, len(parts)-1)]
					if !all {
						parts = []int{0, o.N / 2}
					}
					a.N = Pick(c, parts)
				case "close":
					if c.Bool() {
						a.Short, a.N = true, Pick(c, []int{0, 16, 100})
					}
				}
				return a, fmt.Sprintf("%s failing with %v (%d)", opString(o), e, a.N)
			}
			single := Space{Name: "one-fault", Fn: func(c *Ctx) {
				xs := subjects()
				if !thorough {
					xs = []*subject{xs[0], xs[1], xs[5]}
				}
				x := Pick(c, xs)
				k := Pick(c, []Cmd{{Sub: "threads", File: "x.hprof"}, {Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "objects", File: "x.hprof", Size: true, Html: true}})
				s := c.Sys()
				s.Put("x.hprof", x.b)
				o := Pick(c, s.opsOf(k))
				a, what := faultOf(c, o, true)
				c.State(fmt.Sprint(x.name, " ", k, " ", o.Idx, " ", what, a.Short))
				s.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx == o.Idx {
						return a
					}
					return verifos.Answer{}
				})
				outcome(c, x, k, s.Do(k), what)
				after(c, s, x, what)
			}}
			// a second fault after the first, at any later operation
			pair := Space{Name: "two-faults", Fn: func(c *Ctx) {
				x := subjects()[0]
				if thorough {
					x = Pick(c, subjects()[:2])
				}
				k := Pick(c, basicCmds("x.hprof")[1:2])
				s := c.Sys()
				s.Put("x.hprof", x.b)
				var ops []verifos.Op
				for _, o := range s.opsOf(k) {
					if o.Kind != "read" && o.Kind != "seek" && o.Kind != "readat" {
						ops = append(ops, o)
					}
				}
				o := Pick(c, ops)
				a, what := faultOf(c, o, false)
				c.State(fmt.Sprint(x.name, " ", k, " ", o.Idx, " ", what, a.Short))
				// the operations after the first fault
				var rest []verifos.Op
				t := s.Fork()
				t.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx == o.Idx {
						return a
					}
					if q.Idx > o.Idx && q.Kind != "read" && q.Kind != "seek" && q.Kind != "readat" {
						rest = append(rest, *q)
					}
					return verifos.Answer{}
				})
				t.Do(k)
				if len(rest) == 0 {
					return
				}
				o2 := Pick(c, rest)
				a2, what2 := faultOf(c, o2, false)
				what += " and " + what2
				c.State(fmt.Sprint(x.name, " ", k, " ", o.Idx, "+", o2.Idx, " ", what, a.Short, a2.Short))
				s.hooked(func(q *verifos.Op) verifos.Answer {
					switch q.Idx {
					case o.Idx:
						return a
					case o2.Idx:
						return a2
					}
					return verifos.Answer{}
				})
				outcome(c, x, k, s.Do(k), what)
				after(c, s, x, what)
			}}
			// the disk is full (or gone) from some moment on; also over several runs
			persistent := Space{Name: "persistent", Fn: func(c *Ctx) {
				xs, es := subjects()[:3], errs
				if !thorough {
					xs, es = xs[:2], es[:2]
				}
				x := Pick(c, xs)
				k := Pick(c, basicCmds("x.hprof"))
				class := c.Choose(5)
				e := Pick(c, es)
				s := c.Sys()
				s.Put("x.hprof", x.b)
				hit := func(o *verifos.Op) bool {
					switch class {
					case 0:
						return o.Mutates()
					case 1:
						return o.Kind == "write"
					case 2:
						return o.Kind == "sync" || o.Kind == "close"
					case 3:
						return o.Kind == "rename" || o.Kind == "remove"
					}
					return true
				}
				var ops []verifos.Op
				for _, o := range s.opsOf(k) {
					if hit(&o) {
						ops = append(ops, o)
					}
				}
				if len(ops) == 0 {
					c.State("none")
					return
				}
				o := Pick(c, ops)
				runs := 1 + c.Choose(2)
				what := fmt.Sprintf("%s failing with %v from operation %d (%s) on, %d runs", []string{"changes", "writes", "syncs and closes", "renames and removes", "everything"}[class], e, o.Idx, opString(o), runs)
				c.State(x.name + " " + k.String() + " " + what)
				for i := 0; i < runs; i++ {
					s.hooked(func(q *verifos.Op) verifos.Answer {
						if hit(q) && (i > 0 || q.Idx >= o.Idx) {
							return verifos.Answer{Err: e}
						}
						return verifos.Answer{}
					})
					outcome(c, x, k, s.Do(k), what)
				}
				after(c, s, x, what)
			}}
			full := Space{Name: "disk-full", Fn: func(c *Ctx) {
				// only so many bytes fit
				x := subjects()[0]
				k := Pick(c, basicCmds("x.hprof"))
				s := c.Sys()
				s.Put("x.hprof", x.b)
				total := 0
				for _, o := range s.opsOf(k) {
					if o.Kind == "write" {
						total += o.N
					}
				}
				step := 7
				if thorough {
					step = 1
				}
				space := c.Choose(total/step) * step
				c.State(fmt.Sprint(k, " space for ", space, " of ", total, " bytes"))
				left := space
				s.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Kind != "write" {
						return verifos.Answer{}
					}
					if q.N <= left {
						left -= q.N
						return verifos.Answer{}
					}
					a := verifos.Answer{Err: syscall.ENOSPC, Short: true, N: left}
					left = 0
					return a
				})
				what := fmt.Sprintf("a disk with room for %d of %d bytes", space, total)
				outcome(c, x, k, s.Do(k), what)
				after(c, s, x, what)
			}}
			// one read of the dump fails, after delivering everything up to any byte
			anywhere := Space{Name: "read-fails-anywhere", Fn: func(c *Ctx) {
				x := Pick(c, []*subject{subjects()[0], subjects()[2]})
				ks := basicCmds("x.hprof")
				if !thorough {
					ks = ks[1:2]
				}
				k := Pick(c, ks)
				n := c.Choose(len(x.b))
				e := errs[1]
				if thorough {
					e = Pick(c, errs[1:])
				}
				c.State(fmt.Sprint(x.name, " ", k, " read of byte ", n, " failing with ", e))
				s := c.Sys()
				s.Put("x.hprof", x.b)
				path, failed := s.Path("x.hprof"), false
				s.hooked(func(o *verifos.Op) (a verifos.Answer) {
					if failed || o.Path != path || o.Kind != "read" && o.Kind != "readat" || int(o.Off)+o.N <= n || int(o.Off) > n {
						return
					}
					if int(o.Off) == n {
						failed = true
						a.Err = e
						return
					}
					a.Short, a.N = true, n-int(o.Off)
					return
				})
				what := fmt.Sprintf("the read of byte %d of the dump failing once with %v", n, e)
				outcome(c, x, k, s.Do(k), what)
				after(c, s, x, what)
			}}
			// as many objects as fill the batches of the index, around the exact number
			batch := Space{Name: "full-batches", Workers: 4, Fn: func(c *Ctx) {
				const B = 1_000_000
				kind := Pick(c, []byte{0x21, 0x22, 0x23})
				totals := []int{B, B + 1, B + 2}
				if thorough {
					totals = append(totals, B-1, 2*B+1, 2*B+2, 2*B+3, 1<<20, 1<<20+1)
				}
				total := Pick(c, totals)
				x := cached(fmt.Sprint("full-batches", kind, total), func() *subject {
					w := memWorld(8, LocalSpec{0, rootJavaFrame, extraID, ""}, LocalSpec{0, rootJniLocal, extraID + 8, ""})
					core := 0
					for _, o := range w.objs {
						switch o.(type) {
						case Inst:
							core += bit(kind == 0x21)
						case OArr:
							core += bit(kind == 0x22)
						case PArr:
							core += bit(kind == 0x23)
						}
					}
					m := Many{First: extraID, Step: 8, N: total - core, Kind: kind, T: tShort}
					m.Class = map[byte]uint64{0x21: w.C("app/Empty").ID, 0x22: w.arrayOf("[Ljava/lang/Object;").ID}[kind]
					last := extraID + 8*uint64(m.N-1)
					text := map[byte]string{0x21: "app.Empty", 0x22: "java.lang.Object[]", 0x23: "short[]"}[kind]
					t := w.Threads[0]
					for i := range t.Locals {
						t.Locals[i].Text = text
					}
					t.Locals = append(t.Locals, LocalSpec{0, rootJavaFrame, last, text})
					w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: last, A: t.Serial, B: 0})
					return &subject{fmt.Sprintf("%d of %#x", total, kind), w, w.Tail(m).Bytes()}
				})
				k := Cmd{Sub: "threads", File: "x.hprof", Locals: true}
				s := c.Sys()
				s.Put("x.hprof", x.b)
				var ops []verifos.Op
				for _, o := range cached("full-batches ops"+x.name, func() []verifos.Op { return s.opsOf(k) }) {
					if o.Kind == "write" && (o.N >= 1<<18 || thorough) {
						ops = append(ops, o)
					}
				}
				o := Pick(c, ops)
				a := verifos.Answer{Err: syscall.ENOSPC, Short: true, N: Pick(c, []int{0, o.N / 2, o.N - 16})}
				what := fmt.Sprintf("%s failing with %v after %d of %d bytes", opString(o), a.Err, a.N, o.N)
				c.State(fmt.Sprint(x.name, " ", o.Idx, " ", what))
				s.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx == o.Idx {
						return a
					}
					return verifos.Answer{}
				})
				outcome(c, x, k, s.Do(k), what)
				s.unhooked()
				if err := x.check(k, s.Do(k)); err != nil {
					c.Fail("undisturbed run after %s: %v", what, err)
				}
			}}
			return []Space{single, persistent, full, pair, anywhere, batch}
		}})

	register(&Property{ID: "C09", Level: "fault_enumeration", Rule: "one state per (dump, command, injected faults)",
		Spaces: func(thorough bool) []Space {
			cmds := []Cmd{{Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "objects", File: "x.hprof"}, {Sub: "summary", File: "x.hprof", Html: true}}
			prepared := func(c *Ctx, x *subject) *Sys {
				s := c.Sys()
				s.Put("x.hprof", x.b)
				c.must(x.w, s, Cmd{Sub: "objects", File: "x.hprof"}, "first run: ")
				return s
			}
			faultOf := func(c *Ctx, o verifos.Op) (a verifos.Answer, what string) {
				opts := 2
				switch o.Kind {
				case "read", "readat":
					opts = 6
				}
				n := c.Choose(opts)
				switch n {
				case 0:
					a.Err = syscall.EIO
				case 1:
					a.Err = syscall.EACCES
				case 2: // nothing more
					a.Err = eof
				case 3:
					a.Err, a.Short, a.N = eof, true, 1
				case 4:
					a.Err, a.Short, a.N = eof, true, max(1, o.N/2)
				case 5:
					a.Err, a.Short, a.N = eof, true, max(1, o.N-1)
				}
				return a, fmt.Sprintf("%s (%d) %v %d", opString(o), o.Idx, a.Err, a.N)
			}
			outcome := func(c *Ctx, x *subject, s *Sys, k Cmd, r Res, what string) {
				if err := r.rejected(); err != nil {
					if err2 := x.check(k, r); err2 != nil {
						c.Fail("%s: neither a proper failure (%v) nor the right report (%v)", what, err, err2)
					}
				}
				s.unhooked()
				for _, k2 := range basicCmds("x.hprof") {
					if err := x.check(k2, s.Do(k2)); err != nil {
						c.Fail("undisturbed run after %s: %v", what, err)
					}
				}
			}
			hook := func(at map[int]verifos.Answer) func(o *verifos.Op) verifos.Answer {
				ended := map[string]bool{}
				return func(o *verifos.Op) verifos.Answer {
					if a, ok := at[o.Idx]; ok {
						if a.Err == eof {
							ended[o.Path] = true // a file that was cut short stays so
						}
						return a
					}
					if ended[o.Path] && (o.Kind == "read" || o.Kind == "readat") {
						return verifos.Answer{Err: eof}
					}
					return verifos.Answer{}
				}
			}
			single := Space{Name: "one-fault", Fn: func(c *Ctx) {
				xs := []*subject{subjects()[0], subjects()[2]}
				if !thorough {
					xs = xs[:1]
				}
				x := Pick(c, xs)
				k := Pick(c, cmds)
				s := prepared(c, x)
				o := Pick(c, s.opsOf(k))
				a, what := faultOf(c, o)
				c.State(fmt.Sprint(x.name, " ", k, " ", what))
				s.hooked(hook(map[int]verifos.Answer{o.Idx: a}))
				outcome(c, x, s, k, s.Do(k), what)
			}}
			pair := Space{Name: "two-faults", Fn: func(c *Ctx) {
				x := subjects()[0]
				ks := cmds[:3]
				if !thorough {
					ks = cmds[:2]
				}
				k := Pick(c, ks)
				s := prepared(c, x)
				ops := s.opsOf(k)
				// the first fault is one that can be survived, or a short read
				var first []verifos.Op
				for _, o := range ops {
					if o.Kind != "read" && o.Kind != "readat" && o.Kind != "seek" || thorough {
						first = append(first, o)
					}
				}
				o := Pick(c, first)
				a, what := faultOf(c, o)
				c.State(fmt.Sprint(x.name, " ", k, " ", what))
				var rest []verifos.Op
				t := s.Fork()
				h := hook(map[int]verifos.Answer{o.Idx: a})
				t.hooked(func(q *verifos.Op) verifos.Answer {
					if q.Idx > o.Idx {
						rest = append(rest, *q)
					}
					return h(q)
				})
				t.Do(k)
				if len(rest) == 0 {
					return
				}
				o2 := Pick(c, rest)
				a2, what2 := faultOf(c, o2)
				what += " and " + what2
				c.State(fmt.Sprint(x.name, " ", k, " ", what))
				s.hooked(hook(map[int]verifos.Answer{o.Idx: a, o2.Idx: a2}))
				outcome(c, x, s, k, s.Do(k), what)
			}}
			// any file of the index or the dump ends too early
			cut := Space{Name: "cut-files", Fn: func(c *Ctx) {
				x := subjects()[0]
				k := Pick(c, cmds)
				s := prepared(c, x)
				var files []string
				for _, f := range s.List() {
					if !strings.HasSuffix(f, "/") {
						files = append(files, f)
					}
				}
				f := Pick(c, files)
				b, _ := s.Get(f)
				step := 1
				if !thorough {
					step = max(1, len(b)/700)
				}
				n := c.Choose((len(b)+step-1)/step) * step
				c.State(fmt.Sprint(x.name, " ", k, " ", f, " readable up to ", n))
				what := fmt.Sprintf("%s readable only up to byte %d of %d", f, n, len(b))
				path := s.Path(f)
				s.hooked(func(o *verifos.Op) (a verifos.Answer) {
					if o.Path != path || o.Kind != "read" && o.Kind != "readat" {
						return
					}
					left := n - int(o.Off)
					if left >= o.N {
						return
					}
					a.Err = eof
					if left > 0 {
						a.Short, a.N = true, left
					}
					return
				})
				outcome(c, x, s, k, s.Do(k), what)
			}}
			return []Space{single, cut, pair}
		}})

	registerC10()
	registerC11()
	registerC31()
}

// ---------------------------------------------------------------- C10

func registerC10() {
	register(&Property{ID: "C10", Level: "model_checking", Rule: "one state per (dump, name, history of commands)",
		Spaces: func(thorough bool) []Space {
			one := func(c *Ctx, s *Sys, name string, x *subject, n int, alphabet []Cmd) {
				fresh := map[string]string{}
				var image map[string]string
				var stamps map[string]int64
				hist := ""
				written := s.Mtime(name)
				for i := 0; i < n; i++ {
					k := Pick(c, alphabet)
					k.File = name
					hist += k.String() + " "
					if i == min(1, n-1) {
						c.State(fmt.Sprint(x.name, " ", name, ": ", hist))
					} else if i > 1 {
						c.State(fmt.Sprint(x.name, " ", name, ": ", hist))
					}
					r := s.Do(k)
					if err := x.check(k, r); err != nil {
						c.Fail("history %s: %v", hist, err)
					}
					first, ok := fresh[k.String()]
					if !ok {
						first = cached("c10"+x.name+name+k.String()+fmt.Sprint(c.real), func() string {
							t := c.Sys()
							k.File = "x.hprof"
							t.Put("x.hprof", x.b)
							return t.Do(k).Out
						})
						fresh[k.String()] = first
					}
					if x.w != nil && r.Out != first {
						c.Fail("history %s: the last report differs from the one on a fresh dump: %q instead of %q", hist, head(r.Out, 500), head(first, 500))
					}
					now := s.Image()
					if now[name] != string(x.b) {
						c.Fail("history %s: the dump was changed", hist)
					}
					if s.Mtime(name) != written {
						c.Fail("history %s: the dump was written to", hist)
					}
					extra := []string{}
					for p := range now {
						if p != name && !strings.HasPrefix(p, name+".db/") && !strings.HasPrefix(name, p) {
							extra = append(extra, p)
						}
					}
					if len(extra) > 0 {
						c.Fail("history %s: left behind %v", hist, extra)
					}
					if x.w == nil {
						continue
					}
					if image != nil {
						if d := diffImage(image, now); d != "" {
							c.Fail("history %s: the finished index was changed: %s", hist, d)
						}
					}
					image = now
					times := map[string]int64{}
					for p := range now {
						if !strings.HasSuffix(p, "/") {
							times[p] = s.Mtime(p)
							if i > 0 && stamps[p] != times[p] {
								c.Fail("history %s: the last command wrote to %s of the finished index", hist, p)
							}
						}
					}
					stamps = times
				}
			}
			depth := 3
			if thorough {
				depth = 4
			}
			alphabet := append(sixCmds(""), Cmd{Sub: "threads", Html: true, Locals: true}, Cmd{Sub: "summary", Color: true, AllProps: true}, Cmd{Sub: "objects", Html: true, Size: true})
			return []Space{
				{Name: "histories", Real: true, RealEvery: 40, Fn: func(c *Ctx) {
					x := Pick(c, subjects()[:4])
					s := c.Sys()
					s.Put("x.hprof", x.b)
					one(c, s, "x.hprof", x, depth, alphabet)
				}},
				{Name: "absent", Real: true, RealEvery: 2, Fn: func(c *Ctx) {
					// commands before the dump is there, and after it has gone
					what := Pick(c, []string{"nothing", "directory", "no-directory", "gone"})
					x := Pick(c, subjects()[:2])
					s := c.Sys()
					name := "x.hprof"
					var before map[string]string
					switch what {
					case "directory":
						s.Mkdir(name)
					case "no-directory":
						name = "none/x.hprof"
					case "gone":
						s.Put("y.hprof", x.b)
						s.Do(Cmd{Sub: "objects", File: "y.hprof"})
						s.Remove("y.hprof")
						name = "y.hprof"
					}
					before = s.Image()
					hist := what + ": "
					for i := 0; i < 2; i++ {
						k := Pick(c, allCmds(name))
						if i == 1 && !thorough && (k.Color || k.Html) {
							c.Skip()
						}
						hist += k.String() + " "
						c.State(x.name + " " + hist)
						if err := s.Do(k).rejected(); err != nil {
							c.Fail("%s: %v", hist, err)
						}
						if d := diffImage(before, s.Image()); d != "" {
							c.Fail("history %s: a command without a dump left something behind: %s", hist, d)
						}
					}
					// then the dump arrives
					switch what {
					case "directory":
						s.Remove(name)
					case "no-directory":
						s.Mkdir("none")
					}
					s.Put(name, x.b)
					for _, k := range basicCmds(name) {
						if err := x.check(k, s.Do(k)); err != nil {
							c.Fail("history %s, then the dump is there: %v", hist, err)
						}
					}
				}},
				{Name: "names", Real: true, RealEvery: 2, Fn: func(c *Ctx) {
					x := Pick(c, subjects()[:3])
					name := Pick(c, []string{"x", "x.hprof", "a b.hprof", "x.db", "x.hprof.db", "x.hprof.gz", ".hidden", "sub/x.hprof", "sub.dir/deep/x", "ü–語.hprof", "x.tmp", "-x", "x*y", "x%d%s", "X.HPROF", "x.hprof.db.tmp-1"})
					s := c.Sys()
					if i := strings.LastIndex(name, "/"); i > 0 {
						s.Mkdir(name[:i])
					}
					s.Put(name, x.b)
					one(c, s, name, x, 2, basicCmds(""))
				}},
			}
		}})
}

func diffImage(a, b map[string]string) string {
	for p, x := range a {
		if y, ok := b[p]; !ok {
			return p + " is gone"
		} else if x != y {
			return p + " has other contents"
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " is new"
		}
	}
	return ""
}

// ---------------------------------------------------------------- C11

type simProc struct {
	p     *verifos.Proc
	k     Cmd
	at    chan *verifos.Op
	grant chan verifos.Answer
	done  chan struct{}
	over  bool
	op    *verifos.Op
}

// interleave runs the commands as concurrent processes. pick decides at every scheduling
// point; it returns the process to go on and whether that one is killed.
func interleave(s *Sys, cmds []Cmd, point func(o *verifos.Op) bool, pick func(cur int, ready []int, ps []*simProc) (int, bool)) []Res {
	var ps []*simProc
	wait := func(q *simProc) {
		select {
		case q.op = <-q.at:
		case <-q.done:
			q.over, q.op = true, nil
		}
	}
	for _, k := range cmds {
		q := &simProc{k: k, at: make(chan *verifos.Op), grant: make(chan verifos.Answer)}
		q.p = &verifos.Proc{FS: s.fs, Args: append([]string{"neojhat"}, s.args(k)...)}
		q.p.Hook = func(o *verifos.Op) verifos.Answer {
			if !point(o) {
				return verifos.Answer{}
			}
			q.at <- o
			return <-q.grant
		}
		ps = append(ps, q)
		verifos.SetCurrent(q.p)
		q.done = q.p.Start(verifmain.Main)
		wait(q)
	}
	cur := 0
	for {
		var ready []int
		for i, q := range ps {
			if !q.over {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			break
		}
		next, kill := pick(cur, ready, ps)
		cur = next
		q := ps[cur]
		verifos.SetCurrent(q.p)
		q.grant <- verifos.Answer{Kill: kill, Short: kill && q.op.Kind == "write", N: q.op.N / 2}
		wait(q)
	}
	var r []Res
	for _, q := range ps {
		s.c.Steps(q.p.Ops)
		r = append(r, procRes(q.p))
	}
	return r
}

func registerC11() {
	var once sync.Once
	_ = once
	register(&Property{ID: "C11", Level: "model_checking", Rule: "one state per (dump, commands, initial state, schedule)",
		Assume: []string{"file-system operations are atomic; processes interact through the file system only"},
		Spaces: func(thorough bool) []Space {
			mk := func(name string, procs, preempt int, kills bool) Space {
				return concurrent(name, procs, preempt, kills, finish)
			}
			if thorough {
				return []Space{mk("two-processes", 2, 3, false), mk("one-killed", 2, 3, true), mk("three-processes", 3, 2, false)}
			}
			return []Space{mk("two-processes", 2, 2, false), mk("one-killed", 2, 2, true), mk("three-processes", 3, 1, false)}
		}})
}

// concurrent runs commands on one dump under every schedule with so many preemptions.
func concurrent(name string, procs, preempt int, kills bool, finish func(c *Ctx, s *Sys, x *subject, cmds []Cmd, res []Res, killed map[int]bool, base string, sched []byte)) Space {
	return Space{Name: name, Devs: preempt, Fn: func(c *Ctx) {
		x := subjects()[0]
		if c.Thorough || procs == 2 && !kills {
			x = Pick(c, subjects()[:2])
		}
		pool := [][]Cmd{
			{{Sub: "threads", File: "x.hprof"}, {Sub: "summary", File: "x.hprof"}, {Sub: "objects", File: "x.hprof"}},
			{{Sub: "objects", File: "x.hprof"}, {Sub: "objects", File: "x.hprof"}, {Sub: "objects", File: "x.hprof"}},
			{{Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "summary", File: "x.hprof", AllProps: true}},
		}
		if !c.Thorough {
			pool = pool[:2]
			if kills || procs == 3 {
				pool = pool[:1]
			}
		}
		cmds := Pick(c, pool)[:procs]
		inits := []int{0, 1, 2}
		if kills && !c.Thorough {
			inits = inits[:1]
		}
		init := Pick(c, inits)

		s := c.Sys()
		s.Put("x.hprof", x.b)
		switch init {
		case 1: // an index exists
			s.Do(cmds[0])
		case 2: // an earlier run was killed while it was building the index
			n := 0
			s.hooked(func(o *verifos.Op) verifos.Answer {
				if o.Kind == "write" {
					n++
				}
				return verifos.Answer{Kill: n == 3}
			})
			s.Do(cmds[0])
			s.unhooked()
		}
		start := c.Choose(procs)
		var killed map[int]bool = map[int]bool{}
		sched := []byte{}
		base := fmt.Sprint(x.name, " ", cmds, " init ", init, " start ", start)
		first := true
		if kills {
			c.State(base)
			first = false
		} else {
			// spread the work by the place of the first preemption
			k := c.Choose(16)
			c.State(base + fmt.Sprint(" block ", k))
			first = false
			defer func() { _ = first }()
			blk := k
			n := 0
			res := interleave(s, cmds, visible, func(cur int, ready []int, ps []*simProc) (int, bool) {
				n++
				if n == 1 {
					cur = start
				}
				if ps[cur].over {
					i := c.Choose(len(ready))
					sched = append(sched, byte('0'+ready[i]))
					return ready[i], false
				}
				pos := n - 1
				used := c.used(preempt)
				if used == 0 && pos%16 != blk || len(ready) < 2 {
					sched = append(sched, byte('0'+cur))
					return cur, false
				}
				d := c.Dev(len(ready))
				if d == 0 {
					sched = append(sched, byte('0'+cur))
					return cur, false
				}
				other := []int{}
				for _, i := range ready {
					if i != cur {
						other = append(other, i)
					}
				}
				sched = append(sched, byte('0'+other[d-1]))
				return other[d-1], false
			})
			finish(c, s, x, cmds, res, killed, base, sched)
			return
		}
		n := 0
		res := interleave(s, cmds, visible, func(cur int, ready []int, ps []*simProc) (int, bool) {
			n++
			if n == 1 {
				cur = start
			}
			if ps[cur].over {
				cur = ready[c.Choose(len(ready))]
			}
			opts := len(ready)
			canKill := len(killed) == 0
			if canKill {
				opts++
			}
			d := c.Dev(opts)
			if d == 0 {
				sched = append(sched, byte('0'+cur))
				return cur, false
			}
			if d == len(ready) && canKill {
				killed[cur] = true
				sched = append(sched, 'x')
				return cur, true
			}
			other := []int{}
			for _, i := range ready {
				if i != cur {
					other = append(other, i)
				}
			}
			if d-1 >= len(other) {
				return cur, false
			}
			sched = append(sched, byte('0'+other[d-1]))
			return other[d-1], false
		})
		finish(c, s, x, cmds, res, killed, base, sched)
	}}
}

func (c *Ctx) used(bound int) int { return bound - c.devs }

// visible operations are those that other processes can notice or that depend on them.
func visible(o *verifos.Op) bool {
	switch o.Kind {
	case "seek", "close", "fstat", "chmod":
		return false
	case "read", "readat":
		return strings.Contains(o.Path, ".db") && o.Off == 0
	}
	return true
}

func finish(c *Ctx, s *Sys, x *subject, cmds []Cmd, res []Res, killed map[int]bool, base string, sched []byte) {
	c.State(base + " " + string(sched))
	for i, k := range cmds {
		if killed[i] {
			continue
		}
		if err := x.check(k, res[i]); err != nil {
			c.Fail("process %d (%s) of schedule %s: %v", i, k, sched, err)
		}
	}
	for _, k := range basicCmds("x.hprof") {
		if err := x.check(k, s.Do(k)); err != nil {
			c.Fail("later run after schedule %s: %v", sched, err)
		}
	}
}

// ---------------------------------------------------------------- C31

func registerC31() {
	register(&Property{ID: "C31", Level: "fault_enumeration", Rule: "one state per (dump, instant of the power loss, directory changes and file contents that reached the disk)",
		Assume: []string{"the file system keeps the order of directory changes, and fsync of a file makes its contents and all earlier directory changes durable (ext4, xfs, btrfs); without fsync, or when it fails, contents may be lost, zeroed or cut"},
		Spaces: func(thorough bool) []Space {
			return []Space{{Name: "power-loss", Fn: func(c *Ctx) {
				xs, cmds := subjects()[:3], basicCmds("x.hprof")
				if !thorough { // building the index is the same for all
					xs, cmds = xs[:2], cmds[1:2]
				}
				x := Pick(c, xs)
				k := Pick(c, cmds)
				before := c.Choose(2) // 1: an earlier run was killed by a power loss already
				s := c.Sys()
				s.Put("x.hprof", x.b)
				s.fs.Track = true
				if before == 1 {
					n := 0
					s.hooked(func(o *verifos.Op) verifos.Answer {
						if o.Kind == "write" {
							n++
						}
						return verifos.Answer{Kill: n == 4}
					})
					s.Do(k)
					s.unhooked()
					s.fs = s.fs.PowerLoss(1000, func(string) verifos.Fate { return verifos.Lost })
					s.fs.Track = true
				}
				var ops []verifos.Op
				for i, o := range s.opsOf(k) {
					if o.Kind != "read" && o.Kind != "readat" && o.Kind != "seek" && o.Kind != "fstat" || i == 0 {
						ops = append(ops, o)
					}
				}
				at := c.Choose(len(ops) + 1)
				what := "after the run"
				if at < len(ops) {
					what = fmt.Sprintf("at operation %d (%s)", ops[at].Idx, opString(ops[at]))
					part := 0
					if ops[at].Kind == "write" && c.Bool() {
						part = ops[at].N / 2
					}
					s.hooked(killAt(ops[at].Idx, part))
				}
				c.State(fmt.Sprint(x.name, " ", k, " before ", before, " ", what, vecString(c.vec[:c.pos])))
				s.Do(k)
				s.unhooked()
				losePower(c, s, x, k, thorough, fmt.Sprint(what, ", earlier runs ", before))
			}}, {Name: "failed-sync", Fn: func(c *Ctx) {
				// what could not be synced is not on the disk
				xs, cmds := subjects()[:3], basicCmds("x.hprof")
				if !thorough {
					xs, cmds = xs[:2], cmds[1:2]
				}
				x := Pick(c, xs)
				k := Pick(c, cmds)
				s := c.Sys()
				s.Put("x.hprof", x.b)
				s.fs.Track = true
				var syncs, later []verifos.Op
				for _, o := range s.opsOf(k) {
					if o.Kind == "sync" {
						syncs = append(syncs, o)
					}
					later = append(later, o)
				}
				if len(syncs) == 0 {
					c.Skip()
				}
				fails := Pick(c, syncs)
				every := c.Bool() // all later ones fail, too
				later = later[fails.Idx+1:]
				kill := -1
				if at := c.Choose(len(later) + 1); at < len(later) {
					if o := later[at]; o.Kind == "read" || o.Kind == "readat" || o.Kind == "seek" || o.Kind == "fstat" {
						c.Skip()
					}
					kill = later[at].Idx
				}
				what := fmt.Sprintf("failing sync of %s, later ones too: %v, killed at %d", fails.Path[strings.LastIndex(fails.Path, "/")+1:], every, kill)
				c.State(fmt.Sprint(x.name, " ", k, " ", what))
				s.hooked(func(o *verifos.Op) verifos.Answer {
					if o.Idx == kill {
						return verifos.Answer{Kill: true}
					}
					if o.Kind == "sync" && (o.Idx == fails.Idx || every && o.Idx > fails.Idx) {
						return verifos.Answer{Err: syscall.EIO}
					}
					return verifos.Answer{}
				})
				s.Do(k)
				s.unhooked()
				losePower(c, s, x, k, thorough, what)
			}}}
		}})
}

// losePower takes every state the disk can be in after a power loss and runs every command on it.
func losePower(c *Ctx, s *Sys, x *subject, k Cmd, thorough bool, what string) {
	meta, files := s.fs.Unsynced()
	keep := c.Choose(meta + 1)
	fates := make([]verifos.Fate, len(files))
	if thorough {
		for i := range fates {
			fates[i] = verifos.Fate(c.Choose(int(verifos.Fates)))
		}
	} else if len(files) > 0 {
		base := verifos.Fate(c.Choose(int(verifos.Fates)))
		for i := range fates {
			fates[i] = base
		}
		if odd := c.Choose(len(files) + 1); odd > 0 {
			fates[odd-1] = verifos.Fate(c.Choose(int(verifos.Fates)))
		}
	}
	what += fmt.Sprintf(", %d of %d directory changes kept, fates %v", keep, meta, fates)
	c.State(fmt.Sprint(x.name, " ", k, " ", what))
	byPath := map[string]verifos.Fate{}
	for i, f := range files {
		byPath[f] = fates[i]
	}
	s.fs = s.fs.PowerLoss(keep, func(p string) verifos.Fate { return byPath[p] })
	for _, k2 := range basicCmds("x.hprof") {
		if err := x.check(k2, s.Do(k2)); err != nil {
			c.Fail("after a power loss %s: %v; files %v", what, err, s.List())
		}
	}
}
