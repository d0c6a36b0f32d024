package main

import (
	"encoding/binary"
	"fmt"
	"runtime/debug"
	"strings"
)

// C05: hostile files.

// bound checks that a run did not allocate out of proportion.
func (c *Ctx) tame(s *Sys, k Cmd, size int, what string) Res {
	before := allocated()
	r := s.Do(k)
	used := allocated() - before
	if err := r.ended(); err != nil {
		c.Fail("%s on %s: %v", k, what, err)
	}
	if limit := uint64(48<<20) + 1500*uint64(size); used > limit && !s.real {
		c.Fail("%s on %s (%d bytes) allocated %d bytes of memory", k, what, size, used)
	}
	return r
}

func init() {
	// tiny is a small world with at least one of every record
	tiny := func(ids int) (*World, []byte, []span) {
		type t struct {
			worldBytes
			sp []span
		}
		x := cached(fmt.Sprint("c05", ids), func() t {
			w := standard(ids, stdTS)
			obj := w.C("java/lang/Object")
			obj.rec.CPs = append(obj.rec.CPs, CP{1, Val{tInt, 5}}, CP{2, Val{tObj, obj.ID}})
			for i, ty := range javaTypes {
				w.Static(obj, fmt.Sprint("s", i), Val{ty, 0})
			}
			for _, r := range rootTypes {
				w.roots = append(w.roots, Root{Type: r, Obj: obj.ID, A: 1, B: 0})
			}
			d := w.Dump()
			return t{worldBytes{w, d.Bytes()}, d.Spans()}
		})
		return x.w, x.b, x.sp
	}
	register(&Property{ID: "C05", Level: "model_checking", Rule: "one state per (file, command)",
		Assume: []string{"memory is bounded when a run allocates at most 48 MiB plus 1500 bytes per byte of the file in total (a run on the well-formed dump needs about 1 MiB)"},
		Spaces: func(thorough bool) []Space {
			put := func(b []byte, at, n int, v uint64) {
				for i := n - 1; i >= 0; i-- {
					b[at+i] = byte(v)
					v >>= 8
				}
			}
			fields := Space{Name: "fields", Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				_, b, sp := tiny(ids)
				fi := c.Choose(len(sp))
				f := sp[fi]
				if f.Len > 8 || f.Len == 0 || !c.Thorough && (fi+ids/4)%2 == 0 {
					c.State(fmt.Sprint(ids, f, "none"))
					return
				}
				old := uint64(0)
				for _, x := range b[f.Off : f.Off+f.Len] {
					old = old<<8 | uint64(x)
				}
				bits := uint(8 * f.Len)
				mask := uint64(1)<<bits - 1
				if bits == 64 {
					mask = 1<<64 - 1
				}
				vals := []uint64{0, 1, 2, old - 1, old + 1, old + 8, old - 8, mask, mask - 1, mask >> 1, mask>>1 + 1, old << 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x3fffffff, 0xfffffff, 0x1000000, 0xc0000000, uint64(len(b)), uint64(len(b) - f.Off)}
				if f.Len == 1 {
					vals = nil
					for i := 0; i < 256; i++ {
						vals = append(vals, uint64(i))
					}
				}
				if f.Kind == "id" {
					// every other kind of thing an identifier may refer to
					seen := map[uint64]bool{}
					for _, g := range sp {
						if g.Kind == "id" && g.Len == f.Len {
							x := uint64(0)
							for _, y := range b[g.Off : g.Off+g.Len] {
								x = x<<8 | uint64(y)
							}
							if !seen[x] && (c.Thorough || len(seen)%4 == f.Off%4) {
								vals = append(vals, x)
							}
							seen[x] = true
						}
					}
				}
				v := Pick(c, vals) & mask
				c.State(fmt.Sprint("ids ", ids, " ", f.Kind, " at ", f.Off, " = ", v))
				m := append([]byte(nil), b...)
				put(m, f.Off, f.Len, v)
				s := c.Sys()
				s.Put("x.hprof", m)
				for _, k := range basicCmds("x.hprof") {
					c.tame(s, k, len(m), fmt.Sprintf("a dump with %s at %d changed to %#x", f.Kind, f.Off, v))
				}
			}}
			bytesSp := Space{Name: "bytes", Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				_, b, _ := tiny(ids)
				at := c.Choose(len(b))
				op := c.Choose(7)
				if !c.Thorough && (at+op+ids/4)%2 == 0 {
					c.State("thorough only")
					return
				}
				c.State(fmt.Sprint("ids ", ids, " byte ", at, " op ", op))
				m := append([]byte(nil), b...)
				switch op {
				case 0:
					m[at] ^= 0xff
				case 1:
					m[at] ^= 0x80
				case 2:
					m[at] ^= 1
				case 3:
					m[at]++
				case 4:
					m[at] = 0xff
				case 5: // a byte is missing
					m = append(m[:at], m[at+1:]...)
				case 6: // a byte too many
					m = append(m[:at], append([]byte{0}, m[at:]...)...)
				}
				s := c.Sys()
				s.Put("x.hprof", m)
				for _, k := range basicCmds("x.hprof") {
					c.tame(s, k, len(m), fmt.Sprintf("a dump with byte %d changed (op %d)", at, op))
				}
			}}
			head := (&Dump{IDSize: 8, TS: 1, NoEnd: true}).Bytes()
			// any short record sequence after a good header
			heads := Space{Name: "record-headers", Real: true, RealEvery: 2000, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				tag := c.Choose(256)
				length := Pick(c, []uint32{0, 1, 3, 4, 5, 8, 9, 16, 255, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1})
				body := Pick(c, []int{0, 1, 4, 8, 9, 16, 17, 100})
				fill := Pick(c, []byte{0, 1, 0x21, 0xff})
				c.State(fmt.Sprint("ids ", ids, " tag ", tag, " length ", length, " body ", body, " fill ", fill))
				m := append([]byte(nil), head...)
				binary.BigEndian.PutUint32(m[19:], uint32(ids))
				m = append(m, byte(tag), 0, 0, 0, 0)
				m = binary.BigEndian.AppendUint32(m, length)
				for i := 0; i < body; i++ {
					m = append(m, fill)
				}
				m = append(m, 0x2c, 0, 0, 0, 0, 0, 0, 0, 0)
				s := c.Sys()
				s.Put("x.hprof", m)
				k := basicCmds("x.hprof")[tag%3]
				c.tame(s, k, len(m), fmt.Sprintf("a record with tag %d and length %d", tag, length))
			}}
			subs := Space{Name: "sub-records", Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				tag := c.Choose(256)
				seg := Pick(c, []uint32{0, 1, 10, 1 << 31, 1<<32 - 1})
				pat := c.Choose(6)
				body := Pick(c, []int{0, 7, 8, 12, 24, 25, 32, 64, 80, 200})
				c.State(fmt.Sprint("ids ", ids, " sub ", tag, " length ", seg, " pattern ", pat, " body ", body))
				m := append([]byte(nil), head...)
				binary.BigEndian.PutUint32(m[19:], uint32(ids))
				m = append(m, 0x1c, 0, 0, 0, 0)
				m = binary.BigEndian.AppendUint32(m, seg)
				m = append(m, byte(tag))
				for i := 0; i < body; i++ {
					x := []byte{0, 0xff, 0x7f, 0x80, byte(i), 0x0b}[pat]
					m = append(m, x)
				}
				m = append(m, 0x2c, 0, 0, 0, 0, 0, 0, 0, 0)
				s := c.Sys()
				s.Put("x.hprof", m)
				for _, k := range []Cmd{{Sub: "objects", File: "x.hprof"}, {Sub: "summary", File: "x.hprof"}} {
					c.tame(s, k, len(m), fmt.Sprintf("a sub-record of type %d", tag))
				}
			}}
			short := Space{Name: "short-files", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				n := c.Choose(48)
				pat := c.Choose(6)
				k := Pick(c, sixCmds("x.hprof"))
				c.State(fmt.Sprint("length ", n, " pattern ", pat, " ", k))
				_, b := std(8)
				var m []byte
				for i := 0; i < n; i++ {
					m = append(m, []byte{0, 0xff, 'J', byte(i), b[i], b[len(b)-n+i]}[pat])
				}
				s := c.Sys()
				s.Put("x.hprof", m)
				c.tame(s, k, n, "a short file")
				c.tame(s, k, n, "a short file, again")
			}}
			// graphs of classes and references with cycles of any shape
			graph := Space{Name: "reference-graphs", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				n := 3
				var super []int
				for i := 0; i < n; i++ {
					super = append(super, c.Choose(n+2))
				}
				start := c.Choose(n)
				c.State(fmt.Sprint("ids ", ids, " superclasses ", super, " thread of class ", start))
				w := standard(ids, stdTS)
				var cs []*Cls
				for i := 0; i < n; i++ {
					cs = append(cs, w.Class(fmt.Sprint("K", i), w.C("java/lang/Object"), F{"f", tObj}))
				}
				for i, p := range super {
					switch {
					case p < n:
						cs[i].rec.Super = cs[p].ID
					case p == n:
						cs[i].rec.Super = w.C("java/lang/Thread").ID
					default:
						cs[i].rec.Super = 0
					}
				}
				w.roots = append(w.roots, Root{Type: rootThreadObj, Obj: w.New(cs[start], nil), A: 1, B: 1})
				s := c.Sys()
				b := w.Bytes()
				s.Put("x.hprof", b)
				for _, k := range basicCmds("x.hprof") {
					c.tame(s, k, len(b), fmt.Sprintf("classes with superclasses %v", super))
				}
			}}
			chain := Space{Name: "property-graphs", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				n := 3
				var next []int
				for i := 0; i < n; i++ {
					next = append(next, c.Choose(n+2))
				}
				first, table := c.Choose(n+2), c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " next ", next, " first ", first, " table ", table))
				w := newWorld(ids, stdTS).Core()
				w.SummaryWorld(envProps, 5, nil, nil)
				var nodes []uint64
				for i := 0; i < n+1; i++ {
					nodes = append(nodes, w.id())
				}
				at := func(i int) uint64 {
					if i > n {
						return 0
					}
					return nodes[i]
				}
				k := w.JString("k")
				for i := 0; i < n; i++ {
					w.putInst(nodes[i], w.C(node), map[string]uint64{"key": k, "val": k, node + ":next": at(next[i])})
				}
				w.putInst(nodes[n], w.C(chm+"$TreeBin"), map[string]uint64{"first": at(first)})
				heads := [][]uint64{{nodes[0], nodes[1]}, {nodes[n]}, {nodes[n], nodes[2], 0, nodes[2]}}[table]
				for i, o := range w.objs {
					if a, ok := o.(OArr); ok && a.ID == w.table {
						a.Elems = heads
						w.objs[i] = a
					}
				}
				s := c.Sys()
				b := w.Bytes()
				s.Put("x.hprof", b)
				c.tame(s, Cmd{Sub: "summary", File: "x.hprof", AllProps: true}, len(b), "a hash table with odd links")
			}}
			// texts of any width and length, also ill-formed ones
			texts := Space{Name: "texts", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				r := Pick(c, []string{"a", "é", "日", "😀", "e\u0301", "\xff", "\xc3", "\xf0\x9f", "\x00", "\x1b", "%s", "\n", "\u202e"})
				n, at := Pick(c, []int{1, 2, 5, 6, 9, 10, 11, 12, 13, 20, 21, 40, 100, 257}), c.Choose(17)-1
				c.State(fmt.Sprintf("%d of %q at %d", n, r, at))
				w := page(8, func(i int) string {
					if at < 0 || at == i {
						return strings.Repeat(r, n)
					}
					return "x"
				})
				b := w.Bytes()
				s := c.Sys()
				s.Put("x.hprof", b)
				for _, k := range sixCmds("x.hprof") {
					if at < 0 || at > 5 || k.Sub != "summary" {
						c.tame(s, k, len(b), "odd texts")
					}
					k.Html = true
					c.tame(s, k, len(b), "odd texts")
				}
			}}
			// time and memory in proportion to the length of a text
			long := Space{Name: "long-texts", Workers: 4, Fn: func(c *Ctx) {
				r := Pick(c, []string{"a", "é", "/", "$", "\xff", "<", "%", "I", "[", "Lx;", "[[La/b;", ";", ")", "("})
				n := Pick(c, []int{20_000, 200_000})
				at := c.Choose(4)
				c.State(fmt.Sprintf("%d of %q at %d", n, r, at))
				w := coreWorld(8)
				text := strings.Repeat(r, n)
				f := &FrameSpec{Method: "m", Desc: "()V", File: "F", Line: 1}
				obj := w.C("java/lang/Object")
				var locals []LocalSpec
				name := "t"
				switch at {
				case 0:
					f.Desc = text
				case 1:
					f.Desc = "(L" + text + ";)V"
				case 2:
					k := w.Class(text, obj)
					f.Method, f.File, f.Class = text, text, k
					locals = append(locals, LocalSpec{Obj: w.New(k, nil), Kind: rootJavaFrame}, LocalSpec{Obj: k.ID, Kind: rootJniLocal})
				case 3:
					k := w.Class("["+text, obj)
					locals = append(locals, LocalSpec{Obj: w.Array(k, nil), Kind: rootJavaFrame}, LocalSpec{Obj: k.ID, Kind: rootJniLocal})
					name = text
				}
				w.AddThread(&Thread{Name: name, Coder: 1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f}, Locals: locals})
				w.SummaryWorld(append([]KV{{name, name}}, envProps...), 5, plainSlots(9), nil)
				b := w.Bytes()
				s := c.Sys()
				s.Put("x.hprof", b)
				for _, k := range sixCmds("x.hprof") {
					for _, k.Html = range []bool{false, true} {
						c.tame(s, k, len(b), "long texts")
					}
				}
			}}
			// chains as long as the file allows: the stack a process may use is scaled down, as the chains are
			chains := Space{Name: "long-chains", Workers: 4, Fn: func(c *Ctx) {
				n := Pick(c, []int{1_000, 30_000})
				of := Pick(c, []string{"thread", "String", "System", "node", "properties"})
				c.State(fmt.Sprintf("%d of %s", n, of))
				defer debug.SetMaxStack(debug.SetMaxStack(16 << 20))
				w := coreWorld(8)
				obj := w.C("java/lang/Object")
				thread := w.C("java/lang/Thread")
				var props []KV
				if of == "properties" {
					for i := 0; i < n; i++ {
						props = append(props, KV{fmt.Sprint("k", i), "v"})
					}
				}
				slots := []Slot{{}}
				for i := range append(props, envProps...) {
					slots[0].Props = append(slots[0].Props, i)
				}
				w.SummaryWorld(append(props, envProps...), 5, slots, nil)
				var k *Cls
				switch of {
				case "thread":
					k = thread
				case "String":
					k = w.C("java/lang/String")
				case "System":
					k = w.C("java/lang/System")
				case "node":
					k = w.C(node)
				}
				if k != nil {
					last := obj
					for i := 0; i < n; i++ {
						last = w.Class("K", last)
					}
					k.rec.Super = last.ID
				}
				w.AddThread(&Thread{Name: "t", TID: 1, Prio: 5, Status: 5})
				b := w.Bytes()
				s := c.Sys()
				s.Put("x.hprof", b)
				c.tame(s, Cmd{Sub: "threads", File: "x.hprof"}, len(b), "long chains")
				if of != "thread" && of != "String" && of != "node" || n < 10_000 {
					c.tame(s, Cmd{Sub: "summary", File: "x.hprof"}, len(b), "long chains")
				}
			}}
			return []Space{heads, subs, short, graph, chain, texts, fields, bytesSp, long, chains}
		}})
}
