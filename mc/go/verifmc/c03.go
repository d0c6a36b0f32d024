package main

import (
	"fmt"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

// C03: the result does not depend on the sizes of reads.

func bigStandard(ids int) (*World, []byte) {
	x := cached(fmt.Sprint("bigstd", ids), func() worldBytes {
		w := standard(ids, stdTS)
		// payloads and strings around the sizes of buffers
		for _, n := range []int{0, 1, 4095, 4096, 4097, 9000} {
			w.Prim(tByte, make([]byte, n))
			w.Str(fmt.Sprintf("%0*d", n, n))
		}
		w.Array(w.arrayOf("[Ljava/lang/String;"), make([]uint64, 1500))
		return worldBytes{w, w.Bytes()}
	})
	return x.w, x.b
}

func init() {
	register(&Property{ID: "C03", Level: "model_checking", Rule: "one state per (dump, read schedule)",
		Assume: []string{"a read transfers at least one byte once in 99 consecutive reads (package bufio gives up otherwise)"},
		Spaces: func(thorough bool) []Space {
			limits := append(ints(1, 40), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 1<<30)
			if thorough {
				limits = append(ints(1, 1100), 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 1<<30)
			}
			uniform := Space{Name: "uniform", Fn: func(c *Ctx) {
				ids, limit := Pick(c, idSizes), Pick(c, limits)
				empty, eof, first := Pick(c, []int{0, 2, 3, 7}), c.Bool(), Pick(c, []int{0, 1, 30})
				c.State(fmt.Sprint("ids ", ids, " limit ", limit, " empty ", empty, " eof ", eof, " first ", first))
				w, b := bigStandard(ids)
				s := c.Sys()
				s.Put("x.hprof", b)
				n := 0
				s.hooked(func(o *verifos.Op) (a verifos.Answer) {
					if o.Kind != "read" {
						return
					}
					n++
					a.Short, a.N, a.EOF = true, limit, eof
					if n == 1 && first > 0 {
						a.N = first
					}
					if empty > 0 && n%empty == 0 {
						a.N = 0
					}
					return
				})
				for i, k := range basicCmds("x.hprof") {
					c.must(w, s, k, fmt.Sprintf("command %d, reads of %d bytes: ", i, limit))
				}
				s.unhooked()
				for _, k := range basicCmds("x.hprof") {
					c.must(w, s, k, "later run: ")
				}
			}}
			// one odd read at any position
			devs := 1
			if thorough {
				devs = 2
			}
			dump := func(ids int) (*World, []byte) { return std(ids) }
			single := Space{Name: "odd-reads", Devs: devs, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				base := Pick(c, []int{1 << 30, 37})
				k := Pick(c, basicCmds("x.hprof"))
				w, b := dump(ids)
				s := c.Sys()
				s.Put("x.hprof", b)
				c.State(fmt.Sprint("ids ", ids, " base ", base, " ", k))
				sched := ""
				n := 0
				s.hooked(func(o *verifos.Op) (a verifos.Answer) {
					if o.Kind != "read" {
						return
					}
					n++
					a.Short, a.N = true, base
					switch c.Dev(5) {
					case 1:
						a.N = 1
					case 2:
						a.N = 0
					case 3:
						a.N = max(1, min(base, o.N)-1)
					case 4:
						a.EOF = true
						return
					default:
						return
					}
					sched += fmt.Sprintf("%d:%d ", n, a.N)
					return
				})
				r := s.Do(k)
				c.State(fmt.Sprint("ids ", ids, " base ", base, " ", k, " odd reads ", sched))
				c.Check(w.expect(k, r), "odd reads %s", sched)
				c.sample = fmt.Sprint(k, " odd reads ", sched)
			}}
			maxShift, step := 4200, 1
			shift := Space{Name: "alignment", Real: true, RealEvery: 400, Fn: func(c *Ctx) {
				ids, n := Pick(c, idSizes), c.Choose(maxShift/step)*step
				c.State(fmt.Sprint("ids ", ids, " shift ", n))
				w, b := std(ids)
				d := Dump{IDSize: ids, TS: w.TS, Recs: []Rec{Utf8{1, string(make([]byte, n))}}, NoEnd: true}
				pre := d.Bytes()
				s := c.Sys()
				s.Put("x.hprof", append(append([]byte(nil), pre...), b[31:]...))
				for _, k := range basicCmds("x.hprof") {
					c.must(w, s, k, fmt.Sprintf("dump shifted by %d bytes: ", n))
				}
			}}
			return []Space{uniform, single, shift}
		}})
}
