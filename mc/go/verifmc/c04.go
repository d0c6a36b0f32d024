package main

import (
	"fmt"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

// C04: truncated dumps are rejected.

func init() {
	register(&Property{ID: "C04", Level: "model_checking", Rule: "one state per (dump, length of the prefix, command)",
		Spaces: func(thorough bool) []Space {
			prefixes := func(name string, dump func(ids int) []byte) Space {
				return Space{Name: name, Real: true, RealEvery: 300, Fn: func(c *Ctx) {
					ids := Pick(c, idSizes)
					b := dump(ids)
					// the last record is 9 bytes: without its length it still is incomplete
					n := c.Choose(len(b))
					first := Pick(c, basicCmds("x.hprof"))
					c.State(fmt.Sprint("ids ", ids, " prefix ", n, " of ", len(b), " ", first))
					s := c.Sys()
					s.Put("x.hprof", b[:n])
					if err := s.Do(first).rejected(); err != nil {
						c.Fail("%s on the first %d of %d bytes: %v", first, n, len(b), err)
					}
					for _, k := range basicCmds("x.hprof") {
						if err := s.Do(k).rejected(); err != nil {
							c.Fail("later run of %s on the first %d of %d bytes: %v", k, n, len(b), err)
						}
					}
				}}
			}
			sp := []Space{
				prefixes("standard", func(ids int) []byte { _, b := std(ids); return b }),
				prefixes("unknown-lengths", func(ids int) []byte {
					return cached(fmt.Sprint("c04nolen", ids), func() []byte {
						w := standard(ids, stdTS)
						w.NoLen = true
						d := w.Dump()
						// heap split into several segments
						var recs []Rec
						for i, r := range d.Recs {
							if isSub(r) && i%5 == 0 {
								recs = append(recs, Split{})
							}
							recs = append(recs, r)
						}
						d.Recs = recs
						return d.Bytes()
					})
				}),
			}
			// big payloads, cut anywhere; the first length is a stride to keep it cheap
			sp = append(sp, Space{Name: "payloads", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				b := cached(fmt.Sprint("c04big", ids), func() []byte {
					w := newWorld(ids, stdTS).Core()
					w.summaryClasses()
					w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
					w.Str(string(make([]byte, 5000)))
					w.Prim(tLong, make([]byte, 16000))
					w.Array(w.arrayOf("[Ljava/lang/String;"), make([]uint64, 1100))
					d := w.Dump()
					d.Recs = append(d.Recs, Inst{ID: 1 << 20, Class: w.C("java/lang/Object").ID, Raw: make([]byte, 6000)})
					return d.Bytes()
				})
				stride := 7
				if c.Thorough {
					stride = 1
				}
				n := c.Choose(len(b)/stride) * stride
				c.State(fmt.Sprint("ids ", ids, " prefix ", n))
				s := c.Sys()
				s.Put("x.hprof", b[:n])
				for i := 0; i < 2; i++ {
					for _, k := range []Cmd{{Sub: "objects", File: "x.hprof"}, {Sub: "threads", File: "x.hprof"}} {
						if err := s.Do(k).rejected(); err != nil {
							c.Fail("%s on the first %d of %d bytes: %v", k, n, len(b), err)
						}
					}
				}
			}})
			// every command and option on some prefixes, with odd deliveries of the end
			sp = append(sp, Space{Name: "all-options", Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				_, b := std(ids)
				n := len(b) - 1 - c.Choose(60)
				k := Pick(c, allCmds("x.hprof"))
				eof := c.Bool()
				c.State(fmt.Sprint("ids ", ids, " prefix ", n, " ", k, eof))
				s := c.Sys()
				s.Put("x.hprof", b[:n])
				s.hooked(func(o *verifos.Op) verifos.Answer { return verifos.Answer{EOF: eof} })
				for i := 0; i < 2; i++ {
					if err := s.Do(k).rejected(); err != nil {
						c.Fail("%s on the first %d of %d bytes: %v", k, n, len(b), err)
					}
				}
			}})
			return sp
		}})
}
