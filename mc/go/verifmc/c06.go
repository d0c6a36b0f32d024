package main

import (
	"encoding/binary"
	"fmt"
)

// C06: unsupported input is refused, all roots are understood.

// with puts extra records into the records of a dump: pos 0 first, 1 between the heap records, 2 last.
func insertAt(recs []Rec, pos int, top bool, extra ...Rec) []Rec {
	at := 0
	switch pos {
	case 0:
		if !top { // before the first sub-record
			for at < len(recs) && !isSub(recs[at]) {
				at++
			}
		}
	case 1:
		subs := 0
		for i, r := range recs {
			if isSub(r) {
				subs++
			}
			if top && i == len(recs)/3 || !top && subs == 30 {
				at = i
				break
			}
		}
	case 2:
		at = len(recs)
	}
	out := append([]Rec(nil), recs[:at]...)
	out = append(out, extra...)
	return append(out, recs[at:]...)
}

func init() {
	register(&Property{ID: "C06", Level: "model_checking", Rule: "one state per (kind of unsupported or root record, value, place, identifier size)",
		Assume: []string{"record tags that HPROF defines but the tool does not use (UNLOAD CLASS, ALLOC SITES, HEAP SUMMARY, START/END THREAD, HEAP DUMP, CPU SAMPLES, CONTROL SETTINGS) may be refused or skipped"},
		Spaces: func(thorough bool) []Space {
			defined := map[int]bool{0x03: true, 0x06: true, 0x07: true, 0x0a: true, 0x0b: true, 0x0c: true, 0x0d: true, 0x0e: true}
			used := map[int]bool{1: true, 2: true, 4: true, 5: true, 0x1c: true, 0x2c: true}
			tags := Space{Name: "tags", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				ids, t, pos := Pick(c, idSizes), c.Choose(256), c.Choose(3)
				n := Pick(c, []int{0, 1, 8, 23})
				c.State(fmt.Sprint("ids ", ids, " tag ", t, " at ", pos, " length ", n))
				if used[t] {
					return
				}
				w, _ := std(ids)
				d := w.Dump()
				raw := append([]byte{byte(t), 0, 0, 0, 0, 0, 0, 0, byte(n)}, make([]byte, n)...)
				d.Recs = insertAt(d.Recs, pos, true, Raw{raw})
				s := c.Sys()
				s.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					r := s.Do(k)
					err := r.rejected()
					if err != nil && defined[t] {
						err = w.expect(k, r)
					}
					c.Check(err, "%s with a record of tag %#x", k, t)
				}
			}}
			knownSub := map[int]bool{0x20: true, 0x21: true, 0x22: true, 0x23: true, 0x1c: true, 0x2c: true, 0xff: true}
			for i := 1; i <= 8; i++ {
				knownSub[i] = true
			}
			subs := Space{Name: "sub-types", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				ids, t, pos := Pick(c, idSizes), c.Choose(256), c.Choose(3)
				n := Pick(c, []int{0, 4, 8, 12, 16, 33})
				noLen := c.Bool()
				c.State(fmt.Sprint("ids ", ids, " sub-type ", t, " at ", pos, " length ", n, noLen))
				if knownSub[t] {
					return
				}
				w, _ := std(ids)
				d := w.Dump()
				d.NoLen = noLen
				d.Recs = insertAt(d.Recs, pos, false, RawSub{append([]byte{byte(t)}, make([]byte, n)...)})
				s := c.Sys()
				s.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					c.Check(s.Do(k).rejected(), "%s with a sub-record of type %#x", k, t)
				}
			}}
			knownType := map[int]bool{}
			for _, t := range javaTypes {
				knownType[int(t)] = true
			}
			types := Space{Name: "java-types", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				ids, t, place, pos := Pick(c, idSizes), c.Choose(256), c.Choose(4), c.Choose(3)
				n := Pick(c, []int{0, 1, 4, 8})
				c.State(fmt.Sprint("ids ", ids, " type ", t, " place ", place, " at ", pos, " n ", n))
				if knownType[t] {
					return
				}
				w, _ := std(ids)
				d := w.Dump()
				sub := &writer{d: &Dump{IDSize: ids}}
				sub.body(Class{ID: 1 << 30})
				cl := sub.b[:len(sub.b)-6]
				fill := make([]byte, n)
				switch place {
				case 0: // constant pool
					cl = append(cl, 0, 1, 0, 5, byte(t))
					cl = append(append(cl, fill...), 0, 0, 0, 0)
				case 1: // static field
					cl = append(cl, 0, 0, 0, 1)
					cl = append(append(cl, make([]byte, ids)...), byte(t))
					cl = append(append(cl, fill...), 0, 0)
				case 2: // instance field
					cl = append(cl, 0, 0, 0, 0, 0, 1)
					cl = append(append(cl, make([]byte, ids)...), byte(t))
				case 3: // array
					sub := &writer{d: &Dump{IDSize: ids}}
					sub.body(PArr{ID: 1 << 30, T: tByte, Data: fill})
					cl = sub.b
					cl[1+ids+8] = byte(t)
				}
				if place == 3 {
					// ids stay ascending only at the end
					pos = 2
				}
				d.Recs = insertAt(d.Recs, pos, false, RawSub{cl})
				s := c.Sys()
				s.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					c.Check(s.Do(k).rejected(), "%s with Java type %d in place %d", k, t, place)
				}
			}}
			header := Space{Name: "header", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				kind := c.Choose(3)
				w, b := std(ids)
				m := append([]byte(nil), b...)
				var what string
				switch kind {
				case 0:
					v := Pick(c, append([]uint64{16, 32, 64, 256 + 4, 256 + 8, 65536 + 8, 1 << 24, 4 << 24, 8 << 24, 1 << 31, 1<<31 + 8, 1<<32 - 1, 1<<32 - 4, 1<<32 - 8}, 0, 1, 2, 3, 5, 6, 7, 9, 10, 12))
					what = fmt.Sprint("identifier size ", v)
					binary.BigEndian.PutUint32(m[19:], uint32(v))
				case 1:
					at := c.Choose(19)
					v := c.Choose(256)
					if m[at] == byte(v) {
						v = 1
					}
					what = fmt.Sprint("version with byte ", at, " = ", v)
					m[at] = byte(v)
					if at == 18 { // the terminator is not part of the version
						c.State("terminator")
						return
					}
				case 2:
					v := Pick(c, []string{"JAVA PROFILE 1.0.1", "JAVA PROFILE 1.0.3", "JAVA PROFILE 1.0", "JAVA PROFILE 1.0.20", "JAVA PROFILE 1.0.2 ", "java profile 1.0.2", "", "JAVA PROFILE 2.0.2", "JAVA PROFILE 1.1.2", " JAVA PROFILE 1.0.2"})
					what = "version " + v
					m = append(append([]byte(v), 0), b[19:]...)
				}
				c.State(fmt.Sprint("ids ", ids, " ", what))
				_ = w
				s := c.Sys()
				s.Put("x.hprof", m)
				for i := 0; i < 2; i++ {
					for _, k := range basicCmds("x.hprof") {
						c.Check(s.Do(k).rejected(), "%s with %s", k, what)
					}
				}
			}}
			// roots: every sequence of kinds up to a length, at three places
			depth := 2
			if thorough {
				depth = 4
			}
			roots := Space{Name: "roots", Real: true, RealEvery: 400, Fn: func(c *Ctx) {
				ids, pos, high := Pick(c, idSizes), c.Choose(3), c.Bool()
				n := c.Choose(depth + 1)
				var kinds []byte
				for i := 0; i < n; i++ {
					kinds = append(kinds, Pick(c, rootTypes))
				}
				noLen := c.Bool()
				c.State(fmt.Sprint("ids ", ids, " roots ", kinds, " at ", pos, high, noLen))
				w := standard(ids, stdTS)
				d := w.Dump()
				d.NoLen = noLen
				o := w.C("Main").ID
				var rs []Rec
				for i, k := range kinds {
					r := Root{Type: k, Obj: o, A: uint32(i + 100), B: 1, Ref: uint64(i)}
					if k == rootThreadObj {
						// another root for a listed thread would be listed again
						k = rootSticky
						r.Type = k
					}
					if high {
						r.A, r.B, r.Ref = 1<<32-1, 0xfefefefe, 1<<64-1
						if ids == 4 {
							r.Ref = 1<<32 - 1
						}
						if k != rootJniLocal && k != rootJavaFrame {
							r.Obj = 0x2c2c2c2c
						}
					}
					rs = append(rs, r)
				}
				w.roots = append(w.roots, rs...)
				d.Recs = insertAt(d.Recs, pos, false, rs...)
				s := c.Sys()
				s.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					c.must(w, s, k, fmt.Sprintf("roots %v: ", kinds))
				}
			}}
			many := Space{Name: "many-roots", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				ids, k := Pick(c, idSizes), Pick(c, rootTypes)
				n := Pick(c, []int{127, 128, 255, 256, 1000, 65535, 65536})
				c.State(fmt.Sprint("ids ", ids, " kind ", k, " number ", n))
				w := standard(ids, stdTS)
				o := w.C("Main").ID
				if k == rootThreadObj {
					return
				}
				for i := 0; i < n; i++ {
					w.roots = append(w.roots, Root{Type: k, Obj: o, A: uint32(i + 100), B: uint32(i), Ref: uint64(i)})
				}
				c.verify(w, basicCmds("")...)
			}}
			return []Space{header, tags, subs, types, roots, many}
		}})
}
