//go:build api

package main

import (
	"bytes"
	"fmt"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
)

func checkInst(acc *dump.ParsedAccessor, r Inst, data []byte) error {
	h, err := acc.GetHprofGcInstanceDump(core.Identifier(r.ID))
	if err != nil {
		return err
	}
	if uint64(h.ObjectId) != r.ID || uint64(h.ClassObjectId) != r.Class || h.StackTraceSerialNumber != r.Trace || int(h.NumberOfBytesThatFollow) != len(data) {
		return fmt.Errorf("header %+v", h)
	}
	return checkPayload(acc, data)
}

func checkOArr(acc *dump.ParsedAccessor, r OArr, data []byte) error {
	h, err := acc.GetHprofGcObjArray(core.Identifier(r.ID))
	if err != nil {
		return err
	}
	if uint64(h.ArrayObjectId) != r.ID || uint64(h.ArrayClassId) != r.Class || h.StackTraceSerialNumber != r.Trace || int(h.NumberOfElements) != len(r.Elems) {
		return fmt.Errorf("header %+v", h)
	}
	return checkPayload(acc, data)
}

func checkPArr(acc *dump.ParsedAccessor, r PArr, n int) error {
	h, err := acc.GetHprofGcPrimArray(core.Identifier(r.ID))
	if err != nil {
		return err
	}
	if uint64(h.ArrayObjectId) != r.ID || byte(h.ElementType) != r.T || h.StackTraceSerialNumber != r.Trace || int(h.NumberOfElements) != n {
		return fmt.Errorf("header %+v", h)
	}
	return checkPayload(acc, r.Data)
}

func checkPayload(acc *dump.ParsedAccessor, data []byte) error {
	b, err := acc.GetBytesFromCurrent(len(data))
	if err != nil {
		return err
	}
	if !bytes.Equal(b, data) {
		return fmt.Errorf("payload %x instead of %x", head(string(b), 60), head(string(data), 60))
	}
	return nil
}

func lookups(acc *dump.ParsedAccessor, id uint64) (found [3]bool) {
	_, e := acc.GetHprofGcInstanceDump(core.Identifier(id))
	found[0] = e == nil
	_, e = acc.GetHprofGcObjArray(core.Identifier(id))
	found[1] = e == nil
	_, e = acc.GetHprofGcPrimArray(core.Identifier(id))
	found[2] = e == nil
	return
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + seed*31 + i>>8 + 1)
	}
	return b
}

func init() {
	apiSpaces["C02"] = func(thorough bool) []Space {
		return []Space{
			{Name: "records", Fn: func(c *Ctx) {
				// sequences of objects of all forms: every header and payload, every id in every kind
				ids := Pick(c, idSizes)
				tables := idTables(ids)
				name := Pick(c, tableNames(tables))
				table := tables[name]
				forms := []Rec{Inst{}, Inst{Raw: pattern(1, 1)}, Inst{Raw: pattern(300, 2)}, OArr{}, OArr{Elems: []uint64{0x11223344}},
					OArr{Elems: make([]uint64, 40)}, PArr{T: tByte}, PArr{T: tByte, Data: pattern(1, 3)}, PArr{T: tLong, Data: pattern(800, 4)}, PArr{T: tChar, Data: pattern(6, 5)}}
				if c.Thorough {
					for _, t := range javaTypes[1:] {
						forms = append(forms, PArr{T: t, Data: pattern(3*typeSize(t, ids), int(t))})
					}
					forms = append(forms, Inst{Raw: pattern(70_000, 6)}, PArr{T: tByte, Data: pattern(70_000, 7)})
				}
				n := 1 + c.Choose(3)
				d := &Dump{IDSize: ids, TS: stdTS}
				key := ""
				for i := 0; i < n; i++ {
					f := c.Choose(len(forms))
					key += fmt.Sprint(" ", f)
					switch r := forms[f].(type) {
					case Inst:
						r.ID, r.Class, r.Trace = table[i], uint64(0x77+i), uint32(0x80000001+i)
						d.Recs = append(d.Recs, r)
					case OArr:
						r.ID, r.Class, r.Trace = table[i], uint64(0x99+i), uint32(0x90000001+i)
						d.Recs = append(d.Recs, r)
					case PArr:
						r.ID, r.Trace = table[i], uint32(0xa0000001+i)
						d.Recs = append(d.Recs, r)
					}
				}
				c.State(fmt.Sprint("ids ", ids, " ", name, key))
				c.Steps(n)
				c.Check(noPanic(func() error {
					acc, err := indexed(d.Bytes())
					if err != nil {
						return err
					}
					for _, back := range []bool{false, true} {
						for i := range d.Recs {
							if back {
								i = len(d.Recs) - 1 - i
							}
							var err error
							kind := 0
							switch r := d.Recs[i].(type) {
							case Inst:
								err = checkInst(acc, r, r.Raw)
							case OArr:
								kind = 1
								w := &writer{d: d}
								for _, e := range r.Elems {
									w.id(e)
								}
								err = checkOArr(acc, r, w.b)
							case PArr:
								kind = 2
								err = checkPArr(acc, r, len(r.Data)/typeSize(r.T, ids))
							}
							if err != nil {
								return fmt.Errorf("object %d (%d): %w", i, table[i], err)
							}
							var want [3]bool
							want[kind] = true
							if f := lookups(acc, table[i]); f != want {
								return fmt.Errorf("object %d is of kind %d, found as %v", table[i], kind, f)
							}
						}
					}
					present := map[uint64]bool{}
					for i := 0; i < n; i++ {
						present[table[i]] = true
					}
					for _, x := range append(append([]uint64{0, 1<<64 - 1, 1 << 31, 1 << 32, 1 << 63}, table...), table[0]-1, table[n-1]+1, table[0]^1<<63, table[0]^1<<32, table[0]^1<<31) {
						if !present[x] {
							if f := lookups(acc, x); f != [3]bool{} {
								return fmt.Errorf("absent id %d found as %v", x, f)
							}
						}
					}
					return nil
				}), "%s", c.key)
			}},
			{Name: "every", Workers: 3, Fn: func(c *Ctx) {
				// every single one of a large number of objects, and every gap between them
				kind := c.Choose(3)
				const B = 1_000_000
				ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, 65535, 65536, 65537, B - 1, B, B + 1, B + 2, 2*B + 2, 2*B + 3}
				if c.Thorough {
					for i := 10; i <= 70; i++ {
						ns = append(ns, i)
					}
					ns = append(ns, 2*B-1, 2*B, 2*B+1, 3*B+3, 3*B+4, 1<<20, 1<<21, 1<<22+1)
				}
				n := Pick(c, ns)
				c.State(fmt.Sprint("kind ", kind, " ", n))
				c.Steps(n)
				d := &Dump{IDSize: 8, TS: stdTS}
				m := Many{First: 1 << 40, Step: 8, N: n, Kind: byte(0x21 + kind), Class: 5, T: tInt}
				// one object of another kind in front and behind
				o := []Rec{OArr{ID: 7, Class: 3}, PArr{ID: 7, T: tChar}, Inst{ID: 7, Class: 3}}[kind]
				d.Recs = []Rec{o, m}
				c.Check(noPanic(func() error {
					acc, err := indexed(d.Bytes())
					if err != nil {
						return err
					}
					for i := 0; i < n; i++ {
						id := m.First + 8*uint64(i)
						switch kind {
						case 0:
							err = checkInst(acc, Inst{ID: id, Class: 5}, nil)
						case 1:
							err = checkOArr(acc, OArr{ID: id, Class: 5}, nil)
						case 2:
							err = checkPArr(acc, PArr{ID: id, T: tInt}, 0)
						}
						if err != nil {
							return fmt.Errorf("object %d of %d: %w", i, n, err)
						}
						if i < 70000 || i%B < 3 || i%B > B-4 || i > n-3 {
							for _, x := range []uint64{id - 1, id + 1} {
								if f := lookups(acc, x); f != [3]bool{} {
									return fmt.Errorf("absent id next to object %d of %d found as %v", i, n, f)
								}
							}
						}
					}
					for _, x := range []uint64{m.First - 8, m.First + 8*uint64(n)} {
						if f := lookups(acc, x); f != [3]bool{} {
							return fmt.Errorf("absent id next to %d objects found as %v", n, f)
						}
					}
					if n > 0 {
						var want [3]bool
						want[(kind+1)%3] = true
						if f := lookups(acc, 7); f != want {
							return fmt.Errorf("object 7 of kind %d found as %v", (kind+1)%3, f)
						}
					}
					return nil
				}), "%s", c.key)
			}},
			{Name: "every-of-spread", Workers: 3, Fn: func(c *Ctx) {
				// every object, and every gap, where the ids are spread unevenly
				kind := c.Choose(3)
				runs, what := spreadRuns(c)
				n := 0
				for _, m := range runs {
					n += m.N
				}
				c.State(fmt.Sprint("kind ", kind, " ", what))
				c.Steps(n)
				d := &Dump{IDSize: 8, TS: stdTS}
				for _, m := range runs {
					m.Kind, m.Class, m.T = byte(0x21+kind), 5, tInt
					d.Recs = append(d.Recs, m)
				}
				c.Check(noPanic(func() error {
					acc, err := indexed(d.Bytes())
					if err != nil {
						return err
					}
					for _, m := range runs {
						for i := 0; i < m.N; i++ {
							id := m.First + m.Step*uint64(i)
							switch kind {
							case 0:
								err = checkInst(acc, Inst{ID: id, Class: 5}, nil)
							case 1:
								err = checkOArr(acc, OArr{ID: id, Class: 5}, nil)
							case 2:
								err = checkPArr(acc, PArr{ID: id, T: tInt}, 0)
							}
							if err != nil {
								return fmt.Errorf("object %d of %+v: %w", i, m, err)
							}
							for _, x := range []uint64{id - 1, id + 1} {
								if f := lookups(acc, x); f != [3]bool{} {
									return fmt.Errorf("absent id next to object %d of %+v found as %v", i, m, f)
								}
							}
						}
					}
					return nil
				}), "%s", c.key)
			}},
			{Name: "backward", Workers: 4, Fn: func(c *Ctx) {
				// one id smaller than the one before, at any position around the boundaries
				const B = 1_000_000
				kind := c.Choose(3)
				near := []int{1, 10, 1000, 4096, 65536, 1 << 19, B, B + 1, 1 << 20, 2 * B, 2*B + 2}
				span := 3
				if c.Thorough {
					near = append(near, 3*B+3, 1<<21, 500_000, 100_000, 1<<16+B)
					span = 8
				}
				at := Pick(c, near) + c.Choose(2*span+1) - span // the index of the record
				how := []int{0, 2, 1, 3}[c.Choose(map[bool]int{false: 2, true: 4}[c.Thorough])]
				rest := []int{0, 2_000_000}[c.Choose(2)]
				if at < 1 || rest > 0 && (!c.Thorough || how != 0) && at != B+1 {
					c.Skip()
				}
				c.State(fmt.Sprint("kind ", kind, " ", at, " ", how, " ", rest))
				const first = 1 << 40
				prev := uint64(first + 16*(at-1))
				id := []uint64{prev - 1, first - 1, 1, prev - 1<<33}[how]
				m := Many{First: first, Step: 16, N: at, Kind: byte(0x21 + kind), Class: 5, T: tInt}
				odd, more := m, m
				odd.First, odd.N = id, 1
				more.First, more.N = prev+16, rest
				d := &Dump{IDSize: 8, TS: stdTS, Recs: []Rec{m, odd, more}}
				c.Steps(at + rest)
				c.Check(noPanic(func() error {
					if _, err := indexed(d.Bytes()); err == nil {
						return fmt.Errorf("accepted")
					}
					return nil
				}), "%s", c.key)
			}},
		}
	}
}
