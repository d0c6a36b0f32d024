package main

import (
	"fmt"
	"strings"
)

// Redefine changes the superclass and the fields of a class.
func (w *World) Redefine(c *Cls, super *Cls, fields ...F) {
	c.Super, c.Fields = super, fields
	c.rec.Super, c.rec.InstSize, c.rec.Fields = super.ID, super.rec.InstSize, nil
	for _, f := range fields {
		c.rec.Fields = append(c.rec.Fields, Field{w.Str(f.Name), f.T})
		c.rec.InstSize += uint32(typeSize(f.T, w.IDSize))
	}
}

// fieldList is a list of fields of one class: up to max, each a filler or the field itself.
func fieldList(c *Ctx, types []byte, max int, level int, name string, t []byte) (r []F) {
	declared := false
	for len(r) < max {
		k := c.Choose(1 + len(types) + len(t))
		switch {
		case k == 0:
			return
		case k <= len(types):
			r = append(r, F{fmt.Sprintf("f%d%d", level, len(r)), types[k-1]})
		default:
			if declared {
				c.Skip()
			}
			declared = true
			r = append(r, F{name, t[k-1-len(types)]})
		}
	}
	return
}

func fieldKey(fs []F) string {
	var r []string
	for _, f := range fs {
		r = append(r, f.Name+":"+typeName(f.T))
	}
	return "{" + strings.Join(r, " ") + "}"
}

func init() {
	const rt = "sun/management/RuntimeImpl"
	register(&Property{ID: "C20", Level: "model_checking",
		Rule:   "an object with a hierarchy of up to four classes, each with up to two fields; its data is different in every byte",
		Assume: []string{"no class declares two fields of the same name", "boolean fields hold 0 or 1; any two NaN are the same value"},
		Spaces: func(thorough bool) []Space {
			return withAPI("C20", thorough, []Space{
				{Name: "uptime", Real: true, RealEvery: 101, Fn: func(c *Ctx) {
					ids := Pick(c, idSizes)
					depth := 1 + c.Choose(3)
					types := javaTypes
					max := 2
					if depth == 3 && !c.Thorough {
						types = []byte{tObj, tBool, tChar, tInt, tDouble}
						max = 1
					}
					var levels [][]F
					key := ""
					for l := 0; l < depth; l++ {
						m, ty := max, types
						if l > 0 && depth == 2 && !c.Thorough {
							ty = []byte{tObj, tByte, tShort, tLong}
						}
						if c.Thorough && l == 2 {
							m, ty = 1, []byte{tObj, tByte, tShort, tLong}
						}
						fs := fieldList(c, ty, m, l, "vmStartupTime", []byte{tLong})
						levels = append(levels, fs)
						key += fieldKey(fs)
					}
					cut := 0
					declared := strings.Contains(key, "vmStartupTime")
					if declared {
						cut = c.Choose(2)
					}
					c.State(fmt.Sprint("ids ", ids, " ", key, " cut ", cut))
					w := newWorld(ids, stdTS).Core()
					w.summaryClasses()
					super := w.C("java/lang/Object")
					for l := depth - 1; l > 0; l-- {
						super = w.Class(fmt.Sprintf("app/Level%d", l), super, levels[l]...)
					}
					w.Redefine(w.C(rt), super, levels[0]...)
					w.SummaryWorld(envProps, 0, plainSlots(len(envProps)), nil)
					var in *Inst
					at := 0
					for i := range w.objs {
						if x, ok := w.objs[i].(Inst); ok && x.Class == w.C(rt).ID {
							in, at = &x, i
							break
						}
					}
					slots, _ := w.C(rt).slots()
					off, end := 0, 0
					for i, f := range slots {
						size := typeSize(f.T, ids)
						v := uint64(0)
						for j := 0; j < size; j++ {
							v = v<<8 | uint64(off+j+1)
						}
						if f.Name == "vmStartupTime" {
							v = uint64(stdTS - 1_000_000*(i+1) - off)
							if end == 0 {
								w.Start = int64(v)
								end = off + size
							}
						}
						in.Vals[i].U = v
						off += size
					}
					s := c.Sys()
					cmds := []Cmd{{Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "objects", File: "x.hprof"}}
					if cut == 1 {
						wr := &writer{d: &Dump{IDSize: ids}}
						for _, v := range in.Vals {
							wr.val(v)
						}
						for n := end - 1; n >= 0; n -= 3 {
							in.Raw = append([]byte{}, wr.b[:n]...)
							w.objs[at] = *in
							s.Put(fmt.Sprintf("x%d.hprof", n), w.Bytes())
							if err := s.Do(Cmd{Sub: "summary", File: fmt.Sprintf("x%d.hprof", n)}).rejected(); err != nil {
								c.Fail("object cut to %d bytes, the field ends at %d: %v", n, end, err)
							}
						}
						return
					}
					w.objs[at] = *in
					s.Put("x.hprof", w.Bytes())
					for i, k := range cmds {
						r := s.Do(k)
						if i == 0 && !declared {
							if err := r.rejected(); err != nil {
								c.Fail("no class declares the field: %v", err)
							}
						} else if err := w.expect(k, r); err != nil {
							c.Fail("%v", err)
						}
					}
				}},
				{Name: "twins", Real: true, RealEvery: 29, Fn: func(c *Ctx) {
					// several threads of classes that have the same name but other fields
					ids := Pick(c, idSizes)
					n := 3
					var ts []int
					for i := 0; i < n; i++ {
						ts = append(ts, c.Choose(1+len(javaTypes)))
					}
					c.State(fmt.Sprint("ids ", ids, " ", ts))
					w := newWorld(ids, stdTS).Core()
					w.summaryClasses()
					for i, t := range ts {
						var fs []F
						if t > 0 {
							fs = []F{{"pad", javaTypes[t-1]}, {"name", tInt}}
						}
						cls := w.Class("app/Twin", w.C("java/lang/Thread"), fs...)
						w.AddThread(&Thread{Name: fmt.Sprint("thread ", i), Coder: -1, TID: int64(i + 1), Prio: int32(i), Status: 5, Cls: cls, Daemon: i == 1,
							Extra: map[string]uint64{"app/Twin:pad": 0x01010101 * uint64(i+1), "app/Twin:name": 77}})
					}
					w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
					c.verify(w, Cmd{Sub: "threads", Locals: true})
				}},
				distances(thorough, []int{0, 1}, true, Cmd{Sub: "threads", File: "x.hprof", Locals: true}, Cmd{Sub: "summary", File: "x.hprof", AllProps: true}),
			}...)
		}})
}
