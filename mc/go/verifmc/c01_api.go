//go:build api

package main

import (
	"fmt"
	"strings"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
)

// checkMeta compares everything the restored index says with the records of the dump.
func checkMeta(acc *dump.ParsedAccessor, d *Dump) error {
	id := func(x core.Identifier) uint64 { return uint64(x) }
	utf, fr, cl := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	loadC, loadS, tr := map[uint64]bool{}, map[uint32]bool{}, map[uint32]bool{}
	var loads []Load
	roots := map[byte][]Root{}
	for i, r := range d.Recs {
		var err error
		switch r := r.(type) {
		case Utf8:
			utf[r.ID] = true
			x, e := acc.GetHprofUtf8(core.Identifier(r.ID))
			if e != nil {
				err = e
			} else if id(x.Identifier) != r.ID || x.Characters != r.Text {
				err = fmt.Errorf("%+v", x)
			}
		case Load:
			loadC[r.Class], loadS[r.Serial] = true, true
			loads = append(loads, r)
			x, e := acc.GetHprofLoadClassByClassObjectId(core.Identifier(r.Class))
			if e != nil {
				err = e
			} else if x.ClassSerialNumber != r.Serial || id(x.ClassObjectId) != r.Class || x.StackTraceSerialNumber != r.Trace || id(x.ClassNameId) != r.Name {
				err = fmt.Errorf("%+v", x)
			}
			y, e := acc.GetHprofLoadClassByClassSerialNumer(r.Serial)
			if e != nil {
				err = e
			} else if err == nil && y != x {
				err = fmt.Errorf("%+v", y)
			}
		case Frame:
			fr[r.ID] = true
			x, e := acc.GetHprofFrame(core.Identifier(r.ID))
			if e != nil {
				err = e
			} else if id(x.StackFrameId) != r.ID || id(x.MethodNameId) != r.Method || id(x.MethodSignatureId) != r.Sig || id(x.SourceFileNameId) != r.File || x.ClassSerialNumber != r.Class || int32(x.LineNumber) != r.Line {
				err = fmt.Errorf("%+v", x)
			}
		case Trace:
			tr[r.Thread] = true
			x, e := acc.GetHprofTrace(r.Thread)
			if e != nil {
				err = e
			} else if x.StackTraceSerialNumber != r.Serial || x.ThreadSerialNumber != r.Thread || int(x.NumberOfFrames) != len(r.Frames) || len(x.StackFrameIds) != len(r.Frames) {
				err = fmt.Errorf("%d %d, %d and %d frames", x.StackTraceSerialNumber, x.ThreadSerialNumber, x.NumberOfFrames, len(x.StackFrameIds))
			} else {
				for j, f := range r.Frames {
					if id(x.StackFrameIds[j]) != f {
						err = fmt.Errorf("frame %d is %d", j, x.StackFrameIds[j])
						break
					}
				}
			}
		case Root:
			t := r.Type
			switch t {
			case rootNativeStack, rootThreadBlock, rootMonitor, rootUnknown:
				t = 0
			}
			roots[t] = append(roots[t], r)
		case Class:
			cl[r.ID] = true
			x, e := acc.GetHprofGcClassDump(core.Identifier(r.ID))
			if e != nil {
				err = e
			} else {
				err = sameClass(x, r, d.IDSize)
			}
		}
		if err != nil {
			return fmt.Errorf("record %d %s: %w", i, head(fmt.Sprintf("%T%+v", r, r), 400), err)
		}
	}
	if l := acc.ListHprofLoadClass(); len(l) != len(loads) {
		return fmt.Errorf("%d loaded classes instead of %d", len(l), len(loads))
	} else {
		for i, x := range l {
			r := loads[i]
			if x.ClassSerialNumber != r.Serial || id(x.ClassObjectId) != r.Class || x.StackTraceSerialNumber != r.Trace || id(x.ClassNameId) != r.Name {
				return fmt.Errorf("loaded class %d is %+v instead of %+v", i, x, r)
			}
		}
	}
	got := map[byte][]Root{}
	for _, x := range acc.ListHprofGcRootJniGlobal() {
		got[rootJniGlobal] = append(got[rootJniGlobal], Root{Type: rootJniGlobal, Obj: id(x.ObjectId), Ref: id(x.JniGlobalRefId)})
	}
	for _, x := range acc.ListHprofGcRootJniLocal() {
		got[rootJniLocal] = append(got[rootJniLocal], Root{Type: rootJniLocal, Obj: id(x.ObjectId), A: x.ThreadSerialNumber, B: x.FrameNumberInStackTrace})
	}
	for _, x := range acc.ListHprofGcRootJavaFrame() {
		got[rootJavaFrame] = append(got[rootJavaFrame], Root{Type: rootJavaFrame, Obj: id(x.ObjectId), A: x.ThreadSerialNumber, B: x.FrameNumberInStackTrace})
	}
	for _, x := range acc.ListHprofGcRootStickyClass() {
		got[rootSticky] = append(got[rootSticky], Root{Type: rootSticky, Obj: id(x.ObjectId)})
	}
	for _, x := range acc.ListHprofGcRootThreadObj() {
		got[rootThreadObj] = append(got[rootThreadObj], Root{Type: rootThreadObj, Obj: id(x.ThreadObjectId), A: x.ThreadSequenceNumber, B: x.StackTraceSequenceNumber})
	}
	n := 0
	for _, rs := range got {
		n += len(rs)
	}
	for t, rs := range roots {
		if t == 0 {
			continue // only their number is kept
		}
		if len(got[t]) != len(rs) {
			return fmt.Errorf("%d roots of type %d instead of %d", len(got[t]), t, len(rs))
		}
		for i, r := range rs {
			if got[t][i] != r {
				return fmt.Errorf("root %d of type %d is %+v instead of %+v", i, t, got[t][i], r)
			}
		}
	}
	for t, rs := range got {
		if len(rs) != len(roots[t]) {
			return fmt.Errorf("%d roots of type %d instead of %d", len(rs), t, len(roots[t]))
		}
	}
	// absent keys
	absent := func(have func(k uint64) bool, get func(k uint64) error, what string, keys []uint64) error {
		for _, k := range keys {
			if !have(k) && get(k) == nil {
				return fmt.Errorf("there is no %s %d, but it is found", what, k)
			}
		}
		return nil
	}
	var ids []uint64
	seen := map[uint64]bool{}
	put := func(k uint64) {
		for _, x := range []uint64{k, k - 1, k + 1, k ^ 1<<31, k ^ 1<<32, k ^ 1<<63, k ^ 1<<15, k & 0xffffffff, k & 0x7fffffff, k & 0xffff, k & 0xff} {
			if !seen[x] {
				seen[x] = true
				ids = append(ids, x)
			}
		}
	}
	put(0)
	for _, m := range []map[uint64]bool{utf, fr, cl, loadC} {
		if len(m) <= 40 {
			for k := range m {
				put(k)
			}
		}
	}
	for k := range loadS {
		if len(loadS) <= 40 {
			put(uint64(k))
		}
	}
	for k := range tr {
		if len(tr) <= 40 {
			put(uint64(k))
		}
	}
	for _, f := range []func() error{
		func() error {
			return absent(func(k uint64) bool { return utf[k] }, func(k uint64) error { _, e := acc.GetHprofUtf8(core.Identifier(k)); return e }, "string", ids)
		},
		func() error {
			return absent(func(k uint64) bool { return fr[k] }, func(k uint64) error { _, e := acc.GetHprofFrame(core.Identifier(k)); return e }, "frame", ids)
		},
		func() error {
			return absent(func(k uint64) bool { return cl[k] }, func(k uint64) error { _, e := acc.GetHprofGcClassDump(core.Identifier(k)); return e }, "class", ids)
		},
		func() error {
			return absent(func(k uint64) bool { return loadC[k] }, func(k uint64) error {
				_, e := acc.GetHprofLoadClassByClassObjectId(core.Identifier(k))
				return e
			}, "loaded class", ids)
		},
		func() error {
			return absent(func(k uint64) bool { return loadS[uint32(k)] }, func(k uint64) error { _, e := acc.GetHprofLoadClassByClassSerialNumer(uint32(k)); return e }, "class serial", ids)
		},
		func() error {
			return absent(func(k uint64) bool { return tr[uint32(k)] }, func(k uint64) error { _, e := acc.GetHprofTrace(uint32(k)); return e }, "trace", ids)
		},
	} {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func sameClass(x core.HprofGcClassDump, r Class, ids int) error {
	if uint64(x.ClassObjectId) != r.ID || x.StackTraceSerialNumber != r.Trace || uint64(x.SuperclassObjectId) != r.Super || uint64(x.ClassloaderObjectId) != r.Loader ||
		uint64(x.SignersObjectId) != r.Signers || uint64(x.ProtectionDomainObjectId) != r.Domain || uint32(x.InstanceSize) != r.InstSize {
		return fmt.Errorf("header of %s", head(fmt.Sprintf("%+v", x), 300))
	}
	if len(x.ConstantPoolRecords) != len(r.CPs) || len(x.StaticFieldRecords) != len(r.Statics) || len(x.InstanceFieldRecords) != len(r.Fields) ||
		int(x.SizeOfConstantPool) != len(r.CPs) || int(x.NumberOfStaticFields) != len(r.Statics) || int(x.NumberOfInstanceFields) != len(r.Fields) {
		return fmt.Errorf("%d constants, %d static fields, %d fields", len(x.ConstantPoolRecords), len(x.StaticFieldRecords), len(x.InstanceFieldRecords))
	}
	for i, c := range r.CPs {
		y := x.ConstantPoolRecords[i]
		if err := sameVal(y.Value, c.V, ids); err != nil || y.ConstantPoolIndex != c.Index || byte(y.Ty) != c.V.T {
			return fmt.Errorf("constant %d: %+v %v", i, y, err)
		}
	}
	for i, c := range r.Statics {
		y := x.StaticFieldRecords[i]
		if err := sameVal(y.Value, c.V, ids); err != nil || uint64(y.StaticFieldName) != c.Name || byte(y.Ty) != c.V.T {
			return fmt.Errorf("static field %d: %+v %v", i, y, err)
		}
	}
	for i, c := range r.Fields {
		y := x.InstanceFieldRecords[i]
		if uint64(y.InstanceFieldName) != c.Name || byte(y.Ty) != c.T {
			return fmt.Errorf("field %d: %+v", i, y)
		}
	}
	return nil
}

func (c *Ctx) meta(d *Dump) {
	c.Steps(len(d.Recs))
	c.Check(noPanic(func() error {
		acc, err := indexed(d.Bytes())
		if err != nil {
			return err
		}
		if acc.IdentifierSize != uint32(d.IDSize) {
			return fmt.Errorf("identifier size %d", acc.IdentifierSize)
		}
		if t := acc.Timestamp.UnixMilli(); uint64(t) != d.TS {
			return fmt.Errorf("time %d instead of %d", t, d.TS)
		}
		return checkMeta(acc, d)
	}), "%s", c.key)
}

var u4s = []uint64{0, 1, 127, 128, 255, 256, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func idValues(ids int) []uint64 {
	if ids == 4 {
		return u4s
	}
	return append(append([]uint64{}, u4s...), 1<<32, 1<<32+1, 1<<48, 1<<53+1, 1<<63-1, 1<<63, 1<<64-2, 1<<64-1)
}

// typeValues are the boundary values of a type.
func typeValues(t byte, ids int) (r []uint64) {
	switch t {
	case tBool:
		return []uint64{0, 1}
	case tObj:
		return idValues(ids)
	case tFloat:
		return []uint64{0, 1 << 31, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0x3dcccccd, 0x00800000}
	case tDouble:
		return []uint64{0, 1 << 63, 1, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0x3fb999999999999a, 0x3ff0000000000001}
	}
	n := 8 * typeSize(t, ids)
	for _, v := range []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		if n == 64 || v < 1<<n {
			r = append(r, v)
		}
	}
	return
}

func init() {
	apiSpaces["C01"] = func(thorough bool) []Space {
		return []Space{
			{Name: "record values", Devs: 2, Fn: func(c *Ctx) {
				// a dump with two records of every kind, in which up to two fields have boundary values
				ids := Pick(c, idSizes)
				if c.Bool() {
					c.devs = 3
					if !thorough {
						c.Skip()
					}
				}
				idv := idValues(ids)
				var chosen []string
				n := 0
				u := func(def uint32) uint32 {
					n++
					if k := c.Dev(1 + len(u4s)); k > 0 {
						chosen = append(chosen, fmt.Sprint(n, "=", u4s[k-1]))
						return uint32(u4s[k-1])
					}
					return def
				}
				i := func(def uint64) uint64 {
					n++
					if k := c.Dev(1 + len(idv)); k > 0 {
						chosen = append(chosen, fmt.Sprint(n, "=", idv[k-1]))
						return idv[k-1]
					}
					return def
				}
				d := &Dump{IDSize: ids, TS: stdTS}
				what := Pick(c, []string{"strings", "loads", "frames", "traces", "roots", "classes"})
				switch what {
				case "strings":
					d.Recs = []Rec{Utf8{i(3), "one"}, Utf8{i(4), "two"}}
				case "loads":
					d.Recs = []Rec{Load{u(1), i(100), u(7), i(300)}, Load{u(2), i(200), u(8), i(400)}}
				case "frames":
					d.Recs = []Rec{Frame{i(1), i(2), i(3), i(4), u(5), 6}, Frame{i(7), i(8), i(9), i(10), u(11), -1}}
					f := d.Recs[0].(Frame)
					f.Line = int32(u(12))
					d.Recs[0] = f
				case "traces":
					d.Recs = []Rec{Trace{u(1), u(2), []uint64{i(3), i(4)}}, Trace{u(5), u(6), []uint64{i(7)}}}
				case "roots":
					for _, t := range rootTypes {
						r := Root{Type: t, Obj: i(uint64(t) + 1000)}
						switch t {
						case rootJniGlobal:
							r.Ref = i(50)
						case rootJniLocal, rootJavaFrame, rootThreadObj:
							r.A, r.B = u(3), u(4)
						}
						d.Recs = append(d.Recs, r)
					}
				case "classes":
					k := Class{ID: i(1), Trace: u(2), Super: i(3), Loader: i(4), Signers: i(5), Domain: i(6), Res1: i(7), Res2: i(8), InstSize: u(9)}
					k.CPs = []CP{{uint16(u(10)), Val{tInt, 11}}, {12, Val{tObj, i(13)}}}
					k.Statics = []Static{{i(14), Val{tLong, 15}}, {16, Val{tObj, i(17)}}}
					k.Fields = []Field{{i(18), tShort}, {i(19), tObj}}
					d.Recs = []Rec{Class{ID: 90, Super: 1}, k, Class{ID: 91, Super: 90}}
				}
				c.State(fmt.Sprint("ids ", ids, " ", what, " ", chosen))
				if dup(d) {
					return
				}
				c.meta(d)
			}},
			{Name: "typed values", Fn: func(c *Ctx) {
				// constants, static fields and fields of every type and boundary value
				ids := Pick(c, idSizes)
				t := Pick(c, javaTypes)
				v := Val{t, Pick(c, typeValues(t, ids))}
				t2 := Pick(c, javaTypes)
				vs := typeValues(t2, ids)
				if !thorough {
					vs = []uint64{vs[1], vs[len(vs)-1]}
				}
				v2 := Val{t2, Pick(c, vs)}
				c.State(fmt.Sprint("ids ", ids, " ", v, v2))
				d := &Dump{IDSize: ids, TS: stdTS}
				d.Recs = []Rec{
					Class{ID: 1, CPs: []CP{{1, v}, {2, v2}}, Fields: []Field{{3, t}, {4, t2}}},
					Class{ID: 2, Statics: []Static{{1, v}, {2, v2}}, Fields: []Field{{3, t2}, {4, t}}},
					Class{ID: 3, CPs: []CP{{1, v2}}, Statics: []Static{{1, v}}, Fields: []Field{{3, t}}},
					Class{ID: 4, CPs: []CP{{65535, v}, {0, v}}, Statics: []Static{{1, v2}, {1, v2}}},
				}
				c.meta(d)
			}},
			{Name: "class forms", Fn: func(c *Ctx) {
				// every sequence of types of constants, static fields and fields
				ids := Pick(c, idSizes)
				max := []int{2, 2, 1}
				if thorough {
					max = []int{2, 2, 2}
				}
				d := &Dump{IDSize: ids, TS: stdTS}
				k := Class{ID: 5, InstSize: 99}
				key := ""
				n := 0
				seq := func(max int, f func(v Val)) {
					key += "/"
					for j := 0; j < max; j++ {
						x := c.Choose(1 + len(javaTypes))
						if x == 0 {
							return
						}
						t := javaTypes[x-1]
						n++
						v := Val{t, 0x8182838485868788 + uint64(n)*0x1111111111111111}
						if t == tBool {
							v.U = uint64(n & 1)
						}
						f(v)
						key += fmt.Sprint(" ", t)
					}
				}
				seq(max[0], func(v Val) { k.CPs = append(k.CPs, CP{uint16(n * 1000), v}) })
				seq(max[1], func(v Val) { k.Statics = append(k.Statics, Static{uint64(n * 1000), v}) })
				seq(max[2], func(v Val) { k.Fields = append(k.Fields, Field{uint64(n * 1000), v.T}) })
				c.State(fmt.Sprint("ids ", ids, " ", key))
				d.Recs = []Rec{Root{Type: rootSticky, Obj: 5}, k, Root{Type: rootSticky, Obj: 6}, Class{ID: 6, Fields: []Field{{7, tInt}}}, Utf8{9, "after"}}
				c.meta(d)
			}},
			{Name: "numbers", Workers: 4, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				what := Pick(c, []string{"strings", "loads", "frames", "traces", "frames of a trace", "roots", "constants", "static fields", "fields", "classes", "long string"})
				ns := []int{0, 1, 2, 127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535}
				if !strings.Contains(what, "const") && !strings.Contains(what, "fields") {
					ns = append(ns, 65536, 65537, 200_000)
				}
				n := Pick(c, ns)
				if what == "loads" && n > 4097 {
					n = 4098 + n%7 // looked up one by one
				}
				c.State(fmt.Sprint("ids ", ids, " ", what, " ", n))
				d := &Dump{IDSize: ids, TS: stdTS}
				k := Class{ID: 5}
				var frames []uint64
				for i := 0; i < n; i++ {
					u := uint64(i)*3 + 1000
					t := javaTypes[i%9]
					v := Val{t, u * 0x0101010101}
					if t == tBool {
						v.U = u & 1
					}
					if t == tObj {
						v.U = u
					}
					switch what {
					case "strings":
						d.Recs = append(d.Recs, Utf8{u, fmt.Sprint("s", i%1000)})
					case "loads":
						d.Recs = append(d.Recs, Load{uint32(u), u * 2, 1, u * 3})
					case "frames":
						d.Recs = append(d.Recs, Frame{u, u + 1, u + 2, u + 3, uint32(u), int32(i)})
					case "traces":
						d.Recs = append(d.Recs, Trace{uint32(u), uint32(i), []uint64{u}})
					case "frames of a trace":
						frames = append(frames, u)
					case "roots":
						d.Recs = append(d.Recs, Root{Type: []byte{rootJavaFrame, rootSticky, rootJniLocal, rootJavaFrame, rootMonitor, rootJniGlobal, rootThreadObj}[i%7], Obj: u})
					case "constants":
						k.CPs = append(k.CPs, CP{uint16(i), v})
					case "static fields":
						k.Statics = append(k.Statics, Static{u, v})
					case "fields":
						k.Fields = append(k.Fields, Field{u, t})
					case "classes":
						d.Recs = append(d.Recs, Class{ID: u, Super: u - 3, Fields: []Field{{u, t}}, Statics: []Static{{u, v}}})
					}
				}
				switch what {
				case "frames of a trace":
					d.Recs = []Rec{Trace{1, 2, frames}, Trace{2, 3, []uint64{1}}}
				case "constants", "static fields", "fields":
					d.Recs = []Rec{Class{ID: 4}, k, Class{ID: 6, Statics: []Static{{1, Val{tInt, 7}}}}}
				case "long string":
					d.Recs = []Rec{Utf8{1, string(pattern(n, 1))}, Utf8{2, string(pattern(n*16, 2))}, Utf8{3, "after"}}
				}
				c.meta(d)
			}},
			{Name: "roots", Fn: func(c *Ctx) {
				// every sequence of kinds of roots
				ids := Pick(c, idSizes)
				n := 4
				if thorough {
					n = 5
				}
				d := &Dump{IDSize: ids, TS: stdTS, NoLen: c.Bool()}
				key := ""
				for i := 0; i < n; i++ {
					k := c.Choose(1 + len(rootTypes))
					if k == 0 {
						break
					}
					r := Root{Type: rootTypes[k-1], Obj: uint64(i+1) * 0x01010101}
					switch r.Type {
					case rootJniGlobal:
						r.Ref = uint64(i+1) * 0x02020202
					case rootJniLocal, rootJavaFrame, rootThreadObj:
						r.A, r.B = uint32(i+1)*0x03030303, uint32(i+1)*0x04040404
					}
					d.Recs = append(d.Recs, r)
					key += fmt.Sprint(" ", r.Type)
				}
				c.State(fmt.Sprint("ids ", ids, d.NoLen, key))
				c.meta(d)
			}},
			{Name: "texts", Fn: func(c *Ctx) {
				// every string of up to two bytes, and every byte in longer ones
				ids := Pick(c, idSizes)
				hi := c.Choose(257)
				c.State(fmt.Sprint("ids ", ids, " ", hi))
				d := &Dump{IDSize: ids, TS: stdTS}
				for lo := 0; lo < 256; lo++ {
					s := string([]byte{byte(lo)})
					if hi < 256 {
						s = string([]byte{byte(hi), byte(lo)})
					}
					d.Recs = append(d.Recs, Utf8{uint64(4*lo + 1), s}, Utf8{uint64(4*lo + 2), "a" + s + "b"}, Utf8{uint64(4*lo + 3), strings.Repeat(s, lo)})
				}
				d.Recs = append(d.Recs, Utf8{9000, ""})
				c.meta(d)
			}},
			{Name: "order", Fn: func(c *Ctx) {
				// records of every kind in every order
				ids := Pick(c, idSizes)
				recs := []Rec{Utf8{1, "one"}, Load{1, 100, 1, 1}, Frame{1, 1, 2, 3, 1, 9}, Trace{1, 1, []uint64{1, 1}}, Class{ID: 100, CPs: []CP{{1, Val{tByte, 0x80}}}, Fields: []Field{{1, tObj}}},
					Root{Type: rootJavaFrame, Obj: 200, A: 1, B: 0}, Inst{ID: 200, Class: 100, Raw: pattern(ids, 1)}}
				n := 6
				if thorough {
					recs = append(recs, PArr{ID: 300, T: tShort, Data: pattern(6, 2)})
					n = 7
				}
				d := &Dump{IDSize: ids, TS: stdTS}
				key := ""
				for i := 0; i < n; i++ {
					j := c.Choose(len(recs))
					d.Recs = append(d.Recs, recs[j])
					key += fmt.Sprintf(" %T", recs[j])
					recs = append(append([]Rec{}, recs[:j]...), recs[j+1:]...)
				}
				d.Recs = append(d.Recs, recs...)
				c.State(fmt.Sprint("ids ", ids, key))
				c.meta(d)
			}},
		}
	}
}

// dup tells that two records have the same key.
func dup(d *Dump) bool {
	seen := map[string]bool{}
	dupl := false
	put := func(k string) {
		dupl = dupl || seen[k]
		seen[k] = true
	}
	for _, r := range d.Recs {
		switch r := r.(type) {
		case Utf8:
			put(fmt.Sprint("u", r.ID))
		case Load:
			put(fmt.Sprint("l", r.Class))
			put(fmt.Sprint("s", r.Serial))
		case Frame:
			put(fmt.Sprint("f", r.ID))
		case Trace:
			put(fmt.Sprint("t", r.Thread))
		case Class:
			put(fmt.Sprint("c", r.ID))
		}
	}
	return dupl
}
