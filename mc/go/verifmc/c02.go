package main

import (
	"fmt"
	"sort"
	"strings"
)

// Objects whose type tells which one was found.
const (
	kNone = iota
	kInst
	kOArr
	kPArr
)

var primNames = map[byte]string{tBool: "boolean", tChar: "char", tFloat: "float", tDouble: "double", tByte: "byte", tShort: "short", tInt: "int", tLong: "long"}

func lookupWorld(ids int, objects int) *World {
	w := memWorld(ids)
	for i := 0; i < objects; i++ {
		w.Class(fmt.Sprintf("app/I%d", i), w.C("java/lang/Object"), F{"a", tInt})
		w.arrayOf(fmt.Sprintf("[Lapp/A%d;", i))
	}
	return w
}

// lookupObj is the i-th object, of the given kind.
func (w *World) lookupObj(i, kind int, id uint64) (Rec, string) {
	switch kind {
	case kInst:
		return Inst{ID: id, Class: w.C(fmt.Sprintf("app/I%d", i)).ID, Vals: []Val{{tInt, uint64(i)}}}, fmt.Sprintf("app.I%d", i)
	case kOArr:
		return OArr{ID: id, Class: w.C(fmt.Sprintf("[Lapp/A%d;", i)).ID, Elems: make([]uint64, i)}, fmt.Sprintf("app.A%d[]", i)
	case kPArr:
		t := javaTypes[1+i%8]
		return PArr{ID: id, T: t, Data: make([]byte, i*typeSize(t, w.IDSize))}, primNames[t] + "[]"
	}
	return nil, ""
}

func (w *World) countObj(r Rec) {
	switch r := r.(type) {
	case Inst:
		w.countN(w.byID[r.Class], 1, 0, false)
	case OArr:
		w.countN(w.byID[r.Class], 1, len(r.Elems), true)
	case PArr:
		w.countPrim(r.T, 1, len(r.Data)/typeSize(r.T, w.IDSize))
	}
}

// local makes the thread hold the object.
func (w *World) local(id uint64, text string) {
	w.Threads[0].Locals = append(w.Threads[0].Locals, LocalSpec{0, rootJavaFrame, id, text})
	w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: id, A: w.Threads[0].Serial, B: 0})
}

// idTables are the ids of five objects, in ascending order.
func idTables(ids int) map[string][]uint64 {
	t := map[string][]uint64{
		"small":    {1, 2, 3, 4, 5},
		"adjacent": {extraID, extraID + 1, extraID + 2, extraID + 3, extraID + 4},
		"bytes":    {0xfe, 0xff, 0x101, 0xffff, 0x10001},
		"31 bits":  {1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 2},
		"mixed":    {1, 0x12345, 1<<31 - 1, 1 << 31, 1<<32 - 1},
		"max32":    {1<<32 - 5, 1<<32 - 4, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1},
	}
	if ids == 8 {
		t["32 bits"] = []uint64{1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2}
		t["63 bits"] = []uint64{1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<63 + 2}
		t["max64"] = []uint64{1<<64 - 5, 1<<64 - 4, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1}
		t["same low half"] = []uint64{extraID + 1, 1<<32 + extraID + 1, 2<<32 + extraID + 1, 1<<62 + extraID + 1, 1<<63 + extraID + 1}
		t["same high half"] = []uint64{7<<32 + 1, 7<<32 + 1<<16, 7<<32 + 1<<31, 7<<32 + 3<<30, 8<<32 - 1}
		t["far apart"] = []uint64{1, 1<<16 + 1, 1<<32 + 1, 1 << 48, 1<<64 - 1}
		t["53 bits"] = []uint64{1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<54 + 1, 1<<54 + 3}
	}
	return t
}

func tableNames(t map[string][]uint64) (r []string) {
	for n := range t {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

// notFound checks that looking up a local that does not exist does not give any object.
func notFound(r Res, texts []string) error {
	if r.rejected() == nil {
		return nil
	}
	if r.Crash != "" || r.Code != 0 {
		return r.rejected()
	}
	for _, t := range texts {
		if strings.Contains(r.Out, t) {
			return fmt.Errorf("the absent object is shown as %s: %v", t, r)
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "C02", Level: "model_checking",
		Rule:   "an object of the dump is looked up by a local variable or the thread root that refers to it; every object has a type of its own, so that the type shown tells which object was found",
		Assume: []string{"no id occurs twice in a dump", "a dump with a local that refers to an absent object may be rejected as a whole, or the local shown as something no object of the dump is", "sparse files stand for dumps of several GB"},
		Spaces: func(thorough bool) []Space {
			return withAPI("C02", thorough, []Space{
				{Name: "kinds", Real: true, RealEvery: 97, Fn: func(c *Ctx) {
					ids := Pick(c, idSizes)
					tables := idTables(ids)
					name := Pick(c, tableNames(tables))
					table := tables[name]
					n := 4
					if c.Thorough {
						n = 5
					}
					w := lookupWorld(ids, n)
					var present, texts []string
					var free []uint64
					pattern := ""
					taken := map[uint64]bool{0: true}
					for _, id := range table {
						taken[id] = true
					}
					for i := 0; i < n; i++ {
						id := table[i]
						kind := c.Choose(4)
						pattern += string("-IOP"[kind])
						r, text := w.lookupObj(i, kind, id)
						if kind == kNone {
							free = append(free, id)
							continue
						}
						w.objs = append(w.objs, r)
						w.countObj(r)
						w.local(id, text)
						present = append(present, text)
						texts = append(texts, text)
						for _, x := range []uint64{id - 1, id + 1, id ^ 1<<31} {
							if !taken[x] && (ids == 8 || x < 1<<32) && (x < 0x100 || x >= extraID) {
								free = append(free, x)
								taken[x] = true
							}
						}
					}
					probe := c.Choose(1 + len(free))
					c.State(fmt.Sprint("ids ", ids, " ", name, " ", pattern, " ", probe))
					if probe == 0 {
						c.verify(w, Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "objects"})
						return
					}
					id := free[probe-1]
					s := c.Sys()
					w.roots = append(w.roots, Root{Type: []byte{rootJavaFrame, rootJniLocal}[probe%2], Obj: id, A: w.Threads[0].Serial, B: 1})
					s.Put("x.hprof", w.Bytes())
					if err := notFound(s.Do(Cmd{Sub: "threads", File: "x.hprof", Locals: true}), nil); err != nil {
						c.Fail("local with absent id %d: %v", id, err)
					}
					w.roots = w.roots[:1]
					w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: id, A: w.Threads[0].Serial, B: 0})
					s.Put("y.hprof", w.Bytes())
					if err := notFound(s.Do(Cmd{Sub: "threads", File: "y.hprof", Locals: true}), append(texts, "app.I", "app.A")); err != nil {
						c.Fail("local with absent id %d: %v", id, err)
					}
				}},
				{Name: "wrong", Real: true, RealEvery: 11, Fn: func(c *Ctx) {
					// references to something of another kind: the thread, its name, the characters of
					// its name, and the hash table of the properties
					ids := Pick(c, idSizes)
					what := Pick(c, []string{"thread", "name", "value", "table", "map", "properties", "runtime"})
					target := c.Choose(5)
					if what == "value" && target == 2 {
						c.Skip() // int[] is an array, but of another type
					}
					if what == "table" && target == 1 {
						c.Skip() // an object array with one null element: no properties
					}
					c.State(fmt.Sprint("ids ", ids, " ", what, " ", target))
					w := lookupWorld(ids, 5)
					first := w.nextID
					for i, kind := range []int{kInst, kOArr, kPArr} {
						r, _ := w.lookupObj(i, kind, w.id())
						w.objs = append(w.objs, r)
						w.countObj(r)
					}
					to := []uint64{first + 8, first + 16, first + 24, w.C("Main").ID, first + 32}[target]
					sub := "summary"
					repl := func(cls *Cls, field string) bool {
						slots, _ := cls.slots()
						for i, f := range slots {
							if f.Name != field {
								continue
							}
							for j := range w.objs {
								if in, ok := w.objs[j].(Inst); ok && in.Class == cls.ID {
									in.Vals = append([]Val(nil), in.Vals...)
									in.Vals[i].U = to
									w.objs[j] = in
									return true
								}
							}
						}
						panic("no such field")
					}
					switch what {
					case "thread":
						sub = "threads"
						w.roots[0] = Root{Type: rootThreadObj, Obj: to, A: w.Threads[0].Serial, B: w.Threads[0].Trace}
					case "name":
						sub = "threads"
						repl(w.C("java/lang/Thread"), "name")
					case "value": // the first string is the name of the thread
						sub = "threads"
						repl(w.C("java/lang/String"), "value")
					case "table":
						repl(w.C(chm), "table")
					case "map":
						repl(w.C("java/util/Properties"), "map")
					case "properties", "runtime":
						cls, f := w.C("java/lang/System"), "props"
						if what == "runtime" {
							cls, f = w.C("sun/management/ManagementFactoryHelper"), "runtimeMBean"
						}
						for i, s := range cls.rec.Statics {
							if s.Name == w.Str(f) {
								cls.rec.Statics[i].V.U = to
							}
						}
					}
					s := c.Sys()
					s.Put("x.hprof", w.Bytes())
					k := Cmd{Sub: sub, File: "x.hprof", AllProps: true, Locals: true}
					if err := s.Do(k).rejected(); err != nil {
						c.Fail("%v", err)
					}
					if err := w.expect(Cmd{Sub: "objects", File: "x.hprof"}, s.Do(Cmd{Sub: "objects", File: "x.hprof"})); err != nil {
						c.Fail("%v", err)
					}
				}},
				{Name: "order", Real: true, RealEvery: 97, Fn: func(c *Ctx) {
					// every order of the objects: either all are found, or the dump is rejected
					ids := Pick(c, idSizes)
					tables := idTables(ids)
					names := tableNames(tables)
					if !c.Thorough {
						names = []string{"adjacent", "mixed", "31 bits"}
						if ids == 8 {
							names = []string{"adjacent", "far apart", "63 bits", "same low half"}
						}
					}
					name := Pick(c, names)
					table := tables[name][:4]
					split := c.Bool()
					pattern := ""
					w := lookupWorld(ids, 4)
					var recs []Rec
					left := []int{0, 1, 2, 3}
					last := map[int]uint64{}
					core := w.nextID
					for k := kInst; k <= kPArr; k++ {
						last[k] = core // above the ids of that kind in the rest of the dump
					}
					back := false
					for len(left) > 0 {
						j := c.Choose(len(left))
						i := left[j]
						left = append(append([]int(nil), left[:j]...), left[j+1:]...)
						kind := 1 + c.Choose(3)
						pattern += fmt.Sprintf("%d%c ", i, "-IOP"[kind])
						r, text := w.lookupObj(i, kind, table[i])
						if table[i] < last[kind] {
							back = true
						}
						last[kind] = table[i]
						if split {
							recs = append(recs, Split{})
						}
						recs = append(recs, r)
						w.countObj(r)
						w.local(table[i], text)
					}
					c.State(fmt.Sprint("ids ", ids, " ", name, " ", pattern, split))
					d := w.Dump()
					d.Recs = append(append(d.Recs, Split{}), recs...)
					s := c.Sys()
					s.Put("x.hprof", d.Bytes())
					for _, k := range []Cmd{{Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "objects", File: "x.hprof"}, {Sub: "summary", File: "x.hprof"}} {
						r := s.Do(k)
						if back {
							if err := r.rejected(); err != nil {
								c.Fail("ids go backwards: %v", err)
							}
						} else if err := w.expect(k, r); err != nil {
							c.Fail("%v", err)
						}
					}
				}},
				{Name: "batches", Workers: 4, Fn: func(c *Ctx) { batches(c) }},
				{Name: "spread", Workers: 4, Fn: func(c *Ctx) { spread(c) }},
				{Name: "far", Workers: 4, Fn: func(c *Ctx) { far(c) }},
			}...)
		}})
}

// batches has numbers of objects around the size of a batch of the index.
func batches(c *Ctx) {
	const B = 1_000_000
	kind := 1 + c.Choose(3)
	ids := 8
	if c.Thorough {
		ids = Pick(c, idSizes)
	}
	ns := []int{B - 1, B, B + 1, B + 2, B + 3, 2*B + 1, 2*B + 2, 2*B + 3, 2*B + 4}
	if c.Thorough {
		ns = append(ns, 3*B+3, 3*B+4, 1<<20-1, 1<<20, 1<<20+1, 1<<21+1)
	}
	// the objects of the JVM itself come first in the index
	core := 0
	for _, o := range lookupWorld(ids, 0).objs {
		switch o.(type) {
		case Inst:
			core += bit(kind == kInst)
		case OArr:
			core += bit(kind == kOArr)
		case PArr:
			core += bit(kind == kPArr)
		}
	}
	total := Pick(c, ns)
	n := total - core
	// objects are numbered 1..n; object k has the id extraID+16k
	marks := []int{1, 2}
	for _, k := range []int{B - 1, B, B + 1, B + 2, B + 3, 2*B - 1, 2 * B, 2*B + 1, 2*B + 2, 2*B + 3, 2*B + 4, 3*B + 3, total/2 + 1, 1 << 19, 1 << 20, total - 1, total} {
		if k -= core; k <= n && !containsInt(marks, k) {
			marks = append(marks, k)
		}
	}
	sort.Ints(marks)
	id := func(k int) uint64 { return extraID + 16*uint64(k) }
	mode := c.Choose(3) // 0: in order; 1: one id goes back; 2: an absent one is looked up
	low, at := 0, 0
	switch mode {
	case 1:
		at = Pick(c, marks)
		if at == 1 {
			c.Skip()
		}
		low = c.Choose(2)
	case 2:
		at = Pick(c, marks)
		low = c.Choose(2)
	}
	if mode == 0 || c.Thorough || total == B+3 || total == 2*B+4 {
		c.State(fmt.Sprint("ids ", ids, " kind ", kind, " ", total, " objects, mode ", mode, " ", at+core, " ", low))
	} else {
		c.Skip()
	}
	w := lookupWorld(ids, 0)
	single := func(k int, id uint64) (Rec, string) {
		name := fmt.Sprintf("M%d", k)
		switch kind {
		case kInst:
			return Inst{ID: id, Class: w.cls["app/"+name].ID}, "app." + name
		case kOArr:
			return OArr{ID: id, Class: w.cls["[Lapp/"+name+";"].ID}, "app." + name + "[]"
		}
		t := []byte{tByte, tShort, tLong}[k%3]
		return PArr{ID: id, T: t}, primNames[t] + "[]"
	}
	many := Many{Step: 16, Kind: map[int]byte{kInst: 0x21, kOArr: 0x22, kPArr: 0x23}[kind], T: tBool}
	switch kind {
	case kInst:
		many.Class = w.C("app/Empty").ID
	case kOArr:
		many.Class = w.arrayOf("[Ljava/lang/Object;").ID
	}
	for _, k := range marks {
		w.Class(fmt.Sprintf("app/M%d", k), w.C("java/lang/Object"))
		w.arrayOf(fmt.Sprintf("[Lapp/M%d;", k))
	}
	var recs []Rec
	next := 1
	var texts []string
	fill := func(to int) {
		if to > next {
			m := many
			m.First, m.N = id(next), to-next
			recs = append(recs, m)
		}
	}
	for _, k := range marks {
		fill(k)
		x := id(k)
		if mode == 1 && k == at {
			x = []uint64{extraID + 3, id(k-1) - 8}[low]
		}
		r, text := single(k, x)
		texts = append(texts, text)
		recs = append(recs, r)
		w.countObj(r)
		if mode != 2 {
			w.local(x, text)
		}
		next = k + 1
	}
	fill(n + 1)
	k := Cmd{Sub: "threads", File: "x.hprof", Locals: true}
	if mode == 2 {
		w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: id(at) - 8 + 16*uint64(low), A: w.Threads[0].Serial, B: 0})
	}
	s := c.RealSys()
	if _, err := w.Tail(recs...).WriteTo(s.Path("x.hprof")); err != nil {
		panic(err)
	}
	if mode == 1 {
		k = Cmd{Sub: "objects", File: "x.hprof"} // looks nothing up
	}
	r := s.Do(k)
	switch mode {
	case 0:
		if err := w.expect(k, r); err != nil {
			c.Fail("%v", err)
		}
		k = Cmd{Sub: "objects", File: "x.hprof"}
		if err := w.expect(k, s.Do(k)); err != nil {
			c.Fail("%v", err)
		}
	case 1:
		if err := r.rejected(); err != nil {
			c.Fail("object %d of %d has an id smaller than the one before: %v", at, n, err)
		}
	case 2:
		if err := notFound(r, append(texts, "java.lang.Object", "app.Empty", "boolean[]")); err != nil {
			c.Fail("absent id next to object %d: %v", at, err)
		}
	}
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func containsInt(xs []int, x int) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// spreadRuns are series of objects whose distances and numbers differ; the ids of a run end before those of the next.
func spreadRuns(c *Ctx) (runs []Many, what string) {
	total := []int{300, 5_000, 40_000}
	if c.Thorough {
		total = append(total, 300_000)
	}
	n := Pick(c, total)
	shape := c.Choose(9)
	shift := c.Choose(7)
	gap := uint64(1) << (8 + 4*shift) // 2^8 to 2^32
	what = fmt.Sprint(n, " objects in shape ", shape, " at ", gap)
	add := func(first, step uint64, n int) {
		runs = append(runs, Many{First: first, Step: step, N: n})
	}
	end := func() uint64 {
		if len(runs) == 0 {
			return extraID
		}
		m := runs[len(runs)-1]
		return m.First + m.Step*uint64(m.N)
	}
	switch shape {
	case 0: // many, a gap, few
		add(end(), 8, n)
		add(end()+gap, 8, 5)
	case 1: // few, a gap, many
		add(end(), 8, 5)
		add(end()+gap, 8, n)
	case 2: // near, then far
		add(end(), 8, n/2)
		add(end()+8, gap, n/2)
	case 3: // far, then near
		add(end(), gap, n/2)
		add(end()+8, 8, n/2)
	case 4: // ever farther
		for i := 0; i < 8; i++ {
			add(end()+8, 8<<(uint(i)*uint(shift+1)/2), n/8)
		}
	case 5: // ever nearer
		for i := 7; i >= 0; i-- {
			add(end()+8, 8<<(uint(i)*uint(shift+1)/2), n/8)
		}
	case 6: // regions
		for i := 0; i < 16; i++ {
			add(end()+gap, 16, n/16)
		}
	case 7: // one far away on either side
		add(end(), 1, 1)
		add(uint64(1)<<(34+2*shift), 8, n)
		add(uint64(1)<<62, 1, 1)
	case 8: // ever fewer
		for i := n / 2; i > 0; i /= 2 {
			add(end()+gap, 24, i)
		}
	}
	return
}

// spread has objects whose ids are spread unevenly.
func spread(c *Ctx) {
	kind := 1 + c.Choose(3)
	runs, what := spreadRuns(c)
	c.State(fmt.Sprint("kind ", kind, " ", what))
	w := lookupWorld(8, 0)
	many := Many{Kind: map[int]byte{kInst: 0x21, kOArr: 0x22, kPArr: 0x23}[kind], T: tBool}
	switch kind {
	case kInst:
		many.Class = w.C("app/Empty").ID
	case kOArr:
		many.Class = w.arrayOf("[Ljava/lang/Object;").ID
	}
	var recs []Rec
	marks := 0
	for ri, m := range runs {
		at := []int{0, 1, m.N / 3, m.N / 2, m.N - m.N/7, m.N - 2, m.N - 1}
		sort.Ints(at)
		next := 0
		fill := func(to int) {
			if to > next {
				x := many
				x.First, x.Step, x.N = m.First+m.Step*uint64(next), m.Step, to-next
				recs = append(recs, x)
			}
			next = to
		}
		for _, i := range at {
			if i < next || i >= m.N {
				continue
			}
			fill(i)
			id := m.First + m.Step*uint64(i)
			name := fmt.Sprintf("R%d_%d", ri, i)
			var r Rec
			var text string
			switch kind {
			case kInst:
				r, text = Inst{ID: id, Class: w.Class("app/"+name, w.C("java/lang/Object")).ID}, "app."+name
			case kOArr:
				w.Class("app/"+name, w.C("java/lang/Object"))
				r, text = OArr{ID: id, Class: w.arrayOf("[Lapp/" + name + ";").ID}, "app."+name+"[]"
			default:
				t := javaTypes[1+marks%8]
				r, text = PArr{ID: id, T: t}, primNames[t]+"[]"
			}
			recs = append(recs, r)
			w.countObj(r)
			w.local(id, text)
			marks++
			next = i + 1
		}
		fill(m.N)
	}
	s := c.RealSys()
	if _, err := w.Tail(recs...).WriteTo(s.Path("x.hprof")); err != nil {
		panic(err)
	}
	for _, k := range []Cmd{{Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "objects", File: "x.hprof"}} {
		if err := w.expect(k, s.Do(k)); err != nil {
			c.Fail("%v", err)
		}
	}
}

// far has objects behind very large ones.
func far(c *Ctx) {
	ids := Pick(c, idSizes)
	type size struct {
		name string
		recs func(w *World) []Rec
	}
	prim := func(t byte, n ...uint32) func(w *World) []Rec {
		return func(w *World) (r []Rec) {
			for i, n := range n {
				r = append(r, PHole{uint64(i + 1), t, n})
			}
			return
		}
	}
	refs := func(n ...uint32) func(w *World) []Rec {
		return func(w *World) (r []Rec) {
			for i, n := range n {
				r = append(r, OHole{uint64(i + 1), w.arrayOf("[Ljava/lang/Object;").ID, n})
			}
			return
		}
	}
	insts := func(n ...uint32) func(w *World) []Rec {
		return func(w *World) (r []Rec) {
			for i, n := range n {
				r = append(r, IHole{uint64(i + 1), w.C("app/Empty").ID, n})
			}
			return
		}
	}
	sizes := []size{
		{"byte[2^31-1]", prim(tByte, 1<<31-1)},
		{"byte[2^31]", prim(tByte, 1<<31)},
		{"boolean[2^32-1]", prim(tBool, 1<<32-1)},
		{"char[2^30]", prim(tChar, 1<<30)},
		{"short[2^31-1]", prim(tShort, 1<<31-1)},
		{"int[2^29]", prim(tInt, 1<<29)},
		{"int[2^30]", prim(tInt, 1<<30)},
		{"float[2^30+1]", prim(tFloat, 1<<30+1)},
		{"long[2^28]", prim(tLong, 1<<28)},
		{"long[2^29]", prim(tLong, 1<<29)},
		{"double[2^29+1]", prim(tDouble, 1<<29+1)},
		{"double[2^31-1]", prim(tDouble, 1<<31-1)},
		{"Object[2^28]", refs(1 << 28)},
		{"Object[2^29]", refs(1 << 29)},
		{"Object[2^30]", refs(1 << 30)},
		{"Object[2^31-1]", refs(1<<31 - 1)},
		{"instance 2^31-1", insts(1<<31 - 1)},
		{"3 instances", insts(1<<31-1, 1<<31-1, 1<<31-1)},
		{"two byte[2^31-1]", prim(tByte, 1<<31-1, 1<<31-1)},
		{"many long", prim(tLong, 1<<28, 1<<28, 1<<28, 1<<28, 1<<28, 1<<28)},
	}
	// the next object starts at about 2^31 or 2^32 of the file
	for _, at := range []uint32{1 << 31, 1<<32 - 1} {
		for _, d := range []uint32{6000, 3000, 300, 31, 9, 1, 0} {
			sizes = append(sizes, size{fmt.Sprintf("byte[%d-%d]", at, d), prim(tByte, at-d)})
		}
	}
	sz := Pick(c, sizes)
	split := c.Bool()
	c.State(fmt.Sprint("ids ", ids, " ", sz.name, " ", split))
	w := lookupWorld(ids, 4)
	w.nextID = extraID
	for i, k := range []int{kInst, kOArr, kPArr, kInst} {
		r, text := w.lookupObj(i, k, w.id())
		w.objs = append(w.objs, r)
		w.countObj(r)
		w.local(w.nextID, text)
	}
	holes := sz.recs(w)
	for i, h := range holes {
		switch h.(type) {
		case PHole:
			w.local(uint64(i+1), primNames[h.(PHole).T]+"[]")
		case OHole:
			w.local(uint64(i+1), "java.lang.Object[]")
		case IHole:
			w.local(uint64(i+1), "app.Empty")
		}
	}
	w.Tail(holes...) // counts
	d := w.Dump()
	var recs []Rec
	done := false
	for _, r := range d.Recs {
		switch r.(type) {
		case Inst, OArr, PArr:
			if !done {
				done = true
				recs = append(append(recs, Split{}), holes...)
				if split {
					recs = append(recs, Split{})
				}
			}
		}
		recs = append(recs, r)
	}
	d.Recs = recs
	s := c.RealSys()
	if _, err := d.WriteTo(s.Path("x.hprof")); err != nil {
		panic(err)
	}
	for _, k := range []Cmd{{Sub: "threads", File: "x.hprof", Locals: true}, {Sub: "summary", File: "x.hprof", AllProps: true}, {Sub: "objects", File: "x.hprof"}} {
		if err := w.expect(k, s.Do(k)); err != nil {
			c.Fail("%v", err)
		}
	}
}
