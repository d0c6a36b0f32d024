package main

import (
	"fmt"
	"strings"
)

// C12, C13, C14: the objects report and the heap section of the summary.

var objectsBoth = []Cmd{{Sub: "objects"}, {Sub: "objects", Size: true}}

type rowKind struct {
	name string
	add  func(w *World, n, elems int)
}

func classRow(name string, size uint32) rowKind {
	return rowKind{fmt.Sprintf("%s(%d)", name, size), func(w *World, n, _ int) {
		c := w.Class(name, w.C("java/lang/Object"))
		c.rec.InstSize = size
		for i := 0; i < n; i++ {
			w.New(c, nil)
		}
	}}
}

func arrayRow(name string) rowKind {
	return rowKind{name, func(w *World, n, elems int) {
		c := w.Class(name, w.C("java/lang/Object"))
		for i := 0; i < n; i++ {
			// the elements are spread unevenly
			k := elems
			if i == 0 {
				k = elems + 1
			}
			w.Array(c, make([]uint64, k))
		}
	}}
}

func primRow(t byte) rowKind {
	return rowKind{typeName(t) + "[]", func(w *World, n, elems int) {
		for i := 0; i < n; i++ {
			k := elems
			if i == 0 {
				k = elems + 1
			}
			w.Prim(t, make([]byte, k*typeSize(t, w.IDSize)))
		}
	}}
}

// addClass adds a class with instances; classes of the same name come from different class loaders.
func addClass(w *World, name string, count int, size uint32) *Cls {
	x := w.Load(name)
	x.rec = &Class{ID: x.ID, InstSize: size}
	w.classes = append(w.classes, x.rec)
	for i := 0; i < count; i++ {
		w.New(x, nil)
	}
	return x
}

func (c *Ctx) objectsOf(w *World) *Sys {
	return c.verify(w, forms(objectsBoth[0], objectsBoth[1])...)
}

func coreWorld(ids int) *World { return newWorld(ids, stdTS).Core() }

func init() {
	register(&Property{ID: "C12", Level: "model_checking", Rule: "one state per (rows with their counts and sizes, identifier size)",
		Assume: []string{"the size of an instance is the one its class record states, below 2^31"},
		Spaces: func(thorough bool) []Space {
			kinds := []rowKind{classRow("A", 0), classRow("p/B", 1), classRow("p/q/C", 16), classRow("D$1", 24), classRow("E", 1<<31-1),
				arrayRow("[Ljava/lang/Object;"), arrayRow("[[I"), arrayRow("[[[Lp/q/C;")}
			for _, t := range javaTypes[1:] {
				kinds = append(kinds, primRow(t))
			}
			n := 2
			if thorough {
				n = 3
			}
			rows := Space{Name: "rows", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := coreWorld(ids)
				what := ""
				from := 0
				for i := 0; i < n; i++ {
					k := from + c.Choose(len(kinds)+1-from)
					if k == len(kinds) {
						break
					}
					cnt := Pick(c, []int{1, 2, 5})
					elems := 0
					if k >= 5 {
						elems = Pick(c, []int{0, 1, 3})
					}
					kinds[k].add(w, cnt, elems)
					what += fmt.Sprintf(" %s x%d+%d", kinds[k].name, cnt, elems)
					from = k
					if k < 5 {
						from++
					}
				}
				c.State(fmt.Sprint("ids ", ids, what))
				c.objectsOf(w)
			}}
			percents := Space{Name: "percent", Fn: func(c *Ctx) {
				lim := 48
				if thorough {
					lim = 130
				}
				a, b := 1+c.Choose(lim), c.Choose(lim)
				c.State(fmt.Sprint("counts ", a, " ", b))
				w := newWorld(8, stdTS)
				x, y := w.Class("A", nil), w.Class("B", nil)
				x.rec.InstSize, y.rec.InstSize = 16, 24
				for i := 0; i < a; i++ {
					w.New(x, nil)
				}
				for i := 0; i < b; i++ {
					w.New(y, nil)
				}
				c.objectsOf(w)
			}}
			bounds := []uint32{0, 1, 2, 3, 7, 99, 100, 101, 199, 333, 1000, 1023, 1024, 1025, 2047, 2048, 65535, 1<<20 - 1, 1 << 20, 1<<20 + 1, 10<<20 - 1, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 1}
			sizes := Space{Name: "sizes", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids, a, b := Pick(c, idSizes), Pick(c, bounds), Pick(c, bounds)
				na, nb := Pick(c, []int{1, 3}), Pick(c, []int{0, 1, 2})
				c.State(fmt.Sprint("ids ", ids, " sizes ", a, " x", na, " ", b, " x", nb))
				w := newWorld(ids, stdTS)
				x, y := w.Class("A", nil), w.Class("B", nil)
				x.rec.InstSize, y.rec.InstSize = a, b
				for i := 0; i < na; i++ {
					w.New(x, nil)
				}
				for i := 0; i < nb; i++ {
					w.New(y, nil)
				}
				c.objectsOf(w)
			}}
			lens := []int{0, 1, 2, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536}
			if thorough {
				lens = append(lens, ints(1018, 1030)...)
				lens = append(lens, 131071, 131072, 131073, 262144, 524287, 524288, 1<<20-1, 1<<20, 1<<20+1)
			}
			arrays := Space{Name: "array-lengths", Real: true, RealEvery: 50, Fn: func(c *Ctx) {
				ids, t, n, m := Pick(c, idSizes), Pick(c, javaTypes), Pick(c, lens), Pick(c, []int{0, 1})
				c.State(fmt.Sprint("ids ", ids, " type ", t, " length ", n, " more ", m))
				w := coreWorld(ids)
				for i := 0; i <= m; i++ {
					if t == tObj {
						w.Array(w.arrayOf("[Ljava/lang/Object;"), make([]uint64, n+i))
					} else {
						w.Prim(t, make([]byte, (n+i)*typeSize(t, ids)))
					}
				}
				w.New(w.C("java/lang/Object"), nil)
				c.objectsOf(w)
			}}
			elemNames := []string{"Z", "C", "F", "D", "B", "S", "I", "J", "Ljava/lang/String;", "LL;", "LZ;", "LV;", "La/b/C$D;", "LБ;", "La-b/c d;", "La/package-info;", "LC(1);", "Lx/I;"}
			names := Space{Name: "array-names", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				ids, e, dims := Pick(c, idSizes), Pick(c, elemNames), 1+c.Choose(6)
				if len(e) == 1 {
					dims++
				}
				other := Pick(c, elemNames)
				c.State(fmt.Sprint("ids ", ids, " ", e, " dims ", dims, " with ", other))
				w := coreWorld(ids)
				w.Array(w.arrayOf(strings.Repeat("[", dims)+e), make([]uint64, 3))
				w.Array(w.arrayOf("[["+other), nil)
				w.Array(w.arrayOf(strings.Repeat("[", dims+1)+e), make([]uint64, 1))
				c.objectsOf(w)
			}}
			many := []int{0, 1, 255, 256, 257, 65535, 65536, 100000}
			counts := Space{Name: "counts", Real: true, RealEvery: 10, Workers: 4, Fn: func(c *Ctx) {
				ids, n, kind := Pick(c, idSizes), Pick(c, many), c.Choose(8)
				c.State(fmt.Sprint("ids ", ids, " kind ", kind, " number ", n))
				w := newWorld(ids, stdTS)
				x := w.Class("A", nil)
				x.rec.InstSize = 17
				w.New(x, nil)
				switch kind {
				case 0:
					for i := 0; i < n; i++ {
						w.New(x, nil)
					}
				case 1:
					a := w.Class("[LA;", nil)
					for i := 0; i < n; i++ {
						w.Array(a, make([]uint64, i%3))
					}
				case 2:
					for i := 0; i < n; i++ {
						w.Prim(tInt, make([]byte, 4*(i%3)))
					}
				case 4, 5: // arrays of the same length
					a := w.Class("[LA;", nil)
					for i := 0; i < n; i++ {
						w.Array(a, make([]uint64, kind-4))
					}
				case 6, 7:
					for i := 0; i < n; i++ {
						w.Prim(tByte, make([]byte, kind-6))
					}
				case 3: // many classes
					for i := 0; i < n; i += 20 {
						y := w.Class(fmt.Sprint("c/C", i), nil)
						y.rec.InstSize = uint32(i)
						w.New(y, nil)
					}
				}
				c.objectsOf(w)
			}}
			// classes of one name, from several class loaders
			same := Space{Name: "same-name", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := coreWorld(ids)
				what := ""
				for i := 0; i < 3; i++ {
					k := c.Choose(6)
					name := []string{"p/A", "p/A", "[Lp/A;", "[Lp/A;", "p/B", "int"}[k]
					cnt := 1 + c.Choose(3)
					if k == 2 || k == 3 {
						x := addClass(w, name, 0, 0)
						for j := 0; j < cnt; j++ {
							w.Array(x, make([]uint64, j*(k-1)))
						}
					} else {
						addClass(w, name, cnt, []uint32{16, 24, 0, 0, 16, 4}[k])
					}
					what += fmt.Sprint(" ", k, "x", cnt)
				}
				w.Prim(tInt, make([]byte, 4))
				c.State(fmt.Sprint("ids ", ids, what))
				c.objectsOf(w)
			}}
			// arrays larger than memory, in sparse files
			large := Space{Name: "large-arrays", Workers: 4, Fn: func(c *Ctx) {
				t, n := Pick(c, javaTypes), Pick(c, []uint32{1<<31 - 1, 1<<31 + 1, 1<<32 - 1})
				ids, m := 8, 1
				if thorough {
					ids, m = Pick(c, idSizes), 1+c.Choose(2)
				} else if n == 1<<31-1 && typeSize(t, 8) > 1 {
					c.Skip()
				}
				c.State(fmt.Sprint("ids ", ids, " type ", t, " length ", n, " number ", m))
				w := memWorld(ids)
				var recs []Rec
				for i := 0; i < m; i++ {
					id := uint64(extraID + 8*i)
					if t == tObj {
						recs = append(recs, OHole{id, w.arrayOf("[Ljava/lang/Object;").ID, n}, Split{})
					} else {
						recs = append(recs, PHole{id, t, n}, Split{})
					}
				}
				s := c.RealSys()
				if _, err := w.Tail(recs...).WriteTo(s.Path("x.hprof")); err != nil {
					panic(err)
				}
				for _, k := range append(forms(objectsBoth[0], objectsBoth[1]), Cmd{Sub: "summary"}) {
					k.File = "x.hprof"
					c.must(w, s, k, "")
				}
			}}
			return []Space{rows, percents, sizes, arrays, names, counts, same, large, distances(thorough, []int{1, 4, 5}, true, Cmd{Sub: "objects", File: "x.hprof"}),
				jvmClassNames(Cmd{Sub: "objects"}, Cmd{Sub: "objects", Size: true}, Cmd{Sub: "objects", Html: true})}
		}})

	register(&Property{ID: "C13", Level: "model_checking", Rule: "one state per (rows with names, counts and sizes)",
		Spaces: func(thorough bool) []Space {
			names := []string{"B", "a", "a/b", "a/B", "a$b", "ab", "é", "a-b"}
			twice := func(c *Ctx, w *World) {
				s := c.objectsOf(w)
				for _, k := range objectsBoth {
					k.File = "x.hprof"
					k.Html = len(c.key)%3 == 0
					first := s.Do(k)
					for i := 0; i < 2; i++ {
						if again := s.Do(k); again.Out != first.Out {
							c.Fail("%s printed differently the second time: %q and %q", k, head(first.Out, 800), head(again.Out, 800))
						}
					}
				}
			}
			add := func(w *World, name string, count int, size uint32) { addClass(w, name, count, size) }
			type cs struct {
				n int
				s uint32
			}
			shapes := []cs{{1, 8}, {2, 8}, {1, 16}, {2, 4}}
			n := 3
			pool := names
			if thorough {
				n, pool = 4, names[:5]
			}
			ties := Space{Name: "ties", Real: true, RealEvery: 2000, Attempts: 20, Fn: func(c *Ctx) {
				what := ""
				w := newWorld(8, stdTS)
				for i := 0; i < n; i++ {
					name, sh := Pick(c, pool), Pick(c, shapes)
					add(w, name, sh.n, sh.s)
					what += fmt.Sprintf(" %s %dx%d", name, sh.n, sh.s)
				}
				c.State(what)
				twice(c, w)
			}}
			// sizes that differ by little or are printed alike
			near := Space{Name: "near", Real: true, RealEvery: 500, Attempts: 20, Fn: func(c *Ctx) {
				sizes := []uint32{0, 1, 2, 3, 1000, 1022, 1023, 1024, 1025, 1500, 2047, 2048, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 19, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 2, 1<<31 - 1}
				a, b := c.Choose(len(sizes)), c.Choose(len(sizes))
				na, nb := Pick(c, []int{1, 2, 3}), Pick(c, []int{1, 2, 3})
				big := c.Choose(2)
				c.State(fmt.Sprintf("%dx%d %dx%d other %d", na, sizes[a], nb, sizes[b], big))
				w := newWorld(8, stdTS)
				add(w, "A", na, sizes[a])
				add(w, "B", nb, sizes[b])
				if big == 1 { // makes their percentages zero
					add(w, "C", 400, 1<<31-1)
				}
				twice(c, w)
			}}
			mixed := Space{Name: "mixed", Real: true, RealEvery: 500, Attempts: 20, Fn: func(c *Ctx) {
				// classes, arrays of objects and of primitives in one table
				w := newWorld(8, stdTS)
				what := ""
				for i, t := range []byte{tByte, tInt, tLong} {
					k := c.Choose(3)
					for j := 0; j < k; j++ {
						w.Prim(t, make([]byte, 8))
					}
					what += fmt.Sprint(" prim", i, "x", k)
				}
				for i, nm := range []string{"[Lint;", "[Ljava/lang/String;", "[[I"} {
					k := c.Choose(3)
					x := w.Class(nm, nil)
					for j := 0; j < k; j++ {
						w.Array(x, []uint64{0})
					}
					what += fmt.Sprint(" arr", i, "x", k)
				}
				for i, nm := range []string{"int", "a"} {
					k := c.Choose(3)
					add(w, nm, k, 8)
					what += fmt.Sprint(" class", i, "x", k)
				}
				c.State(what)
				twice(c, w)
			}}
			rowsN := append(ints(0, 30), 49, 50, 51, 100, 300)
			many := Space{Name: "many", Real: true, RealEvery: 100, Attempts: 20, Fn: func(c *Ctx) {
				n, m, k := Pick(c, rowsN), 1+c.Choose(4), 1+c.Choose(4)
				order := c.Choose(4)
				c.State(fmt.Sprint(n, " rows, counts mod ", m, " sizes mod ", k, " order ", order))
				w := newWorld(4, stdTS)
				for i := 0; i < n; i++ {
					j := i
					switch order {
					case 1:
						j = n - i
					case 2:
						j = i * 7 % (n + 1)
					case 3:
						j = i / 2 // names repeat
					}
					add(w, fmt.Sprintf("c/N%d", j), 1+i%m, uint32(8*(1+i%k)))
				}
				twice(c, w)
			}}
			return []Space{near, ties, mixed, many}
		}})

	register(&Property{ID: "C14", Level: "model_checking", Rule: "one state per (numbers of roots of each kind, loaded classes, objects, identifier size)",
		Spaces: func(thorough bool) []Space {
			check := func(c *Ctx, w *World) {
				s := c.verify(w, append(forms(Cmd{Sub: "summary"}, Cmd{Sub: "summary", AllProps: true}), Cmd{Sub: "objects"})...)
				// the agreement of the two reports, whatever the model says
				a := s.Do(Cmd{Sub: "summary", File: "x.hprof"})
				b := s.Do(Cmd{Sub: "objects", File: "x.hprof"})
				get := func(out, key string) string {
					for _, l := range strings.Split(out, "\n") {
						if v, ok := strings.CutPrefix(l, key); ok {
							return strings.TrimSpace(strings.TrimPrefix(v, ":"))
						}
					}
					return "?"
				}
				if x, y := get(a.Out, "Instances"), get(b.Out, "Instances"); x != y || x == "?" {
					c.Fail("the summary counts %s objects, the objects report %s", x, y)
				}
				if x, y := get(a.Out, "Heap Size"), get(b.Out, "Total Size"); x != y || x == "?" {
					c.Fail("the summary's heap size is %s, the objects report's %s", x, y)
				}
			}
			most := 2
			roots := Space{Name: "roots", Real: true, RealEvery: 2000, Fn: func(c *Ctx) {
				w := standard(8, stdTS)
				what := ""
				o := w.C("Main").ID
				kinds := rootTypes
				for _, k := range kinds {
					n := c.Choose(most)
					if thorough {
						n = Pick(c, []int{0, 1, 3})
					}
					what += fmt.Sprintf(" %#x:%d", k, n)
					for i := 0; i < n; i++ {
						obj := o
						if k == rootThreadObj {
							obj = w.Threads[0].Obj
						}
						w.roots = append(w.roots, Root{Type: k, Obj: obj, A: 1, B: uint32(i), Ref: 1})
					}
				}
				c.State(what)
				check(c, w)
			}}
			classes := Space{Name: "classes", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				ids, n := Pick(c, idSizes), Pick(c, append(ints(0, 20), 255, 256, 1000, 20000))
				dup := c.Choose(4)
				c.State(fmt.Sprint("ids ", ids, " more classes ", n, " loaded again ", dup))
				w := standard(ids, stdTS)
				for i := 0; i < n; i++ {
					w.Load(fmt.Sprint("x/L", i/2)) // also classes of the same name
				}
				for i := 0; i < dup; i++ {
					x := w.C("Main")
					w.loads = append(w.loads, Load{w.nextSerial, x.ID, 0, w.Str("Main")})
					w.nextSerial++
				}
				check(c, w)
			}}
			objs := Space{Name: "objects", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := standard(ids, stdTS)
				what := ""
				for _, t := range javaTypes {
					n := c.Choose(2)
					if n == 0 {
						continue
					}
					elems := 7
					what += " " + typeName(t)
					if t == tObj {
						w.Array(w.arrayOf("[LMain;"), make([]uint64, elems))
					} else {
						w.Prim(t, make([]byte, elems*typeSize(t, ids)))
					}
				}
				size := Pick(c, []uint32{0, 9, 1 << 20, 1<<31 - 1})
				n := c.Choose(3)
				x := w.Class("Big", w.C("java/lang/Object"))
				x.rec.InstSize = size
				for i := 0; i < n; i++ {
					w.New(x, nil)
				}
				c.State(fmt.Sprint("ids ", ids, what, " instances ", n, " of ", size))
				check(c, w)
			}}
			serials := serialPairs(true, func(c *Ctx, ids int, a, b uint32) {
				w := newWorld(ids, stdTS)
				w.nextSerial = 1 << 20 * 5
				w.Core()
				w.summaryClasses()
				for i, s := range []uint32{a, b} {
					w.nextSerial = s
					w.Class(fmt.Sprint("app/K", i), w.C("java/lang/Object"))
					w.New(w.C(fmt.Sprint("app/K", i)), nil)
				}
				w.nextSerial = 1 << 20 * 6
				w.SummaryWorld(envProps, 1700000000000, plainSlots(len(envProps)), nil)
				check(c, w)
			})
			return []Space{roots, classes, objs, serials}
		}})
}
