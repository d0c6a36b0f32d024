package main

import (
	"fmt"
	"strings"
)

// C17: threads, C18: stack traces, C19: local variables.

// permutation chooses one of the orders of n things.
func (c *Ctx) permutation(n int) []int {
	left := ints(0, n-1)
	var r []int
	for len(left) > 0 {
		k := c.Choose(len(left))
		r = append(r, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return r
}

// threadsOf checks the threads report in all forms.
func (c *Ctx) threadsOf(w *World) *Sys {
	return c.verify(w, forms(Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "threads"})...)
}

// serialPairs are the pairs of serial numbers around the powers of two and of ten.
func serialPairs(zero bool, f func(c *Ctx, ids int, a, b uint32)) Space {
	es := edges(1<<32 - 1)
	if zero {
		es = append([]uint64{0}, es...)
	}
	return Space{Name: "serials", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
		a, b := c.Choose(len(es)), c.Choose(len(es))
		if a == b {
			c.Skip()
		}
		ids := idSizes[(a+b)%2]
		c.State(fmt.Sprint("ids ", ids, " serials ", es[a], " ", es[b]))
		f(c, ids, uint32(es[a]), uint32(es[b]))
	}}
}

// threadPair is a JVM with threads of the given serial numbers.
func threadPair(ids int, a, b uint32, trace func(i int, serial uint32) uint32) *World {
	w := coreWorld(ids)
	for i, s := range []uint32{a, b} {
		k := w.Class(fmt.Sprint("app/K", i), w.C("java/lang/Object"))
		var fs []*FrameSpec
		for j := 0; j < 2+i; j++ {
			fs = append(fs, &FrameSpec{Class: k, Method: fmt.Sprint("m", i, j), Desc: "()V", File: fmt.Sprint("F", i), Line: int32(1 + i*10 + j)})
		}
		x := w.New(k, nil)
		w.AddThread(&Thread{Name: fmt.Sprint("thread ", i), Coder: -1, TID: int64(2 - i), Prio: int32(3 + i), Daemon: i == 1, Status: stateNames[1+i].Status, Serial: s, Trace: trace(i, s), Frames: fs,
			Locals: []LocalSpec{{i, rootJavaFrame, x, "app.K" + fmt.Sprint(i)}, {1 - i, rootJniLocal, w.Prim(javaTypes[5+i], nil), typeName(javaTypes[5+i]) + "[]"}}})
	}
	return w
}

func init() {
	register(&Property{ID: "C17", Level: "model_checking", Rule: "one state per (threads, their classes and attributes, order of the records, identifier size)",
		Assume: []string{"JDK 9 to 18 layout of java.lang.Thread", "distinct thread ids", "every thread root has a trace record"},
		Spaces: func(thorough bool) []Space {
			tids := []int64{1, 2, 10, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1}
			attrs := Space{Name: "attributes", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids, st, d := Pick(c, idSizes), c.Choose(len(stateNames)), c.Bool()
				prio, tid := Pick(c, []int32{1, 2, 5, 9, 10}), Pick(c, tids)
				other := c.Choose(len(stateNames))
				c.State(fmt.Sprint("ids ", ids, " status ", stateNames[st].Status, " daemon ", d, " priority ", prio, " id ", tid, " other status ", stateNames[other].Status))
				w := coreWorld(ids)
				w.AddThread(&Thread{Name: "subject", Coder: -1, TID: tid, Prio: prio, Daemon: d, Status: stateNames[st].Status})
				w.AddThread(&Thread{Name: "other", Coder: -1, TID: 77, Prio: 4, Daemon: !d, Status: stateNames[other].Status})
				c.threadsOf(w)
			}}
			shadowNames := []string{"name", "tid", "priority", "daemon", "threadStatus", "own"}
			depth := 2
			if thorough {
				depth = 3
			}
			subclasses := Space{Name: "subclasses", Real: true, RealEvery: 1000, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := coreWorld(ids)
				super := w.C("java/lang/Thread")
				extra := map[string]uint64{}
				what := ""
				n := c.Choose(depth + 1)
				decoy := w.JString("decoy")
				for i := 0; i < n; i++ {
					var fs []F
					max := 1
					if n == 1 {
						max = 2
					}
					for len(fs) < max && !c.Bool() {
						f := F{Pick(c, shadowNames), Pick(c, javaTypes)}
						fs = append(fs, f)
						what += fmt.Sprintf(" %d:%s %s", i, typeName(f.T), f.Name)
					}
					if len(fs) == 2 && fs[0].Name == fs[1].Name {
						c.Skip()
					}
					super = w.Class(fmt.Sprintf("app/Thread%d", i), super, fs...)
					for _, f := range fs {
						v := uint64(0x0101010101010101)
						if f.T == tObj {
							v = decoy
						}
						extra[super.Name+":"+f.Name] = v
					}
				}
				c.State(fmt.Sprint("ids ", ids, " depth ", n, what))
				w.AddThread(&Thread{Name: "real name", Coder: -1, TID: 12, Prio: 3, Daemon: true, Status: 0x191, Cls: super, Extra: extra})
				w.AddThread(&Thread{Name: "plain", Coder: -1, TID: 5, Prio: 6, Status: 5})
				c.threadsOf(w)
			}}
			layout := Space{Name: "layout", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				base := []F{{"tid", tLong}, {"name", tObj}, {"priority", tInt}, {"daemon", tBool}, {"threadStatus", tInt}}
				p := c.permutation(5)
				at, pad := c.Choose(6), Pick(c, javaTypes)
				var fs []F
				for i := 0; i <= 5; i++ {
					if i == at {
						fs = append(fs, F{"pad", pad}, F{"nam", tObj})
					}
					if i < 5 {
						fs = append(fs, base[p[i]])
					}
				}
				c.State(fmt.Sprint("ids ", ids, " order ", p, " padding ", typeName(pad), " at ", at))
				w := newWorld(ids, stdTS).CoreFields(stringFields, fs)
				sub := w.Class("app/T", w.C("java/lang/Thread"), F{"x", pad})
				w.AddThread(&Thread{Name: "a", Coder: -1, TID: 12, Prio: 3, Daemon: true, Status: 0x191, Extra: map[string]uint64{"pad": 0xffffffffffffffff}})
				w.AddThread(&Thread{Name: "b", Coder: -1, TID: 3, Prio: 10, Status: 0x401, Cls: sub, Extra: map[string]uint64{"x": 0x5555555555555555}})
				c.threadsOf(w)
			}}
			n := 3
			if thorough {
				n = 4
			}
			order := Space{Name: "order", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				k := c.Choose(n) + 1
				roots, ranks, traces := c.permutation(k), c.permutation(k), c.permutation(k)
				serials := [][]uint32{{1, 2, 3, 4}, {4, 3, 2, 1}, {200, 7, 0xffffffff, 0x80000000}, {3, 1, 4, 2}}[c.Choose(4)]
				c.State(fmt.Sprint("roots ", roots, " ids ", ranks, " traces ", traces, " serials ", serials[:k]))
				w := coreWorld(4)
				var fs []*FrameSpec
				for i := 0; i < k; i++ {
					fs = append(fs, &FrameSpec{Method: fmt.Sprint("m", i), Desc: "()V", File: "F.java", Line: int32(10 + i)})
				}
				w.traces = append(w.traces, Trace{1, 0, nil})
				for i := 0; i < k; i++ {
					w.AddThread(&Thread{Name: fmt.Sprint("t", i), Coder: -1, TID: int64(9 + ranks[i]), Prio: int32(i + 1), Daemon: i%2 == 0, Status: stateNames[i].Status,
						Serial: serials[i], Trace: uint32(10 + i), Frames: fs[:i+1]})
				}
				rs, ts := append([]Rec(nil), w.roots...), append([]Rec(nil), w.traces...)
				for i := 0; i < k; i++ {
					w.roots[i], w.traces[1+i] = rs[roots[i]], ts[1+traces[i]]
				}
				c.threadsOf(w)
			}}
			many := Space{Name: "many", Real: true, RealEvery: 10, Fn: func(c *Ctx) {
				ids, n, pat := Pick(c, idSizes), Pick(c, append(ints(0, 40), 100, 255, 256, 257, 1000)), c.Choose(4)
				c.State(fmt.Sprint("ids ", ids, " threads ", n, " pattern ", pat))
				w := coreWorld(ids)
				for i := 0; i < n; i++ {
					tid := int64(1 + i)
					switch pat {
					case 1:
						tid = int64(n - i)
					case 2:
						tid = int64(i*7919%100003 + 1)
					case 3:
						tid = int64(i^5)<<33 + 1
					}
					w.AddThread(&Thread{Name: fmt.Sprint("thread-", i%3), Coder: -1, TID: tid, Prio: int32(1 + i%10), Daemon: i%3 == 0, Status: stateNames[i%len(stateNames)].Status})
				}
				c.threadsOf(w)
			}}
			serials := serialPairs(false, func(c *Ctx, ids int, a, b uint32) {
				c.threadsOf(threadPair(ids, a, b, func(i int, s uint32) uint32 { return s }))
			})
			return []Space{attrs, subclasses, layout, order, many, serials, distances(thorough, []int{1, 3, 5}, true, Cmd{Sub: "threads", File: "x.hprof"}),
				threadNames(Cmd{Sub: "threads"}, Cmd{Sub: "threads", Html: true})}
		}})

	register(&Property{ID: "C18", Level: "model_checking", Rule: "one state per (stacks of the threads, attributes of the frames, identifier size)",
		Assume: []string{"the string of the method descriptor is in the dump", "line number 0 is not used"},
		Spaces: func(thorough bool) []Space {
			length := 4
			if thorough {
				length = 5
			}
			stacks := Space{Name: "stacks", Real: true, RealEvery: 2000, Fn: func(c *Ctx) {
				w := coreWorld(8)
				// two frames of one class, one of another class of the same name
				k1, k2 := w.Class("app/K", w.C("java/lang/Object")), w.Load("app/K")
				fs := []*FrameSpec{{Class: k1, Method: "a", Desc: "(IJ)V", File: "K.java", Line: 5}, {Class: k1, Method: "a", Desc: "()Z", File: "K.java", Line: -3},
					{Class: k2, Method: "b", Desc: "([[ILapp/K;)[Lapp/K;", File: "K.java", Line: 7}}
				what := ""
				for t := 0; t < 2; t++ {
					var st []*FrameSpec
					for len(st) < length {
						k := c.Choose(len(fs) + 1)
						if k == len(fs) {
							break
						}
						st = append(st, fs[k])
						what += fmt.Sprint(k)
					}
					what += "/"
					w.AddThread(&Thread{Name: fmt.Sprint("t", t), Coder: -1, TID: int64(2 - t), Prio: 5, Status: 5, Frames: st})
				}
				c.State("stacks " + what)
				c.threadsOf(w)
			}}
			lines := []int32{-1, -2, -3, 1, 2, 9, 10, 255, 256, 65535, 65536, 1<<31 - 1}
			location := Space{Name: "location", Real: true, RealEvery: 50, Fn: func(c *Ctx) {
				ids, line := Pick(c, idSizes), Pick(c, lines)
				file, cls, meth := c.Choose(3), c.Bool(), c.Bool()
				line2 := Pick(c, lines)
				c.State(fmt.Sprint("ids ", ids, " line ", line, " file ", file, " no class name ", cls, " no method name ", meth, " then line ", line2))
				w := coreWorld(ids)
				k := w.Class("app/K", w.C("java/lang/Object"))
				f := &FrameSpec{Class: k, Method: "go", Desc: "(I)J", Line: line, NoClass: cls, NoMethod: meth}
				switch file {
				case 0:
					f.File = "K.java"
				case 1:
					f.NoFile = true
				}
				g := &FrameSpec{Class: k, Method: "other", Desc: "()V", File: "K.java", Line: line2}
				w.AddThread(&Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f, g, f}})
				w.AddThread(&Thread{Name: "u", Coder: -1, TID: 2, Prio: 5, Status: 5, Frames: []*FrameSpec{g}})
				c.threadsOf(w)
			}}
			// file names that look like locations, or like the line
			fileLines := Space{Name: "file-and-line", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				line := Pick(c, append([]int32{11, 100, 128, 1234}, lines...))
				num := fmt.Sprint(line)
				f := Pick(c, []string{num, "K" + num, "K.java:" + num, num + ".java", "K.java:", ":" + num, "(K.java:" + num + ")", "K.java" + num, "NativeMethod", "CompiledMethod", "Unknown", "native", "-1", "-2", "0", "K.java:NativeMethod", "K.java:-1", "null", " ", "K.java ", "K.java:1", "%d", "K.java:%d", "unknown", "<unknown>", "()", "K.JAVA", "k.java", "a/b/K.java", "C:\\K.java"})
				cls := Pick(c, []string{"K", "app/K", "app/NativeMethod"})
				c.State(fmt.Sprintf("line %d file %q class %s", line, f, cls))
				w := coreWorld(8)
				k := w.Class(cls, w.C("java/lang/Object"))
				a := &FrameSpec{Class: k, Method: "go", Desc: "(I)J", File: f, Line: line}
				b := &FrameSpec{Class: k, Method: num, Desc: "(L" + cls + ";)V", File: "K.java", Line: line}
				w.AddThread(&Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{a, b, a}})
				c.threadsOf(w)
			}}
			methods := []string{"main", "<init>", "<clinit>", "lambda$main$0", "access$000", "a", "méthode", "方法", "with space", "x-y", "$", "_", strings.Repeat("long", 100)}
			classes := []string{"K", "a/K", "a/b/c/K", "a/K$1", "a/K$In$2", "Кл", "a/package-info", "app/K$$Lambda$14+0x0000000800c031f8", "jdk/internal/reflect/GeneratedMethodAccessor1", "a-b/C d", "I", "L", "V", "[I"}
			files := []string{"K.java", "a.kt", "Файл.java", "<generated>", "x y.scala", "SourceFile", "Unknown Source", ":", "K.java:5"}
			names := Space{Name: "names", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids, m, k, f := Pick(c, idSizes), Pick(c, methods), Pick(c, classes[:len(classes)-1]), Pick(c, files)
				c.State(fmt.Sprintf("ids %d %s.%s in %s", ids, k, head(m, 20), f))
				w := coreWorld(ids)
				kc := w.Load(k)
				a := &FrameSpec{Class: kc, Method: m, Desc: "(L" + k + ";)V", File: f, Line: 3}
				b := &FrameSpec{Class: kc, Method: m, Desc: "()V", File: f, Line: -1}
				w.AddThread(&Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{a, b}})
				c.threadsOf(w)
			}}
			depths := []int{1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4000}
			deep := Space{Name: "deep", Real: true, RealEvery: 10, Fn: func(c *Ctx) {
				ids, n, m, kind := Pick(c, idSizes), Pick(c, depths), Pick(c, []int{0, 1, 3}), c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " depth ", n, " other threads ", m, " kind ", kind))
				w := coreWorld(ids)
				var st []*FrameSpec
				one := &FrameSpec{Method: "rec", Desc: "(I)I", File: "R.java", Line: 8}
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						st = append(st, one)
					case 1:
						st = append(st, &FrameSpec{Method: fmt.Sprint("m", i), Desc: "()V", File: "R.java", Line: int32(1 + i)})
					case 2:
						if i%3 == 0 || len(st) == 0 {
							st = append(st, &FrameSpec{Method: fmt.Sprint("m", i), Desc: "()V", Line: -2, File: "Q.java"})
						} else {
							st = append(st, st[i/2])
						}
					}
				}
				w.AddThread(&Thread{Name: "deep", Coder: -1, TID: 9, Prio: 5, Status: 5, Frames: st})
				for i := 0; i < m; i++ {
					w.AddThread(&Thread{Name: "o", Coder: -1, TID: int64(8 + 2*i), Prio: 5, Status: 5, Frames: st[i*len(st)/4:]})
				}
				c.threadsOf(w)
			}}
			frameIDs := []uint64{1, 2, 0x7f, 0xff, 0x100, 0x108, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
			idents := Space{Name: "identifiers", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				pool := frameIDs
				if ids == 8 {
					pool = append(append([]uint64(nil), frameIDs...), 1<<32, 1<<63-1, 1<<63, 1<<64-1)
				}
				a, b := c.Choose(len(pool)), c.Choose(len(pool))
				if a == b {
					c.Skip()
				}
				again := c.Bool() // the class is loaded once more
				ser := Pick(c, []uint32{1, 0x7fffffff, 0xffffffff})
				c.State(fmt.Sprintf("ids %d frames %#x %#x again %v class serial %#x", ids, pool[a], pool[b], again, ser))
				w := newWorld(ids, stdTS)
				w.nextSerial = ser
				w.Class("java/lang/Object", nil)
				w.nextSerial = 100
				w.Class("java/lang/String", w.C("java/lang/Object"), stringFields...)
				w.Class("java/lang/Thread", w.C("java/lang/Object"), threadFields...)
				f := &FrameSpec{ID: pool[a], Method: "a", Desc: "()V", File: "F", Line: 1}
				g := &FrameSpec{ID: pool[b], Method: "b", Desc: "()V", File: "F", Line: 2, Class: w.C("java/lang/Thread")}
				w.AddThread(&Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f, g}})
				if again {
					x := w.C("java/lang/Thread")
					w.loads = append(w.loads, Load{1000, x.ID, 0, w.Str(x.Name)})
				}
				c.threadsOf(w)
			}}
			// serial numbers of the traces, the threads and the classes
			serials := serialPairs(true, func(c *Ctx, ids int, a, b uint32) {
				if a != 0 && b != 0 {
					c.threadsOf(threadPair(ids, 5, 6, func(i int, _ uint32) uint32 { return []uint32{a, b}[i] }))
					c.threadsOf(threadPair(ids, a, b, func(i int, _ uint32) uint32 { return []uint32{b, a}[i] }))
				}
				w := newWorld(ids, stdTS)
				w.nextSerial = 1 << 20 * 5
				w.CoreFields(stringFields, threadFields)
				w.nextSerial = a
				x := w.Class("app/A", w.C("java/lang/Object"))
				w.nextSerial = b
				y := w.Class("app/B", w.C("java/lang/Object"))
				w.AddThread(&Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{{Class: x, Method: "x", Desc: "()V", File: "X", Line: 1}, {Class: y, Method: "y", Desc: "()V", File: "Y", Line: 2}}})
				c.threadsOf(w)
			})
			return []Space{stacks, location, fileLines, names, deep, idents, serials, distances(thorough, []int{0, 1, 2}, true, Cmd{Sub: "threads", File: "x.hprof"}),
				methodNames(Cmd{Sub: "threads"}, Cmd{Sub: "threads", Html: true})}
		}})

	register(&Property{ID: "C19", Level: "model_checking", Rule: "one state per (local roots: thread, frame, kind and object; stacks)",
		Assume: []string{"the order of the locals of one frame is not promised"},
		Spaces: func(thorough bool) []Space {
			n := 2
			if thorough {
				n = 3
			}
			type target struct {
				obj  uint64
				text string
			}
			targets := func(w *World) []target {
				k := w.Class("app/K", w.C("java/lang/Object"))
				return []target{
					{w.New(k, nil), "app.K"},
					{w.Array(w.arrayOf("[Lapp/K;"), []uint64{0}), "app.K[]"},
					{w.Prim(tLong, make([]byte, 8)), "long[]"},
					{k.ID, "class app.K"},
					{w.arrayOf("[Lapp/K;").ID, "class app.K[]"},
				}
			}
			// other stands for a thread that is not listed
			place := func(w *World, ts []*Thread, t int, kind byte, frame uint32, x target) {
				if t >= len(ts) {
					w.roots = append(w.roots, Root{Type: kind, Obj: x.obj, A: 77, B: frame})
					return
				}
				w.roots = append(w.roots, Root{Type: kind, Obj: x.obj, A: ts[t].Serial, B: frame})
				ts[t].Locals = append(ts[t].Locals, LocalSpec{Frame: int(frame), Kind: kind, Obj: x.obj, Text: x.text})
			}
			start := func(w *World) []*Thread {
				f, g := &FrameSpec{Method: "f", Desc: "()V", File: "F", Line: 1}, &FrameSpec{Method: "g", Desc: "()V"}
				ts := []*Thread{{Name: "t", Coder: -1, TID: 2, Prio: 5, Status: 5, Frames: []*FrameSpec{f, g, f}}, {Name: "u", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f}}}
				for _, t := range ts {
					w.AddThread(t)
				}
				return ts
			}
			frames := []uint32{0, 1, 2, 3, 0xffffffff}
			roots := Space{Name: "roots", Real: true, RealEvery: 3000, Fn: func(c *Ctx) {
				w := coreWorld(8)
				xs := targets(w)
				ts := start(w)
				first := len(w.roots)
				what := ""
				for i := 0; i < n; i++ {
					k := c.Choose(3*len(frames)*2*len(xs) + 1)
					if k == 0 {
						break
					}
					k--
					t, f, kind, x := k%3, k/3%len(frames), k/(3*len(frames))%2, k/(6*len(frames))
					if i == 2 && (x > 1 || kind == 1) {
						c.Skip()
					}
					what += fmt.Sprintf(" %d.%d %d:%d", t, int32(frames[f]), kind, x)
					place(w, ts, t, []byte{rootJniLocal, rootJavaFrame}[kind], frames[f], xs[x])
				}
				early := c.Bool() // the locals come before the threads
				if early {
					w.roots = append(append([]Rec(nil), w.roots[first:]...), w.roots[:first]...)
				}
				c.State(fmt.Sprint("locals", what, " early ", early))
				c.threadsOf(w)
			}}
			classNames := []string{"K", "a/K", "a/K$1", "Кл", "class", "classes/K", "a/class", "I", "L", "a-b/C d", "La/b", "a/K$$Lambda$14+0x0000000800c031f8", "local", "[[[I", "[Z", "[[La/K;", "[L[K;"}
			types := Space{Name: "types", Real: true, RealEvery: 50, Fn: func(c *Ctx) {
				ids, kind := Pick(c, idSizes), Pick(c, []byte{rootJniLocal, rootJavaFrame})
				what, k := Pick(c, []string{"prim", "inst", "class", "array"}), 0
				w := coreWorld(ids)
				ts := start(w)
				var x target
				switch what {
				case "prim":
					k = 1 + c.Choose(8)
					t := javaTypes[k]
					x = target{w.Prim(t, make([]byte, 3*typeSize(t, ids))), typeName(t) + "[]"}
				case "inst":
					k = c.Choose(13)
					x = target{w.New(w.Class(classNames[k], w.C("java/lang/Object")), nil), strings.ReplaceAll(classNames[k], "/", ".")}
				case "class":
					k = c.Choose(16)
					x = target{w.Class(classNames[k], w.C("java/lang/Object")).ID, "class " + strings.ReplaceAll(classNames[k], "/", ".")}
					if classNames[k][0] == '[' {
						x.text = "class " + fieldDesc(classNames[k])
					}
				case "array":
					k = c.Choose(17)
					name := "[L" + classNames[k] + ";"
					if classNames[k][0] == '[' {
						name = "[" + classNames[k]
					}
					if name == "[[Z" {
						name = "[[[Z"
					}
					x = target{w.Array(w.arrayOf(name), []uint64{0, 0}), fieldDesc(name)}
				}
				f := Pick(c, []uint32{0, 2})
				c.State(fmt.Sprint("ids ", ids, " kind ", kind, " ", what, " ", k, " frame ", f))
				place(w, ts, 0, kind, f, x)
				c.threadsOf(w)
			}}
			many := Space{Name: "many", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				ids, n := Pick(c, idSizes), Pick(c, append(ints(0, 30), 100, 1000))
				spread, kinds := c.Choose(4), c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " locals ", n, " spread ", spread, " kinds ", kinds))
				w := coreWorld(ids)
				xs := targets(w)
				ts := start(w)
				for i := 0; i < n; i++ {
					kind := []byte{rootJniLocal, rootJavaFrame}[[]int{0, 1, i % 2}[kinds]]
					t, f := 0, 1
					switch spread {
					case 1:
						f = i % 3
					case 2:
						t, f = i%2, i%3
					case 3:
						t, f = i%3, 0
					}
					place(w, ts, t, kind, uint32(f), xs[i%len(xs)])
				}
				c.threadsOf(w)
			}}
			// two locals of different types
			pairs := Space{Name: "pairs", Real: true, RealEvery: 200, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := coreWorld(ids)
				ts := start(w)
				obj := w.C("java/lang/Object")
				k, j := w.Class("app/K", obj), w.Class("app/J", obj)
				xs := []target{{w.New(k, nil), "app.K"}, {w.New(j, nil), "app.J"}, {w.New(obj, nil), "java.lang.Object"},
					{w.Array(w.arrayOf("[Lapp/K;"), []uint64{0}), "app.K[]"}, {w.Array(w.arrayOf("[Lapp/J;"), nil), "app.J[]"}, {w.Array(w.arrayOf("[[I"), nil), "int[][]"}, {w.Array(w.arrayOf("[[B"), nil), "byte[][]"},
					{k.ID, "class app.K"}, {j.ID, "class app.J"}, {w.arrayOf("[Lapp/K;").ID, "class app.K[]"}, {w.arrayOf("[[I").ID, "class int[][]"}}
				for _, t := range javaTypes[1:] {
					xs = append(xs, target{w.Prim(t, make([]byte, 2*typeSize(t, ids))), typeName(t) + "[]"})
				}
				xs = append(xs, target{w.New(k, nil), "app.K"}, target{w.Prim(tInt, nil), "int[]"})
				a, b := c.Choose(len(xs)), c.Choose(len(xs))
				kinds, where := c.Choose(4), c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " ", a, " ", b, " kinds ", kinds, " where ", where))
				kind := []byte{rootJniLocal, rootJavaFrame}
				place(w, ts, 0, kind[kinds&1], 0, xs[a])
				place(w, ts, where/2, kind[kinds>>1], uint32(where%2), xs[b])
				c.threadsOf(w)
			}}
			serials := serialPairs(false, func(c *Ctx, ids int, a, b uint32) {
				w := threadPair(ids, a, b, func(i int, s uint32) uint32 { return s })
				// roots of threads that are not listed
				for _, s := range []uint32{0, a + 1, a ^ 1<<31, a ^ b, b - a} {
					if s != a && s != b {
						w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: w.C("java/lang/Thread").ID, A: s, B: 0})
					}
				}
				c.threadsOf(w)
			})
			// locals of frames far down
			depth := Space{Name: "depth", Real: true, RealEvery: 40, Fn: func(c *Ctx) {
				n := Pick(c, []int{1, 2, 100, 129, 257, 300, 1025, 33000, 66000})
				ids, kind := Pick(c, idSizes), Pick(c, []byte{rootJniLocal, rootJavaFrame})
				var at []int
				for _, e := range edges(uint64(n - 1)) {
					at = append(at, int(e))
				}
				at = append(at, 0, n/2)
				if n < 5000 {
					at = []int{Pick(c, at)}
				}
				early := c.Bool()
				c.State(fmt.Sprint("ids ", ids, " depth ", n, " locals at ", head(fmt.Sprint(at), 30), " kind ", kind, " early ", early))
				w := coreWorld(ids)
				t := &Thread{Name: "t", Coder: -1, TID: 1, Prio: 5, Status: 5}
				one := &FrameSpec{Method: "rec", Desc: "(I)I", File: "R.java", Line: 8}
				for i := 0; i < n; i++ {
					t.Frames = append(t.Frames, one)
				}
				k := w.Class("app/K", w.C("java/lang/Object"))
				for i, f := range at {
					x := target{w.Prim(javaTypes[1+i%8], nil), typeName(javaTypes[1+i%8]) + "[]"}
					if i%3 == 0 {
						x = target{w.New(k, nil), "app.K"}
					}
					t.Locals = append(t.Locals, LocalSpec{f, kind, x.obj, x.text})
				}
				w.AddThread(t)
				w.AddThread(&Thread{Name: "u", Coder: -1, TID: 2, Prio: 5, Status: 5, Frames: []*FrameSpec{one}})
				if early {
					r := w.roots
					w.roots = append(append([]Rec(nil), r[1:]...), r[0])
				}
				if n < 5000 {
					c.threadsOf(w)
				} else {
					c.verify(w, Cmd{Sub: "threads", Locals: true})
				}
			}}
			return []Space{roots, pairs, types, many, serials, depth, distances(thorough, []int{1, 3, 4, 5}, true, Cmd{Sub: "threads", File: "x.hprof", Locals: true}),
				jvmClassNames(Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "threads", Locals: true, Html: true})}
		}})
}
