package main

import "fmt"

func init() {
	register(&Property{ID: "C01", Level: "model_checking",
		Rule:   "dumps whose records differ in every field; everything the restored index gives is compared with them, and what the reports show",
		Assume: []string{"keys are unique, as in every dump a JVM writes", "boolean values are 0 or 1; any two NaN are the same value", "of unknown, native-stack, thread-block and monitor roots only the number is kept (C14)"},
		Spaces: func(thorough bool) []Space {
			return withAPI("C01", thorough, []Space{
				{Name: "class contents", Real: true, RealEvery: 101, Fn: func(c *Ctx) {
					// constants and static fields of every type in the classes the reports read
					ids := Pick(c, idSizes)
					cls := Pick(c, []string{"java/lang/System", "sun/management/ManagementFactoryHelper", "java/lang/Thread", "java/lang/String", chm, "Main"})
					w := standard(ids, stdTS)
					k := w.C(cls)
					key := ""
					n := 0
					seq := func(max int, f func(v Val)) {
						key += "/"
						for j := 0; j < max; j++ {
							x := c.Choose(1 + len(javaTypes))
							if x == 0 {
								return
							}
							t := javaTypes[x-1]
							n++
							v := Val{t, 0x8182838485868788 + uint64(n)*0x1111111111111111}
							if t == tBool {
								v.U = uint64(n & 1)
							}
							f(v)
							key += fmt.Sprint(" ", t)
						}
					}
					front := c.Bool()
					max := 2
					if c.Thorough {
						max = 3
					}
					seq(max, func(v Val) { k.rec.CPs = append(k.rec.CPs, CP{uint16(n * 1000), v}) })
					var more []Static
					seq(1, func(v Val) { more = append(more, Static{w.Str(fmt.Sprint("extra", n)), v}) })
					if front {
						k.rec.Statics = append(more, k.rec.Statics...)
					} else {
						k.rec.Statics = append(k.rec.Statics, more...)
					}
					c.State(fmt.Sprint("ids ", ids, " ", cls, key, front))
					if front && len(more) == 0 {
						return
					}
					c.verify(w, basicCmds("x.hprof")...)
				}},
				{Name: "many", Real: true, RealEvery: 3, Workers: 4, Fn: func(c *Ctx) {
					// the records that matter come behind many others
					ids := Pick(c, idSizes)
					what := Pick(c, []string{"strings", "classes", "constants", "static fields", "fields", "roots", "frames", "deep"})
					n := Pick(c, []int{1, 127, 255, 256, 4096, 32768, 65535})
					if what == "classes" && n > 4096 {
						n = 4097 + n%2
					}
					if what == "static fields" && n == 65535 {
						n -= 3 // those of the world itself
					}
					c.State(fmt.Sprint("ids ", ids, " ", what, " ", n))
					w := newWorld(ids, stdTS)
					if what == "strings" {
						for i := 0; i < n; i++ {
							w.Str(fmt.Sprint("string number ", i))
						}
					}
					if what == "classes" {
						o := w.Class("first/Of", nil)
						for i := 0; i < n; i++ {
							w.Class(fmt.Sprint("many/C", i), o, F{"a", tInt})
						}
					}
					w.Core()
					w.summaryClasses()
					sys := w.C("java/lang/System")
					for i := 0; i < n; i++ {
						t := javaTypes[i%9]
						v := Val{t, uint64(i) * 0x0101010101}
						if t == tBool {
							v.U = uint64(i & 1)
						}
						switch what {
						case "constants":
							sys.rec.CPs = append(sys.rec.CPs, CP{uint16(i), v})
						case "static fields":
							w.Static(sys, fmt.Sprint("s", i), v)
						case "roots":
							w.roots = append(w.roots, Root{Type: []byte{rootSticky, rootJniGlobal, rootMonitor, rootUnknown}[i%4], Obj: sys.ID})
						case "frames":
							w.frame(&FrameSpec{Class: sys, Method: fmt.Sprint("m", i%100), Desc: "()V", File: "F.java", Line: int32(i + 1)})
						}
					}
					t := &Thread{Name: "main", Coder: -1, TID: 1, Prio: 5, Status: 5}
					if what == "fields" {
						var fs []F
						for i := 0; i < n; i++ {
							fs = append(fs, F{fmt.Sprint("f", i%3000), javaTypes[i%9]})
						}
						t.Cls = w.Class("app/Large", w.C("java/lang/Thread"), fs...)
					}
					f := &FrameSpec{Class: sys, Method: "exit", Desc: "(I)V", File: "System.java", Line: 6}
					g := &FrameSpec{Class: w.C("java/lang/Thread"), Method: "run", Desc: "()V", File: "Thread.java", Line: 65536}
					t.Frames = []*FrameSpec{f, g}
					if what == "deep" {
						for i := 0; i < n; i++ {
							t.Frames = append(t.Frames, []*FrameSpec{f, g, g}[i%3])
						}
					}
					w.AddThread(t)
					w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
					c.verify(w, basicCmds("x.hprof")...)
				}},
			}...)
		}})
}
