package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"syscall"
)

// measured runs the binary by way of a small process of this program, because the peak a
// process is charged with starts at that of the process that created it.
func measured(dir string, args ...string) (r Res, peakMB int, err error) {
	self, err := os.Executable()
	if err != nil {
		return r, 0, err
	}
	cmd := exec.Command(self, append([]string{"measure", dir}, args...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return r, 0, err
	}
	var x struct {
		R    Res
		Peak int
	}
	err = json.Unmarshal(b, &x)
	return x.R, x.Peak, err
}

func measureMain(args []string) {
	r := runReal(args[0], args[1:]...)
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &ru)
	json.NewEncoder(os.Stdout).Encode(struct {
		R    Res
		Peak int
	}{r, int(ru.Maxrss >> 10)})
}

// memWorld is a JVM with a thread whose locals are the objects with the given ids.
func memWorld(ids int, locals ...LocalSpec) *World {
	w := newWorld(ids, stdTS).Core()
	w.summaryClasses()
	main := w.Class("Main", w.C("java/lang/Object"))
	w.Class("app/Empty", w.C("java/lang/Object"))
	w.arrayOf("[Ljava/lang/Object;")
	f := &FrameSpec{Class: main, Method: "main", Desc: "([Ljava/lang/String;)V", File: "Main.java", Line: 6}
	w.AddThread(&Thread{Name: "main", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f}, Locals: locals})
	w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
	return w
}

// peaks indexes the dump and makes every report, within the given numbers of megabytes.
func (c *Ctx) peaks(w *World, s *Sys, first Cmd, index, report int) {
	for i, k := range append([]Cmd{first}, Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "summary", AllProps: true}, Cmd{Sub: "objects"}) {
		k.File = "x.hprof"
		bound := report
		if i == 0 {
			bound = index
		}
		r, mb, err := measured(s.dir, s.args(k)...)
		c.Steps(1)
		if err != nil {
			panic(err)
		}
		if os.Getenv("VERIF_PEAKS") != "" {
			fmt.Fprintln(os.Stderr, c.key, k, mb, "of", bound)
		}
		if err := w.expect(k, r); err != nil {
			c.Fail("%v", err)
		}
		if mb > bound {
			c.Fail("%s (run %d) takes %d MB of memory, more than %d", k, i+1, mb, bound)
		}
	}
}

const extraID = 1 << 24 // larger than the ids of every world

func init() {
	register(&Property{ID: "C30", Level: "model_checking",
		Rule:   "all executions run the unmodified binary under measurement of its peak memory",
		Assume: []string{"the bounds leave a factor of about two to the measured use: a fixed buffer may become twice as large, use that grows with the heap exceeds them", "the peak is the resident set the kernel reports for the process"},
		Spaces: func(thorough bool) []Space {
			w4 := 4
			return []Space{
				{Name: "number", Workers: 3, Fn: func(c *Ctx) {
					// many small objects
					ids := 8
					n := 12_000_000
					if c.Thorough {
						ids = Pick(c, idSizes)
						n = Pick(c, []int{12_000_000, 30_000_000})
					}
					kinds := Pick(c, []string{"instances", "object arrays", "primitive arrays", "all"})
					c.State(fmt.Sprint("ids ", ids, " ", n, " ", kinds))
					w := memWorld(ids)
					s := c.RealSys()
					var recs []Rec
					add := func(kind byte, n int, first uint64) {
						recs = append(recs, Many{First: first, Step: 8, N: n, Kind: kind, Class: map[byte]uint64{0x21: w.C("app/Empty").ID, 0x22: w.arrayOf("[Ljava/lang/Object;").ID}[kind], T: tInt})
					}
					bound := 150
					switch kinds {
					case "instances":
						add(0x21, n, extraID)
					case "object arrays":
						add(0x22, n, extraID)
					case "primitive arrays":
						add(0x23, n, extraID)
					default:
						bound = 240
						const part = 600_000
						id := uint64(extraID)
						for i := 0; i < n/part; i++ {
							add([]byte{0x21, 0x22, 0x23}[i%3], part, id)
							id += part * 8
						}
					}
					if _, err := w.Tail(recs...).WriteTo(s.Path("x.hprof")); err != nil {
						panic(err)
					}
					c.peaks(w, s, Pick(c, basicCmds("x.hprof")[2:]), bound, 40)
				}},
				{Name: "size", Workers: w4, Fn: func(c *Ctx) {
					// few huge objects, in locals of a thread
					ids := Pick(c, idSizes)
					kind := Pick(c, []string{"byte[]", "long[]", "java.lang.Object[]", "app.Empty", "many"})
					first := Pick(c, []Cmd{{Sub: "threads", Locals: true}, {Sub: "objects"}})
					c.State(fmt.Sprint("ids ", ids, " ", kind, " ", first))
					var locals []LocalSpec
					if kind != "many" {
						locals = []LocalSpec{{0, rootJavaFrame, extraID, kind}, {0, rootJniLocal, extraID + 8, kind}}
					}
					w := memWorld(ids, locals...)
					s := c.RealSys()
					var recs []Rec
					for i := uint64(0); i < 2; i++ {
						id := uint64(extraID + 8*i)
						switch kind {
						case "byte[]":
							recs = append(recs, PHole{id, tByte, 1_200_000_000})
						case "long[]":
							recs = append(recs, PHole{id, tLong, 150_000_000})
						case "java.lang.Object[]":
							recs = append(recs, OHole{id, w.arrayOf("[Ljava/lang/Object;").ID, 150_000_000})
						case "app.Empty":
							recs = append(recs, IHole{id, w.C("app/Empty").ID, 1_000_000_000})
						case "many":
							for j := uint64(0); j < 10_000; j++ {
								recs = append(recs, PHole{extraID + (i*10_000+j)*16, tByte, 100_000})
							}
						}
						recs = append(recs, Split{})
					}
					if _, err := w.Tail(recs...).WriteTo(s.Path("x.hprof")); err != nil {
						panic(err)
					}
					c.peaks(w, s, first, 60, 40)
				}},
				{Name: "metadata", Workers: w4, Fn: func(c *Ctx) {
					what := Pick(c, []string{"strings", "classes", "roots", "frames", "long string"})
					c.State(what)
					w := memWorld(8)
					n := 100_000
					switch what {
					case "strings":
						for i := 0; i < 3*n; i++ {
							w.Str(fmt.Sprint("a string ", i))
						}
					case "classes":
						for i := 0; i < n; i++ {
							w.Class(fmt.Sprint("app/C", i), w.C("java/lang/Object"), F{"a", tInt}, F{"b", tObj})
						}
					case "roots":
						for i := 0; i < 3*n; i++ {
							w.roots = append(w.roots, Root{Type: rootSticky, Obj: w.C("Main").ID})
						}
					case "frames":
						for i := 0; i < n; i++ {
							w.frame(&FrameSpec{Class: w.C("Main"), Method: fmt.Sprint("m", i), Desc: "()V", File: "Main.java", Line: int32(i + 1)})
						}
					case "long string":
						for i := 0; i < 30; i++ {
							w.Str(fmt.Sprint(i, string(make([]byte, 1<<20))))
						}
					}
					s := c.RealSys()
					size, err := w.Dump().WriteTo(s.Path("x.hprof"))
					if err != nil {
						panic(err)
					}
					b := 60 + int(16*size>>20)
					c.peaks(w, s, Cmd{Sub: "objects"}, b, b)
				}},
			}
		}})
}
