package main

import (
	"fmt"
	"hash/fnv"
	"slices"
	"sort"
	"strings"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

// C21: strings, C22: identifiers, C28: layout of the records, C29: replaced dumps.

// textWorld is a JVM showing the texts as thread names, property keys and values.
func textWorld(ids int, texts []string, coder int) *World {
	w := coreWorld(ids)
	var props []KV
	for i, s := range texts {
		w.AddThread(&Thread{Name: s, Coder: coder, TID: int64(i + 1), Prio: 5, Status: 5})
		props = append(props, KV{fmt.Sprintf("k%05d", i) + s + ".", "<" + s + ">"})
	}
	return w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), func(int) (int, int) { return coder, coder })
}

func (c *Ctx) textsOf(w *World) {
	c.verify(w, Cmd{Sub: "threads"}, Cmd{Sub: "summary", AllProps: true}, Cmd{Sub: "threads", Html: true}, Cmd{Sub: "summary", AllProps: true, Html: true})
}

func runes(from, to rune) string {
	var sb strings.Builder
	for r := from; r < to; r++ {
		if r >= 0xd800 && r < 0xe000 || r == 0 {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func init() {
	register(&Property{ID: "C21", Level: "model_checking", Rule: "one state per (texts, string representation, layout of java.lang.String, identifier size)",
		Assume: []string{"JDK 9 or later (java.lang.String has a coder)", "no unpaired surrogates"},
		Spaces: func(thorough bool) []Space {
			planes := Space{Name: "every-character", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				k := c.Choose(0x1100) // 256 characters each
				ids := Pick(c, idSizes)
				coder := -1
				if k == 0 && c.Bool() {
					coder = 1
				}
				c.State(fmt.Sprintf("ids %d characters from %#x coder %d", ids, k<<8, coder))
				s := runes(rune(k<<8), rune(k<<8)+256)
				if s == "" {
					return
				}
				w := textWorld(ids, []string{s}, coder)
				c.textsOf(w)
			}}
			single := Space{Name: "single-characters", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				n := 0x100
				if thorough {
					n = 0x1100
				}
				k := c.Choose(n)
				coder := -1
				if k == 0 && c.Bool() {
					coder = 1
				}
				c.State(fmt.Sprintf("single characters from %#x coder %d", k<<8, coder))
				var ts []string
				for _, r := range runes(rune(k<<8), rune(k<<8)+256) {
					ts = append(ts, string(r))
				}
				c.textsOf(textWorld(8, ts, coder))
			}}
			alphabet := []string{"a", " ", "\n", "\x01", "\x7f", "\u0080", "\u00e9", "\u00ff", "\u0100", "\u0416", "\u07ff", "\u0800", "\u2028", "\u4e2d", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "\"", "\\", "%", "<"}
			n := 2
			if thorough {
				n = 3
			}
			words := Space{Name: "words", Real: true, RealEvery: 1000, Fn: func(c *Ctx) {
				s, what := "", ""
				for i := 0; i < n; i++ {
					k := c.Choose(len(alphabet) + 1)
					if k == len(alphabet) {
						break
					}
					s += alphabet[k]
					what += fmt.Sprintf(" %x", []rune(alphabet[k]))
				}
				coder := -1
				if isLatin1(s) && c.Bool() {
					coder = 1
				}
				ids := Pick(c, idSizes)
				c.State(fmt.Sprint("ids ", ids, " word", what, " coder ", coder))
				c.textsOf(textWorld(ids, []string{s, "other", s + s}, coder))
			}}
			lengths := Space{Name: "lengths", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				n := Pick(c, append(ints(0, 300), 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 300000))
				ch := Pick(c, []string{"a", "é", "ж", "😀"})
				coder := -1
				if ch < "ж" && c.Bool() {
					coder = 1
				}
				c.State(fmt.Sprint("ids ", ids, " length ", n, " of ", ch, " coder ", coder))
				c.textsOf(textWorld(ids, []string{strings.Repeat(ch, n), "", "b"}, coder))
			}}
			layout := Space{Name: "layout", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				p := c.permutation(4)
				at, pad := c.Choose(6), Pick(c, javaTypes)
				var fs []F
				for i := 0; i <= 4; i++ {
					if i == at {
						fs = append(fs, F{"pad", pad})
					}
					if i < 4 {
						fs = append(fs, stringFields[p[i]])
					}
				}
				c.State(fmt.Sprint("ids ", ids, " order ", p, " padding ", typeName(pad), " at ", at))
				w := newWorld(ids, stdTS).CoreFields(fs, threadFields)
				var props []KV
				for i, s := range []string{"latin é", "жук 😀", ""} {
					w.AddThread(&Thread{Name: s, Coder: -1, TID: int64(i + 1), Prio: 5, Status: 5})
					props = append(props, KV{fmt.Sprint("k", i) + s + ".", "<" + s + ">"})
				}
				w.SummaryWorld(props, 1700000000000, plainSlots(3), nil)
				c.textsOf(w)
			}}
			vocab := Space{Name: "known-texts", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				all := append(append(append([]string(nil), vocabThreads...), vocabValues...), textForms...)
				ids, coder := Pick(c, idSizes), c.Choose(2)
				i := c.Choose(len(all))
				if coder == 0 && !isLatin1(all[i]+all[(i+1)%len(all)]) {
					c.Skip()
				}
				c.State(fmt.Sprintf("ids %d text %q coder %d", ids, all[i], coder))
				c.textsOf(textWorld(ids, []string{all[i], "", all[(i+1)%len(all)]}, coder))
			}}
			return []Space{planes, single, words, lengths, layout, vocab}
		}})

	register(&Property{ID: "C22", Level: "model_checking", Rule: "one state per (identifier size, numbering of objects, classes, strings and frames)",
		Assume: []string{"object ids ascend within each kind, as in the dumps of a JVM"},
		Spaces: func(thorough bool) []Space {
			remap := Space{Name: "numberings", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				n := len(numberings(ids))
				o, k, s, f, ser := c.Choose(n), c.Choose(n+1), c.Choose(n+1), c.Choose(n+1), c.Choose(3)
				if !thorough && (o*7+k*3+s*5+f*11+ser)%4 != 0 {
					c.Skip()
				}
				c.State(fmt.Sprint("ids ", ids, " objects ", o, " classes ", k, " strings ", s, " frames ", f, " serials ", ser))
				x := cached(fmt.Sprint("C22", ids), func() *World {
					w := standard(ids, stdTS)
					w.Prim(tByte, make([]byte, 5))
					return w
				})
				d := x.Dump()
				d.Recs = renumber(d.Recs, ids, o, k, s, f, ser)
				sy := c.Sys()
				sy.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					c.must(x, sy, k, "")
				}
			}}
			sizes := Space{Name: "identifier-size", Real: true, RealEvery: 10, Fn: func(c *Ctx) {
				// the reports of two dumps are compared with each other, but for reference sizes
				variant := c.Choose(12)
				html, col := c.Bool(), c.Bool()
				c.State(fmt.Sprint("variant ", variant, " html ", html, " color ", col))
				var out [2][]string
				for i, ids := range idSizes {
					w := standard(ids, stdTS)
					for j := 0; j < variant; j++ {
						t := w.Class(fmt.Sprint("v/C", j), w.C("java/lang/Object"), F{"a", javaTypes[1+j%8]})
						w.New(t, nil)
						w.AddThread(&Thread{Name: fmt.Sprint("v", j), Coder: j % 2, TID: int64(100 - j), Prio: 4, Status: 5, Locals: nil})
					}
					s := c.Sys()
					s.Put("x.hprof", w.Bytes())
					for _, k := range []Cmd{{Sub: "threads", Locals: true}, {Sub: "summary", AllProps: true}, {Sub: "objects"}} {
						k.File, k.Html, k.Color = "x.hprof", html, col
						r := c.must(w, s, k, "")
						if k.Sub == "objects" {
							r.Out = strings.Join(ansiFields(r.Out, "count"), "\n")
						}
						if k.Sub == "summary" {
							r.Out = strings.Join(ansiFields(r.Out, "heap"), "\n")
						}
						out[i] = append(out[i], r.Out)
					}
				}
				for j := range out[0] {
					if out[0][j] != out[1][j] {
						c.Fail("the reports for the two identifier sizes differ: %q and %q", head(out[0][j], 700), head(out[1][j], 700))
					}
				}
			}}
			return []Space{remap, distances(true, []int{0, 1, 2, 3, 4, 5}, true, basicCmds("x.hprof")...), sizes}
		}})

	register(&Property{ID: "C28", Level: "model_checking", Rule: "one state per (order of the records, division into segments, lengths)",
		Assume: []string{"a segment without a length is followed by another segment or the end of the dump", "object ids ascend within each kind"},
		Spaces: func(thorough bool) []Space {
			small := func() (*World, []Rec) {
				x := cached("C28", func() *World { return smallWorld(8) })
				return x, x.Dump().Recs
			}
			check := func(c *Ctx, w *World, d *Dump) {
				d.IDSize, d.TS = w.IDSize, w.TS
				s := c.Sys()
				s.Put("x.hprof", d.Bytes())
				for _, k := range basicCmds("x.hprof") {
					c.must(w, s, k, "")
				}
			}
			group := func(r Rec) int {
				switch r.(type) {
				case Utf8:
					return 0
				case Load:
					return 1
				case Frame:
					return 2
				case Trace:
					return 3
				case Class:
					return 4
				case Root:
					return 5
				}
				return 6
			}
			groups := Space{Name: "groups", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				p := c.permutation(7)
				w, recs := small()
				c.State(fmt.Sprint("groups ", p))
				d := &Dump{}
				for _, g := range p {
					for _, r := range recs {
						if group(r) == g {
							d.Recs = append(d.Recs, r)
						}
					}
				}
				check(c, w, d)
			}}
			splits := Space{Name: "segments", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				w, recs := small()
				first := 0
				for !isSub(recs[first]) {
					first++
				}
				n := len(recs) - first
				kind := c.Choose(4)
				a, b, rest := 0, 0, 0
				switch kind {
				case 0: // one or two divisions
					a, b = c.Choose(n+1), c.Choose(n+1)
					if b < a || !thorough && b != a && b != a+1 && (a+b)%5 != 0 {
						c.Skip()
					}
				case 1: // every a-th
					a = 1 + c.Choose(40)
				case 2: // an empty segment
					a, rest = c.Choose(n+1), c.Choose(2)
				}
				noLen := c.Bool()
				time := Pick(c, []uint32{0, 1, 0xffffffff})
				c.State(fmt.Sprint("kind ", kind, " at ", a, " ", b, " ", rest, " no lengths ", noLen, " time ", time))
				d := &Dump{NoLen: noLen, Time: time}
				d.Recs = append(d.Recs, recs[:first]...)
				for i := 0; i <= n; i++ {
					if kind == 0 && (i == a || i == b) || kind == 1 && i%a == 0 {
						d.Recs = append(d.Recs, Split{})
					}
					if kind == 2 && i == a {
						if rest == 1 {
							d.Recs = append(d.Recs, Split{}, RawSub{}, Split{}, RawSub{})
						} else {
							d.Recs = append(d.Recs, Split{}, RawSub{})
						}
						d.Recs = append(d.Recs, Split{})
					}
					if i < n {
						d.Recs = append(d.Recs, recs[first+i])
					}
				}
				check(c, w, d)
			}}
			move := Space{Name: "one-record-elsewhere", Real: true, RealEvery: 1000, Fn: func(c *Ctx) {
				w, recs := small()
				i, j := c.Choose(len(recs)), c.Choose(len(recs))
				if i == j || !thorough && (i+j)%3 != 0 {
					c.Skip()
				}
				r := recs[i]
				out := append(append([]Rec(nil), recs[:i]...), recs[i+1:]...)
				out = append(out[:j:j], append([]Rec{r}, out[j:]...)...)
				if !ascending(out) {
					c.Skip()
				}
				c.State(fmt.Sprint("record ", i, " at ", j))
				check(c, w, &Dump{Recs: out})
			}}
			perm := 1
			if thorough {
				perm = 2
			}
			merges := Space{Name: "object-kinds", Real: true, RealEvery: 1000, Fn: func(c *Ctx) {
				// all interleavings of the kinds of objects (and classes and roots) that keep ids ascending
				x := cached("C28m", func() *World {
					w := coreWorld(4)
					k := w.Class("K", w.C("java/lang/Object"), F{"n", tInt})
					for i := 0; i < 2; i++ {
						w.New(k, map[string]uint64{"n": 5})
						w.Array(w.arrayOf("[LK;"), make([]uint64, i))
						w.Prim(tInt, make([]byte, 4*(i+1)))
					}
					w.AddThread(&Thread{Name: "t", Coder: 0, TID: 1, Prio: 1, Status: 5})
					w.roots = append(w.roots, Root{Type: rootMonitor, Obj: k.ID})
					return w
				})
				var lanes [5][]Rec
				var front []Rec
				for _, r := range x.Dump().Recs {
					switch r.(type) {
					case Inst:
						lanes[0] = append(lanes[0], r)
					case OArr:
						lanes[1] = append(lanes[1], r)
					case PArr:
						lanes[2] = append(lanes[2], r)
					case Class:
						lanes[3] = append(lanes[3], r)
					case Root:
						lanes[4] = append(lanes[4], r)
					default:
						front = append(front, r)
					}
				}
				if perm == 1 { // classes and roots as blocks
					for l := 3; l < 5; l++ {
						lanes[l] = lanes[l][:1:1]
					}
					front = nil
					for _, r := range x.Dump().Recs {
						_, isClass := r.(Class)
						_, isRoot := r.(Root)
						if !isSub(r) || (isClass && r.(Class).ID != lanes[3][0].(Class).ID) || isRoot && r != lanes[4][0] {
							front = append(front, r)
						}
					}
				}
				what := ""
				d := &Dump{Recs: front}
				for {
					var ready []int
					for l := range lanes {
						if len(lanes[l]) > 0 {
							ready = append(ready, l)
						}
					}
					if len(ready) == 0 {
						break
					}
					l := Pick(c, ready)
					d.Recs = append(d.Recs, lanes[l][0])
					lanes[l] = lanes[l][1:]
					what += fmt.Sprint(l)
				}
				c.State("order " + what)
				s := c.Sys()
				d.IDSize, d.TS = x.IDSize, x.TS
				s.Put("x.hprof", d.Bytes())
				for _, k := range []Cmd{{Sub: "threads", File: "x.hprof"}, {Sub: "objects", File: "x.hprof"}} {
					c.must(x, s, k, "")
				}
			}}
			strides := Space{Name: "shuffles", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				// all records in other orders; objects take the places of objects of their kind
				a, b := 1+c.Choose(60), c.Choose(10)
				split, dir := c.Choose(4), c.Bool()
				w, recs := small()
				c.State(fmt.Sprint("stride ", a, " from ", b, " divisions ", split, " reverse ", dir))
				n := len(recs)
				idx := ints(0, n-1)
				sort.SliceStable(idx, func(i, j int) bool { return (idx[i]*a+b)%n < (idx[j]*a+b)%n })
				if dir {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						idx[i], idx[j] = idx[j], idx[i]
					}
				}
				var out []Rec
				for _, i := range idx {
					out = append(out, recs[i])
				}
				sortObjects(out)
				d := &Dump{}
				for i, r := range out {
					if split > 0 && i%(split*3) == 0 {
						d.Recs = append(d.Recs, Split{})
					}
					d.Recs = append(d.Recs, r)
				}
				check(c, w, d)
			}}
			// records of every length; what follows them is read at the right place
			lengths := Space{Name: "record-lengths", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids, kind := Pick(c, idSizes), c.Choose(8)
				n := Pick(c, []int{0, 1, 2, 255, 256, 257, 1000, 4096, 7281, 7282, 8191, 8192, 13107, 13108, 16383, 16384, 21845, 21846, 32767, 32768, 65534, 65535})
				t := byte(tObj)
				if kind < 3 || kind == 6 {
					t = Pick(c, javaTypes)
				}
				where := c.Choose(2)
				c.State(fmt.Sprint("ids ", ids, " kind ", kind, " number ", n, " type ", t, " place ", where))
				w := newWorld(ids, stdTS)
				w.Core()
				if kind == 3 { // a long string
					w.Str(strings.Repeat("x", n))
				}
				var big *Cls
				if where == 0 {
					big = w.Class("Big", w.C("java/lang/Object"))
				}
				k := w.Class("K", w.C("java/lang/Object"), F{"n", tInt})
				if where == 1 {
					big = w.Class("Big", k)
				}
				str := w.Str("f")
				switch kind {
				case 0:
					for i := 0; i < n; i++ {
						big.rec.CPs = append(big.rec.CPs, CP{uint16(i), Val{t, 1}})
					}
				case 1:
					for i := 0; i < n; i++ {
						big.rec.Statics = append(big.rec.Statics, Static{str, Val{t, 1}})
					}
				case 2:
					for i := 0; i < n; i++ {
						big.rec.Fields = append(big.rec.Fields, Field{str, t})
					}
				case 4: // all lists
					for i := 0; i < n; i++ {
						big.rec.CPs = append(big.rec.CPs, CP{uint16(i), Val{tShort, 1}})
						big.rec.Statics = append(big.rec.Statics, Static{str, Val{tLong, 1}})
						big.rec.Fields = append(big.rec.Fields, Field{str, tByte})
					}
				case 5:
					w.Array(w.arrayOf("[LK;"), make([]uint64, n))
				case 6:
					if t == tObj {
						c.Skip()
					}
					w.Prim(t, make([]byte, n*typeSize(t, ids)))
				}
				f := &FrameSpec{Class: k, Method: "f", Desc: "()V", File: "K.java", Line: 6}
				th := &Thread{Name: "t", Coder: 0, TID: 2, Prio: 5, Status: 5, Frames: []*FrameSpec{f}}
				if kind == 7 {
					for i := 0; i < n; i++ {
						th.Frames = append(th.Frames, f)
					}
				}
				x := w.New(k, map[string]uint64{"n": 3})
				th.Locals = []LocalSpec{{0, rootJavaFrame, x, "K"}}
				w.AddThread(th)
				w.SummaryWorld([]KV{{"os.name", "Linux"}}, 1700000000000, []Slot{{Props: []int{0}}}, nil)
				check(c, w, w.Dump())
			}}
			return []Space{groups, splits, move, merges, strides, lengths}
		}})

	register(&Property{ID: "C29", Level: "model_checking", Rule: "one state per (history of replacing, moving, removing and reporting)",
		Assume: []string{"a dump taken at another time has another time stamp"},
		Spaces: func(thorough bool) []Space {
			// the dumps: other contents, other time; the last one is the first one's content with another time
			dumps := func() []worldBytes {
				return cached("C29", func() []worldBytes {
					var r []worldBytes
					add := func(w *World) { r = append(r, worldBytes{w, w.Bytes()}) }
					add(standard(8, stdTS))
					w := standard(8, stdTS+1)
					w.AddThread(&Thread{Name: "extra", Coder: -1, TID: 99, Prio: 2, Status: 5})
					w.New(w.Class("Extra", w.C("java/lang/Object")), nil)
					add(w)
					add(standard(4, stdTS+86400000))
					w = standard(8, stdTS+1000)
					w.Threads[0].Name = "main" // same sizes and offsets, but another priority
					add(prio(w, 9))
					add(standardOf(8, stdTS+2, "Mine", "mine")) // same sizes and offsets, but other names
					return r
				})
			}
			cmds := basicCmds("")
			report := func(c *Ctx, s *Sys, file string, at int, k Cmd, hist string) {
				k.File = file
				r := s.Do(k)
				if r.Crash != "" {
					c.Fail("%s: %v", hist, r)
				}
				if at < 0 {
					if err := r.rejected(); err != nil {
						c.Fail("%s: no dump: %v", hist, err)
					}
					return
				}
				if r.Code != 0 {
					if err := r.rejected(); err != nil {
						c.Fail("%s: %v", hist, err)
					}
					return
				}
				if err := dumps()[at].w.expect(k, r); err != nil {
					c.Fail("%s: %v", hist, err)
				}
			}
			historiesOf := func(name string, depth int) Space {
				return Space{Name: name, Real: true, RealEvery: 2000, Fn: func(c *Ctx) {
					ds := dumps()
					s := c.Sys()
					s.Put("x", ds[0].b)
					at := map[string]int{"x": 0, "y": -1}
					kcmd := c.Choose(3)
					report(c, s, "x", 0, cmds[kcmd], "first")
					hist := fmt.Sprint(cmds[kcmd].Sub, " x;")
					names := []string{"x", "y"}
					for i := 0; i < depth; i++ {
						a := c.Choose(2*len(ds) + 8)
						switch {
						case a < 2*len(ds):
							n, d := names[a%2], a/2
							if at[n] == d {
								c.Skip()
							}
							s.Put(n, ds[d].b)
							at[n] = d
							hist += fmt.Sprintf(" put %d at %s;", d, n)
						case a < 2*len(ds)+2: // move the dump only
							n, m := names[a%2], names[1-a%2]
							if at[n] < 0 {
								c.Skip()
							}
							s.Move(n, m)
							at[m], at[n] = at[n], -1
							hist += fmt.Sprintf(" move %s to %s;", n, m)
						case a < 2*len(ds)+4: // move the index
							n, m := names[a%2], names[1-a%2]
							if !s.has(n + ".db/") {
								c.Skip()
							}
							s.Remove(m + ".db")
							s.Move(n+".db", m+".db")
							hist += fmt.Sprintf(" move %s.db to %s.db;", n, m)
						case a < 2*len(ds)+6:
							n := names[a%2]
							if !s.has(n + ".db/") {
								c.Skip()
							}
							s.Remove(n + ".db")
							hist += fmt.Sprintf(" remove %s.db;", n)
						default:
							n := names[a%2]
							report(c, s, n, at[n], cmds[(kcmd+i)%3], hist)
							hist += fmt.Sprintf(" report on %s;", n)
						}
						if i == 0 || !c.real {
							if i == 0 {
								c.State(hist)
							} else if i < depth-1 {
								c.State(fmt.Sprint(kcmd, " step ", i, " ", s.hash()))
								c.key = hist
							}
						}
					}
					c.sample = hist
					for _, n := range names {
						for _, k := range cmds {
							report(c, s, n, at[n], k, hist)
						}
					}
				}}
			}
			during := Space{Name: "replaced-during-a-run", Fn: func(c *Ctx) {
				ds := dumps()
				from, to, indexed, k := c.Choose(len(ds)), c.Choose(len(ds)), c.Bool(), Pick(c, cmds)
				if from == to {
					c.Skip()
				}
				k.File = "x"
				c.State(fmt.Sprint("dump ", from, " replaced by ", to, " indexed ", indexed, " ", k))
				s := c.Sys()
				s.Put("x", ds[from].b)
				if indexed {
					s.Do(Cmd{Sub: "objects", File: "x"})
				}
				ops := recordOps(s.Fork(), k)
				at := c.Choose(len(ops))
				c.State(fmt.Sprint("dump ", from, " replaced by ", to, " indexed ", indexed, " ", k, " before operation ", at))
				s.Put("new", ds[to].b)
				s.hooked(func(o *verifos.Op) verifos.Answer {
					if o.Idx == ops[at].Idx {
						s.Move("new", "x")
					}
					return verifos.Answer{}
				})
				r := s.Do(k)
				s.unhooked()
				if r.Crash == "" && r.Code == 0 {
					if err := ds[from].w.expect(k, r); err != nil {
						if err2 := ds[to].w.expect(k, r); err2 != nil {
							c.Fail("a report of neither dump: %v / %v", err, err2)
						}
					}
				} else if err := r.rejected(); err != nil {
					c.Fail("%v", err)
				}
				for _, k := range cmds {
					report(c, s, "x", to, k, "afterwards")
				}
			}}
			stamps := Space{Name: "time-stamps", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				// only the time and the contents differ; the time differs in one bit
				ids, bit := Pick(c, idSizes), c.Choose(43)
				k := Pick(c, cmds)
				c.State(fmt.Sprint("ids ", ids, " bit ", bit, " ", k))
				a, b := standard(ids, stdTS), prio(standard(ids, stdTS^1<<bit), 9)
				b.JString("more")
				s := c.Sys()
				k.File = "x"
				s.Put("x", a.Bytes())
				c.must(a, s, k, "")
				s.Put("x", b.Bytes())
				for _, k := range cmds {
					k.File = "x"
					r := s.Do(k)
					if r.Crash == "" && r.Code == 0 {
						c.Check(b.expect(k, r), "after the replacement")
					} else {
						c.Check(r.rejected(), "after the replacement")
					}
				}
			}}
			sp := []Space{stamps, historiesOf("short-histories", 3), during}
			if thorough {
				return append(sp, historiesOf("histories", 6))
			}
			return append(sp, historiesOf("histories", 4))
		}})
}

func prio(w *World, p int32) *World {
	t := w.Threads[0]
	t.Prio = p
	for _, r := range w.objs {
		if in, ok := r.(Inst); ok && in.ID == t.Obj {
			slots, _ := t.Cls.slots()
			for i, f := range slots {
				if f.Name == "priority" {
					in.Vals[i].U = uint64(p)
				}
			}
		}
	}
	return w
}

func (s *Sys) has(name string) bool {
	for _, p := range s.List() {
		if p == name {
			return true
		}
	}
	return false
}

func (s *Sys) hash() string {
	h := fnv.New64a()
	for _, p := range s.List() {
		b, _ := s.Get(p)
		fmt.Fprintf(h, "%s %d %s\n", p, len(b), b)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func recordOps(s *Sys, k Cmd) (ops []verifos.Op) {
	s.hooked(func(o *verifos.Op) verifos.Answer { ops = append(ops, *o); return verifos.Answer{} })
	s.Do(k)
	return
}

// ascending tells whether the ids of each kind of objects ascend.
func ascending(recs []Rec) bool {
	var last [3]uint64
	for _, r := range recs {
		k := 0
		switch r.(type) {
		case Inst:
		case OArr:
			k = 1
		case PArr:
			k = 2
		default:
			continue
		}
		if objID(r) < last[k] {
			return false
		}
		last[k] = objID(r)
	}
	return true
}

// sortObjects puts the objects of each kind in ascending order, using the places they have.
func sortObjects(recs []Rec) {
	for k := 0; k < 3; k++ {
		var at []int
		var xs []Rec
		for i, r := range recs {
			ok := false
			switch r.(type) {
			case Inst:
				ok = k == 0
			case OArr:
				ok = k == 1
			case PArr:
				ok = k == 2
			}
			if ok {
				at, xs = append(at, i), append(xs, r)
			}
		}
		sort.SliceStable(xs, func(i, j int) bool { return objID(xs[i]) < objID(xs[j]) })
		for i, p := range at {
			recs[p] = xs[i]
		}
	}
}

// smallWorld has one or two of everything.
func smallWorld(ids int) *World {
	w := newWorld(ids, stdTS).Core()
	k := w.Class("K", w.C("java/lang/Object"), F{"n", tInt})
	f := &FrameSpec{Class: k, Method: "f", Desc: "()V", File: "K.java", Line: 6}
	x := w.New(k, map[string]uint64{"n": 3})
	a := w.Array(w.arrayOf("[LK;"), []uint64{x})
	lock := w.New(w.C("java/lang/Object"), nil)
	w.Prim(tLong, nil)
	w.Array(w.arrayOf("[Ljava/lang/Object;"), nil)
	e := w.Class("E", k)
	e.rec.Statics = []Static{{w.Str("s"), Val{tObj, lock}}, {w.Str("i"), Val{tInt, 5}}}
	e.rec.CPs = []CP{{3, Val{tLong, 7}}}
	w.AddThread(&Thread{Name: "t", Coder: 0, TID: 2, Prio: 5, Status: 5, Frames: []*FrameSpec{f}, Locals: []LocalSpec{{0, rootJavaFrame, a, "K[]"}, {0, rootJavaFrame, lock, "java.lang.Object"}}})
	w.AddThread(&Thread{Name: "u", Coder: 1, TID: 1, Prio: 4, Status: 0x191, Frames: []*FrameSpec{f, f}})
	w.roots = append(w.roots, Root{Type: rootSticky, Obj: k.ID}, Root{Type: rootNativeStack, Obj: x, A: 1})
	w.SummaryWorld([]KV{{"os.name", "Linux"}, {"a", "b"}}, 1700000000000, []Slot{{Props: []int{0, 1}}}, nil)
	return w
}

// numberings are ascending ways to number things; base is the order of the thing, from 1.
func numberings(ids int) []func(i uint64) uint64 {
	r := []func(uint64) uint64{
		func(i uint64) uint64 { return i },
		func(i uint64) uint64 { return 0x70000000 + i*4099 },
		func(i uint64) uint64 { return 0x7fffff80 + i*8 },
		func(i uint64) uint64 { return 0xffffffff - 0x10000 + i*7 },
		func(i uint64) uint64 { return i << 16 },
	}
	if ids == 8 {
		r = append(r,
			func(i uint64) uint64 { return i<<32 + 5 },
			func(i uint64) uint64 { return 0xffffff00 + i*8 },
			func(i uint64) uint64 { return 1<<63 - 0x100 + i*8 },
			func(i uint64) uint64 { return 0xffffffffffff0000 + i*9 },
			func(i uint64) uint64 { return i<<48 | 0xffff })
	}
	return r
}

// renumber gives objects, classes, strings and frames other numbers; choice len(numberings) is
// descending.
func renumber(recs []Rec, ids, o, k, s, f, ser int) []Rec {
	ns := numberings(ids)
	var objs, classes, strs, frames []uint64
	for _, r := range recs {
		switch r := r.(type) {
		case Utf8:
			strs = append(strs, r.ID)
		case Load:
			classes = append(classes, r.Class)
		case Frame:
			frames = append(frames, r.ID)
		case Inst, OArr, PArr:
			objs = append(objs, objID(r))
		}
	}
	used := map[uint64]bool{}
	number := func(xs []uint64, choice int, exclusive bool) map[uint64]uint64 {
		xs = append([]uint64(nil), xs...)
		sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
		m := map[uint64]uint64{0: 0}
		n := uint64(0)
		next := func() uint64 {
			for {
				n++
				v := ns[choice%len(ns)](n)
				if !exclusive || !used[v] {
					return v
				}
			}
		}
		var vs []uint64
		var keys []uint64
		for i, x := range xs {
			if i > 0 && x == xs[i-1] {
				continue
			}
			keys = append(keys, x)
			vs = append(vs, next())
		}
		for i, x := range keys {
			v := vs[i]
			if choice >= len(ns) {
				v = vs[len(vs)-1-i]
			}
			m[x] = v
			if exclusive {
				used[v] = true
			}
		}
		return m
	}
	mo := number(objs, o, true)
	mk := number(classes, k, true) // classes are objects, too
	ms, mf := number(strs, s, false), number(frames, f, false)
	return mapIDs(recs, mo, mk, ms, mf, func(x uint32) uint32 {
		switch {
		case x == 0:
			return 0
		case ser == 1:
			return x + 0x7ffffff0
		case ser == 2:
			return -x
		}
		return x
	})
}

// mapIDs replaces the identifiers of objects, classes, strings and frames, and the serial numbers.
func mapIDs(recs []Rec, mo, mk, ms, mf map[uint64]uint64, serial func(uint32) uint32) []Rec {
	obj := func(x uint64) uint64 {
		if v, ok := mo[x]; ok {
			return v
		}
		if v, ok := mk[x]; ok {
			return v
		}
		return x
	}
	str := func(x uint64) uint64 {
		if v, ok := ms[x]; ok {
			return v
		}
		return x
	}
	val := func(v Val) Val {
		if v.T == tObj {
			v.U = obj(v.U)
		}
		return v
	}
	var out []Rec
	for _, r := range recs {
		switch x := r.(type) {
		case Utf8:
			x.ID = ms[x.ID]
			r = x
		case Load:
			x.Class, x.Name, x.Serial = mk[x.Class], str(x.Name), serial(x.Serial)
			r = x
		case Frame:
			x.ID, x.Method, x.Sig, x.File, x.Class = mf[x.ID], str(x.Method), str(x.Sig), str(x.File), serial(x.Class)
			r = x
		case Trace:
			x.Serial, x.Thread = serial(x.Serial), serial(x.Thread)
			x.Frames = append([]uint64(nil), x.Frames...)
			for i := range x.Frames {
				x.Frames[i] = mf[x.Frames[i]]
			}
			r = x
		case Class:
			x.ID, x.Super = mk[x.ID], mk[x.Super]
			x.Statics = append([]Static(nil), x.Statics...)
			for i := range x.Statics {
				x.Statics[i] = Static{str(x.Statics[i].Name), val(x.Statics[i].V)}
			}
			x.Fields = append([]Field(nil), x.Fields...)
			for i := range x.Fields {
				x.Fields[i].Name = str(x.Fields[i].Name)
			}
			r = x
		case Root:
			x.Obj = obj(x.Obj)
			if x.Type == rootJniLocal || x.Type == rootJavaFrame {
				x.A = serial(x.A)
			}
			if x.Type == rootThreadObj {
				x.A, x.B = serial(x.A), serial(x.B)
			}
			r = x
		case Inst:
			x.ID, x.Class = mo[x.ID], mk[x.Class]
			x.Vals = append([]Val(nil), x.Vals...)
			for i := range x.Vals {
				x.Vals[i] = val(x.Vals[i])
			}
			r = x
		case OArr:
			x.ID, x.Class = mo[x.ID], mk[x.Class]
			x.Elems = append([]uint64(nil), x.Elems...)
			for i := range x.Elems {
				x.Elems[i] = obj(x.Elems[i])
			}
			r = x
		case PArr:
			x.ID = mo[x.ID]
			r = x
		}
		out = append(out, r)
	}
	return out
}

// ansiFields leaves only what does not depend on the size of references.
func ansiFields(out, what string) (r []string) {
	for _, l := range strings.Split(ansi.ReplaceAllString(out, ""), "\n") {
		if what == "heap" {
			if !strings.Contains(l, "Heap Size") && !sizeLine(l) {
				r = append(r, l)
			}
			continue
		}
		if f := strings.Split(l, "|"); len(f) > 2 {
			r = append(r, strings.TrimSpace(f[0])+"|"+strings.TrimSpace(f[1]))
		}
	}
	return
}

func sizeLine(l string) bool {
	l = strings.TrimSpace(l)
	l = strings.TrimSuffix(strings.TrimPrefix(l, "<td>"), "</td>")
	return len(l) > 1 && strings.Trim(l, "0123456789") != "" && strings.Trim(l, "0123456789BKMG") == ""
}

// distances places two things of a kind every power of two apart: reports do not depend on it. All pairs
// of one kind (strings, classes, frames, instances, object arrays, primitive arrays) are tried, or neighbours only.
func distances(thorough bool, which []int, all bool, cmds ...Cmd) Space {
	return Space{Name: "distances", Real: true, RealEvery: 1000, Fn: func(c *Ctx) {
		ids := Pick(c, idSizes)
		x := cached(fmt.Sprint("C22 small ", ids), func() *World {
			w := smallWorld(ids)
			a, b := w.Class("app/A", w.C("K"), F{"l", tLong}), w.Class("app/B", w.C("java/lang/Object"))
			w.New(a, nil)
			x := w.New(b, nil)
			w.New(b, nil)
			w.Prim(tInt, make([]byte, 8))
			w.Array(w.arrayOf("[Lapp/B;"), []uint64{x, 0})
			g := &FrameSpec{Class: a, Method: "g", Desc: "(Lapp/B;)V", File: "A.java", Line: 7}
			h := &FrameSpec{Class: b, Method: "h", Desc: "()I", File: "B.java", Line: 8}
			w.AddThread(&Thread{Name: "v", Coder: 0, TID: 3, Prio: 1, Status: 5, Frames: []*FrameSpec{g, h, g}, Locals: []LocalSpec{{1, rootJavaFrame, x, "app.B"}}})
			return w
		})
		recs := x.Dump().Recs
		kinds := [][]uint64{nil, nil, nil, nil, nil, nil}
		for _, r := range recs {
			switch r := r.(type) {
			case Utf8:
				kinds[0] = append(kinds[0], r.ID)
			case Load:
				kinds[1] = append(kinds[1], r.Class)
			case Frame:
				kinds[2] = append(kinds[2], r.ID)
			case Inst:
				kinds[3] = append(kinds[3], r.ID)
			case OArr:
				kinds[4] = append(kinds[4], r.ID)
			case PArr:
				kinds[5] = append(kinds[5], r.ID)
			}
		}
		kind := Pick(c, which)
		n := len(kinds[kind])
		i := c.Choose(n)
		j := c.Choose(n)
		if i > j || !all && j > i+1 {
			c.Skip()
		}
		if i == j { // the thing alone, at the place of an extreme number
			extremes(c, x, recs, kinds, ids, kind, i, cmds)
			return
		}
		a, b := kinds[kind][i], kinds[kind][j]
		k := c.Choose(8 * ids)
		if a > b || 1<<k <= b-a {
			c.Skip()
		}
		if kind == 0 && !thorough && k%8 != 0 && k%8 != 7 {
			c.Skip()
		}
		// all identifiers of the space from b on move up, so that b is a + 2^k
		shift := a + 1<<k - b
		m := map[uint64]uint64{0: 0}
		same := map[uint64]uint64{0: 0}
		fits := true
		for l, ids2 := range kinds {
			for _, id := range ids2 {
				same[id] = id
				if l == kind || kind != 0 && kind != 2 && l != 0 && l != 2 {
					m[id] = id
					if id >= b {
						m[id] = id + shift
						fits = fits && m[id] > id && m[id]>>(8*ids-1)>>1 == 0
					}
				}
			}
		}
		if !fits {
			c.Skip()
		}
		c.State(fmt.Sprint("ids ", ids, " kind ", kind, " ", i, " and ", j, " 2^", k, " apart"))
		mo, mk, ms, mf := same, same, same, same
		switch kind {
		case 0:
			ms = m
		case 2:
			mf = m
		default:
			mo, mk = m, m
		}
		d := x.Dump()
		d.Recs = mapIDs(recs, mo, mk, ms, mf, func(s uint32) uint32 { return s })
		sy := c.Sys()
		sy.Put("x.hprof", d.Bytes())
		for _, k := range cmds {
			c.must(x, sy, k, "")
		}
	}}
}

// extremes gives one thing an extreme number; the others keep their order around it.
func extremes(c *Ctx, x *World, recs []Rec, kinds [][]uint64, ids, kind, i int, cmds []Cmd) {
	pool := []uint64{1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 1<<24 - 1, 1 << 24, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}
	if ids == 8 {
		pool = append(pool, 1<<32, 1<<32+1, 1<<48-1, 1<<48, 1<<53, 1<<53+1, 1<<63-2, 1<<63-1, 1<<63, 1<<63+1, 1<<64-3, 1<<64-2, 1<<64-1)
	}
	v := Pick(c, pool)
	// the numbers of the space, in order
	var all []uint64
	for l, ids2 := range kinds {
		if l == kind || kind != 0 && kind != 2 && l != 0 && l != 2 {
			all = append(all, ids2...)
		}
	}
	slices.Sort(all)
	all = slices.Compact(all)
	at := slices.Index(all, kinds[kind][i])
	if uint64(at) >= v {
		c.Skip() // no room below
	}
	top := ^uint64(0) >> (64 - 8*ids)
	if uint64(len(all)-1-at) > top-v {
		c.Skip()
	}
	c.State(fmt.Sprint("ids ", ids, " kind ", kind, " ", i, " is number ", v))
	m, same := map[uint64]uint64{0: 0}, map[uint64]uint64{0: 0}
	for _, ids2 := range kinds {
		for _, id := range ids2 {
			same[id] = id
			m[id] = id
		}
	}
	for k, id := range all {
		m[id] = v + uint64(k) - uint64(at)
	}
	mo, mk, ms, mf := same, same, same, same
	switch kind {
	case 0:
		ms = m
	case 2:
		mf = m
	default:
		mo, mk = m, m
	}
	d := x.Dump()
	d.Recs = mapIDs(recs, mo, mk, ms, mf, func(s uint32) uint32 { return s })
	sy := c.Sys()
	sy.Put("x.hprof", d.Bytes())
	for _, k := range cmds {
		c.must(x, sy, k, "")
	}
}
