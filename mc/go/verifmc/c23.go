package main

import (
	"fmt"
	"strings"
)

// C23: descriptors, C24: markup, C25: forms of the output.

// framesWorld shows the frames, a hundred per thread.
func framesWorld(ids int, fs []*FrameSpec) *World {
	w := coreWorld(ids)
	for i := 0; i < len(fs); i += 100 {
		w.AddThread(&Thread{Name: fmt.Sprint("t", i), Coder: 0, TID: int64(i + 1), Prio: 5, Status: 5, Frames: fs[i:min(len(fs), i+100)]})
	}
	return w
}

type jtype struct{ desc, text string }

func jtypes(bases []jtype, dims int) (r []jtype) {
	for d := 0; d <= dims; d++ {
		for _, b := range bases {
			r = append(r, jtype{strings.Repeat("[", d) + b.desc, b.text + strings.Repeat("[]", d)})
		}
	}
	return
}

var baseTypes = []jtype{{"B", "byte"}, {"C", "char"}, {"D", "double"}, {"F", "float"}, {"I", "int"}, {"J", "long"}, {"S", "short"}, {"Z", "boolean"},
	{"LX;", "X"}, {"La/b/C$D;", "a.b.C$D"}}

func className(s string) string {
	return strings.Trim(strings.NewReplacer(";", "", "[", "", "\x00", "").Replace(s), "/")
}

// page is a world with a text at every place reports show one.
func page(ids int, texts func(i int) string) *World {
	w := coreWorld(ids)
	k := w.Class("k/"+className(texts(0)), w.C("java/lang/Object"))
	arg := "k/a" + className(texts(1))
	f := &FrameSpec{Class: k, Method: texts(2), Desc: "(L" + arg + ";)L" + arg + "r;", Args: []string{strings.ReplaceAll(arg, "/", ".")}, Ret: strings.ReplaceAll(arg, "/", ".") + "r", File: "F" + texts(3), Line: 3}
	lc := w.Class("l/"+className(texts(4)), w.C("java/lang/Object"))
	x, y := w.New(lc, nil), w.Array(w.arrayOf("[L"+lc.Name+";"), nil)
	ls := strings.ReplaceAll(lc.Name, "/", ".")
	w.AddThread(&Thread{Name: texts(5), Coder: 1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f}, Locals: []LocalSpec{{0, rootJavaFrame, x, ls}, {0, rootJavaFrame, y, ls + "[]"}, {0, rootJniLocal, lc.ID, "class " + ls}}})
	props := []KV{{"0" + texts(6), "v"}, {"1", texts(7)}}
	for i, p := range envProps {
		props = append(props, KV{p.K, texts(8 + i)})
	}
	return w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), func(int) (int, int) { return 1, 1 })
}

func init() {
	register(&Property{ID: "C23", Level: "model_checking", Rule: "one state per group of descriptors or class names shown in one dump",
		Assume: []string{"descriptors are well-formed"},
		Spaces: func(thorough bool) []Space {
			all := jtypes(baseTypes, 2)
			rets := append(append([]jtype(nil), all...), jtype{"V", "void"})
			third := jtypes([]jtype{{"I", "int"}, {"La/V;", "a.V"}, {"Z", "boolean"}}, 1)
			methods := Space{Name: "method-descriptors", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				// every descriptor of up to three arguments
				r, k := Pick(c, rets), c.Choose(len(all)+1)
				more := []jtype{{}}
				if k < len(all) {
					if thorough {
						more = append(more, all...)
					} else {
						more = append(more, third...)
					}
				}
				var l int
				if k < len(all) {
					l = c.Choose(len(all) + 1)
				}
				c.State(fmt.Sprint("return ", r.text, " first ", k, " second ", l))
				var fs []*FrameSpec
				add := func(args ...jtype) {
					f := &FrameSpec{Method: "m", Ret: r.text}
					d := ""
					for _, a := range args {
						d += a.desc
						f.Args = append(f.Args, a.text)
					}
					f.Desc = "(" + d + ")" + r.desc
					fs = append(fs, f)
				}
				switch {
				case k == len(all):
					add()
				case l == len(all):
					add(all[k])
				default:
					for _, m := range more {
						if m.desc == "" {
							add(all[k], all[l])
						} else {
							add(all[k], all[l], m)
						}
					}
				}
				c.verify(framesWorld(4, fs), Cmd{Sub: "threads"}, Cmd{Sub: "threads", Html: l%2 == 0, Color: l%2 == 1})
			}}
			counts := Space{Name: "many-arguments", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				n, t, r := c.Choose(256), Pick(c, append(baseTypes, jtype{"[[I", "int[][]"}, jtype{"[LI;", "I[]"})), Pick(c, rets[len(rets)-6:])
				c.State(fmt.Sprint(n, " arguments ", t.text, " return ", r.text))
				f := &FrameSpec{Method: "m", Ret: r.text, Desc: "(" + strings.Repeat(t.desc, n) + ")" + r.desc}
				for i := 0; i < n; i++ {
					f.Args = append(f.Args, t.text)
				}
				c.verify(framesWorld(8, []*FrameSpec{f}), Cmd{Sub: "threads"})
			}}
			dims := Space{Name: "dimensions", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				n, t := 1+c.Choose(255), Pick(c, baseTypes)
				c.State(fmt.Sprint(n, " dimensions of ", t.text))
				x := jtype{strings.Repeat("[", n) + t.desc, t.text + strings.Repeat("[]", n)}
				fs := []*FrameSpec{{Method: "a", Ret: x.text, Desc: "()" + x.desc}, {Method: "b", Ret: "void", Args: []string{x.text, "int", x.text}, Desc: "(" + x.desc + "I" + x.desc + ")V"}}
				w := framesWorld(8, fs)
				if len(x.desc) > 2 {
					arr := w.Array(w.arrayOf(x.desc), []uint64{0})
					w.roots = append(w.roots, Root{Type: rootJavaFrame, Obj: arr, A: 1, B: 0})
					w.Threads[0].Locals = append(w.Threads[0].Locals, LocalSpec{0, rootJavaFrame, arr, x.text})
				}
				c.verify(w, Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "objects"})
			}}
			// all characters a class name may have, at every place a class name is shown
			chars := Space{Name: "class-name-characters", Real: true, RealEvery: 60, Fn: func(c *Ctx) {
				k := c.Choose(0x1100)
				ids, form, plain := idSizes[k%2], k%3, false
				if k < 0x100 {
					ids, form = Pick(c, idSizes), c.Choose(3)
				} else {
					if !thorough && k%8 != 0 && k%256 != 255 {
						c.Skip()
					}
					plain = c.Bool()
				}
				c.State(fmt.Sprintf("characters from %#x form %d ids %d utf8 %v", k<<8, form, ids, plain))
				var fs []*FrameSpec
				w := coreWorld(ids)
				w.Utf8 = plain
				t := &Thread{Name: "t", Coder: 0, TID: 1, Prio: 5, Status: 5}
				lo, hi := rune(k<<8), rune(k<<8)+256
				for i, r := range []rune(runes(lo, hi)) {
					if strings.ContainsRune(".;[/", r) {
						continue
					}
					name := []string{"p/x" + string(r) + "y", string(r), "p/" + string(r) + "/" + string(r)}[form]
					shown := strings.ReplaceAll(name, "/", ".")
					kc := w.Class(name, w.C("java/lang/Object"))
					f := &FrameSpec{Class: kc, Method: "m", Desc: "(L" + name + ";I)[L" + name + ";", Args: []string{shown, "int"}, Ret: shown + "[]"}
					fs = append(fs, f)
					at := len(fs) - 1
					switch i % 3 {
					case 0:
						x := w.New(kc, nil)
						t.Locals = append(t.Locals, LocalSpec{at, rootJavaFrame, x, shown})
					case 1:
						x := w.Array(w.arrayOf("[L"+name+";"), []uint64{0})
						t.Locals = append(t.Locals, LocalSpec{at, rootJniLocal, x, shown + "[]"})
					case 2:
						t.Locals = append(t.Locals, LocalSpec{at, rootJniLocal, kc.ID, "class " + shown})
						w.Array(w.arrayOf("[[L"+name+";"), []uint64{0})
					}
				}
				t.Frames = fs
				w.AddThread(t)
				c.verify(w, Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "objects"}, Cmd{Sub: "threads", Locals: true, Html: true})
			}}
			// class names that look like descriptors
			words := []string{"I", "V", "L", "Z", "(", ")", "a", "/", "$", "-", " ", "class", "int"}
			names := Space{Name: "class-name-words", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				name := ""
				n := 3
				if thorough {
					n = 4
				}
				for i := 0; i < n; i++ {
					k := c.Choose(len(words) + 1)
					if k == len(words) {
						break
					}
					name += words[k]
				}
				if name == "" || strings.HasPrefix(name, "/") || strings.HasSuffix(name, "/") || strings.Contains(name, "//") || strings.HasPrefix(name, "class ") {
					c.Skip()
				}
				c.State("name " + name)
				shown := strings.ReplaceAll(name, "/", ".")
				w := coreWorld(8)
				kc := w.Class(name, w.C("java/lang/Object"))
				f := &FrameSpec{Class: kc, Method: "m", Desc: "(IL" + name + ";[L" + name + ";J)L" + name + ";", Args: []string{"int", shown, shown + "[]", "long"}, Ret: shown}
				x, y := w.New(kc, nil), w.Array(w.arrayOf("[L"+name+";"), nil)
				w.AddThread(&Thread{Name: "t", Coder: 0, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f, f}, Locals: []LocalSpec{{0, rootJavaFrame, x, shown}, {0, rootJavaFrame, y, shown + "[]"}, {1, rootJavaFrame, kc.ID, "class " + shown}}})
				c.verify(w, Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "objects"})
			}}
			return []Space{methods, counts, dims, chars, names, jvmClassNames(Cmd{Sub: "threads", Locals: true}, Cmd{Sub: "objects"}), descriptors(Cmd{Sub: "threads"}, Cmd{Sub: "threads", Html: true})}
		}})

	// markup: the texts at every place
	pageCmds := []Cmd{{Sub: "threads", Locals: true, Html: true}, {Sub: "summary", AllProps: true, Html: true}, {Sub: "objects", Html: true}, {Sub: "summary", Html: true}, {Sub: "threads", Html: true}}
	checkPage := func(c *Ctx, text string, only int) {
		benign := func(int) string { return "x" }
		hostile := func(i int) string {
			if only >= 0 && i != only {
				return "x"
			}
			return text
		}
		s, b := c.Sys(), c.Sys()
		w := page(8, hostile)
		s.Put("x.hprof", w.Bytes())
		b.Put("x.hprof", cached("C24", func() []byte { return page(8, benign).Bytes() }))
		for i, k := range pageCmds {
			if only >= 0 && i > 2 {
				break
			}
			k.File = "x.hprof"
			r := c.must(w, s, k, "")
			p, _ := parseHTML(r.Out)
			br := b.Do(k)
			q, err := parseHTML(br.Out)
			c.Check(err, "the page without markup")
			if x, y := strings.Join(p.structure, "\n"), strings.Join(q.structure, "\n"); x != y {
				c.Fail("%s: the texts changed the structure of the page: %q", k, head(r.Out, 1500))
			}
			// white space inside the texts is as in the dump
			if norm := strings.TrimSpace(text); only < 0 && norm != "" && k.Sub != "objects" {
				if !strings.Contains(strings.Join(p.raw, "\x00"), norm) {
					c.Fail("%s: the page does not have the text %q: %q", k, text, head(r.Out, 1500))
				}
			}
		}
	}
	register(&Property{ID: "C24", Level: "model_checking", Rule: "one state per (text from the dump, places it appears at)",
		Assume: []string{"NUL characters are left out", "a class name in a descriptor has no ; or ["},
		Spaces: func(thorough bool) []Space {
			payloads := []string{"<script>alert(1)</script>", "</script>", "<img src=x onerror=alert(1)>", "</p>", "</td></tr></table>", "</style><script>x</script>", "<!--", "-->", "<![CDATA[x]]>", "&lt;b&gt;", "&amp;", "&#60;b&#62;", "&#x3c;", "&copy", "&notin", "\" onclick=\"x", "' onclick='x", "`", "{{.Title}}", "{{range}}", "javascript:alert(1)", "<b", "b>", "<", ">", "&", "\"", "'", "=", "<a href='x'>", "<svg/onload=x>", "<\tb>", "\u2028", "\u00a0", "\ufeff<b>", "＜b＞", "<p>", "<h1>", "%3Cb%3E", "\\u003cb\\u003e", "<?php ?>", "<%= %>", "+ADw-script+AD4-", "a<b>c</b>d", "<br>", "<br/>", "<b>x</b", "<template>", "<plaintext>", "<title>", "&;", "&&amp;", "&#", "]]>", "<b\n>", "\x1b[31m", "\x01", "\x7f", "<>", "</>", "a--b", "$&"}
			places := Space{Name: "places", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				p, at := Pick(c, payloads), c.Choose(17)-1
				c.State(fmt.Sprintf("%q at %d", p, at))
				checkPage(c, p, at)
			}}
			alphabet := []string{"<", ">", "&", "\"", "'", "/", "!", "-", "b", "=", "`", " ", "#"}
			n := 3
			if thorough {
				n = 4
			}
			words := Space{Name: "words", Real: true, RealEvery: 500, Fn: func(c *Ctx) {
				s := ""
				for i := 0; i < n; i++ {
					k := c.Choose(len(alphabet) + 1)
					if k == len(alphabet) {
						break
					}
					s += alphabet[k]
				}
				c.State(fmt.Sprintf("%q", s))
				checkPage(c, s, -1)
			}}
			chars := Space{Name: "characters", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				k := c.Choose(0x1000)
				c.State(fmt.Sprintf("characters from %#x", k*16))
				s := runes(rune(k*16), rune(k*16)+16)
				if k < 16 {
					// one by one
					for _, r := range s {
						checkPage(c, "a"+string(r)+"b", -1)
						checkPage(c, string(r), -1)
					}
				}
				checkPage(c, "a"+s+"b", -1)
			}}
			structured := Space{Name: "structured-texts", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				f, p := Pick(c, textForms), Pick(c, payloads)
				c.State(fmt.Sprintf("%q in %q", p, f))
				checkPage(c, form(f, p), -1)
			}}
			known := knownProperties("known-properties", payloads, func(c *Ctx, w *World, text string) {
				s, b := c.Sys(), c.Sys()
				s.Put("x.hprof", w.Bytes())
				b.Put("x.hprof", keysWorld(w.IDSize, "x").Bytes())
				for _, k := range []Cmd{{Sub: "summary", AllProps: true, Html: true}, {Sub: "summary", Html: true}} {
					k.File = "x.hprof"
					p, _ := parseHTML(c.must(w, s, k, "").Out)
					q, err := parseHTML(b.Do(k).Out)
					c.Check(err, "the page without markup")
					if strings.Join(p.structure, "\n") != strings.Join(q.structure, "\n") {
						c.Fail("%s: the values %q changed the structure of the page", k, text)
					}
				}
			})
			return []Space{places, words, chars, structured, known}
		}})

	register(&Property{ID: "C25", Level: "model_checking", Rule: "one state per (dump, sub-command and options)",
		Assume: []string{"texts of the dump have no escape characters"},
		Spaces: func(thorough bool) []Space {
			sameText := func(c *Ctx, w *World, cmds ...Cmd) {
				s := c.Sys()
				s.Put("x.hprof", w.Bytes())
				for _, k := range cmds {
					k.File = "x.hprof"
					plain := c.must(w, s, k, "plain ").Out
					k.Color = true
					color := c.must(w, s, k, "coloured ").Out
					k.Html = true
					h := c.must(w, s, k, "HTML ").Out
					k.Color = false
					h2 := c.must(w, s, k, "HTML ").Out
					if strings.Contains(plain, "\x1b") {
						c.Fail("%s: escape sequences in the plain output: %q", k, head(plain, 500))
					}
					if strings.Contains(h, "\x1b") {
						c.Fail("%s: escape sequences in the HTML output: %q", k, head(h, 500))
					}
					if h != h2 {
						c.Fail("%s: the HTML output depends on the colour option", k)
					}
					a, b := trimLines(plain), trimLines(ansi.ReplaceAllString(color, ""))
					if a != b {
						c.Fail("%s: the coloured output without its codes is %q, the plain output %q", k, head(b, 900), head(a, 900))
					}
				}
			}
			six := sixCmds("")
			texts := []string{"", "a", "long " + strings.Repeat("x", 200), "Ключ", "日本語", strings.Repeat("日本", 20), strings.Repeat("ж", 13), "two\nlines", "  spaces  inside  ", "\ttab", "%d%s%%", "\\033[1m", "a|b", "<b>", "[1m", "quote\"'", "é", "😀", "- Heap", "m", "0m", "[0m"}
			contents := Space{Name: "texts", Real: true, RealEvery: 60, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				a, b, d := c.Choose(len(texts)), c.Choose(len(texts)), c.Choose(3)
				k := Pick(c, six)
				c.State(fmt.Sprintf("ids %d %q %q %d %s", ids, head(texts[a], 10), head(texts[b], 10), d, k))
				w := coreWorld(ids)
				cls := w.Class("k/"+className(texts[a])+"_", w.C("java/lang/Object"))
				w.New(cls, nil)
				x := w.Array(w.arrayOf("[Lk/"+className(texts[b])+"_;"), nil)
				f := &FrameSpec{Class: cls, Method: "m" + texts[b], Desc: "([J)V", File: "F" + texts[b], Line: []int32{-3, -1, 7}[d]}
				w.AddThread(&Thread{Name: texts[a], Coder: 1, TID: 2, Prio: 5, Daemon: d == 1, Status: 5, Frames: []*FrameSpec{f, {Method: "z", Desc: "()V"}}, Locals: []LocalSpec{{0, rootJavaFrame, x, "k." + strings.ReplaceAll(className(texts[b]), "/", ".") + "_[]"}}})
				w.AddThread(&Thread{Name: texts[b], Coder: 1, TID: 1, Prio: 5, Status: 0x401})
				props := append([]KV{{"p" + texts[a], texts[b]}, {"q", texts[a]}}, envProps...)
				props[2+d].V = texts[b]
				w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), func(int) (int, int) { return 1, 1 })
				sameText(c, w, k)
			}}
			sizes := []int{0, 1, 2, 3, 10, 50}
			shapes := Space{Name: "shapes", Real: true, RealEvery: 60, Fn: func(c *Ctx) {
				nt, nf, nl := Pick(c, sizes), Pick(c, []int{0, 1, 3}), Pick(c, []int{0, 1, 3})
				np, no := Pick(c, sizes), Pick(c, sizes)
				c.State(fmt.Sprint(nt, " threads ", nf, " frames ", nl, " locals ", np, " properties ", no, " classes"))
				w := coreWorld(8)
				for i := 0; i < nt; i++ {
					t := &Thread{Name: fmt.Sprint("t", i), Coder: 0, TID: int64(1 + i*10), Prio: int32(1 + i%10), Daemon: i%2 == 0, Status: stateNames[i%9].Status}
					for j := 0; j < nf; j++ {
						t.Frames = append(t.Frames, &FrameSpec{Method: fmt.Sprint("m", j), Desc: "(IJ)V", File: []string{"", "A.java"}[j%2], Line: int32(j - 2)})
						if j == 2 {
							t.Frames[j].Line = 77
						}
						for l := 0; l < nl; l++ {
							t.Locals = append(t.Locals, LocalSpec{j, rootJavaFrame, w.C("java/lang/Object").ID, "class java.lang.Object"})
						}
					}
					w.AddThread(t)
				}
				for i := 0; i < no; i++ {
					k := w.Class(fmt.Sprint("c/", strings.Repeat("N", i), i), w.C("java/lang/Object"))
					k.rec.InstSize = uint32(i * 1000)
					for j := 0; j <= i%4; j++ {
						w.New(k, nil)
					}
				}
				props := append([]KV(nil), envProps[:min(np, 8)]...)
				for i := len(props); i < np; i++ {
					props = append(props, KV{fmt.Sprint("p", i*i), strings.Repeat("v", i)})
				}
				w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
				sameText(c, w, six...)
			}}
			// how many of each, one kind after the other
			ns := []int{0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10000}
			counts := Space{Name: "counts", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				ids, n, what := Pick(c, idSizes), Pick(c, ns), c.Choose(8)
				c.State(fmt.Sprint("ids ", ids, " ", n, " of kind ", what))
				w := coreWorld(ids)
				obj := w.C("java/lang/Object")
				num := func(k int) int {
					if k == what {
						return n
					}
					return 2
				}
				for i := 0; i < num(0); i++ {
					t := &Thread{Name: fmt.Sprint("t", i, strings.Repeat("n", num(6))), Coder: 0, TID: int64(1 + i), Prio: 5, Status: 5}
					if i == 1 || i == num(0)-1 {
						for j := 0; j < num(1); j++ {
							t.Frames = append(t.Frames, &FrameSpec{Method: fmt.Sprint("m", j), Desc: "(IJ)V", File: "A.java", Line: int32(j + 1)})
						}
						for j := 0; j < num(2) && num(1) > 0; j++ {
							t.Locals = append(t.Locals, LocalSpec{j % 2 % num(1), rootJavaFrame, obj.ID, "class java.lang.Object"})
						}
					}
					w.AddThread(t)
				}
				for i := 0; i < num(3); i++ {
					w.New(w.Class(fmt.Sprint("c/C", i, strings.Repeat("N", num(7))), obj), nil)
				}
				props := append([]KV(nil), envProps...)
				for i := 0; i < num(4); i++ {
					props = append(props, KV{fmt.Sprint("p", i), strings.Repeat("v", num(5))})
				}
				props[0].V = strings.Repeat("os", num(5))
				w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
				sameText(c, w, six...)
			}}
			return []Space{contents, shapes, counts}
		}})
}

// trimLines removes the indentation.
func trimLines(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.Trim(ls[i], " \t\r")
	}
	return strings.Join(ls, "\n")
}
