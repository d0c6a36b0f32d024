package main

import (
	"fmt"
	"strings"
	"time"
)

// C15: system properties, C16: uptime.

// propsWorld is a JVM with the given properties.
func propsWorld(ids int, props []KV, slots []Slot) *World {
	w := newWorld(ids, stdTS).Core()
	return w.SummaryWorld(props, 1700000000000, slots, nil)
}

func summaryBoth(c *Ctx) []Cmd {
	return forms(Cmd{Sub: "summary", AllProps: true}, Cmd{Sub: "summary"})
}

func init() {
	register(&Property{ID: "C15", Level: "model_checking", Rule: "one state per (properties, layout of the hash table, identifier size)",
		Assume: []string{"JDK 9 or later layout (Properties.map is a ConcurrentHashMap)", "keys and values are strings"},
		Spaces: func(thorough bool) []Space {
			k := 4
			if thorough {
				k = 5
			}
			orders := [][]string{{"b.key", "a.key", "z", "m.n", "c"}, {"z", "y", "x", "w", "v"}, {"java.a", "java.b", "java.version.x", "zz", "os.name2"}}
			layouts := Space{Name: "layouts", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids, order := Pick(c, idSizes), c.Choose(len(orders))
				const T = 4
				slots := make([]Slot, T)
				props := append([]KV(nil), envProps...)
				var place []int
				for i := 0; i < k; i++ {
					at := c.Choose(T)
					place = append(place, at)
					slots[at].Props = append(slots[at].Props, len(props))
					props = append(props, KV{orders[order][i], fmt.Sprint("value ", i)})
				}
				trees := ""
				for i := range slots {
					if len(slots[i].Props) > 1 {
						slots[i].Tree = c.Bool()
						trees += fmt.Sprint(slots[i].Tree, " ")
					}
				}
				mode := c.Choose(3) // where the other properties are
				switch mode {
				case 0:
					slots = append(plainSlots(8), slots...)
				case 1: // chained behind
					for i := 0; i < 8; i++ {
						slots[i%T].Props = append(slots[i%T].Props, i)
					}
				case 2:
					for i := 0; i < 8; i++ {
						slots[i%T].Props = append([]int{i}, slots[i%T].Props...)
					}
					slots = append(slots, Slot{}, Slot{})
				}
				c.State(fmt.Sprint("ids ", ids, " order ", order, " slots ", place, " trees ", trees, " others ", mode))
				c.verify(propsWorld(ids, props, slots), summaryBoth(c)...)
			}}
			texts := []string{"", "a", " ", "  lead", "trail  ", "\n", "\t tab\t", "a b  c", "line1\nline2", "a=b", "a: b", "ключ", "日本", "😀", "ÿ", "-x", "%s%d", "\\n", "<b>&amp;", "\"q\"", "'", strings.Repeat("x", 300), "Heap", "- Heap", "a\rb", "|", "\u00a0nbsp", "\u2028", "0", "null"}
			values := Space{Name: "values", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				key, val := Pick(c, texts), Pick(c, texts)
				inEnv := c.Bool()
				c.State(fmt.Sprintf("ids %d key %q value %q env %v", ids, key, val, inEnv))
				props := append([]KV(nil), envProps...)
				if inEnv {
					props[len(key)%8].V = val
				}
				props = append(props, KV{"k" + key, val}, KV{"l", "v" + val + "w"})
				if key == "" {
					props = append(props, KV{"", val})
				}
				c.verify(propsWorld(ids, props, plainSlots(len(props))), summaryBoth(c)...)
			}}
			env := Space{Name: "environment", Real: true, RealEvery: 100, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				var props []KV
				what := ""
				for i, p := range envProps {
					switch c.Choose(3) {
					case 0:
						props = append(props, KV{p.K, fmt.Sprint("value of ", i)})
						what += "v"
					case 1:
						what += "-"
					case 2:
						props = append(props, KV{p.K, ""})
						what += "e"
					}
					if !thorough && i >= 5 {
						continue
					}
				}
				// properties with similar names must not be taken for these
				props = append(props, KV{"os.name.x", "no"}, KV{"java.vm.specification.name", "no"}, KV{"os", "no"}, KV{"OS.NAME", "no"})
				c.State(fmt.Sprint("ids ", ids, " ", what))
				c.verify(propsWorld(ids, props, plainSlots(len(props))), summaryBoth(c)...)
			}}
			ns := []int{0, 1, 2, 15, 16, 17, 64, 100, 1000, 3000}
			many := Space{Name: "many", Real: true, RealEvery: 10, Fn: func(c *Ctx) {
				ids, n, chain := Pick(c, idSizes), Pick(c, ns), Pick(c, []int{1, 2, 7, 8, 64, 5000})
				tree, gap := c.Bool(), c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " number ", n, " chains of ", chain, " tree ", tree, " gaps ", gap))
				var props []KV
				for i := 0; i < n; i++ {
					props = append(props, KV{fmt.Sprintf("key.%d", (i*7919)%100003), fmt.Sprint("v", i)})
				}
				var slots []Slot
				for i := 0; i < n; i += chain {
					s := Slot{Tree: tree}
					for j := i; j < min(n, i+chain); j++ {
						s.Props = append(s.Props, j)
					}
					slots = append(slots, s)
					for g := 0; g < gap; g++ {
						slots = append(slots, Slot{})
					}
				}
				c.verify(propsWorld(ids, props, slots), summaryBoth(c)...)
			}}
			// other fields and statics around those that matter
			around := Space{Name: "surroundings", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				ids := Pick(c, idSizes)
				w := newWorld(ids, stdTS).Core()
				w.summaryClasses()
				// subclasses of the property table's classes with fields of the same names
				extra := c.Choose(4)
				before := c.Choose(3)
				sys := w.C("java/lang/System")
				for i := 0; i < before; i++ {
					w.Static(sys, fmt.Sprint("props", i), Val{javaTypes[(i*3+before)%9], 0})
					w.Static(w.C("sun/management/ManagementFactoryHelper"), fmt.Sprint("runtimeMBea", i), Val{javaTypes[(i*4+before)%9], 0})
				}
				shadow := c.Choose(3)
				c.State(fmt.Sprint("ids ", ids, " extra ", extra, " statics before ", before, " other classes ", shadow))
				for i := 0; i < shadow; i++ {
					// classes of other packages with similar names
					o := w.Class([]string{"java/lang/System2", "x/java/lang/System"}[i], w.C("java/lang/Object"))
					w.Static(o, "props", Val{tObj, 0})
				}
				props := append(append([]KV(nil), envProps...), KV{"a", "b"})
				w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
				for i := 0; i < extra; i++ {
					w.Static(sys, fmt.Sprint("zprops", i), Val{tLong, 1})
					w.JString("unrelated")
				}
				c.verify(w, summaryBoth(c)...)
			}}
			// large tables with few properties
			table := Space{Name: "sparse-tables", Real: true, RealEvery: 30, Fn: func(c *Ctx) {
				ids, k := Pick(c, idSizes), c.Choose(17)
				n := 1<<k + c.Choose(2)
				at := []int{0, 1, n / 4, n / 2, n/2 + 1, n - 2, n - 1}
				a, b := c.Choose(len(at)), c.Choose(len(at))
				if at[a] > at[b] || at[a] < 0 || at[b] >= n {
					c.Skip()
				}
				tree := c.Bool()
				c.State(fmt.Sprint("ids ", ids, " slots ", n, " used ", at[a], " ", at[b], " tree ", tree))
				props := append(append([]KV(nil), envProps...), KV{"a", "b"}, KV{"c", "d"})
				slots := make([]Slot, n)
				for i := range props {
					x := at[a]
					if i%2 == 1 {
						x = at[b]
					}
					slots[x].Props = append(slots[x].Props, i)
					slots[x].Tree = tree
				}
				c.verify(propsWorld(ids, props, slots), Cmd{Sub: "summary", AllProps: true})
			}}
			return []Space{layouts, values, env, many, around, distances(thorough, []int{0, 1, 3, 5}, true, Cmd{Sub: "summary", File: "x.hprof", AllProps: true}), table,
				knownProperties("known-properties", vocabValues, func(c *Ctx, w *World, _ string) { c.verify(w, summaryBoth(c)...) })}
		}})

	register(&Property{ID: "C16", Level: "model_checking", Rule: "one state per (time stamp, start time, time zone)",
		Assume: []string{"differences of at most 292 years"},
		Spaces: func(thorough bool) []Space {
			pts := []int64{0, 1, 2, 9, 10, 99, 100, 999, 1000, 1001, 1999, 59999, 60000, 60001, 3599999, 3600000, 3600001, 86399999, 86400000,
				1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1 << 40, 999999999999, 1000000000000, 1700000000000, 1700000045813, 1711846800000, 1711850400000, 4102444800000, 1<<42 - 1, 9223372036853, 9223372036854}
			zones := []*time.Location{time.UTC, time.FixedZone("a", 14*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 5*3600+1800+7)}
			if l, err := time.LoadLocation("Europe/Berlin"); err == nil {
				zones = append(zones, l)
			}
			if l, err := time.LoadLocation("America/St_Johns"); err == nil {
				zones = append(zones, l)
			}
			check := func(c *Ctx, ids int, ts, start int64, z *time.Location) {
				old := time.Local
				time.Local = z
				defer func() { time.Local = old }()
				w := newWorld(ids, uint64(ts)).Core()
				w.SummaryWorld(envProps[:1], start, plainSlots(1), nil)
				c.verify(w, Cmd{Sub: "summary"}, Cmd{Sub: "summary", Html: true})
			}
			grid := Space{Name: "grid", Real: true, RealEvery: 300, Fn: func(c *Ctx) {
				ids, ts, start := Pick(c, idSizes), Pick(c, pts), Pick(c, pts)
				z := c.Choose(len(zones))
				c.State(fmt.Sprint("ids ", ids, " dump ", ts, " start ", start, " zone ", zones[z]))
				check(c, ids, ts, start, zones[z])
			}}
			far := []int64{9223372036854, 1<<43 + 1, 253402300800000, 1<<48 - 1, 1 << 48, 1 << 52, 1<<62 - 1, 1 << 62, 1<<63 - 1 - 9223372036854}
			offs := []int64{0, 1, 999, 1000, 60000, 86400000, 1 << 32, 9223372036853, 9223372036854, -1, -1000, -86400001}
			large := Space{Name: "far-future", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
				ids, start, d := Pick(c, idSizes), Pick(c, far), Pick(c, offs)
				z := c.Choose(len(zones))
				c.State(fmt.Sprint("ids ", ids, " start ", start, " uptime ", d, " zone ", zones[z]))
				check(c, ids, start+d, start, zones[z])
			}}
			n := 2500
			if thorough {
				n = 20000
			}
			dense := Space{Name: "every-millisecond", Fn: func(c *Ctx) {
				d := c.Choose(n)
				base := Pick(c, []int64{1700000000123, 1<<32*395 - 1000})
				c.State(fmt.Sprint("start ", base, " uptime ", d))
				check(c, 8, base+int64(d), base, zones[d%len(zones)])
			}}
			return []Space{grid, large, dense}
		}})
}
