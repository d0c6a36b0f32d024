package main

// standard is a small but complete JVM: classes, threads with frames and locals, properties.
func standard(idSize int, ts uint64) *World { return standardOf(idSize, ts, "Main", "main") }

// standardOf has another class and method, in places of the same size.
func standardOf(idSize int, ts uint64, class, method string) *World {
	w := newWorld(idSize, ts).Core()
	w.summaryClasses()
	main := w.Class(class, w.C("java/lang/Object"), F{"x", tInt})
	sub := w.Class("app/Worker", w.C("java/lang/Thread"), F{"queue", tObj}, F{"n", tInt})
	// every Java type as constant, static field and field
	var every []F
	for _, t := range javaTypes {
		every = append(every, F{"f" + typeName(t), t})
	}
	values := w.Class("app/Values", main, every...)
	for i, t := range javaTypes {
		v := Val{t, 0x0102030405060708 >> (8 * (8 - typeSize(t, idSize)))}
		switch t {
		case tBool:
			v.U = 1
		case tObj:
			v.U = main.ID
		}
		values.rec.CPs = append(values.rec.CPs, CP{uint16(i + 1), v})
		w.Static(values, "s"+typeName(t), v)
	}
	w.New(values, map[string]uint64{"fint": 7, "fchar": 0x3042})
	strArr := w.arrayOf("[Ljava/lang/String;")
	s := w.JString("hello")
	arr := w.Array(strArr, []uint64{s, 0})
	ints := w.Prim(tInt, make([]byte, 12))
	m := w.New(main, map[string]uint64{"x": 5})
	f1 := &FrameSpec{Class: w.C("java/lang/Thread"), Method: "sleep", Desc: "(J)V", File: "Thread.java", Line: -3}
	f2 := &FrameSpec{Class: main, Method: method, Desc: "([Ljava/lang/String;)V", File: class + ".java", Line: 6}
	f3 := &FrameSpec{Class: sub, Method: "run", Desc: "()V", File: "Worker.java", Line: -1}
	w.AddThread(&Thread{Name: "main", Coder: -1, TID: 1, Prio: 5, Status: 0xE1, Frames: []*FrameSpec{f1, f2}, Locals: []LocalSpec{
		{1, rootJavaFrame, arr, "java.lang.String[]"}, {1, rootJniLocal, m, class}, {1, rootJavaFrame, ints, "int[]"}, {0, rootJavaFrame, main.ID, "class " + class}}})
	w.AddThread(&Thread{Name: "worker", Coder: -1, TID: 12, Prio: 7, Daemon: true, Status: 5, Cls: sub, Frames: []*FrameSpec{f1, f3}})
	w.AddThread(&Thread{Name: "idle", Coder: -1, TID: 9, Prio: 1, Daemon: true, Status: 0x191})
	w.roots = append(w.roots, Root{Type: rootSticky, Obj: main.ID}, Root{Type: rootJniGlobal, Obj: s, Ref: 77}, Root{Type: rootMonitor, Obj: m})
	props := append(append([]KV(nil), envProps...), KV{"a.key", "a value"}, KV{"line.separator", "\n"}, KV{"user.dir", "/tmp"})
	slots := []Slot{{Props: []int{0, 1, 2}}, {}, {Props: []int{3}}, {Props: []int{4, 5, 6}, Tree: true}, {Props: []int{7, 8}}, {}, {Props: []int{9}}, {Props: []int{10}}}
	w.SummaryWorld(props, 1700000000000, slots, nil)
	return w
}

func init() {
	register(&Property{ID: "T00", Level: "model_checking", Rule: "smoke test", Spaces: func(thorough bool) []Space {
		return []Space{{Name: "smoke", Real: true, RealEvery: 1, Fn: func(c *Ctx) {
			ids := Pick(c, []int{4, 8})
			html, color := c.Bool(), c.Bool()
			c.State(string(rune('0'+ids)) + map[bool]string{true: "h"}[html] + map[bool]string{true: "c"}[color])
			w := standard(ids, 1700000045813)
			c.verify(w, Cmd{Sub: "threads", Locals: true, Html: html, Color: color}, Cmd{Sub: "threads", Html: html, Color: color}, Cmd{Sub: "summary", AllProps: true, Html: html, Color: color},
				Cmd{Sub: "summary", Html: html, Color: color}, Cmd{Sub: "objects", Html: html, Color: color}, Cmd{Sub: "objects", Size: true, Html: html, Color: color})
		}}}
	}})
}
