package main

import (
	"fmt"
	"strings"
)

// Spaces over the names of vocab.go: reports must show each of them as it is, wherever it occurs.

func dots(s string) string { return strings.ReplaceAll(s, "/", ".") }

// signature is what a well-formed method descriptor means.
func signature(desc string) (args []string, ret string) {
	i := 1
	next := func() string {
		dims := 0
		for desc[i] == '[' {
			dims++
			i++
		}
		t := ""
		if desc[i] == 'L' {
			j := i + strings.IndexByte(desc[i:], ';')
			t = dots(desc[i+1 : j])
			i = j
		} else if desc[i] == 'V' {
			t = "void"
		} else {
			for _, b := range baseTypes {
				if b.desc == desc[i:i+1] {
					t = b.text
				}
			}
		}
		i++
		return t + strings.Repeat("[]", dims)
	}
	for desc[i] != ')' {
		args = append(args, next())
	}
	i++
	return args, next()
}

// classNames has every class name at every place a class name is shown.
func jvmClassNames(cmds ...Cmd) Space {
	const per = 8
	return Space{Name: "class-names", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
		ids := Pick(c, idSizes)
		from := c.Choose((len(vocabClasses)+per-1)/per) * per
		rot := c.Choose(3)
		c.State(fmt.Sprint("ids ", ids, " names from ", from, " rotation ", rot))
		w := coreWorld(ids)
		t := &Thread{Name: "t", Coder: 0, TID: 1, Prio: 5, Status: 5}
		for i, name := range vocabClasses[from:min(len(vocabClasses), from+per)] {
			shown := dots(name)
			k := w.Class(name, w.C("java/lang/Object"), F{"f", javaTypes[i%9]})
			t.Frames = append(t.Frames, &FrameSpec{Class: k, Method: "m", Desc: "(L" + name + ";I[L" + name + ";)L" + name + ";", Args: []string{shown, "int", shown + "[]"}, Ret: shown, File: "A.java", Line: int32(i + 1)},
				&FrameSpec{Class: k, Method: "<init>", Desc: "()V", Ret: "void", File: "A.java", Line: -3})
			x := w.New(k, nil)
			for j := 0; j <= i; j++ {
				w.New(k, nil)
			}
			a := w.Array(w.arrayOf("[L"+name+";"), []uint64{x, 0})
			b := w.Array(w.arrayOf("[[L"+name+";"), nil)
			at := len(t.Frames) - 2
			switch (i + rot) % 3 {
			case 0:
				t.Locals = append(t.Locals, LocalSpec{at, rootJavaFrame, x, shown}, LocalSpec{at, rootJniLocal, b, shown + "[][]"})
			case 1:
				t.Locals = append(t.Locals, LocalSpec{at, rootJniLocal, a, shown + "[]"}, LocalSpec{at + 1, rootJniLocal, x, shown})
			case 2:
				t.Locals = append(t.Locals, LocalSpec{at, rootJavaFrame, k.ID, "class " + shown}, LocalSpec{at + 1, rootJavaFrame, a, shown + "[]"})
			}
		}
		w.AddThread(t)
		c.verify(w, cmds...)
	}}
}

// descriptors has the method descriptors of a JDK.
func descriptors(cmds ...Cmd) Space {
	const per = 30
	return Space{Name: "real-descriptors", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
		ids := Pick(c, idSizes)
		from := c.Choose((len(vocabDescs)+per-1)/per) * per
		c.State(fmt.Sprint("ids ", ids, " from ", from))
		var fs []*FrameSpec
		for i, d := range vocabDescs[from:min(len(vocabDescs), from+per)] {
			f := &FrameSpec{Method: fmt.Sprint("m", i), Desc: d, File: "A.java", Line: int32(i + 1)}
			f.Args, f.Ret = signature(d)
			fs = append(fs, f)
		}
		w := framesWorld(ids, fs)
		c.verify(w, cmds...)
	}}
}

// methodNames has every method name with every file name.
func methodNames(cmds ...Cmd) Space {
	return Space{Name: "method-and-file-names", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
		m := c.Choose(len(vocabMethods))
		ids := idSizes[m%2]
		k := c.Choose(6)
		c.State(fmt.Sprintf("method %q line %d", vocabMethods[m], k))
		var fs []*FrameSpec
		w := coreWorld(ids)
		for i, file := range vocabFiles {
			line := int32(i + 1)
			if k < 5 {
				line = []int32{-3, -2, -1, 1, 1<<31 - 1}[k]
			}
			name := vocabClasses[(m*len(vocabFiles)+i)%len(vocabClasses)]
			kc := w.Class(name, w.C("java/lang/Object"))
			fs = append(fs, &FrameSpec{Class: kc, Method: vocabMethods[m], Desc: "()V", Ret: "void", File: file, Line: line})
		}
		w.AddThread(&Thread{Name: "t", Coder: 0, TID: 1, Prio: 5, Status: 5, Frames: fs})
		c.verify(w, cmds...)
	}}
}

// threadNames has every thread name with other names around it.
func threadNames(cmds ...Cmd) Space {
	return Space{Name: "thread-names", Real: true, RealEvery: 20, Fn: func(c *Ctx) {
		ids := Pick(c, idSizes)
		i, st := c.Choose(len(vocabThreads)), c.Choose(len(stateNames))
		daemon := c.Bool()
		c.State(fmt.Sprintf("ids %d name %q status %s daemon %v", ids, vocabThreads[i], stateNames[st].Name, daemon))
		w := coreWorld(ids)
		sub := w.Class(vocabClasses[(i*13+st)%len(vocabClasses)], w.C("java/lang/Thread"), F{"n", tInt})
		for j, n := range []int{i, (i + 1) % len(vocabThreads), i} {
			t := &Thread{Name: vocabThreads[n], Coder: -1, TID: int64(10 - j), Prio: int32(1 + (i+j)%10), Daemon: daemon != (j == 1), Status: stateNames[st].Status}
			if j == 1 {
				t.Cls = sub
			}
			w.AddThread(t)
		}
		c.verify(w, cmds...)
	}}
}

// knownProperties has every value under every key of a JDK and of common frameworks.
func knownProperties(name string, texts []string, judge func(c *Ctx, w *World, text string)) Space {
	return Space{Name: name, Real: true, RealEvery: 20, Fn: func(c *Ctx) {
		ids, val := Pick(c, idSizes), Pick(c, texts)
		c.State(fmt.Sprintf("ids %d value %q", ids, val))
		judge(c, keysWorld(ids, val), val)
	}}
}

func keysWorld(ids int, val string) *World {
	var props []KV
	for _, k := range vocabKeys {
		props = append(props, KV{k, val})
	}
	return propsWorld(ids, props, plainSlots(len(props)))
}

// textForms are texts around another one, as values of properties and names are.
var textForms = []string{"https://example.org/%s", "http://a/?q=%s&r=1#x", "https://%s", "mailto:%s@x.org", "file:///tmp/%s", "/usr/lib/%s:/opt", "C:\\x\\%s", "java.%s", "data:text/html,%s", "{\"a\": \"%s\"}", "[%s]", "<html>%s</html>", "1%s", "true%s", "2024-01-01T00:00:00%sZ", "-Dx=%s", "%s\n", "a\n%s\nb", "\t%s", "a, %s; b", "${%s}", "@%s", "www.example.org/%s", "ftp://%s/", "urn:x:%s", "jar:file:%s!/a", "rgb(%s)", "#%s", "javascript:%s", "<a href=\"%s\">", "<b>%s</b>", "<!-- %s -->", "&%s;", "{{%s}}", "`%s`", "'%s'", "(%s)", "main(%s)", "Lambda$%s", "日本%s", strings.Repeat("long", 300) + "%s"}

func form(f, text string) string { return strings.Replace(f, "%s", text, 1) }
