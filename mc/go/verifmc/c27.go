package main

import (
	"fmt"
	"strings"
)

// subFlags are the options of each sub-command besides -hprof.
var subFlags = map[string][]string{
	"threads": {"no-color", "non-interactive", "output", "local-vars"},
	"summary": {"no-color", "non-interactive", "output", "all-props"},
	"objects": {"no-color", "non-interactive", "output", "sort-by"},
}

var subCmds = []string{"threads", "summary", "objects"}

// spelling is one way to give an option.
type spelling struct {
	args []string
	set  func(k *Cmd)
}

// spellings are all ways to give an option. Boolean options take a value only after "=".
func spellings(name string) (r []spelling) {
	for _, dash := range []string{"-", "--"} {
		switch name {
		case "output", "sort-by":
			vals := map[string]bool{"plain": false, "html": true}
			order := []string{"html", "plain"}
			if name == "sort-by" {
				vals = map[string]bool{"count": false, "size": true}
				order = []string{"size", "count"}
			}
			for _, v := range order {
				set := func(k *Cmd) {
					if name == "output" {
						k.Html = vals[v]
					} else {
						k.Size = vals[v]
					}
				}
				r = append(r, spelling{[]string{dash + name, v}, set}, spelling{[]string{dash + name + "=" + v}, set})
			}
		default:
			for _, v := range []string{"", "=true", "=false", "=1", "=0", "=T", "=F", "=TRUE", "=False"} {
				on := !strings.HasPrefix(strings.ToUpper(v), "=F") && v != "=0"
				r = append(r, spelling{[]string{dash + name + v}, func(k *Cmd) {
					switch name {
					case "no-color":
						k.Color = !on
					case "non-interactive":
						k.Interactive = !on
					case "local-vars":
						k.Locals = on
					case "all-props":
						k.AllProps = on
					}
				}})
			}
		}
	}
	return
}

// usage checks that the run only explained how to use the sub-commands.
func (r Res) usage(code int, subs ...string) error {
	if r.Crash != "" || r.Code != code {
		return fmt.Errorf("not usage with status %d: %v", code, r)
	}
	all := r.Out + r.Err
	for _, s := range subs {
		for _, f := range append([]string{"hprof"}, subFlags[s]...) {
			if !strings.Contains(all, "-"+f) {
				return fmt.Errorf("no usage text for -%s: %v", f, r)
			}
		}
		if !strings.Contains(all, s) {
			return fmt.Errorf("no usage text of %s: %v", s, r)
		}
	}
	for _, m := range reportMarks {
		if strings.Contains(r.Out, m) {
			return fmt.Errorf("report instead of usage: %v", r)
		}
	}
	return nil
}

// judge compares a report with the options that were given.
func (k Cmd) judge(w *World, r Res, fresh bool) error {
	if err := w.expect(k, r); err != nil {
		return err
	}
	if !k.Html && k.Color != strings.Contains(r.Out, "\x1b[") {
		return fmt.Errorf("colour should be %v: %v", k.Color, r)
	}
	if fresh && !k.Interactive && r.Err != "" {
		return fmt.Errorf("progress although disabled: %v", r)
	}
	return nil
}

// hprofArg gives the path in every way.
func hprofArg(i int, path string) []string {
	switch i {
	case 0:
		return []string{"-hprof", path}
	case 1:
		return []string{"--hprof", path}
	case 2:
		return []string{"-hprof=" + path}
	}
	return []string{"--hprof=" + path}
}

// cliWorld is a dump whose reports differ for all option values.
func cliWorld() (*World, []byte) {
	x := cached("cliworld", func() worldBytes {
		w := newWorld(8, stdTS).Core()
		w.summaryClasses()
		str := w.arrayOf("[Ljava/lang/String;")
		a := w.Array(str, []uint64{0})
		w.Prim(tByte, make([]byte, 5000))
		for i := 0; i < 5; i++ {
			w.Array(str, []uint64{a})
		}
		main := w.Class("Main", w.C("java/lang/Object"))
		f := &FrameSpec{Class: main, Method: "main", Desc: "([Ljava/lang/String;)V", File: "Main.java", Line: 6}
		w.AddThread(&Thread{Name: "main", Coder: -1, TID: 1, Prio: 5, Status: 5, Frames: []*FrameSpec{f},
			Locals: []LocalSpec{{0, rootJavaFrame, a, "java.lang.String[]"}}})
		props := append(append([]KV(nil), envProps...), KV{"a.key", "a value"})
		w.SummaryWorld(props, 1700000000000, plainSlots(len(props)), nil)
		return worldBytes{w, w.Bytes()}
	})
	return x.w, x.b
}

func init() {
	register(&Property{ID: "C27", Level: "model_checking",
		Rule:   "all executions run the unmodified binary",
		Assume: []string{"an option given twice, arguments after the options, -h and the empty value of -output and -sort-by are not part of the contract", "the process runs as root, so files without read permission are not covered"},
		Spaces: func(thorough bool) []Space {
			def := func(sub string) Cmd { return Cmd{Sub: sub, File: "x.hprof", Color: true, Interactive: true} }
			run := func(c *Ctx, args []string, k Cmd, file string) {
				w, b := cliWorld()
				s := c.RealSys()
				s.Put(file, b)
				if k.Interactive { // progress takes a second
					s.Do(Cmd{Sub: "objects", File: file})
				}
				r := s.Run(args...)
				if err := k.judge(w, r, true); err != nil {
					c.Fail("%q: %v", args, err)
				}
			}
			sp := []Space{
				{Name: "spellings", Fn: func(c *Ctx) {
					// any two options in all spellings, on either side of -hprof
					sub := Pick(c, subCmds)
					fl := subFlags[sub]
					i := c.Choose(len(fl))
					j := c.Choose(len(fl) + 1)
					if j <= i && j != 0 || j == 0 && i != 0 {
						c.Skip()
					}
					k := def(sub)
					var groups [][]string
					sp := Pick(c, spellings(fl[i]))
					sp.set(&k)
					groups = append(groups, sp.args)
					if j > 0 && j < len(fl) {
						if i == j {
							c.Skip()
						}
						sp := Pick(c, spellings(fl[j]))
						sp.set(&k)
						groups = append(groups, sp.args)
					}
					h := hprofArg(c.Choose(4), "x.hprof")
					at := c.Choose(len(groups) + 1)
					args := []string{sub}
					for n, g := range groups {
						if n == at {
							args = append(args, h...)
						}
						args = append(args, g...)
					}
					if at == len(groups) {
						args = append(args, h...)
					}
					if !c.Thorough && len(groups) == 2 && strings.Count(strings.Join(args, " "), "=") > 1 && h[0] != "-hprof" {
						c.Skip()
					}
					c.State(strings.Join(args, " "))
					run(c, args, k, "x.hprof")
				}},
				{Name: "orders", Fn: func(c *Ctx) {
					// every subset of the options in every order
					sub := Pick(c, subCmds)
					style := c.Choose(4)
					dash, joined := []string{"-", "--"}[style&1], style&2 != 0
					k := def(sub)
					left := [][]string{hprofArg(style, "x.hprof")}
					for _, f := range subFlags[sub] {
						if !c.Bool() {
							continue
						}
						switch f {
						case "output":
							k.Html = true
							if joined {
								left = append(left, []string{dash + f + "=html"})
							} else {
								left = append(left, []string{dash + f, "html"})
							}
						case "sort-by":
							k.Size = true
							if joined {
								left = append(left, []string{dash + f + "=size"})
							} else {
								left = append(left, []string{dash + f, "size"})
							}
						default:
							sp := spelling{}
							for _, x := range spellings(f) {
								if x.args[0] == dash+f {
									sp = x
								}
							}
							sp.set(&k)
							left = append(left, sp.args)
						}
					}
					args := []string{sub}
					for len(left) > 0 {
						i := c.Choose(len(left))
						args = append(args, left[i]...)
						left = append(append([][]string(nil), left[:i]...), left[i+1:]...)
					}
					c.State(strings.Join(args, " "))
					run(c, args, k, "x.hprof")
				}},
				{Name: "paths", Fn: func(c *Ctx) {
					sub := Pick(c, subCmds)
					name := Pick(c, []string{"x.hprof", "x", "a=b.hprof", "-x.hprof", "--hprof", "html", "threads", "true", "x y.hprof", "ümlaut.hprof", "x.hprof.db.hprof", "%s%d", "x.hprof=", "=x", "..x", "sub/x.hprof", "./x.hprof", "sub/../x.hprof", "ABS/x.hprof"})
					style := c.Choose(4)
					at := c.Bool()
					c.State(fmt.Sprint(sub, " ", name, " ", style, at))
					w, b := cliWorld()
					s := c.RealSys()
					s.Mkdir("sub")
					path := strings.Replace(name, "ABS", s.dir, 1)
					s.Put(strings.TrimPrefix(name, "ABS/"), b)
					k := def(sub)
					k.Interactive = false
					args := []string{sub}
					if at {
						args = append(args, "-non-interactive")
					}
					args = append(args, hprofArg(style, path)...)
					if !at {
						args = append(args, "-non-interactive")
					}
					if err := k.judge(w, s.Run(args...), true); err != nil {
						c.Fail("%q: %v", args, err)
					}
				}},
				{Name: "refused", Fn: func(c *Ctx) {
					// unknown options and values, before, between and after good ones
					sub := Pick(c, subCmds)
					var bad [][]string
					fl := append([]string{"hprof"}, subFlags[sub]...)
					for _, f := range fl {
						for _, g := range []string{f[:len(f)-1], f[:1], strings.ToUpper(f), f + "s", strings.ToUpper(f[:1]) + f[1:], strings.ReplaceAll(f, "-", "_")} {
							ok := false
							for _, h := range fl {
								ok = ok || g == h
							}
							if ok || g == "h" { // -h asks for help
								continue
							}
							for _, d := range []string{"-", "--"} {
								bad = append(bad, []string{d + g}, []string{d + g + "=true"}, []string{d + g + "=x.hprof"})
							}
						}
						bad = append(bad, []string{"---" + f})
					}
					for _, o := range []string{"threads", "summary", "objects"} {
						for _, f := range subFlags[o] {
							own := false
							for _, h := range fl {
								own = own || h == f
							}
							if !own {
								bad = append(bad, []string{"-" + f}, []string{"--" + f + "=size"}, []string{"-" + f + "=true"})
							}
						}
					}
					for _, v := range []string{"HTML", "Html", "htm", "html ", " html", "htmlx", "text", "json", "plain,html", "Plain", "PLAIN", "plai", "plain ", "p", "h", "0", "1", "true", "size", "count"} {
						bad = append(bad, []string{"-output", v}, []string{"--output=" + v})
					}
					if sub == "objects" {
						for _, v := range []string{"SIZE", "Size", "siz", "size ", " size", "sizes", "s", "Count", "COUNT", "coun", "counts", "count ", "name", "0", "1", "true", "size,count", "-size", "plain", "html"} {
							bad = append(bad, []string{"-sort-by", v}, []string{"--sort-by=" + v})
						}
					}
					for _, f := range subFlags[sub] {
						if f == "output" || f == "sort-by" {
							continue
						}
						for _, v := range []string{"maybe", "yes", "no", "on", "off", "2", "-1", "tru", "falsee", " true", "tRue", "y", "n"} {
							bad = append(bad, []string{"-" + f + "=" + v}, []string{"--" + f + "=" + v})
						}
					}
					for _, d := range []string{"-", "--"} {
						bad = append(bad, []string{d + "output", "\x00last"}, []string{d + "hprof", "\x00last"})
						if sub == "objects" {
							bad = append(bad, []string{d + "sort-by", "\x00last"})
						}
					}
					x := Pick(c, bad)
					where := c.Choose(3)
					file := Pick(c, []string{"good", "none"})
					var args []string
					good := [][]string{{"-hprof", "x.hprof"}, {"-no-color"}}
					if len(x) == 2 && x[1] == "\x00last" { // the value is missing
						if where != 2 {
							c.Skip()
						}
						x = x[:1]
					}
					c.State(fmt.Sprintf("%s %q %d %s", sub, x, where, file))
					for i := 0; i < 3; i++ {
						if i == where {
							args = append(args, x...)
						}
						if i < 2 {
							args = append(args, good[i]...)
						}
					}
					args = append([]string{sub}, args...)
					_, b := cliWorld()
					s := c.RealSys()
					if file == "good" {
						s.Put("x.hprof", b)
					}
					if err := s.Run(args...).usage(2, sub); err != nil {
						c.Fail("%q: %v", args, err)
					}
				}},
				{Name: "help", Fn: func(c *Ctx) {
					// no, unknown or misspelt sub-command, or no dump
					var all [][]string
					w, b := cliWorld()
					_ = w
					words := []string{"", "thread", "Threads", "THREADS", "threads ", " threads", "threadss", "summar", "Summary", "object", "Objects", "objects,summary", "help", "-h", "--help", "-help", "--version", "-hprof", "--hprof", "-hprof=x.hprof", "-threads", "--threads", "x.hprof", "0", "thr", "s", "o", "t", "-", "--"}
					for _, x := range words {
						all = append(all, []string{x}, []string{x, "-hprof", "x.hprof"}, []string{x, "threads", "-hprof", "x.hprof"}, []string{x, "--output", "bad"})
					}
					all = append(all, []string{})
					n := len(all)
					for _, sub := range subCmds {
						all = append(all, []string{sub}, []string{sub, "-hprof="}, []string{sub, "-hprof", ""}, []string{sub, "--hprof="})
						for _, f := range subFlags[sub] {
							for _, sp := range spellings(f) {
								all = append(all, append([]string{sub}, sp.args...), append([]string{sub, "-hprof", ""}, sp.args...))
							}
							for _, g := range subFlags[sub] {
								if f != g {
									all = append(all, append(append([]string{sub}, spellings(f)[0].args...), spellings(g)[0].args...))
								}
							}
						}
					}
					i := c.Choose(len(all))
					args := all[i]
					c.State(fmt.Sprintf("%q", args))
					s := c.RealSys()
					s.Put("x.hprof", b)
					before := fmt.Sprint(s.List())
					r := s.Run(args...)
					subs := subCmds
					if i >= n {
						subs = args[:1]
					}
					if err := r.usage(0, subs...); err != nil {
						c.Fail("%q: %v", args, err)
					}
					if now := fmt.Sprint(s.List()); now != before {
						c.Fail("%q left files behind: %s", args, now)
					}
				}},
				{Name: "progress", Fn: func(c *Ctx) {
					// indexing takes long enough for progress to be shown
					sub := Pick(c, subCmds)
					opt := Pick(c, []string{"", "-non-interactive", "--non-interactive=false", "-non-interactive=true"})
					c.State(sub + opt)
					b := cached("c27long", func() []byte {
						w := newWorld(8, stdTS).Core()
						w.summaryClasses()
						w.SummaryWorld(envProps, 5, plainSlots(len(envProps)), nil)
						for i := 0; i < 150000; i++ {
							w.Prim(tByte, make([]byte, 20))
						}
						return w.Bytes()
					})
					s := c.RealSys()
					s.Put("x.hprof", b)
					args := []string{sub, "-hprof", "x.hprof"}
					if opt != "" {
						args = append(args, opt)
					}
					r := s.Run(args...)
					on := !strings.HasSuffix(opt, "active") && !strings.HasSuffix(opt, "=true")
					if r.Code != 0 || r.Crash != "" || on != strings.Contains(r.Err, "%") || !on && r.Err != "" {
						c.Fail("%q, progress should be %v: %v", args, on, r)
					}
				}},
				{Name: "failures", Fn: func(c *Ctx) {
					// dumps that cannot be reported on, with every command and option
					k := Pick(c, allCmds("x.hprof"))
					k.Interactive = k.Locals && !k.Html
					what := Pick(c, []string{"missing", "no-directory", "file-as-directory", "directory", "empty", "short-header", "garbage", "other-version", "truncated", "no-end", "db-is-file", "db-empty", "db-incomplete"})
					again := c.Bool()
					c.State(fmt.Sprint(k, " ", what, " ", again))
					_, b := cliWorld()
					s := c.RealSys()
					switch what {
					case "no-directory":
						k.File = "none/x.hprof"
					case "file-as-directory":
						s.Put("none", b)
						k.File = "none/x.hprof"
					case "directory":
						s.Mkdir("x.hprof")
					case "empty":
						s.Put("x.hprof", nil)
					case "short-header":
						s.Put("x.hprof", b[:25])
					case "garbage":
						s.Put("x.hprof", []byte(strings.Repeat("no heap dump ", 100)))
					case "other-version":
						s.Put("x.hprof", []byte(strings.Replace(string(b), "1.0.2", "1.0.1", 1)))
					case "truncated":
						s.Put("x.hprof", b[:len(b)/2])
					case "no-end":
						s.Put("x.hprof", b[:len(b)-9])
					case "db-is-file":
						s.Put("x.hprof", b)
						s.Put("x.hprof.db", []byte("not a directory"))
					case "db-empty":
						s.Put("x.hprof", b)
						s.Mkdir("x.hprof.db")
					case "db-incomplete":
						s.Put("x.hprof", b)
						if r := s.Do(k); r.Code != 0 {
							c.Fail("%v", r)
						}
						s.Remove("x.hprof.db/small-records.bin")
					}
					n := 1
					if again {
						n = 2
					}
					for i := 0; i < n; i++ {
						r := s.Do(k)
						var err error
						if strings.HasPrefix(what, "db-") {
							// working around the damage is fine, too
							if err = r.ended(); err == nil && r.Code == 0 {
								w, _ := cliWorld()
								err = w.expect(k, r)
							}
						} else {
							err = r.rejected()
						}
						if err != nil {
							c.Fail("%s on %s: %v", k, what, err)
						}
					}
				}},
			}
			return sp
		}})
}
