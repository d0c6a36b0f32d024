package main

import (
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/danielleontiev/neojhat/internal/verifmain"
	"github.com/danielleontiev/neojhat/internal/verifos"
)

type outEvent struct {
	fd int
	b  string
	at time.Duration
}

var percentRe = regexp.MustCompile(`([^\s:%]+)%`)

// timed runs the command in virtual time. lat gives the latency of each operation, outLat
// that of each write to standard output or standard error.
func (s *Sys) timed(k Cmd, lat func(o *verifos.Op) (time.Duration, verifos.Answer), outLat func(fd int) time.Duration) (r Res, log []outEvent, problem string) {
	var p *verifos.Proc
	var mu sync.Mutex
	var over bool
	problem = virtual(func() {
		start := time.Now()
		// wait until the parity of the clock is the wanted one, so that the two
		// goroutines never wake up at the same instant
		sleep := func(d time.Duration, parity int64) {
			at := time.Since(start).Nanoseconds() + d.Nanoseconds() + 1
			if at&1 != parity {
				at++
			}
			time.Sleep(time.Duration(at) - time.Since(start))
		}
		p = &verifos.Proc{FS: s.fs, Args: append([]string{"neojhat"}, s.args(k)...)}
		if s.Prep != nil {
			s.Prep(p)
		}
		p.Hook = func(o *verifos.Op) verifos.Answer {
			d, a := lat(o)
			sleep(d, 1)
			return a
		}
		p.OnOut = func(fd int, b []byte) {
			par := int64(0)
			if fd == 1 {
				par = 1
			}
			// what counts is the moment the write is issued
			mu.Lock()
			log = append(log, outEvent{fd, string(b), time.Since(start)})
			mu.Unlock()
			sleep(outLat(fd), par)
		}
		verifos.SetCurrent(p)
		<-p.Start(verifmain.Main)
		mu.Lock()
		over = true
		mu.Unlock()
		p.Dead = true
	})
	mu.Lock()
	defer mu.Unlock()
	if over {
		problem = "" // goroutines left over when the process ends do not matter
	}
	s.c.Steps(p.Ops + len(log))
	return procRes(p), log, problem
}

// progressOK judges what the display showed.
func progressOK(log []outEvent, code int) error {
	last := -1.0
	began := false
	for _, e := range log {
		if e.fd == 1 {
			began = true
			continue
		}
		if began && code == 0 {
			return fmt.Errorf("%q written to standard error %v after the start, after the report had begun", e.b, e.at)
		}
		for _, m := range percentRe.FindAllStringSubmatch(e.b, -1) {
			v, err := strconv.ParseFloat(m[1], 64)
			if err != nil || math.IsNaN(v) || v < 0 || v > 100 {
				return fmt.Errorf("progress of %q", m[0])
			}
			if v < last {
				return fmt.Errorf("progress goes back from %v%% to %v%%", last, v)
			}
			last = v
		}
	}
	return nil
}

// progressDumps are dumps of all kinds of sizes and states of health.
func progressDumps() (names []string, dumps map[string][]byte) {
	type nd struct {
		names []string
		dumps map[string][]byte
	}
	x := cached("c26dumps", func() nd {
		m := map[string][]byte{}
		var n []string
		add := func(name string, b []byte) { n = append(n, name); m[name] = b }
		_, b := std(8)
		add("standard", b)
		w := standard(4, stdTS)
		w.Str(string(make([]byte, 9000)))
		for i := 0; i < 12; i++ {
			w.Prim(tLong, make([]byte, 4000))
			w.Str(fmt.Sprint("filler", i))
		}
		big := w.Bytes()
		add("larger", big)
		add("truncated", big[:len(big)*2/3])
		add("truncated-header", b[:20])
		add("empty", nil)
		// the lengths of trace, frame and load-class records are wrong
		for _, l := range []uint32{0, 1, 1 << 20, 0xffffffff} {
			for _, after := range []bool{false, true} {
				add(fmt.Sprintf("length-%d-%v", l, after), wrongLengths(b, l, after))
			}
		}
		add("garbage", []byte("this is not a heap dump, but a text that goes on for a while"))
		// several segments with and without length
		ws := standard(8, stdTS)
		d := ws.Dump()
		var recs []Rec
		for i, r := range d.Recs {
			if isSub(r) && i%3 == 0 {
				recs = append(recs, Split{})
			}
			recs = append(recs, r)
		}
		d.Recs = recs
		add("segments", d.Bytes())
		d2 := ws.Dump()
		d2.NoLen = true
		add("no-length", d2.Bytes())
		return nd{n, m}
	})
	return x.names, x.dumps
}

// wrongLengths overwrites the lengths of the load-class, frame and trace records (whose
// length is not needed to parse them): of the first one or of all.
func wrongLengths(b []byte, l uint32, all bool) []byte {
	r := append([]byte(nil), b...)
	i := 31
	for i+9 <= len(r) {
		n := int(r[i+5])<<24 | int(r[i+6])<<16 | int(r[i+7])<<8 | int(r[i+8])
		if t := r[i]; t == 2 || t == 4 || t == 5 {
			r[i+5], r[i+6], r[i+7], r[i+8] = byte(l>>24), byte(l>>16), byte(l>>8), byte(l)
			if !all {
				break
			}
		}
		i += 9 + n
	}
	return r
}

// The first is the one of all operations, the others are those of single ones.
var baseLat = []time.Duration{0, 310*time.Millisecond + 7919, 997*time.Millisecond + 101, 1700*time.Millisecond + 6007}
var oddLat = []time.Duration{0, 400*time.Millisecond + 4001, 999*time.Millisecond + 777, 1001*time.Millisecond + 313, 2500*time.Millisecond + 1009}

func init() {
	register(&Property{ID: "C26", Level: "model_checking",
		Rule:   "an execution is non-trivial if it shows progress",
		Assume: []string{"the display and the parser only interact through their latencies: between two waits a goroutine runs undisturbed (interleavings inside such a step, such as the unsynchronised read of the position, are not enumerated)", "goroutine waits and time are those of testing/synctest's virtual clock"},
		Spaces: func(thorough bool) []Space {
			odd, few, bases := oddLat, []string{"standard", "larger"}, baseLat
			if !thorough {
				odd, few, bases = []time.Duration{0, oddLat[2], oddLat[4]}, few[1:], baseLat[:2]
			}
			shot := func(c *Ctx, dump string, k Cmd, faults bool) {
				_, dumps := progressDumps()
				full := c.devs
				base := Pick(c, bases)
				outBase := Pick(c, []time.Duration{0, 400*time.Millisecond + 1201})
				c.State(fmt.Sprint(dump, " ", k, " latency ", base, " of output ", outBase, c.key))
				fault, mode := -1, 0
				if faults {
					fault, mode = c.Choose(120), c.Choose(2)
				}
				s := c.Sys()
				s.Put("x.hprof", dumps[dump])
				answer := func(o *verifos.Op) verifos.Answer {
					if o.Idx == fault {
						if o.Kind == "read" && mode == 1 {
							return verifos.Answer{Err: io.EOF}
						}
						if mode == 1 && o.Kind == "write" {
							return verifos.Answer{Err: syscall.ENOSPC, Short: true, N: o.N / 2}
						}
						return verifos.Answer{Err: syscall.EIO}
					}
					return verifos.Answer{}
				}
				quiet := s.Fork()
				quiet.hooked(answer)
				kq := k
				kq.Interactive = false
				want := quiet.Do(kq)
				if faults && want.Ops <= fault {
					c.Skip()
				}
				k.Interactive = true
				writes := 0
				r, log, problem := s.timed(k, func(o *verifos.Op) (time.Duration, verifos.Answer) {
					d := base
					if o.Idx < 90 { // later ones belong to the report
						if x := c.Dev(len(odd)); x != 0 {
							d = odd[x]
						}
					}
					return d, answer(o)
				}, func(fd int) time.Duration {
					if fd == 1 {
						return outBase // the report is one long series of writes
					}
					if writes++; writes <= 12 {
						if x := c.Dev(len(odd)); x != 0 {
							return odd[x]
						}
					}
					return 0
				})
				if problem != "" {
					c.Fail("%s: %s (after %v)", k, problem, log)
				}
				if r.Crash != want.Crash || r.Code != want.Code || r.Out != want.Out {
					c.Fail("%s ends differently with progress: %v; without: %v", k, r, want)
				}
				if err := progressOK(log, r.Code); err != nil {
					c.Fail("%s: %v", k, err)
				}
				if fmt.Sprint(s.List()) != fmt.Sprint(quiet.List()) {
					c.Fail("%s: the files differ with progress: %v; without: %v", k, s.List(), quiet.List())
				}
				if r.Code == 0 {
					cs := basicCmds("x.hprof")
					if c.devs < full {
						cs = cs[2:]
					}
					for _, l := range cs {
						quiet.unhooked()
						if g, w := s.Do(l), quiet.Do(l); g.Out != w.Out || g.Code != w.Code {
							c.Fail("%s, then %s: %v; without progress: %v", k, l, g, w)
						}
					}
				}
				shown := false
				for _, e := range log {
					shown = shown || e.fd == 2
				}
				c.nontriv = shown
			}
			names, _ := progressDumps()
			return []Space{
				{Name: "latencies", Devs: 2, Fn: func(c *Ctx) {
					dump := Pick(c, few)
					shot(c, dump, Cmd{Sub: "objects", File: "x.hprof"}, false)
				}},
				{Name: "dumps", Devs: 1, Fn: func(c *Ctx) {
					dump := Pick(c, names)
					k := Pick(c, basicCmds("x.hprof"))
					shot(c, dump, k, false)
				}},
				{Name: "faults", Devs: 0, Fn: func(c *Ctx) {
					dump := Pick(c, []string{"standard", "larger"})
					shot(c, dump, Pick(c, basicCmds("x.hprof")), true)
				}},
				{Name: "refused", Fn: func(c *Ctx) {
					// standard error accepts nothing or not everything
					dump := Pick(c, names)
					ks := basicCmds("x.hprof")
					if !thorough {
						ks = ks[2:]
					}
					k := Pick(c, ks)
					base := Pick(c, baseLat)
					_, dumps := progressDumps()
					from, length := c.Choose(6), c.Choose(3)
					e := Pick(c, []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EAGAIN, syscall.EBADF})
					part := c.Choose(2)
					c.State(fmt.Sprint(dump, " ", k, " latency ", base, " writes from ", from, " ", length, " refused with ", e, " part ", part))
					s := c.Sys()
					s.Put("x.hprof", dumps[dump])
					quiet := s.Fork()
					want := quiet.Do(k)
					k.Interactive = true
					at, refused := 0, false
					s.Prep = func(p *verifos.Proc) {
						p.OnWrite = func(fd, n int) (a verifos.Answer) {
							if fd != 2 {
								return
							}
							if at >= from && (length == 2 || at <= from+length) {
								a.Err, refused = e, true
								if part == 1 {
									a.N = n / 2
								}
							}
							at++
							return
						}
					}
					r, log, problem := s.timed(k, func(o *verifos.Op) (time.Duration, verifos.Answer) { return base, verifos.Answer{} }, func(fd int) time.Duration { return 0 })
					s.Prep = nil
					c.nontriv = refused
					if problem != "" {
						c.Fail("%s: %s (after %v)", k, problem, log)
					}
					if r.Crash != want.Crash || r.Code != want.Code || r.Out != want.Out {
						c.Fail("%s ends differently when standard error refuses the progress: %v; without progress: %v", k, r, want)
					}
					c.Check(progressOK(log, r.Code), "%s", k)
					if fmt.Sprint(s.List()) != fmt.Sprint(quiet.List()) {
						c.Fail("%s: the files differ when standard error refuses the progress: %v; without: %v", k, s.List(), quiet.List())
					}
				}},
				{Name: "again", Devs: 1, Fn: func(c *Ctx) {
					// runs on an existing index, after a failed one, with every option
					k := Pick(c, sixCmds("x.hprof"))
					before := Pick(c, []string{"index", "failed"})
					base := Pick(c, baseLat[:2])
					c.State(fmt.Sprint(k, " after ", before, " latency ", base))
					w, b := std(8)
					s := c.Sys()
					if before == "failed" {
						s.Put("x.hprof", b[:len(b)-3])
					} else {
						s.Put("x.hprof", b)
					}
					s.Do(Cmd{Sub: "objects", File: "x.hprof"})
					s.Put("x.hprof", b)
					k.Interactive = true
					r, log, problem := s.timed(k, func(o *verifos.Op) (time.Duration, verifos.Answer) {
						if o.Idx < 150 {
							if x := c.Dev(len(oddLat)); x != 0 {
								return oddLat[x], verifos.Answer{}
							}
						}
						return base, verifos.Answer{}
					}, func(fd int) time.Duration { return 0 })
					if problem != "" {
						c.Fail("%s: %s (after %v)", k, problem, log)
					}
					c.Check(w.expect(k, r), "%s", k)
					c.Check(progressOK(log, r.Code), "%s", k)
				}},
				{Name: "real", Real: true, RealEvery: 1, Fn: func(c *Ctx) {
					dump := Pick(c, names)
					k := Pick(c, basicCmds("x.hprof"))
					_, dumps := progressDumps()
					c.State(fmt.Sprint(dump, " ", k))
					s := c.Sys()
					s.Put("x.hprof", dumps[dump])
					want := s.Do(k)
					s.Remove("x.hprof.db")
					k.Interactive = true
					if !c.real {
						c.nontriv = false
						return
					}
					r := s.Do(k)
					if r.Crash != want.Crash || r.Code != want.Code || r.Out != want.Out {
						c.Fail("%s ends differently with progress: %v; without: %v", k, r, want)
					}
					c.Check(progressOK([]outEvent{{2, r.Err, 0}}, r.Code), "%s", k)
				}},
			}
		}})
}
