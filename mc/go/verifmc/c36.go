package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- C36: damaged index

// keptIndex is an index the tool has built, the same one in all processes of this build of the
// checker: the tool writes the entries of its maps in any order.
func keptIndex(name string, dump []byte, build func() map[string]string) map[string]string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var key string
	if st, err := os.Stat(exe); err == nil {
		key = fmt.Sprint(st.Size(), st.ModTime().UnixNano())
	}
	sum := sha256.Sum256([]byte(name + key + string(dump)))
	file := fmt.Sprintf("%s/index-%x.json", filepath.Dir(exe), sum[:6])
	load := func() (m map[string][]byte) {
		if b, err := os.ReadFile(file); err == nil && json.Unmarshal(b, &m) == nil {
			return m
		}
		return nil
	}
	m := load()
	if m == nil {
		m = map[string][]byte{}
		for k, v := range build() {
			m[k] = []byte(v)
		}
		b, _ := json.Marshal(m)
		tmp := fmt.Sprint(file, os.Getpid())
		if os.WriteFile(tmp, b, 0o644) == nil {
			os.Link(tmp, file) // the first one wins
			os.Remove(tmp)
			if n := load(); n != nil {
				m = n
			}
		}
	}
	r := map[string]string{}
	for k, v := range m {
		r[k] = string(v)
	}
	return r
}

func init() {
	type indexed struct {
		w     *World
		b     []byte
		index map[string]string
		files []string
	}
	world := func(c *Ctx, ids int) indexed {
		return cached(fmt.Sprint("c36", ids), func() (x indexed) {
			x.w, x.b = cachedStd(ids)
			x.index = keptIndex(fmt.Sprint("c36-", ids), x.b, func() map[string]string {
				s := c.Sys()
				s.Put("x.hprof", x.b)
				c.must(x.w, s, Cmd{Sub: "objects", File: "x.hprof"}, "")
				m := s.Image()
				delete(m, "x.hprof")
				return m
			})
			for f := range x.index {
				if !strings.HasSuffix(f, "/") {
					x.files = append(x.files, f)
				}
			}
			sort.Strings(x.files)
			return
		})
	}
	place := func(c *Ctx, x indexed) *Sys {
		s := c.Sys()
		s.Put("x.hprof", x.b)
		for f := range x.index {
			if strings.HasSuffix(f, "/") {
				s.Mkdir(f)
			}
		}
		for _, f := range x.files {
			s.Put(f, []byte(x.index[f]))
		}
		return s
	}
	register(&Property{ID: "C36", Level: "model_checking", Rule: "one state per (index files damaged, how, command)",
		Assume: []string{"the size of the index files is that of a small dump", "memory is bounded as for C05"},
		Spaces: func(thorough bool) []Space {
			cmds := basicCmds("x.hprof")
			if thorough {
				cmds = allCmds("x.hprof")
			}
			cut := func(c *Ctx, s *Sys, x indexed, f string, how int) string { // how: -2 gone, -1 directory, else bytes left
				switch how {
				case -2:
					s.Remove(f)
					return f + " missing"
				case -1:
					s.Remove(f)
					s.Mkdir(f)
					return f + " is a directory"
				}
				s.Put(f, []byte(x.index[f][:how]))
				return fmt.Sprintf("%s cut to %d bytes", f, how)
			}
			judge := func(c *Ctx, x indexed, s *Sys, k Cmd, what string) {
				r := c.tame(s, k, len(x.b), what)
				if r.Code == 0 {
					c.Check(x.w.expect(k, r), "%s, %s", k, what)
					return
				}
				c.Check(r.rejected(), "%s, %s", k, what)
			}
			one := Space{Name: "one-cut", Real: true, RealEvery: 400, Fn: func(c *Ctx) {
				ids := Pick(c, []int{8, 4})
				k := Pick(c, cmds)
				x := world(c, ids)
				f := Pick(c, x.files)
				how := c.Choose(len(x.index[f])+2) - 2
				s := place(c, x)
				what := cut(c, s, x, f, how)
				c.State(fmt.Sprint(ids, " ", k, " ", what))
				judge(c, x, s, k, what)
			}}
			two := Space{Name: "two-cuts", Fn: func(c *Ctx) {
				k := Pick(c, cmds)
				x := world(c, 8)
				i := c.Choose(len(x.files))
				j := i + 1 + c.Choose(len(x.files))
				if j >= len(x.files) {
					c.Skip()
				}
				s := place(c, x)
				what := ""
				for _, f := range []string{x.files[i], x.files[j]} {
					n := len(x.index[f])
					points := []int{-2, -1}
					for _, p := range torn(n) {
						if p < n {
							points = append(points, p)
						}
					}
					what += cut(c, s, x, f, Pick(c, points)) + "; "
				}
				c.State(fmt.Sprint(k, " ", what))
				judge(c, x, s, k, what)
			}}
			// the report may be any, but the run must end well
			ends := func(c *Ctx, x indexed, s *Sys, k Cmd, what string) {
				c.tame(s, k, len(x.b), what)
			}
			bytes := Space{Name: "changed-bytes", Fn: func(c *Ctx) {
				ids := Pick(c, []int{8, 4})
				k := Pick(c, cmds)
				x := world(c, ids)
				f := Pick(c, x.files)
				if len(x.index[f]) == 0 || !strings.HasSuffix(f, ".idx.bin") { // places of objects in the dump
					c.Skip()
				}
				at := c.Choose(len(x.index[f]))
				old := x.index[f][at]
				to := []byte{old ^ 1, old ^ 0x80, 0, 0xff, old + 16, 0xf8}
				if thorough {
					to = nil
					for v := 0; v < 256; v++ {
						to = append(to, byte(v))
					}
				}
				v := Pick(c, to)
				if v == old {
					c.Skip()
				}
				what := fmt.Sprintf("byte %d of %s is %#x instead of %#x", at, f, v, old)
				c.State(fmt.Sprint(ids, " ", k, " ", what))
				s := place(c, x)
				b := []byte(x.index[f])
				b[at] = v
				s.Put(f, b)
				ends(c, x, s, k, what)
			}}
			swaps := Space{Name: "exchanged-files", Fn: func(c *Ctx) {
				ids := Pick(c, []int{8, 4})
				k := Pick(c, cmds)
				x := world(c, ids)
				s := place(c, x)
				what := ""
				for i := 0; i < 2; i++ { // files that have the contents of others, of the dump, or of nothing the tool knows
					to := c.Choose(len(x.files))
					from := c.Choose(len(x.files) + 3)
					text := ""
					switch from - len(x.files) {
					case 0:
						text = string(x.b)
					case 1:
						text = strings.Repeat("\xff", 4096)
					case 2:
						text = strings.Repeat("\x00", 4096)
					default:
						text = x.index[x.files[from]]
					}
					s.Put(x.files[to], []byte(text))
					what += fmt.Sprintf("%s has contents %d; ", x.files[to], from)
				}
				c.State(fmt.Sprint(ids, " ", k, " ", what))
				ends(c, x, s, k, what)
			}}
			return []Space{one, two, swaps, bytes}
		}})
}
