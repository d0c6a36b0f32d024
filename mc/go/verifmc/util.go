package main

import (
	"fmt"
	"runtime/metrics"
	"slices"
	"sync"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

const stdTS = 1700000045813

var (
	cacheMu  sync.Mutex
	cacheMap = map[string]any{}
)

// cached computes a value once per process.
func cached[T any](key string, f func() T) T {
	cacheMu.Lock()
	v, ok := cacheMap[key]
	cacheMu.Unlock()
	if ok {
		return v.(T)
	}
	t := f() // may use cached values itself
	cacheMu.Lock()
	cacheMap[key] = t
	cacheMu.Unlock()
	return t
}

type worldBytes struct {
	w *World
	b []byte
}

// std is the standard world and its dump.
func std(ids int) (*World, []byte) {
	x := cached(fmt.Sprint("std", ids), func() worldBytes {
		w := standard(ids, stdTS)
		return worldBytes{w, w.Bytes()}
	})
	return x.w, x.b
}

var idSizes = []int{4, 8}

// allCmds is every sub-command with every combination of its options.
func allCmds(file string) (r []Cmd) {
	for _, html := range []bool{false, true} {
		for _, col := range []bool{false, true} {
			for _, opt := range []bool{false, true} {
				r = append(r, Cmd{Sub: "threads", File: file, Locals: opt, Html: html, Color: col},
					Cmd{Sub: "summary", File: file, AllProps: opt, Html: html, Color: col},
					Cmd{Sub: "objects", File: file, Size: opt, Html: html, Color: col})
			}
		}
	}
	return
}

// sixCmds is every sub-command with both values of its option.
func sixCmds(file string) (r []Cmd) {
	for _, opt := range []bool{true, false} {
		r = append(r, Cmd{Sub: "threads", File: file, Locals: opt}, Cmd{Sub: "summary", File: file, AllProps: opt}, Cmd{Sub: "objects", File: file, Size: opt})
	}
	return
}

// forms are the two kinds of a report, plain, coloured and in HTML.
func forms(a, b Cmd) (r []Cmd) {
	for _, k := range []Cmd{a, b} {
		r = append(r, k)
		k.Color = true
		r = append(r, k)
		k.Color, k.Html = false, true
		r = append(r, k)
	}
	return
}

// edges are the numbers up to max around the powers of two and of ten.
func edges(max uint64) (r []uint64) {
	seen := map[uint64]bool{}
	add := func(x uint64) {
		for i := x - 1; i != x+2; i++ {
			if i != 0 && i <= max && !seen[i] {
				seen[i] = true
				r = append(r, i)
			}
		}
	}
	for k := 0; k < 64; k++ {
		add(1 << k)
	}
	for x := uint64(10); x < 1e19; x *= 10 {
		add(x)
	}
	if !seen[max] {
		r = append(r, max)
	}
	slices.Sort(r)
	return
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// hooked makes every process of the system use the hook.
func (s *Sys) hooked(h func(o *verifos.Op) verifos.Answer) {
	s.Prep = func(p *verifos.Proc) { p.Hook = h }
}

func (s *Sys) unhooked() { s.Prep = nil }

// must fails the execution unless the command's report is the world's.
func (c *Ctx) must(w *World, s *Sys, k Cmd, what string) Res {
	r := s.Do(k)
	if err := w.expect(k, r); err != nil {
		c.Fail("%s%v", what, err)
	}
	return r
}

func ints(from, to int) (r []int) {
	for i := from; i <= to; i++ {
		r = append(r, i)
	}
	return
}

// apiSpaces are the further spaces of properties that call the packages of neojhat directly.
var apiSpaces = map[string]func(thorough bool) []Space{}

func withAPI(id string, thorough bool, s ...Space) []Space {
	if f := apiSpaces[id]; f != nil {
		s = append(s, f(thorough)...)
	}
	return s
}
