//go:build api

package main

import (
	"fmt"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/java"
)

func init() {
	apiSpaces["C20"] = func(thorough bool) []Space {
		some := []byte{tObj, tBool, tChar, tInt, tLong}
		return []Space{
			{Name: "two levels", Fn: func(c *Ctx) { hierarchy(c, javaTypes, 2, 2) }},
			{Name: "three levels", Fn: func(c *Ctx) {
				if thorough {
					hierarchy(c, some, 3, 2)
				} else {
					hierarchy(c, some, 3, 1)
				}
			}},
			{Name: "four levels", Fn: func(c *Ctx) { hierarchy(c, some, 4, 1) }},
			{Name: "deep", Fn: func(c *Ctx) {
				// the field is declared anywhere in a long hierarchy, or in two places of it
				ids := Pick(c, idSizes)
				depth := Pick(c, []int{5, 17, 64, 300})
				a := c.Choose(depth)
				b := a
				if depth <= 64 {
					b = a + c.Choose(depth-a)
				}
				t := Pick(c, javaTypes)
				c.State(fmt.Sprint("ids ", ids, " ", depth, " ", a, " ", b, " ", t))
				var levels [][]F
				for l := 0; l < depth; l++ {
					fs := []F{{fmt.Sprint("f", l), javaTypes[l%9]}}
					if l == a || l == b {
						fs = append(fs, F{"x", t})
					}
					levels = append(levels, fs)
				}
				checkHierarchy(c, ids, levels, false)
			}},
		}
	}
}

func hierarchy(c *Ctx, types []byte, depth, max int) {
	ids := Pick(c, idSizes)
	var levels [][]F
	key := ""
	for l := 0; l < depth; l++ {
		fs := fieldList(c, types, max, l, "x", types)
		levels = append(levels, fs)
		key += fieldKey(fs)
	}
	c.State(fmt.Sprint("ids ", ids, " ", key))
	checkHierarchy(c, ids, levels, true)
}

// checkHierarchy reads every field of an object of every class of the hierarchy, also with its
// data cut. levels[0] is the most derived class.
func checkHierarchy(c *Ctx, ids int, levels [][]F, cuts bool) {
	w := newWorld(ids, stdTS)
	super := w.Class("java/lang/Object", nil)
	cls := make([]*Cls, len(levels))
	for l := len(levels) - 1; l >= 0; l-- {
		cls[l] = w.Class(fmt.Sprintf("app/L%d", l), super, levels[l]...)
		super = cls[l]
	}
	// a class of the same name with the same fields the other way round, and one that shares
	// the superclass
	var turned []F
	for _, f := range levels[0] {
		turned = append([]F{f}, turned...)
	}
	twin := w.Class("app/L0", cls[0].Super, append([]F{{"pad", tShort}}, turned...)...)
	objs := append(append([]*Cls{}, cls...), twin)
	type object struct {
		id   uint64
		cls  *Cls
		vals []Val
		raw  []byte
	}
	var all []object
	add := func(k *Cls, n int) {
		slots, _ := k.slots()
		in := Inst{ID: w.id(), Class: k.ID, Raw: []byte{}}
		off := 0
		o := object{id: in.ID, cls: k}
		wr := &writer{d: &Dump{IDSize: ids}}
		for i, f := range slots {
			v := uint64(0)
			for j := 0; j < typeSize(f.T, ids); j++ {
				v = v<<8 | uint64(byte(off+j)*5+0x81+byte(n))
			}
			if f.T == tBool {
				v = uint64(i+n) & 1
			}
			off += typeSize(f.T, ids)
			o.vals = append(o.vals, Val{f.T, v})
			wr.val(Val{f.T, v})
		}
		if n >= 0 && n < len(wr.b) {
			wr.b = wr.b[:n]
		}
		in.Raw = append(in.Raw, wr.b...)
		o.raw = in.Raw
		w.objs = append(w.objs, in)
		all = append(all, o)
	}
	if len(objs) > 20 {
		objs = []*Cls{cls[0], cls[len(cls)/2], twin}
	}
	for _, k := range objs {
		add(k, -1)
	}
	if cuts {
		slots, _ := cls[0].slots()
		total := 0
		for _, f := range slots {
			total += typeSize(f.T, ids)
		}
		for n := 0; n < total; n++ {
			if total < 20 || n < 4 || n > total-10 || n == 8 || n == 9 {
				add(cls[0], n)
			}
		}
	}
	c.Check(noPanic(func() error {
		acc, err := indexed(w.Bytes())
		if err != nil {
			return err
		}
		heap := java.NewHeap(acc)
		for _, o := range all {
			obj, err := heap.ParseNormalObject(core.Identifier(o.id))
			if err != nil {
				if len(o.raw) < int(o.cls.rec.InstSize) {
					continue // refused as a whole
				}
				return fmt.Errorf("object of %s: %w", o.cls.Name, err)
			}
			if obj.Class.Name != o.cls.Name {
				return fmt.Errorf("object of %s has class %s", o.cls.Name, obj.Class.Name)
			}
			c.Steps(1)
			slots, owner := o.cls.slots()
			seen := map[string]bool{}
			off := 0
			for i, f := range slots {
				off += typeSize(f.T, ids)
				if seen[f.Name] {
					continue
				}
				seen[f.Name] = true
				v, err := obj.GetFieldValueByName(f.Name)
				if off > len(o.raw) {
					if err == nil {
						return fmt.Errorf("field %s ends at %d of the object, which has %d bytes, but is %v", f.Name, off, len(o.raw), v)
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("field %s of %s: %w", f.Name, o.cls.Name, err)
				}
				if err := sameVal(v.Value, o.vals[i], ids); err != nil {
					return fmt.Errorf("field %s of %s: %w", f.Name, o.cls.Name, err)
				}
				if v.Origin != owner[i].Name {
					return fmt.Errorf("field %s of %s comes from %s instead of %s", f.Name, o.cls.Name, v.Origin, owner[i].Name)
				}
			}
			for _, n := range []string{"x", "", "y", "f", "X", "f00", "f01", "pad", "f000", "app/L0"} {
				if !seen[n] {
					if v, err := obj.GetFieldValueByName(n); err == nil {
						return fmt.Errorf("no class declares field %q, but it is %v of %s", n, v.Value, v.Origin)
					}
				}
			}
		}
		return nil
	}), "%s", c.key)
}
