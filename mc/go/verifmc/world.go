package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"
)

// World is a JVM whose heap is dumped. What the reports must say is computed from the world,
// not from the dump.
type World struct {
	IDSize int
	TS     uint64
	IDMap  func(uint64) uint64
	NoLen  bool
	Utf8   bool

	nextID     uint64
	nextSerial uint32
	nextFrame  uint64
	strs       map[string]uint64
	utf8s      []Rec
	loads      []Rec
	frames     []Rec
	traces     []Rec
	classes    []*Class
	roots      []Rec
	objs       []Rec
	cls        map[string]*Cls
	byID       map[uint64]*Cls

	Threads []*Thread
	Props   []KV
	Start   int64
	table   uint64
	// objects report
	counts map[uint64]*rowCount
	prims  map[byte]*rowCount
}

type rowCount struct {
	n, elems int
	cls      *Cls
	array    bool
}

type KV struct{ K, V string }

type F struct {
	Name string
	T    byte
}

// Cls is a loaded class.
type Cls struct {
	Name   string
	ID     uint64
	Serial uint32
	Super  *Cls
	Fields []F
	rec    *Class
}

func newWorld(idSize int, ts uint64) *World {
	w := &World{IDSize: idSize, TS: ts, nextID: 0x100, nextSerial: 1, nextFrame: 1, strs: map[string]uint64{},
		cls: map[string]*Cls{}, byID: map[uint64]*Cls{}, counts: map[uint64]*rowCount{}, prims: map[byte]*rowCount{}}
	return w
}

func (w *World) id() uint64 { w.nextID += 8; return w.nextID }

// Str is the id of a UTF8 record.
func (w *World) Str(s string) uint64 {
	if id, ok := w.strs[s]; ok {
		return id
	}
	id := w.id()
	w.strs[s] = id
	w.utf8s = append(w.utf8s, Utf8{id, s})
	return id
}

// Load adds a class that is loaded, without a class record.
func (w *World) Load(name string) *Cls {
	c := &Cls{Name: name, ID: w.id(), Serial: w.nextSerial}
	w.nextSerial++
	w.loads = append(w.loads, Load{c.Serial, c.ID, 0, w.Str(name)})
	w.byID[c.ID] = c
	return c
}

func (w *World) Class(name string, super *Cls, fields ...F) *Cls {
	c := w.Load(name)
	c.Super, c.Fields = super, fields
	rec := &Class{ID: c.ID}
	if super != nil {
		rec.Super = super.ID
		rec.InstSize = super.rec.InstSize
	}
	for _, f := range fields {
		rec.Fields = append(rec.Fields, Field{w.Str(f.Name), f.T})
		rec.InstSize += uint32(typeSize(f.T, w.IDSize))
	}
	c.rec = rec
	w.classes = append(w.classes, rec)
	w.cls[name] = c
	return c
}

func (w *World) Static(c *Cls, name string, v Val) {
	c.rec.Statics = append(c.rec.Statics, Static{w.Str(name), v})
}

func (w *World) C(name string) *Cls {
	c := w.cls[name]
	if c == nil {
		panic("no class " + name)
	}
	return c
}

// slots lists the fields of an instance in the order of its data.
func (c *Cls) slots() (r []F, owner []*Cls) {
	for ; c != nil; c = c.Super {
		for _, f := range c.Fields {
			r = append(r, f)
			owner = append(owner, c)
		}
	}
	return
}

// New adds an instance. Values are given by "field" (the first declaration, from the most
// derived class up) or by "Class:field".
func (w *World) New(c *Cls, vals map[string]uint64) uint64 {
	id := w.id()
	w.putInst(id, c, vals)
	return id
}

func (w *World) putInst(id uint64, c *Cls, vals map[string]uint64) {
	slots, owner := c.slots()
	in := Inst{ID: id, Class: c.ID}
	used := map[string]bool{}
	for i, f := range slots {
		v, ok := vals[owner[i].Name+":"+f.Name]
		if !ok && !used[f.Name] {
			v = vals[f.Name]
			used[f.Name] = true
		}
		in.Vals = append(in.Vals, Val{f.T, v})
	}
	w.objs = append(w.objs, in)
	w.count(c, 0, false)
}

func (w *World) count(c *Cls, elems int, array bool) { w.countN(c, 1, elems, array) }

func (w *World) countN(c *Cls, n, elems int, array bool) {
	r := w.counts[c.ID]
	if r == nil {
		r = &rowCount{cls: c, array: array}
		w.counts[c.ID] = r
	}
	r.n += n
	r.elems += elems
}

func (w *World) Array(c *Cls, elems []uint64) uint64 {
	id := w.id()
	w.objs = append(w.objs, OArr{ID: id, Class: c.ID, Elems: elems})
	w.count(c, len(elems), true)
	return id
}

func (w *World) Prim(t byte, data []byte) uint64 {
	id := w.id()
	w.objs = append(w.objs, PArr{ID: id, T: t, Data: data})
	r := w.prims[t]
	if r == nil {
		r = &rowCount{}
		w.prims[t] = r
	}
	r.n++
	r.elems += len(data) / typeSize(t, w.IDSize)
	return id
}

// JString adds a java.lang.String.
func (w *World) JString(s string) uint64 { return w.JStringCoder(s, -1) }

func isLatin1(s string) bool {
	for _, r := range s {
		if r > 0xff {
			return false
		}
	}
	return true
}

// JStringCoder adds a java.lang.String in the given representation (-1: as the JVM would).
func (w *World) JStringCoder(s string, coder int) uint64 {
	if coder < 0 {
		coder = 1
		if isLatin1(s) {
			coder = 0
		}
	}
	var data []byte
	if coder == 0 {
		for _, r := range s {
			data = append(data, byte(r))
		}
	} else {
		for _, u := range utf16.Encode([]rune(s)) {
			data = append(data, byte(u), byte(u>>8))
		}
	}
	arr := w.Prim(tByte, data)
	return w.New(w.C("java/lang/String"), map[string]uint64{"value": arr, "coder": uint64(coder), "hash": 7})
}

// Core declares the classes every JVM has.
func (w *World) Core() *World { return w.CoreFields(stringFields, threadFields) }

var (
	stringFields = []F{{"value", tObj}, {"hash", tInt}, {"coder", tByte}, {"hashIsZero", tBool}}
	threadFields = []F{{"eetop", tLong}, {"tid", tLong}, {"name", tObj}, {"priority", tInt}, {"daemon", tBool},
		{"interrupted", tBool}, {"stillborn", tBool}, {"threadStatus", tInt}, {"target", tObj}}
)

// CoreFields declares the classes every JVM has with the given fields.
func (w *World) CoreFields(str, thread []F) *World {
	obj := w.Class("java/lang/Object", nil)
	w.Class("java/lang/String", obj, str...)
	w.Class("java/lang/Thread", obj, thread...)
	return w
}

// ---------------------------------------------------------------- threads

type FrameSpec struct {
	Class  *Cls
	Method string
	Desc   string
	File   string // "" none known
	Line   int32
	// parts of the expected text
	Args []string
	Ret  string
	id   uint64
	// NoMethod, NoClass: the strings are missing in the dump
	NoMethod, NoClass bool
	NoFile            bool // the string of the file is missing, File is ""
	ID                uint64
}

type LocalSpec struct {
	Frame int
	Kind  byte // rootJniLocal or rootJavaFrame
	Obj   uint64
	Text  string
}

type Thread struct {
	Name   string
	Coder  int
	TID    int64
	Prio   int32
	Daemon bool
	Status int32
	Cls    *Cls
	Extra  map[string]uint64 // further fields
	Frames []*FrameSpec
	Locals []LocalSpec
	// no trace record has this thread's... every thread has a trace
	Serial uint32
	Trace  uint32
	Obj    uint64
}

var stateNames = []struct {
	Status int32
	Name   string
}{
	{0, "NEW"}, {5, "RUNNABLE"}, {0xE1, "TIMED_WAITING"}, {0x191, "WAITING"}, {0x1A1, "TIMED_WAITING"},
	{0x291, "WAITING"}, {0x2A1, "TIMED_WAITING"}, {0x401, "BLOCKED"}, {2, "TERMINATED"},
}

func stateName(s int32) string {
	for _, x := range stateNames {
		if x.Status == s {
			return x.Name
		}
	}
	panic("status")
}

func (w *World) AddThread(t *Thread) {
	if t.Cls == nil {
		t.Cls = w.C("java/lang/Thread")
	}
	name := w.JStringCoder(t.Name, t.Coder)
	v := map[string]uint64{}
	for k, x := range t.Extra {
		v[k] = x
	}
	p := "java/lang/Thread:"
	v[p+"name"], v[p+"tid"], v[p+"priority"], v[p+"threadStatus"] = name, uint64(t.TID), uint64(uint32(t.Prio)), uint64(uint32(t.Status))
	if t.Daemon {
		v[p+"daemon"] = 1
	}
	t.Obj = w.New(t.Cls, v)
	if t.Serial == 0 {
		t.Serial = uint32(len(w.Threads) + 1)
	}
	if t.Trace == 0 {
		t.Trace = t.Serial + 1
	}
	w.Threads = append(w.Threads, t)
	var ids []uint64
	for _, f := range t.Frames {
		ids = append(ids, w.frame(f))
	}
	w.traces = append(w.traces, Trace{t.Trace, t.Serial, ids})
	w.roots = append(w.roots, Root{Type: rootThreadObj, Obj: t.Obj, A: t.Serial, B: t.Trace})
	for _, l := range t.Locals {
		w.roots = append(w.roots, Root{Type: l.Kind, Obj: l.Obj, A: t.Serial, B: uint32(l.Frame)})
	}
}

func (w *World) frame(f *FrameSpec) uint64 {
	if f.id != 0 {
		return f.id
	}
	f.id = w.nextFrame
	w.nextFrame++
	if f.ID != 0 {
		f.id = f.ID
	}
	if f.Class == nil {
		f.Class = w.C("java/lang/Object")
	}
	if f.NoClass {
		c := w.Load(f.Class.Name)
		l := w.loads[len(w.loads)-1].(Load)
		l.Name = 1
		w.loads[len(w.loads)-1] = l
		f.Class = c
	}
	file := uint64(0)
	if f.NoFile {
		file = 3
	}
	if f.File != "" {
		file = w.Str(f.File)
	}
	method := uint64(1)
	if !f.NoMethod {
		method = w.Str(f.Method)
	}
	w.frames = append(w.frames, Frame{f.id, method, w.Str(f.Desc), file, f.Class.Serial, f.Line})
	return f.id
}

// desc parses a method descriptor.
func desc(d string) (args []string, ret string) {
	i := 0
	var one func() string
	one = func() string {
		c := d[i]
		i++
		switch c {
		case '[':
			return one() + "[]"
		case 'L':
			j := strings.IndexByte(d[i:], ';')
			s := strings.ReplaceAll(d[i:i+j], "/", ".")
			i += j + 1
			return s
		}
		return map[byte]string{'B': "byte", 'C': "char", 'D': "double", 'F': "float", 'I': "int", 'J': "long", 'S': "short", 'Z': "boolean", 'V': "void"}[c]
	}
	if d[0] == '(' {
		i = 1
		for d[i] != ')' {
			args = append(args, one())
		}
		i++
	}
	return args, one()
}

// fieldDesc decodes a field descriptor.
func fieldDesc(d string) string { _, r := desc(d); return r }

func (f *FrameSpec) text() string {
	args, ret := f.Args, f.Ret
	if ret == "" {
		args, ret = desc(f.Desc)
	}
	m, c := f.Method, strings.ReplaceAll(f.Class.Name, "/", ".")
	if f.NoMethod {
		m = "<unknown string>"
	}
	if f.NoClass {
		c = "<unknown string>"
	}
	return ret + " " + c + "." + m + "(" + strings.Join(args, ", ") + ")"
}

func (f *FrameSpec) loc() string {
	switch {
	case f.File == "":
		return ""
	case f.Line == -1:
		return f.File
	case f.Line == -2:
		return f.File + ":CompiledMethod"
	case f.Line == -3:
		return f.File + ":NativeMethod"
	}
	return fmt.Sprintf("%s:%d", f.File, f.Line)
}

// ---------------------------------------------------------------- summary

const (
	chm  = "java/util/concurrent/ConcurrentHashMap"
	node = chm + "$Node"
)

// Slot is one slot of the hash table of the properties: the indices of the properties in it.
type Slot struct {
	Props []int
	Tree  bool
}

// SummaryWorld adds what the summary needs. slots is the layout of the hash table.
func (w *World) SummaryWorld(props []KV, start int64, slots []Slot, coder func(i int) (int, int)) *World {
	obj := w.C("java/lang/Object")
	w.Props, w.Start = props, start
	nodeC := w.cls[node]
	if nodeC == nil {
		w.summaryClasses()
		nodeC = w.cls[node]
	}
	_ = obj
	var ks, vs []uint64
	for i, p := range props {
		kc, vc := -1, -1
		if coder != nil {
			kc, vc = coder(i)
		}
		ks = append(ks, w.JStringCoder(p.K, kc))
		vs = append(vs, w.JStringCoder(p.V, vc))
	}
	var heads []uint64
	for _, s := range slots {
		if len(s.Props) == 0 {
			heads = append(heads, 0)
			continue
		}
		ids := make([]uint64, len(s.Props)+1)
		for i := range s.Props {
			ids[i] = w.id()
		}
		tree := uint64(0)
		if s.Tree {
			tree = w.id()
		}
		// instances are emitted in ascending order of id
		for i, p := range s.Props {
			c := nodeC
			v := map[string]uint64{"key": ks[p], "val": vs[p], "hash": uint64(p * 31), node + ":next": ids[i+1]}
			if s.Tree {
				c = w.C(chm + "$TreeNode")
				v["parent"] = ids[0]
				if i > 0 {
					v["prev"] = ids[i-1]
				}
			}
			w.putInst(ids[i], c, v)
		}
		if s.Tree {
			root := ids[len(s.Props)/2]
			w.putInst(tree, w.C(chm+"$TreeBin"), map[string]uint64{"root": root, "first": ids[0], "hash": 0xfffffffe})
			heads = append(heads, tree)
		} else {
			heads = append(heads, ids[0])
		}
	}
	w.table = w.Array(w.arrayOf("[L"+node+";"), heads)
	m := w.New(w.C(chm), map[string]uint64{"table": w.table, "baseCount": uint64(len(props))})
	p := w.New(w.C("java/util/Properties"), map[string]uint64{"java/util/Properties:map": m})
	w.Static(w.C("java/lang/System"), "in", Val{tObj, 0})
	w.Static(w.C("java/lang/System"), "props", Val{tObj, p})
	w.Static(w.C("java/lang/System"), "lineSeparator", Val{tObj, 0})
	rt := w.New(w.C("sun/management/RuntimeImpl"), map[string]uint64{"vmStartupTime": uint64(start)})
	w.Static(w.C("sun/management/ManagementFactoryHelper"), "jvm", Val{tObj, 0})
	w.Static(w.C("sun/management/ManagementFactoryHelper"), "runtimeMBean", Val{tObj, rt})
	return w
}

func (w *World) summaryClasses() {
	obj := w.C("java/lang/Object")
	w.Class("java/lang/System", obj)
	dict := w.Class("java/util/Dictionary", obj)
	ht := w.Class("java/util/Hashtable", dict, F{"table", tObj}, F{"count", tInt}, F{"threshold", tInt}, F{"loadFactor", tFloat}, F{"modCount", tInt}, F{"keySet", tObj})
	w.Class("java/util/Properties", ht, F{"defaults", tObj}, F{"map", tObj})
	am := w.Class("java/util/AbstractMap", obj, F{"keySet", tObj}, F{"values", tObj})
	w.Class(chm, am, F{"table", tObj}, F{"nextTable", tObj}, F{"baseCount", tLong}, F{"sizeCtl", tInt}, F{"transferIndex", tInt})
	nodeC := w.Class(node, obj, F{"hash", tInt}, F{"key", tObj}, F{"val", tObj}, F{"next", tObj})
	w.Class(chm+"$TreeNode", nodeC, F{"parent", tObj}, F{"left", tObj}, F{"right", tObj}, F{"prev", tObj}, F{"red", tBool})
	w.Class(chm+"$TreeBin", nodeC, F{"root", tObj}, F{"first", tObj}, F{"waiter", tObj}, F{"lockState", tInt})
	w.Class("sun/management/ManagementFactoryHelper", obj)
	w.Class("sun/management/RuntimeImpl", obj, F{"jvm", tObj}, F{"vmStartupTime", tLong}, F{"vmStartupTime2", tLong})
}

// arrayOf is the class of object arrays with the given name.
func (w *World) arrayOf(name string) *Cls {
	if c := w.cls[name]; c != nil {
		return c
	}
	return w.Class(name, w.cls["java/lang/Object"])
}

var envProps = []KV{{"os.name", "Linux"}, {"os.arch", "amd64"}, {"java.home", "/opt/jdk"}, {"java.version", "17.0.1"},
	{"java.vm.name", "OpenJDK VM"}, {"java.vm.version", "17.0.1+12"}, {"java.vm.info", "mixed mode"}, {"java.vm.vendor", "Vendor Inc."}}

// plainSlots puts every property into a slot of its own.
func plainSlots(n int) (s []Slot) {
	for i := 0; i < n; i++ {
		s = append(s, Slot{Props: []int{i}}, Slot{})
	}
	return
}

// ---------------------------------------------------------------- dump

func (w *World) Dump() *Dump {
	d := &Dump{IDSize: w.IDSize, TS: w.TS, IDMap: w.IDMap, NoLen: w.NoLen, Utf8: w.Utf8}
	d.Recs = append(d.Recs, w.utf8s...)
	d.Recs = append(d.Recs, w.loads...)
	d.Recs = append(d.Recs, w.frames...)
	d.Recs = append(d.Recs, w.traces...)
	for _, c := range w.classes {
		d.Recs = append(d.Recs, *c)
	}
	d.Recs = append(d.Recs, w.roots...)
	// every kind in ascending order of id
	objs := append([]Rec(nil), w.objs...)
	sort.SliceStable(objs, func(i, j int) bool { return objID(objs[i]) < objID(objs[j]) })
	d.Recs = append(d.Recs, objs...)
	return d
}

func objID(r Rec) uint64 {
	switch r := r.(type) {
	case Inst:
		return r.ID
	case OArr:
		return r.ID
	case PArr:
		return r.ID
	}
	return 0
}

// Tail is the dump with further objects, whose ids must be larger than all others, in a
// segment of their own.
func (w *World) Tail(recs ...Rec) *Dump {
	d := w.Dump()
	d.Recs = append(append(d.Recs, Split{}), recs...)
	for _, r := range recs {
		switch r := r.(type) {
		case PHole:
			w.countPrim(r.T, 1, int(r.N))
		case OHole:
			w.countN(w.byID[r.Class], 1, int(r.N), true)
		case IHole:
			w.countN(w.byID[r.Class], 1, 0, false)
		case Many:
			switch r.Kind {
			case 0x21:
				w.countN(w.byID[r.Class], r.N, 0, false)
			case 0x22:
				w.countN(w.byID[r.Class], r.N, 0, true)
			case 0x23:
				w.countPrim(r.T, r.N, 0)
			}
		}
	}
	return d
}

func (w *World) countPrim(t byte, n, elems int) {
	r := w.prims[t]
	if r == nil {
		r = &rowCount{}
		w.prims[t] = r
	}
	r.n += n
	r.elems += elems
}

func (w *World) Bytes() []byte { return w.Dump().Bytes() }
