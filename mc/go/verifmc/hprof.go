package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"unicode/utf16"
	"unicode/utf8"
)

// Java types.
const (
	tObj, tBool, tChar, tFloat, tDouble, tByte, tShort, tInt, tLong = 2, 4, 5, 6, 7, 8, 9, 10, 11
)

var javaTypes = []byte{tObj, tBool, tChar, tFloat, tDouble, tByte, tShort, tInt, tLong}

func typeName(t byte) string {
	return map[byte]string{tObj: "object", tBool: "boolean", tChar: "char", tFloat: "float", tDouble: "double", tByte: "byte", tShort: "short", tInt: "int", tLong: "long"}[t]
}

func typeSize(t byte, idSize int) int {
	switch t {
	case tObj:
		return idSize
	case tBool, tByte:
		return 1
	case tChar, tShort:
		return 2
	case tFloat, tInt:
		return 4
	case tDouble, tLong:
		return 8
	}
	panic("type")
}

// Val is a Java value: its type and its bits.
type Val struct {
	T byte
	U uint64
}

// Records. Identifiers are logical; Dump.ID maps them to those written.
type (
	Utf8 struct {
		ID   uint64
		Text string
	}
	Load struct {
		Serial uint32
		Class  uint64
		Trace  uint32
		Name   uint64
	}
	Frame struct {
		ID, Method, Sig, File uint64
		Class                 uint32
		Line                  int32
	}
	Trace struct {
		Serial, Thread uint32
		Frames         []uint64
	}
	Root struct {
		Type byte
		Obj  uint64
		A, B uint32 // thread serial, frame number / trace serial
		Ref  uint64 // JNI global
	}
	CP struct {
		Index uint16
		V     Val
	}
	Static struct {
		Name uint64
		V    Val
	}
	Field struct {
		Name uint64
		T    byte
	}
	Class struct {
		ID       uint64
		Trace    uint32
		Super    uint64
		Loader   uint64
		Signers  uint64
		Domain   uint64
		Res1     uint64
		Res2     uint64
		InstSize uint32
		CPs      []CP
		Statics  []Static
		Fields   []Field
	}
	Inst struct {
		ID    uint64
		Trace uint32
		Class uint64
		Vals  []Val
		Raw   []byte // instead of Vals
	}
	OArr struct {
		ID    uint64
		Trace uint32
		Class uint64
		Elems []uint64
	}
	PArr struct {
		ID    uint64
		Trace uint32
		T     byte
		Data  []byte
	}
	// PHole and OHole are arrays of zeros that may be too large for memory.
	PHole struct {
		ID uint64
		T  byte
		N  uint32
	}
	OHole struct {
		ID, Class uint64
		N         uint32
	}
	// IHole is an instance with N bytes of zeros.
	IHole struct {
		ID, Class uint64
		N         uint32
	}
	// Many is a series of objects without data.
	Many struct {
		First, Step uint64
		N           int
		Kind        byte // 0x21, 0x22, 0x23
		Class       uint64
		T           byte
	}
	// Split starts a new heap segment here.
	Split struct{}
	// Raw is any bytes between records.
	Raw struct{ B []byte }
	// RawSub is any bytes as a sub-record.
	RawSub struct{ B []byte }
)

type Rec any

func isSub(r Rec) bool {
	switch r.(type) {
	case Root, Class, Inst, OArr, PArr, RawSub, PHole, OHole, IHole, Many:
		return true
	}
	return false
}

const (
	rootJniGlobal, rootJniLocal, rootJavaFrame, rootNativeStack, rootSticky = 0x01, 0x02, 0x03, 0x04, 0x05
	rootThreadBlock, rootMonitor, rootThreadObj, rootUnknown                = 0x06, 0x07, 0x08, 0xff
)

var rootTypes = []byte{rootJniGlobal, rootJniLocal, rootJavaFrame, rootNativeStack, rootSticky, rootThreadBlock, rootMonitor, rootThreadObj, rootUnknown}

// Dump is a heap dump as a list of records.
type Dump struct {
	IDSize  int
	TS      uint64
	Recs    []Rec
	IDMap   func(uint64) uint64
	NoLen   bool // lengths of segments are not filled in
	NoEnd   bool
	Version string
	Time    uint32 // time of the records
	Utf8    bool   // supplementary characters take four bytes, not the six of a JVM
}

// modified is the text as a JVM writes it: surrogates take three bytes each.
func modified(s string) []byte {
	var b []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r > 0xffff {
			for _, u := range utf16.Encode([]rune{r}) {
				b = append(b, 0xe0|byte(u>>12), 0x80|byte(u>>6&0x3f), 0x80|byte(u&0x3f))
			}
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return b
}

type span struct {
	Kind     string // what starts here
	Off, Len int
}

type writer struct {
	b     []byte
	d     *Dump
	pts   []span
	holes []hole
	gaps  int64
}

// hole is a number of zeros that follow b[:At].
type hole struct {
	At int
	N  int64
}

func (w *writer) hole(n int64) {
	w.holes = append(w.holes, hole{len(w.b), n})
	w.gaps += n
}

func (w *writer) mark(kind string, n int) { w.pts = append(w.pts, span{kind, len(w.b), n}) }
func (w *writer) u1(v byte)               { w.b = append(w.b, v) }
func (w *writer) u2(v uint16)             { w.b = binary.BigEndian.AppendUint16(w.b, v) }
func (w *writer) u4(v uint32)             { w.b = binary.BigEndian.AppendUint32(w.b, v) }
func (w *writer) u8(v uint64)             { w.b = binary.BigEndian.AppendUint64(w.b, v) }
func (w *writer) id(v uint64) {
	if w.d.IDMap != nil {
		v = w.d.IDMap(v)
	}
	w.mark("id", w.d.IDSize)
	if w.d.IDSize == 4 {
		w.u4(uint32(v))
	} else {
		w.u8(v)
	}
}
func (w *writer) val(v Val) {
	if v.T == tObj {
		w.id(v.U)
		return
	}
	w.mark("value", typeSize(v.T, w.d.IDSize))
	switch typeSize(v.T, w.d.IDSize) {
	case 1:
		w.u1(byte(v.U))
	case 2:
		w.u2(uint16(v.U))
	case 4:
		w.u4(uint32(v.U))
	case 8:
		w.u8(v.U)
	}
}

func (w *writer) body(r Rec) {
	switch r := r.(type) {
	case Utf8:
		w.id(r.ID)
		if w.d.Utf8 {
			w.b = append(w.b, r.Text...)
		} else {
			w.b = append(w.b, modified(r.Text)...)
		}
	case Load:
		w.mark("serial", 4)
		w.u4(r.Serial)
		w.id(r.Class)
		w.mark("trace", 4)
		w.u4(r.Trace)
		w.id(r.Name)
	case Frame:
		w.id(r.ID)
		w.id(r.Method)
		w.id(r.Sig)
		w.id(r.File)
		w.mark("serial", 4)
		w.u4(r.Class)
		w.mark("line", 4)
		w.u4(uint32(r.Line))
	case Trace:
		w.mark("trace", 4)
		w.u4(r.Serial)
		w.mark("thread", 4)
		w.u4(r.Thread)
		w.mark("count", 4)
		w.u4(uint32(len(r.Frames)))
		for _, f := range r.Frames {
			w.id(f)
		}
	case Root:
		w.mark("subtype", 1)
		w.u1(r.Type)
		w.id(r.Obj)
		switch r.Type {
		case rootJniGlobal:
			w.id(r.Ref)
		case rootJniLocal, rootJavaFrame, rootThreadObj:
			w.mark("thread", 4)
			w.u4(r.A)
			w.mark("trace", 4)
			w.u4(r.B)
		case rootNativeStack, rootThreadBlock:
			w.mark("thread", 4)
			w.u4(r.A)
		}
	case Class:
		w.mark("subtype", 1)
		w.u1(0x20)
		w.id(r.ID)
		w.mark("trace", 4)
		w.u4(r.Trace)
		w.id(r.Super)
		w.id(r.Loader)
		w.id(r.Signers)
		w.id(r.Domain)
		w.id(r.Res1)
		w.id(r.Res2)
		w.mark("instsize", 4)
		w.u4(r.InstSize)
		w.mark("count", 2)
		w.u2(uint16(len(r.CPs)))
		for _, c := range r.CPs {
			w.u2(c.Index)
			w.mark("type", 1)
			w.u1(c.V.T)
			w.val(c.V)
		}
		w.mark("count", 2)
		w.u2(uint16(len(r.Statics)))
		for _, s := range r.Statics {
			w.id(s.Name)
			w.mark("type", 1)
			w.u1(s.V.T)
			w.val(s.V)
		}
		w.mark("count", 2)
		w.u2(uint16(len(r.Fields)))
		for _, f := range r.Fields {
			w.id(f.Name)
			w.mark("type", 1)
			w.u1(f.T)
		}
	case Inst:
		w.mark("subtype", 1)
		w.u1(0x21)
		w.id(r.ID)
		w.mark("trace", 4)
		w.u4(r.Trace)
		w.id(r.Class)
		w.mark("count", 4)
		at := len(w.b)
		w.u4(0)
		if r.Raw != nil {
			w.b = append(w.b, r.Raw...)
		} else {
			for _, v := range r.Vals {
				w.val(v)
			}
		}
		binary.BigEndian.PutUint32(w.b[at:], uint32(len(w.b)-at-4))
	case OArr:
		w.mark("subtype", 1)
		w.u1(0x22)
		w.id(r.ID)
		w.mark("trace", 4)
		w.u4(r.Trace)
		w.mark("count", 4)
		w.u4(uint32(len(r.Elems)))
		w.id(r.Class)
		for _, e := range r.Elems {
			w.id(e)
		}
	case PArr:
		w.mark("subtype", 1)
		w.u1(0x23)
		w.id(r.ID)
		w.mark("trace", 4)
		w.u4(r.Trace)
		w.mark("count", 4)
		w.u4(uint32(len(r.Data) / typeSize(r.T, w.d.IDSize)))
		w.mark("type", 1)
		w.u1(r.T)
		w.mark("payload", len(r.Data))
		w.b = append(w.b, r.Data...)
	case RawSub:
		w.b = append(w.b, r.B...)
	case PHole:
		w.u1(0x23)
		w.id(r.ID)
		w.u4(0)
		w.u4(r.N)
		w.u1(r.T)
		w.hole(int64(r.N) * int64(typeSize(r.T, w.d.IDSize)))
	case OHole:
		w.u1(0x22)
		w.id(r.ID)
		w.u4(0)
		w.u4(r.N)
		w.id(r.Class)
		w.hole(int64(r.N) * int64(w.d.IDSize))
	case IHole:
		w.u1(0x21)
		w.id(r.ID)
		w.u4(0)
		w.id(r.Class)
		w.u4(r.N)
		w.hole(int64(r.N))
	case Many:
		for i := 0; i < r.N; i++ {
			w.u1(r.Kind)
			w.pts = w.pts[:0]
			w.id(r.First + uint64(i)*r.Step)
			w.u4(0)
			switch r.Kind {
			case 0x21:
				w.id(r.Class)
				w.u4(0)
			case 0x22:
				w.u4(0)
				w.id(r.Class)
			case 0x23:
				w.u4(0)
				w.u1(r.T)
			}
		}
	default:
		panic(fmt.Sprintf("%T", r))
	}
}

func (w *writer) header(tag byte) (at int) {
	w.mark("tag", 1)
	w.u1(tag)
	w.mark("time", 4)
	w.u4(w.d.Time)
	w.mark("length", 4)
	at = len(w.b)
	w.u4(0)
	return
}

func (d *Dump) encode() *writer {
	w := &writer{d: d}
	v := d.Version
	if v == "" {
		v = "JAVA PROFILE 1.0.2"
	}
	w.mark("version", len(v)+1)
	w.b = append(w.b, v...)
	w.u1(0)
	w.mark("idsize", 4)
	w.u4(uint32(d.IDSize))
	w.mark("timestamp", 8)
	w.u8(d.TS)
	seg, gaps := -1, int64(0)
	end := func() {
		if n := int64(len(w.b)-seg-4) + w.gaps - gaps; seg >= 0 && !d.NoLen && n < 1<<32 {
			binary.BigEndian.PutUint32(w.b[seg:], uint32(n))
		}
		seg = -1
	}
	for _, r := range d.Recs {
		switch x := r.(type) {
		case Split:
			end()
			continue
		case Raw:
			end()
			w.b = append(w.b, x.B...)
			continue
		}
		if isSub(r) {
			if seg < 0 {
				seg = w.header(0x1c)
				gaps = w.gaps
			}
			w.body(r)
			continue
		}
		end()
		var tag byte
		switch r.(type) {
		case Utf8:
			tag = 0x01
		case Load:
			tag = 0x02
		case Frame:
			tag = 0x04
		case Trace:
			tag = 0x05
		default:
			panic(fmt.Sprintf("%T", r))
		}
		at := w.header(tag)
		w.body(r)
		binary.BigEndian.PutUint32(w.b[at:], uint32(len(w.b)-at-4))
	}
	end()
	if !d.NoEnd {
		w.header(0x2c)
	}
	return w
}

// Bytes is the dump as a file.
func (d *Dump) Bytes() []byte {
	w := d.encode()
	if len(w.holes) == 0 {
		return w.b
	}
	var r []byte
	at := 0
	for _, h := range w.holes {
		r = append(append(r, w.b[at:h.At]...), make([]byte, h.N)...)
		at = h.At
	}
	return append(r, w.b[at:]...)
}

// WriteTo writes the dump as a file with holes.
func (d *Dump) WriteTo(path string) (size int64, err error) {
	w := d.encode()
	f, err := os.Create(path)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	at := 0
	for _, h := range append(w.holes, hole{len(w.b), 0}) {
		if _, err := f.WriteAt(w.b[at:h.At], size); err != nil {
			return 0, err
		}
		size += int64(h.At-at) + h.N
		at = h.At
	}
	return size, f.Truncate(size)
}

// Spans lists the fields of the file.
func (d *Dump) Spans() []span { return d.encode().pts }
