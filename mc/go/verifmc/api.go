//go:build api

package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/storage"
)

type memFile struct{ bytes.Buffer }

func (*memFile) Close() error { return nil }

type memReader struct{ *bytes.Reader }

func (memReader) Close() error { return nil }

// indexed parses the dump with the real parser, writes its index out to memory and restores
// it from there.
func indexed(b []byte) (*dump.ParsedAccessor, error) {
	small, meta := storage.NewSmallRecordsWriteStorage(), storage.NewMetaWriteStorage()
	var idx [3]memFile
	p := dump.NewParser(bytes.NewReader(b), small, storage.NewBigRecordsWriteStorage(&idx[0], &idx[1], &idx[2]), meta)
	if err := p.ParseHeapDump(); err != nil {
		return nil, err
	}
	var sb, mb bytes.Buffer
	if err := small.SerializeTo(&sb); err != nil {
		return nil, err
	}
	if err := meta.SerializeTo(&mb); err != nil {
		return nil, err
	}
	rs, rm := storage.NewSmallRecordsReadStorage(), storage.NewMetaReadStorage()
	if err := rs.RestoreFrom(&sb); err != nil {
		return nil, err
	}
	if err := rm.RestoreFrom(&mb); err != nil {
		return nil, err
	}
	rd := func(i int) memReader { return memReader{bytes.NewReader(idx[i].Bytes())} }
	big, err := storage.NewBigRecordsReadStorage(rd(0), idx[0].Len(), rd(1), idx[1].Len(), rd(2), idx[2].Len())
	if err != nil {
		return nil, err
	}
	return dump.NewParsedAccessor(bytes.NewReader(b), big, rs, rm), nil
}

// sameVal compares a value as read with the one of the dump.
func sameVal(v core.JavaValue, want Val, idSize int) error {
	if byte(v.Type) != want.T {
		return fmt.Errorf("type %d instead of %d", v.Type, want.T)
	}
	size := typeSize(want.T, idSize)
	u := want.U
	if size < 8 {
		u &= 1<<(8*size) - 1
	}
	var got uint64
	x := reflect.ValueOf(v.Value)
	switch {
	case !x.IsValid():
		return fmt.Errorf("no value")
	case x.Kind() == reflect.Bool:
		if x.Bool() {
			got = 1
		}
	case x.CanInt():
		got = uint64(x.Int())
	case x.CanUint():
		got = x.Uint()
	case x.Kind() == reflect.Float32:
		f := float32(x.Float())
		if f != f && math.Float32frombits(uint32(u)) != math.Float32frombits(uint32(u)) {
			return nil
		}
		got = uint64(math.Float32bits(f))
	case x.Kind() == reflect.Float64:
		f := x.Float()
		if f != f && math.Float64frombits(u) != math.Float64frombits(u) {
			return nil
		}
		got = math.Float64bits(f)
	case x.Kind() == reflect.String:
		for _, b := range []byte(x.String()) {
			got = got<<8 | uint64(b)
		}
		if len(x.String()) != size {
			return fmt.Errorf("value %q of %d bytes", x.String(), len(x.String()))
		}
	default:
		return fmt.Errorf("value %#v", v.Value)
	}
	if size < 8 {
		got &= 1<<(8*size) - 1
	}
	if got != u {
		return fmt.Errorf("value %x instead of %x", got, u)
	}
	return nil
}

// noPanic runs f, a panic of which is an error.
func noPanic(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(violation); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}
