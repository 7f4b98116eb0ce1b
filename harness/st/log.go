package st

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sync"

	bin "github.com/gagliardetto/binary"

	"vmon/tm"
)

// The L types log every call the library makes on them: which value, at which
// offset, on which encoder or decoder.

var logs sync.Map // *bin.Encoder or *bin.Decoder -> *[]tm.Call

// Watch starts a log for an encoder or decoder; the log must only be read once
// the encoder or decoder is idle.
func Watch(x interface{}) *[]tm.Call {
	l := new([]tm.Call)
	logs.Store(x, l)
	return l
}

func Unwatch(x interface{}) { logs.Delete(x); faults.Delete(x) }

var faults sync.Map // *bin.Encoder or *bin.Decoder -> error

// SetFault chooses the error that refusing values return on an encoder or decoder, until Unwatch.
func SetFault(x interface{}, err error) { faults.Store(x, err) }

// early is what refusing values return when there is nothing to read.
func early(x interface{}, err error) error {
	if e, ok := faults.Load(x); ok {
		return e.(error)
	}
	return err
}

func fault(x interface{}) error {
	if e, ok := faults.Load(x); ok {
		return e.(error)
	}
	return Fault
}

func logEnc(e *bin.Encoder, key string) {
	if l, ok := logs.Load(e); ok {
		p := l.(*[]tm.Call)
		*p = append(*p, tm.Call{Off: e.Written(), Key: key})
	}
}

func logDec(d *bin.Decoder, at uint, key string) {
	if l, ok := logs.Load(d); ok {
		p := l.(*[]tm.Call)
		*p = append(*p, tm.Call{Off: int(at), Key: key})
	}
}

const lmark = 0x3c

// wire layout shared by the fixed ones: marker, big-endian number.
func lput(e *bin.Encoder, key string, x uint32) error {
	logEnc(e, key)
	if err := e.WriteByte(lmark); err != nil {
		return err
	}
	if x == FaultID {
		return fault(e)
	}
	return e.WriteUint32(x, binary.BigEndian)
}

func lget(d *bin.Decoder, kind string) (uint32, error) {
	at := d.Position()
	m, err := d.ReadByte()
	if err != nil {
		logDec(d, at, kind+" early end")
		return 0, early(d, err)
	}
	if m != lmark {
		logDec(d, at, kind+" fault")
		return 0, fault(d)
	}
	x, err := d.ReadUint32(binary.BigEndian)
	logDec(d, at, lkey(kind, x))
	return x, err
}

func lkey(kind string, x uint32) string { return fmt.Sprintf("%s %d", kind, x) }

type LVal struct{ X uint32 }

func (l LVal) MarshalWithEncoder(e *bin.Encoder) error { return lput(e, lkey("LVal", l.X), l.X) }
func (l *LVal) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	l.X, err = lget(d, "LVal")
	return
}

// LPtr has pointer receivers throughout.
type LPtr struct {
	X   uint32
	pad uint64
}

func (l *LPtr) MarshalWithEncoder(e *bin.Encoder) error { return lput(e, lkey("LPtr", l.X), l.X) }
func (l *LPtr) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	l.X, err = lget(d, "LPtr")
	return
}

// LEmb has the codec of the value it embeds, and nothing of its own on the wire.
type LEmb struct {
	LVal
	Own uint16
}

// LEmbP has the pointer codec of a value it embeds behind another field.
type LEmbP struct {
	Own string
	LPtr
}

// LOwn embeds a value with a codec and has a codec of its own.
type LOwn struct {
	X uint32
	LVal
}

func (l LOwn) MarshalWithEncoder(e *bin.Encoder) error { return lput(e, lkey("LOwn", l.X), l.X) }
func (l *LOwn) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	l.X, err = lget(d, "LOwn")
	l.LVal.X = l.X + 1
	return
}

// LOwnP embeds a nil pointer to a value with a codec and has a codec of its own.
type LOwnP struct {
	X uint32
	*LPtr
}

func (l *LOwnP) MarshalWithEncoder(e *bin.Encoder) error { return lput(e, lkey("LOwnP", l.X), l.X) }
func (l *LOwnP) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	l.X, err = lget(d, "LOwnP")
	return
}

// Both embeds two values with codecs, and so has none: it is a struct like any other.
type Both struct {
	A uint16
	LVal
	LU8
	Z int8
}

// BothP embeds them in the other order, one of them as a pointer.
type BothP struct {
	LU16
	*LVal
	Z string
}

type LInt int32

func (l LInt) MarshalWithEncoder(e *bin.Encoder) error {
	return lput(e, lkey("LInt", uint32(l)), uint32(l))
}
func (l *LInt) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LInt")
	*l = LInt(x)
	return err
}

type LStr string

func (l LStr) MarshalWithEncoder(e *bin.Encoder) error {
	logEnc(e, "LStr "+string(l))
	if err := e.WriteByte(lmark); err != nil {
		return err
	}
	if err := e.WriteUint8(uint8(len(l))); err != nil {
		return err
	}
	return e.WriteBytes([]byte(l), false)
}
func (l *LStr) UnmarshalWithDecoder(d *bin.Decoder) error {
	at := d.Position()
	m, err := d.ReadByte()
	if err != nil {
		logDec(d, at, "LStr early end")
		return early(d, err)
	}
	if m != lmark {
		logDec(d, at, "LStr fault")
		return fault(d)
	}
	n := uint8(0)
	if err == nil {
		n, err = d.ReadUint8()
	}
	var b []byte
	if err == nil {
		b, err = d.ReadNBytes(int(n))
	}
	logDec(d, at, "LStr "+string(b))
	*l = LStr(b)
	return err
}

type LVec []int32

func (l LVec) sum() (s uint32) {
	for i, x := range l {
		s += uint32(x) * uint32(i+1)
	}
	return
}

func (l LVec) MarshalWithEncoder(e *bin.Encoder) error {
	logEnc(e, lkey("LVec", l.sum()))
	if err := e.WriteByte(lmark); err != nil {
		return err
	}
	if err := e.WriteUint8(uint8(len(l))); err != nil {
		return err
	}
	for _, x := range l {
		if err := e.WriteInt32(x, binary.BigEndian); err != nil {
			return err
		}
	}
	return nil
}
func (l *LVec) UnmarshalWithDecoder(d *bin.Decoder) error {
	at := d.Position()
	m, err := d.ReadByte()
	if err != nil {
		logDec(d, at, "LVec early end")
		return early(d, err)
	}
	if m != lmark {
		logDec(d, at, "LVec fault")
		return fault(d)
	}
	*l = nil
	n := uint8(0)
	if err == nil {
		n, err = d.ReadUint8()
	}
	for i := 0; i < int(n) && err == nil; i++ {
		var x int32
		x, err = d.ReadInt32(binary.BigEndian)
		*l = append(*l, x)
	}
	logDec(d, at, lkey("LVec", l.sum()))
	return err
}

func initLog() {
	fixedAs := func(zero interface{}, name, key string, num func(v reflect.Value) uint32, mk func(x uint32) reflect.Value) *tm.Lib {
		l := lib(zero, name, 5, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
			w.Call(lkey(key, num(v)))
			w.Byte(lmark)
			w.Mark("log", 1)
			if num(v) == FaultID {
				w.Fail(tm.ErrUser)
			}
			w.Fixed(uint64(num(v)), 4, true)
		}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
			if r.Byte() != lmark {
				r.Stop(tm.Reject)
			}
			return mk(uint32(r.Fixed(4, true)))
		}, func(g *tm.Gen) reflect.Value {
			x := uint32(g.Edge())
			if x == FaultID {
				x++
			}
			return mk(x)
		})
		l.Log = true
		return l
	}
	fixed := func(zero interface{}, name string, num func(v reflect.Value) uint32, mk func(x uint32) reflect.Value) *tm.Lib {
		return fixedAs(zero, name, name, num, mk)
	}
	fixedAs(LEmb{}, "LEmb", "LVal", func(v reflect.Value) uint32 { return uint32(v.Field(0).Field(0).Uint()) }, func(x uint32) reflect.Value { return v(LEmb{LVal: LVal{x}}) })
	fixedAs(LEmbP{}, "LEmbP", "LPtr", func(v reflect.Value) uint32 { return uint32(v.Field(1).Field(0).Uint()) }, func(x uint32) reflect.Value { return v(LEmbP{LPtr: LPtr{X: x}}) }).PtrOnly = true
	fixed(LOwn{}, "LOwn", func(v reflect.Value) uint32 { return uint32(v.Field(0).Uint()) }, func(x uint32) reflect.Value { return v(LOwn{x, LVal{x + 1}}) })
	fixed(LOwnP{}, "LOwnP", func(v reflect.Value) uint32 { return uint32(v.Field(0).Uint()) }, func(x uint32) reflect.Value { return v(LOwnP{X: x}) }).PtrOnly = true
	fixed(LVal{}, "LVal", func(v reflect.Value) uint32 { return v.Interface().(LVal).X }, func(x uint32) reflect.Value { return v(LVal{x}) })
	fixed(LPtr{}, "LPtr", func(v reflect.Value) uint32 { return uint32(v.Field(0).Uint()) }, func(x uint32) reflect.Value { return v(LPtr{X: x}) }).PtrOnly = true
	fixed(LInt(0), "LInt", func(v reflect.Value) uint32 { return uint32(v.Int()) }, func(x uint32) reflect.Value { return v(LInt(x)) }).KeyOK = true
	ls := lib(LStr(""), "LStr", 2, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Call("LStr " + v.String())
		w.Byte(lmark)
		w.Mark("log", 1)
		w.Byte(byte(v.Len()))
		w.Raw([]byte(v.String()))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != lmark {
			r.Stop(tm.Reject)
		}
		return v(LStr(r.Take(int(r.Byte()))))
	}, func(g *tm.Gen) reflect.Value { return v(LStr(g.Str(g.N(9)))) })
	ls.KeyOK, ls.Log = true, true
	lib(LVec(nil), "LVec", 2, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		l := make(LVec, v.Len())
		reflect.Copy(reflect.ValueOf(l), v)
		w.Call(lkey("LVec", l.sum()))
		w.Byte(lmark)
		w.Mark("log", 1)
		w.Byte(byte(len(l)))
		for _, x := range l {
			w.Fixed(uint64(x), 4, true)
		}
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != lmark {
			r.Stop(tm.Reject)
		}
		var l LVec
		for i, n := 0, int(r.Byte()); i < n; i++ {
			l = append(l, int32(r.Fixed(4, true)))
		}
		return v(l)
	}, func(g *tm.Gen) reflect.Value {
		var l LVec
		for i, n := 0, g.N(4); i < n; i++ {
			l = append(l, int32(g.Edge()))
		}
		return v(l)
	}).Log = true
}
