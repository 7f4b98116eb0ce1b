package st

import (
	"encoding/binary"
	"reflect"
	"sort"

	bin "github.com/gagliardetto/binary"

	"vmon/tm"
)

// More types that log their calls, one per kind: the library has fast paths for
// some kinds, which must not bypass the methods. On the wire each is a marker
// and a big-endian 32-bit number.

// faulty tells whether a number makes its marshaler refuse; narrow kinds see its low bits.
func faulty(x uint32, bits uint) bool {
	if bits < 32 {
		return x&(1<<bits-1) == FaultID&(1<<bits-1)
	}
	return x == FaultID
}

func lputN(e *bin.Encoder, key string, x uint32, bits uint) error {
	if faulty(x, bits) {
		logEnc(e, key)
		if err := e.WriteByte(lmark); err != nil {
			return err
		}
		return fault(e)
	}
	return lput(e, key, x)
}

type LI8 int8

func (l LI8) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI8", uint32(l)), uint32(l), 8)
}
func (l *LI8) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI8")
	*l = LI8(int32(x))
	return err
}

type LI16 int16

func (l LI16) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI16", uint32(l)), uint32(l), 16)
}
func (l *LI16) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI16")
	*l = LI16(int32(x))
	return err
}

type LI64 int64

func (l LI64) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI64", uint32(l)), uint32(l), 32)
}
func (l *LI64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI64")
	*l = LI64(int32(x))
	return err
}

type LU8 uint8

func (l LU8) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU8", uint32(l)), uint32(l), 8)
}
func (l *LU8) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU8")
	*l = LU8(x)
	return err
}

type LU16 uint16

func (l LU16) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU16", uint32(l)), uint32(l), 16)
}
func (l *LU16) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU16")
	*l = LU16(x)
	return err
}

type LU32 uint32

func (l LU32) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU32", uint32(l)), uint32(l), 32)
}
func (l *LU32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU32")
	*l = LU32(x)
	return err
}

type LU64 uint64

func (l LU64) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU64", uint32(l)), uint32(l), 32)
}
func (l *LU64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU64")
	*l = LU64(x)
	return err
}

type LF32 float32

func (l LF32) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LF32", uint32(l)), uint32(l), 24)
}
func (l *LF32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LF32")
	*l = LF32(x & 0xffffff)
	return err
}

type LF64 float64

func (l LF64) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LF64", uint32(l)), uint32(l), 32)
}
func (l *LF64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LF64")
	*l = LF64(x)
	return err
}

type LBool bool

func (l LBool) num() uint32 {
	if l {
		return 1
	}
	return 0
}

func (l LBool) MarshalWithEncoder(e *bin.Encoder) error {
	return lput(e, lkey("LBool", l.num()), l.num())
}
func (l *LBool) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LBool")
	*l = x&1 != 0
	return err
}

// LArr is of array kind.
type LArr [4]uint8

func (l LArr) num() uint32 {
	return uint32(l[0])<<24 | uint32(l[1])<<16 | uint32(l[2])<<8 | uint32(l[3])
}

func larr(x uint32) LArr { return LArr{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func (l LArr) MarshalWithEncoder(e *bin.Encoder) error {
	return lput(e, lkey("LArr", l.num()), l.num())
}
func (l *LArr) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LArr")
	*l = larr(x)
	return err
}

// LMap is of map kind.
type LMap map[uint8]uint8

func (l LMap) pairs() (b []byte) {
	keys := make([]int, 0, len(l))
	for k := range l {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		b = append(b, byte(k), l[uint8(k)])
	}
	return b
}

func (l LMap) MarshalWithEncoder(e *bin.Encoder) error {
	b := l.pairs()
	logEnc(e, "LMap "+string(b))
	if err := e.WriteByte(lmark); err != nil {
		return err
	}
	if err := e.WriteUint8(uint8(len(l))); err != nil {
		return err
	}
	return e.WriteBytes(b, false)
}

func (l *LMap) UnmarshalWithDecoder(d *bin.Decoder) error {
	at := d.Position()
	m, err := d.ReadByte()
	if err != nil {
		logDec(d, at, "LMap early end")
		return early(d, err)
	}
	if m != lmark {
		logDec(d, at, "LMap fault")
		return fault(d)
	}
	*l = LMap{}
	n := uint8(0)
	if err == nil {
		n, err = d.ReadUint8()
	}
	var b []byte
	if err == nil {
		b, err = d.ReadNBytes(2 * int(n))
	}
	for i := 0; i+1 < len(b); i += 2 {
		(*l)[b[i]] = b[i+1]
	}
	logDec(d, at, "LMap "+string(b))
	return err
}

// LUnit has no state: its values are all equal, and so may be their addresses.
type LUnit struct{}

const lunit = 0x756e6974

func (l LUnit) MarshalWithEncoder(e *bin.Encoder) error { return lput(e, "LUnit", lunit) }
func (l *LUnit) UnmarshalWithDecoder(d *bin.Decoder) error {
	at := d.Position()
	m, err := d.ReadByte()
	if err != nil {
		logDec(d, at, "LUnit early end")
		return early(d, err)
	}
	if m != lmark {
		logDec(d, at, "LUnit fault")
		return fault(d)
	}
	logDec(d, at, "LUnit")
	x, err := d.ReadUint32(binary.BigEndian)
	if err == nil && x != lunit {
		return fault(d)
	}
	return err
}

// LNone marshals to nothing at all, although it has fields.
type LNone struct {
	X uint8
	Y uint32
}

func (l LNone) MarshalWithEncoder(e *bin.Encoder) error { logEnc(e, "LNone"); return nil }
func (l *LNone) UnmarshalWithDecoder(d *bin.Decoder) error {
	logDec(d, d.Position(), "LNone")
	*l = LNone{7, 0x01020304}
	return nil
}

func initLog2() {
	lib(LNone{}, "LNone", 0, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) { w.Call("LNone") }, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		return v(LNone{7, 0x01020304})
	}, func(g *tm.Gen) reflect.Value { return v(LNone{7, 0x01020304}) }).Log = true
	lib(LUnit{}, "LUnit", 5, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Call("LUnit")
		w.Byte(lmark)
		w.Mark("log", 1)
		w.Fixed(lunit, 4, true)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != lmark || r.Fixed(4, true) != lunit {
			r.Stop(tm.Reject)
		}
		return v(LUnit{})
	}, func(g *tm.Gen) reflect.Value { return v(LUnit{}) }).Log = true

	num := func(zero interface{}, name string, bits uint, num func(v reflect.Value) uint32, mk func(x uint32) reflect.Value) *tm.Lib {
		l := lib(zero, name, 5, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
			w.Call(lkey(name, num(v)))
			w.Byte(lmark)
			w.Mark("log", 1)
			if faulty(num(v), bits) {
				w.Fail(tm.ErrUser)
			}
			w.Fixed(uint64(num(v)), 4, true)
		}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
			if r.Byte() != lmark {
				r.Stop(tm.Reject)
			}
			return mk(uint32(r.Fixed(4, true)))
		}, func(g *tm.Gen) reflect.Value {
			x := uint32(g.Edge())
			if faulty(x, bits) {
				x++
			}
			return mk(x)
		})
		l.Log = true
		return l
	}
	num(LI8(0), "LI8", 8, func(v reflect.Value) uint32 { return uint32(v.Int()) }, func(x uint32) reflect.Value { return v(LI8(int32(x))) }).KeyOK = true
	num(LI16(0), "LI16", 16, func(v reflect.Value) uint32 { return uint32(v.Int()) }, func(x uint32) reflect.Value { return v(LI16(int32(x))) }).KeyOK = true
	num(LI64(0), "LI64", 32, func(v reflect.Value) uint32 { return uint32(v.Int()) }, func(x uint32) reflect.Value { return v(LI64(int32(x))) }).KeyOK = true
	num(LU8(0), "LU8", 8, func(v reflect.Value) uint32 { return uint32(v.Uint()) }, func(x uint32) reflect.Value { return v(LU8(x)) }).KeyOK = true
	num(LU16(0), "LU16", 16, func(v reflect.Value) uint32 { return uint32(v.Uint()) }, func(x uint32) reflect.Value { return v(LU16(x)) }).KeyOK = true
	num(LU32(0), "LU32", 32, func(v reflect.Value) uint32 { return uint32(v.Uint()) }, func(x uint32) reflect.Value { return v(LU32(x)) }).KeyOK = true
	num(LU64(0), "LU64", 32, func(v reflect.Value) uint32 { return uint32(v.Uint()) }, func(x uint32) reflect.Value { return v(LU64(x)) }).KeyOK = true
	num(LF32(0), "LF32", 24, func(v reflect.Value) uint32 { return uint32(v.Float()) }, func(x uint32) reflect.Value { return v(LF32(x & 0xffffff)) }).KeyOK = true
	num(LF64(0), "LF64", 32, func(v reflect.Value) uint32 { return uint32(v.Float()) }, func(x uint32) reflect.Value { return v(LF64(x)) }).KeyOK = true
	num(LBool(false), "LBool", 32, func(v reflect.Value) uint32 { return LBool(v.Bool()).num() }, func(x uint32) reflect.Value { return v(LBool(x&1 != 0)) })
	num(LArr{}, "LArr", 32, func(v reflect.Value) uint32 {
		var l LArr
		reflect.Copy(reflect.ValueOf(l[:]), v)
		return l.num()
	}, func(x uint32) reflect.Value { return v(larr(x)) })
	lib(LMap(nil), "LMap", 2, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		l := LMap{}
		for it := v.MapRange(); it.Next(); {
			l[uint8(it.Key().Uint())] = uint8(it.Value().Uint())
		}
		b := l.pairs()
		w.Call("LMap " + string(b))
		w.Byte(lmark)
		w.Mark("log", 1)
		w.Byte(byte(len(l)))
		w.Raw(b)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != lmark {
			r.Stop(tm.Reject)
		}
		l := LMap{}
		b := r.Take(2 * int(r.Byte()))
		for i := 0; i+1 < len(b); i += 2 {
			l[b[i]] = b[i+1]
		}
		return v(l)
	}, func(g *tm.Gen) reflect.Value {
		l := LMap{}
		for i, n := 0, g.N(4); i < n; i++ {
			l[byte(g.Edge())] = byte(g.U64())
		}
		return v(l)
	}).Log = true
}
