// Package st holds the named types of the workloads: the library's helper types
// with their reference codecs, named scalars, static structs, and custom
// marshalers that log their calls.
package st

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"

	"vmon/tm"
)

type (
	NBool bool
	NU8   uint8
	NU16  uint16
	NU32  uint32
	NU64  uint64
	NI8   int8
	NI16  int16
	NI32  int32
	NI64  int64
	NF32  float32
	NF64  float64
	NStr  string
)

// Static structs.
type (
	Base struct {
		ID   uint32
		Name string
	}
	// Embeds promotes fields, not codecs.
	Embeds struct {
		Base
		Extra uint16
	}
	EmbedsPtr struct {
		*Base `bin:"optional"`
		Extra uint16 `bin:"big"`
	}
	hiddenEmb    struct{ Z uint64 }
	EmbedsHidden struct {
		hiddenEmb
		A uint8
	}
	// tags on embedded fields
	EmbedsSkipped struct {
		A    uint8
		Base `bin:"-"`
		B    uint16
	}
	EmbedsSkippedPtr struct {
		*Base `bin:"skip"`
		Keys  `borsh_skip:"true"`
		B     uint16
	}
	Keys         struct{ K1, K2 uint64 }
	EmbedsTagged struct {
		Keys  `bin:"big"`
		*Base `bin:"optional big"`
		Z     uint16
	}
	// List and Tree are recursive.
	List struct {
		V    uint16
		Next *List `bin:"optional"`
	}
	CList struct {
		V    int32
		Next *CList `bin:"optional"`
		Tail []uint16
	}
	Tree struct {
		V    uint8
		Kids []Tree
	}
	NamedBytes  []byte
	NamedU16s   []uint16
	NamedStrs   []string
	NamedArr    [4]uint32
	NamedMap    map[string]uint32
	NamedIntMap map[NI64]NU8
	Key32       [32]byte
	Account     struct {
		Owner    Key32
		Lamports uint64
		Data     []byte
		Rent     uint64 `bin:"big"`
		Exec     bool
	}
	Counted struct {
		N     uint16 `bin:"sizeof=Items"`
		Pad   uint8
		Items []Base
		M     uint8 `bin:"sizeof=Raw"`
		Raw   []byte
	}
	// Counted2 nests a struct with an equally named counted field.
	Counted2 struct {
		N     int32 `bin:"sizeof=Items big"`
		Inner struct {
			Items []uint16
		}
		Items []uint32
		Last  []uint32
	}
	OptMix struct {
		A *uint32 `bin:"optional"`
		B *string `bin:"option"`
		C *Base   `bin:"coption"`
		D uint64  `bin:"optional"`
		E []byte  `bin:"optional"`
		F *Key32  `bin:"optional"`
		G uint8
	}
	Hidden struct {
		A uint8
		b uint64
		C string `bin:"-"`
		D *Base  `borsh_skip:"true"`
		E uint16
		F []byte `bin:"skip"`
		g *Tree
		H int8
	}
	Ordered struct {
		A uint16 `bin:"big"`
		B uint16 `bin:"little"`
		C uint16
		D bin.Uint64 `bin:"big"`
		E bin.Uint64
		F bin.Uint128 `bin:"big"`
		G bin.Uint128
		H float64   `bin:"big"`
		I []uint32  `bin:"big"`
		J [2]int16  `bin:"big"`
		K Base      `bin:"big"`
		L *int32    `bin:"big"`
		M bin.Int64 `bin:"big"`
		N bin.Int64
	}
	ExtTail struct {
		A uint32
		B string  `bin:"binary_extension"`
		C uint16  `bin:"binary_extension big"`
		D *uint64 `bin:"binary_extension optional"`
	}
	EnumA struct {
		Enum bin.BorshEnum `borsh_enum:"true"`
		Unit bin.EmptyVariant
		Num  uint32
		Rec  Base
		Vec  []uint16
		Str  string
		Arr  [3]int16
		Hex  bin.HexBytes
		Map  map[uint8]string
		Big  bin.Uint128
		Ptr  *Base
		Flt  float64
		Opt  OptMix
	}
	EnumHolder struct {
		Pre  uint8
		E    EnumA
		Es   []EnumA
		OE   *EnumA `bin:"optional"`
		Post uint16
	}
	NotEnum struct {
		A bin.BorshEnum
		B uint32
	}
	Deep struct {
		L1 struct {
			L2 struct {
				L3 []struct {
					L4 map[string][]struct {
						X uint16 `bin:"big"`
						Y *int64 `bin:"optional"`
					}
				}
			}
		}
	}
)

func v(x interface{}) reflect.Value { return reflect.ValueOf(x) }

func lib(zero interface{}, name string, min int, enc func(w *tm.W, e tm.Enc, big bool, v reflect.Value), dec func(r *tm.R, e tm.Enc, big bool) reflect.Value, gen func(g *tm.Gen) reflect.Value) *tm.Lib {
	l := &tm.Lib{Name: name, RT: reflect.TypeOf(zero), Min: min, Enc: enc, Dec: dec, Gen: gen}
	tm.RegisterLib(l)
	return l
}

func enc128(w *tm.W, lo, hi uint64, big bool) {
	if big {
		w.Fixed(hi, 8, true)
		w.Fixed(lo, 8, true)
	} else {
		w.Fixed(lo, 8, false)
		w.Fixed(hi, 8, false)
	}
}

func dec128(r *tm.R, big bool) (lo, hi uint64) {
	if len(r.D)-r.P < 16 {
		r.Stop(tm.Trunc)
	}
	if big {
		hi = r.Fixed(8, true)
		lo = r.Fixed(8, true)
	} else {
		lo = r.Fixed(8, false)
		hi = r.Fixed(8, false)
	}
	return
}

// SafeUTF8 replaces every byte that is not part of a valid UTF-8 sequence.
func SafeUTF8(b []byte) string {
	var out []byte
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n == 1 {
			out = append(out, 0xef, 0xbf, 0xbd)
		} else {
			out = append(out, b[:n]...)
		}
		b = b[n:]
	}
	return string(out)
}

func init() {
	for _, x := range []interface{}{NBool(false), NU8(0), NU16(0), NU32(0), NU64(0), NI8(0), NI16(0), NI32(0), NI64(0), NF32(0), NF64(0), NStr("")} {
		tm.RegisterNamedScalar(x)
	}
	tm.RegisterEnumType(reflect.TypeOf(bin.BorshEnum(0)))

	lib(bin.Bool(false), "Bool", 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		b := byte(0)
		if v.Bool() {
			b = 1
		}
		w.Byte(b)
		w.Mark("bool", 1)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		b := r.Byte()
		if b > 1 {
			r.Lenient = true
		}
		return v(bin.Bool(b != 0))
	}, func(g *tm.Gen) reflect.Value { return v(bin.Bool(g.P(50))) })

	lib(bin.HexBytes(nil), "HexBytes", 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Length(e, v.Len())
		w.Raw(v.Bytes())
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		return v(bin.HexBytes(append([]byte(nil), r.Take(r.Length(e))...)))
	}, func(g *tm.Gen) reflect.Value {
		if n := g.N(20); n > 0 || g.P(50) {
			return v(bin.HexBytes(g.Bytes(n)))
		}
		return v(bin.HexBytes(nil))
	})

	lib(bin.SafeString(""), "SafeString", 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Length(e, v.Len())
		w.Raw([]byte(v.String()))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		return v(bin.SafeString(SafeUTF8(r.Take(r.Length(e)))))
	}, func(g *tm.Gen) reflect.Value { return v(bin.SafeString(SafeUTF8([]byte(g.Str(g.N(24)))))) }).KeyOK = true

	varint := func(zero interface{}, name string, signed bool, bitsN uint) {
		rt := reflect.TypeOf(zero)
		lib(zero, name, 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
			if signed {
				w.Mark("varint", w.Uvarint(tm.ZigZag(v.Int())))
			} else {
				w.Mark("varint", w.Uvarint(v.Uint()))
			}
		}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
			u := r.Uvarint()
			out := reflect.New(rt).Elem()
			if signed {
				x := tm.UnZigZag(u)
				if x < -(1<<(bitsN-1)) || x >= 1<<(bitsN-1) {
					r.Stop(tm.Reject)
				}
				out.SetInt(x)
			} else {
				if u>>bitsN != 0 {
					r.Stop(tm.Reject)
				}
				out.SetUint(u)
			}
			return out
		}, func(g *tm.Gen) reflect.Value {
			out := reflect.New(rt).Elem()
			x := g.Edge()
			if signed {
				if bitsN == 16 {
					out.SetInt(int64(int16(x)))
				} else {
					out.SetInt(int64(int32(x)))
				}
			} else {
				out.SetUint(x & (1<<bitsN - 1))
			}
			return out
		}).KeyOK = true
	}
	varint(bin.Varint16(0), "Varint16", true, 16)
	varint(bin.Varint32(0), "Varint32", true, 32)
	varint(bin.Varuint16(0), "Varuint16", false, 16)
	varint(bin.Varuint32(0), "Varuint32", false, 32)

	lib(bin.JSONFloat64(0), "JSONFloat64", 8, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Float(e, math.Float64bits(v.Float()), 8, big, math.IsNaN(v.Float()))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		f := math.Float64frombits(r.Fixed(8, big))
		if math.IsNaN(f) && e == tm.Borsh {
			r.Stop(tm.Reject)
		}
		return v(bin.JSONFloat64(f))
	}, func(g *tm.Gen) reflect.Value { return v(bin.JSONFloat64(g.F64())) })

	lib(bin.Int64(0), "Int64", 8, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Fixed(uint64(v.Int()), 8, big)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value { return v(bin.Int64(r.Fixed(8, big))) },
		func(g *tm.Gen) reflect.Value { return v(bin.Int64(g.Edge())) }).KeyOK = true
	lib(bin.Uint64(0), "Uint64", 8, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Fixed(v.Uint(), 8, big)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value { return v(bin.Uint64(r.Fixed(8, big))) },
		func(g *tm.Gen) reflect.Value { return v(bin.Uint64(g.Edge())) }).KeyOK = true

	lib(bin.Uint128{}, "Uint128", 16, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		x := v.Interface().(bin.Uint128)
		enc128(w, x.Lo, x.Hi, big)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		lo, hi := dec128(r, big)
		return v(bin.Uint128{Lo: lo, Hi: hi})
	}, func(g *tm.Gen) reflect.Value { return v(bin.Uint128{Lo: g.Edge(), Hi: g.Edge()}) })
	lib(bin.Int128{}, "Int128", 16, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		x := v.Interface().(bin.Int128)
		enc128(w, x.Lo, x.Hi, big)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		lo, hi := dec128(r, big)
		return v(bin.Int128{Lo: lo, Hi: hi})
	}, func(g *tm.Gen) reflect.Value { return v(bin.Int128{Lo: g.Edge(), Hi: g.Edge()}) })
	lib(bin.Float128{}, "Float128", 16, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		x := v.Interface().(bin.Float128)
		enc128(w, x.Lo, x.Hi, big)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		lo, hi := dec128(r, big)
		return v(bin.Float128{Lo: lo, Hi: hi})
	}, func(g *tm.Gen) reflect.Value { return v(bin.Float128{Lo: g.Edge(), Hi: g.Edge()}) })

	initCustom()
	initLog()
	initLog2()
	initStd()

	for _, x := range []interface{}{Base{}, Both{}, BothP{}, Embeds{}, EmbedsPtr{}, EmbedsHidden{}, EmbedsSkipped{}, EmbedsSkippedPtr{}, EmbedsTagged{}, List{}, CList{}, Tree{}, NamedBytes(nil), NamedU16s(nil),
		NamedStrs(nil), NamedArr{}, NamedMap(nil), NamedIntMap(nil), Key32{}, Account{}, Counted{}, Counted2{}, OptMix{}, Hidden{},
		Ordered{}, EnumA{}, EnumHolder{}, NotEnum{}, Deep{}} {
		tm.RegisterStatic(x)
		tm.Warm(reflect.TypeOf(x))
	}
	tm.Warm(reflect.TypeOf(ExtTail{}))
}

// ---- custom marshalers ------------------------------------------------------

// Fault is returned by custom marshalers on request.
var Fault = errors.New("harness: custom marshaler refused")

const FaultID = 0xdead

// CMagic: value-receiver marshaler, fixed layout with a marker byte.
type CMagic struct{ X uint32 }

const magic = 0xa5

func (c CMagic) MarshalWithEncoder(e *bin.Encoder) error {
	if c.X == FaultID {
		return fault(e)
	}
	if err := e.WriteByte(magic); err != nil {
		return err
	}
	return e.WriteUint32(c.X, binary.BigEndian)
}

func (c *CMagic) UnmarshalWithDecoder(d *bin.Decoder) error {
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != magic {
		return fault(d)
	}
	c.X, err = d.ReadUint32(binary.BigEndian)
	return err
}

// CPtr: pointer-receiver marshaler, used behind pointers only.
type CPtr struct{ S string }

func (c *CPtr) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteByte(0x5a); err != nil {
		return err
	}
	return e.WriteRustString(c.S)
}

func (c *CPtr) UnmarshalWithDecoder(d *bin.Decoder) error {
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != 0x5a {
		return Fault
	}
	c.S, err = d.ReadRustString()
	return err
}

// CNest calls back into the reflective codec.
type CNest struct {
	In Ordered
	N  int16
}

type cnestWire struct {
	A uint16 `bin:"big"`
	S string
}

func (c CNest) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.Encode(cnestWire{c.In.A, c.In.K.Name}); err != nil {
		return err
	}
	return e.WriteInt16(c.N, binary.LittleEndian)
}

func (c *CNest) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	var w cnestWire
	if err = d.Decode(&w); err != nil {
		return err
	}
	c.In.A, c.In.K.Name = w.A, w.S
	c.N, err = d.ReadInt16(binary.LittleEndian)
	return err
}

// CKind has a scalar kind but its own layout.
type CKind int32

func (c CKind) MarshalWithEncoder(e *bin.Encoder) error { return e.WriteVarInt(int(c) * 3) }
func (c *CKind) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := d.ReadVarint64()
	if err != nil {
		return err
	}
	if x%3 != 0 || x/3 < math.MinInt32 || x/3 > math.MaxInt32 {
		return Fault
	}
	*c = CKind(x / 3)
	return nil
}

// CVec has slice kind but its own layout: terminated by a zero byte.
type CVec []uint8

func (c CVec) MarshalWithEncoder(e *bin.Encoder) error {
	for _, b := range c {
		if err := e.WriteByte(b | 1); err != nil {
			return err
		}
	}
	return e.WriteByte(0)
}

func (c *CVec) UnmarshalWithDecoder(d *bin.Decoder) error {
	*c = nil
	for {
		b, err := d.ReadByte()
		if err != nil {
			return err
		}
		if b == 0 {
			return nil
		}
		*c = append(*c, b)
	}
}

// CStr has string kind and its own layout; used as a map key too.
type CStr string

func (c CStr) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteUint16(uint16(len(c)), binary.BigEndian); err != nil {
		return err
	}
	return e.WriteBytes([]byte(c), false)
}

func (c *CStr) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := d.ReadUint16(binary.BigEndian)
	if err != nil {
		return err
	}
	b, err := d.ReadNBytes(int(n))
	if err != nil {
		return err
	}
	*c = CStr(b)
	return nil
}

// CReent starts whole new encodings and decodings in the middle of one.
type CReent struct {
	X uint32
	L []uint8
}

type creentWire struct {
	X uint32 `bin:"big"`
	L []uint8
	S string
}

func (c CReent) MarshalWithEncoder(e *bin.Encoder) error {
	b, err := bin.MarshalBin(creentWire{c.X, c.L, "in"})
	if err != nil {
		return err
	}
	if n, err := bin.BorshByteCount(&c.X); err != nil || n != 4 {
		return fmt.Errorf("nested count %d %v", n, err)
	}
	if err := e.WriteUint8(uint8(len(b))); err != nil {
		return err
	}
	return e.WriteBytes(b, false)
}

func (c *CReent) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := d.ReadUint8()
	if err != nil {
		return err
	}
	b, err := d.ReadNBytes(int(n))
	if err != nil {
		return err
	}
	var w creentWire
	in := bin.NewBinDecoder(b)
	if err := in.Decode(&w); err != nil {
		return err
	}
	if in.HasRemaining() || w.S != "in" {
		return Fault
	}
	c.X, c.L = w.X, w.L
	return nil
}

func initCustom() {
	rw := reflect.TypeOf(creentWire{})
	lib(CReent{}, "CReent", 16, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		c := v.Interface().(CReent)
		in, err := tm.Encode(tm.Of(rw), tm.Bin, reflect.ValueOf(creentWire{c.X, c.L, "in"}))
		if err != nil {
			w.Fail(err)
		}
		w.Byte(byte(len(in.B)))
		w.Raw(in.B)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		b := r.Take(int(r.Byte()))
		x, in, st := tm.Decode(tm.Of(rw), tm.Bin, b)
		if st != tm.OK {
			r.Stop(tm.Reject)
		}
		c := x.Interface().(creentWire)
		if in.P != len(b) || c.S != "in" {
			r.Stop(tm.Reject)
		}
		if in.Lenient {
			r.Lenient = true
		}
		return v(CReent{c.X, c.L})
	}, func(g *tm.Gen) reflect.Value { return v(CReent{uint32(g.Edge()), g.Bytes(g.N(7))}) })
	lib(CMagic{}, "CMagic", 5, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		x := v.Interface().(CMagic).X
		if x == FaultID {
			w.Fail(tm.ErrUser)
		}
		w.Byte(magic)
		w.Fixed(uint64(x), 4, true)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != magic {
			r.Stop(tm.Reject)
		}
		return v(CMagic{uint32(r.Fixed(4, true))})
	}, func(g *tm.Gen) reflect.Value {
		x := uint32(g.Edge())
		if x == FaultID {
			x++
		}
		return v(CMagic{x})
	})
	lib(CPtr{}, "CPtr", 9, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Byte(0x5a)
		w.Fixed(uint64(v.Field(0).Len()), 8, false)
		w.Mark("rust", 8)
		w.Raw([]byte(v.Field(0).String()))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		if r.Byte() != 0x5a {
			r.Stop(tm.Reject)
		}
		n := r.Fixed(8, false)
		if n > math.MaxInt32 {
			r.Stop(tm.Trunc)
		}
		return v(CPtr{string(r.Take(int(n)))})
	}, func(g *tm.Gen) reflect.Value { return v(CPtr{g.Str(g.N(9))}) }).PtrOnly = true
	wireT := reflect.TypeOf(cnestWire{})
	lib(CNest{}, "CNest", 5, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		c := v.Interface().(CNest)
		w.Val(tm.Of(wireT), e, reflect.ValueOf(cnestWire{c.In.A, c.In.K.Name}))
		w.Fixed(uint64(c.N), 2, false)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		x := reflect.New(wireT).Elem()
		r.Into(tm.Of(wireT), e, x)
		var c CNest
		wv := x.Interface().(cnestWire)
		c.In.A, c.In.K.Name = wv.A, wv.S
		c.N = int16(r.Fixed(2, false))
		return v(c)
	}, func(g *tm.Gen) reflect.Value {
		var c CNest
		c.In.A, c.In.K.Name, c.N = uint16(g.Edge()), g.Str(g.N(5)), int16(g.Edge())
		return v(c)
	})
	lib(CKind(0), "CKind", 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Uvarint(tm.ZigZag(v.Int() * 3))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		x := tm.UnZigZag(r.Uvarint())
		if x%3 != 0 || x/3 < math.MinInt32 || x/3 > math.MaxInt32 {
			r.Stop(tm.Reject)
		}
		return v(CKind(x / 3))
	}, func(g *tm.Gen) reflect.Value { return v(CKind(int32(g.Edge()))) }).KeyOK = true
	lib(CVec(nil), "CVec", 1, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		for _, b := range v.Bytes() {
			w.Byte(b | 1)
		}
		w.Byte(0)
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		var out CVec
		for {
			b := r.Byte()
			if b == 0 {
				return v(out)
			}
			out = append(out, b)
		}
	}, func(g *tm.Gen) reflect.Value {
		out := CVec(g.Bytes(g.N(6)))
		for i := range out {
			out[i] |= 1
		}
		return v(out)
	})
	lib(CStr(""), "CStr", 2, func(w *tm.W, e tm.Enc, big bool, v reflect.Value) {
		w.Fixed(uint64(v.Len()), 2, true)
		w.Raw([]byte(v.String()))
	}, func(r *tm.R, e tm.Enc, big bool) reflect.Value {
		return v(CStr(r.Take(int(r.Fixed(2, true)))))
	}, func(g *tm.Gen) reflect.Value { return v(CStr(g.Str(g.N(12)))) }).KeyOK = true
}

// PlainInt and PlainUint have no fixed width.
type (
	PlainInt  int
	PlainUint uint
)

// HiddenBad keeps unsupported types out of the wire.
type HiddenBad struct {
	A uint16
	C chan int `bin:"-"`
	F func()   `bin:"-"`
	i int
	I int `bin:"-"`
	u uint
	U uint `bin:"-"`
	c chan int
	B uint32
}

// EnumNone has no variants, EnumPriv only one that the library can reach (the second).
type EnumNone struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
}

type EnumPriv struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	a   uint8
	B   uint16
	c   struct{ X string }
	d   []uint8
	e   bin.Int64
	f   *uint16
	g   map[string]uint8
}
