package tm

import (
	"bytes"
	"errors"
	"math"
	"reflect"
	"sort"
)

// ---- reference encoder ----------------------------------------------------

type Mark struct {
	Off, Len int
	Kind     string // len, opt, copt, tag, bool, count, float, rust
}

type W struct {
	B     []byte
	Marks []Mark
	// Leaf, when set, may supply the bytes of a whole subtree; Len those of a
	// length prefix. With both taken from the library itself, only the structure
	// around them is judged.
	Leaf func(t *T, e Enc, v reflect.Value, big bool) ([]byte, bool)
	Len  func(e Enc, n int) ([]byte, bool)
	// Calls lists the custom marshalers that must run, with their offsets.
	Calls []Call
}

// Call is one expected (or observed) run of a custom marshaler.
type Call struct {
	Off int
	Key string
}

func (w *W) Call(key string) { w.Calls = append(w.Calls, Call{len(w.B), key}) }

var (
	ErrNaN  = errors.New("model: NaN")
	ErrLen  = errors.New("model: length not representable")
	ErrEnum = errors.New("model: enum discriminator out of range")
	ErrSize = errors.New("model: sizeof count does not match")
	ErrUser = errors.New("model: custom marshaler fails")
)

type stopEnc struct{ err error }

func (w *W) Fail(err error) { panic(stopEnc{err}) }

func (w *W) mark(kind string, n int) {
	w.Marks = append(w.Marks, Mark{len(w.B) - n, n, kind})
}

func (w *W) Byte(b byte)          { w.B = append(w.B, b) }
func (w *W) Raw(b []byte)         { w.B = append(w.B, b...) }
func (w *W) Mark(k string, n int) { w.mark(k, n) }

// Fixed appends the low n bytes of x.
func (w *W) Fixed(x uint64, n int, big bool) {
	for i := 0; i < n; i++ {
		sh := uint(8 * i)
		if big {
			sh = uint(8 * (n - 1 - i))
		}
		w.B = append(w.B, byte(x>>sh))
	}
}

func (w *W) Uvarint(x uint64) int {
	n := 1
	for x >= 0x80 {
		w.B = append(w.B, byte(x)|0x80)
		x >>= 7
		n++
	}
	w.B = append(w.B, byte(x))
	return n
}

func ZigZag(x int64) uint64 { return uint64(x)<<1 ^ uint64(x>>63) }
func UnZigZag(u uint64) int64 {
	x := int64(u >> 1)
	if u&1 != 0 {
		x = ^x
	}
	return x
}

// Length appends the collection length prefix of encoding e.
func (w *W) Length(e Enc, n int) {
	if w.Len != nil {
		if b, ok := w.Len(e, n); ok {
			w.Raw(b)
			w.mark("len", len(b))
			return
		}
	}
	switch e {
	case Bin:
		w.mark("len", w.Uvarint(uint64(n)))
	case Borsh:
		if uint64(n) > math.MaxUint32 {
			w.Fail(ErrLen)
		}
		w.Fixed(uint64(n), 4, false)
		w.mark("len", 4)
	case Compact:
		if n > 0xffff {
			w.Fail(ErrLen)
		}
		w.mark("len", w.Uvarint(uint64(n)))
	}
}

func (w *W) Float(e Enc, bits uint64, n int, big bool, nan bool) {
	if nan && e == Borsh {
		w.Fail(ErrNaN)
	}
	w.Fixed(bits, n, big)
	w.mark("float", n)
}

type fctx struct {
	opt, copt, big bool
	size           *int
}

// Encode returns the canonical bytes of v. Maps are written in ascending key
// order (the only order Borsh allows; under Bin and CompactU16 the library may
// use any order).
func Encode(t *T, e Enc, v reflect.Value) (*W, error) {
	w := &W{}
	return w, w.Run(t, e, v)
}

// Run appends the encoding of v.
func (w *W) Run(t *T, e Enc, v reflect.Value) (err error) {
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(stopEnc)
			if !ok {
				panic(x)
			}
			err = s.err
		}
	}()
	w.val(t, e, v, fctx{})
	return nil
}

func (w *W) Val(t *T, e Enc, v reflect.Value) { w.val(t, e, v, fctx{}) }

func (w *W) flag(e Enc, on bool) {
	b := uint64(0)
	if on {
		b = 1
	}
	n := optMin(e)
	w.Fixed(b, n, false)
	w.mark("opt", n)
}

func (w *W) val(t *T, e Enc, v reflect.Value, c fctx) {
	if c.opt {
		z := v.IsZero()
		w.flag(e, !z)
		if z {
			return
		}
	}
	if c.copt && e == Borsh {
		z := v.IsZero()
		b := uint64(1)
		if z {
			b = 0
		}
		w.Fixed(b, 4, false)
		w.mark("copt", 4)
		if z {
			return
		}
	}
	if w.Leaf != nil && c.size == nil {
		if b, ok := w.Leaf(t, e, v, c.big); ok {
			w.Raw(b)
			return
		}
	}
	big := c.big && e != Borsh
	switch t.K {
	case LibK:
		t.Lib.Enc(w, e, c.big, v)
	case Bool:
		b := byte(0)
		if v.Bool() {
			b = 1
		}
		w.Byte(b)
		w.mark("bool", 1)
	case U8, U16, U32, U64:
		w.Fixed(v.Uint(), t.K.Width(), big)
	case I8, I16, I32, I64:
		w.Fixed(uint64(v.Int()), t.K.Width(), big)
	case F32:
		w.Float(e, uint64(F32Bits(v)), 4, big, math.IsNaN(v.Float()))
	case F64:
		w.Float(e, math.Float64bits(v.Float()), 8, big, math.IsNaN(v.Float()))
	case Str:
		if e == Bin {
			w.Fixed(uint64(v.Len()), 8, false)
			w.mark("rust", 8)
		} else {
			w.Length(e, v.Len())
		}
		w.B = append(w.B, v.String()...)
	case Arr:
		for i := 0; i < t.N; i++ {
			w.val(t.Elem, e, v.Index(i), fctx{})
		}
	case Slice:
		n := v.Len()
		if c.size != nil {
			if *c.size < 0 || *c.size > n {
				w.Fail(ErrSize)
			}
			n = *c.size
		} else {
			w.Length(e, n)
		}
		for i := 0; i < n; i++ {
			w.val(t.Elem, e, v.Index(i), fctx{})
		}
	case Map:
		keys := v.MapKeys()
		SortKeys(t.Key, e, keys)
		w.Length(e, len(keys))
		for _, k := range keys {
			w.val(t.Key, e, k, fctx{})
			w.val(t.Elem, e, v.MapIndex(k), fctx{})
		}
	case Ptr:
		if v.IsNil() && e == Borsh {
			w.val(t.Elem, e, reflect.New(t.Elem.RT).Elem(), fctx{big: c.big, size: c.size})
			return
		}
		if v.IsNil() {
			panic("tm: required nil pointer is outside the model")
		}
		w.val(t.Elem, e, v.Elem(), fctx{big: c.big, size: c.size})
	case Iface:
		if !v.IsNil() {
			panic("tm: non-nil interface is outside the model")
		}
	case Struct:
		if t.Enum && e == Borsh {
			tag := int(v.Field(0).Uint())
			w.Byte(byte(tag))
			w.mark("tag", 1)
			if tag+1 >= len(t.F) {
				w.Fail(ErrEnum)
			}
			w.val(t.F[tag+1].T, e, v.Field(tag+1), fctx{})
			return
		}
		sizes := map[string]int{}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				continue
			}
			fv := v.Field(i)
			if f.SizeOf != "" {
				sizes[f.SizeOf] = intOf(fv)
			}
			fc := fctx{opt: f.Opt, copt: f.COpt, big: f.Big}
			if s, ok := sizes[f.Name]; ok {
				fc.size = &s
			}
			at := len(w.B)
			w.val(f.T, e, fv, fc)
			if f.SizeOf != "" {
				w.Marks = append(w.Marks, Mark{at, len(w.B) - at, "count"})
			}
		}
	default:
		panic("tm: kind")
	}
}

func intOf(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	}
	return int(v.Uint())
}

// SortKeys orders map keys numerically or lexicographically.
func SortKeys(kt *T, e Enc, keys []reflect.Value) {
	sort.SliceStable(keys, func(i, j int) bool { return KeyLess(keys[i], keys[j]) })
}

func KeyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return bytes.Compare([]byte(a.String()), []byte(b.String())) < 0
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return false
}

// ---- reference decoder ----------------------------------------------------

type Status int

const (
	OK Status = iota
	Trunc
	Reject
)

func (s Status) String() string { return [...]string{"ok", "truncated", "rejected"}[s] }

type R struct {
	D       []byte
	P       int
	Lenient bool // the input uses a form the formats do not produce; an implementation may refuse it
	Unsure  bool // outside the model: no verdict on acceptance or value
}

type stopDec struct{ st Status }

func (r *R) Stop(s Status) { panic(stopDec{s}) }

func (r *R) Take(n int) []byte {
	if n < 0 || n > len(r.D)-r.P {
		r.Stop(Trunc)
	}
	b := r.D[r.P : r.P+n]
	r.P += n
	return b
}

func (r *R) Byte() byte { return r.Take(1)[0] }

func (r *R) Fixed(n int, big bool) uint64 {
	b := r.Take(n)
	var x uint64
	for i := 0; i < n; i++ {
		if big {
			x = x<<8 | uint64(b[i])
		} else {
			x |= uint64(b[i]) << uint(8*i)
		}
	}
	return x
}

// Uvarint reads a base-128 varint of at most 64 bits.
func (r *R) Uvarint() uint64 {
	var x uint64
	for i := 0; ; i++ {
		b := r.Byte()
		if i == 9 && b > 1 {
			r.Stop(Reject)
		}
		x |= uint64(b&0x7f) << uint(7*i)
		if b < 0x80 {
			if b == 0 && i > 0 {
				r.Lenient = true
			}
			return x
		}
		if i == 9 {
			r.Stop(Reject)
		}
	}
}

func (r *R) Compact16() int {
	x := 0
	for i := 0; i < 3; i++ {
		b := int(r.Byte())
		if b == 0 && i > 0 {
			r.Stop(Reject)
		}
		if i == 2 && b&0x80 != 0 {
			r.Stop(Reject)
		}
		x |= (b & 0x7f) << uint(7*i)
		if b&0x80 == 0 {
			break
		}
	}
	if x > 0xffff {
		r.Stop(Reject)
	}
	return x
}

func (r *R) Length(e Enc) int {
	var n uint64
	switch e {
	case Bin:
		n = r.Uvarint()
	case Borsh:
		n = r.Fixed(4, false)
	case Compact:
		n = uint64(r.Compact16())
	}
	if n > math.MaxInt32 {
		// nothing in the tests is that long
		r.Stop(Trunc)
	}
	return int(n)
}

// Decode parses one value of type t from the front of data.
func Decode(t *T, e Enc, data []byte) (v reflect.Value, r *R, st Status) {
	r = &R{D: data}
	v = reflect.New(t.RT).Elem()
	st = r.Run(func() { r.val(t, e, v, fctx{}) })
	return v, r, st
}

// Run executes fn, converting a Stop into a status.
func (r *R) Run(fn func()) (st Status) {
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(stopDec)
			if !ok {
				panic(x)
			}
			st = s.st
		}
	}()
	fn()
	return OK
}

func (r *R) Into(t *T, e Enc, v reflect.Value) { r.val(t, e, v, fctx{}) }

func (r *R) val(t *T, e Enc, v reflect.Value, c fctx) {
	if c.opt {
		x := r.Fixed(optMin(e), false)
		if x > 1 {
			r.Lenient = true
		}
		if x == 0 {
			v.SetZero()
			return
		}
	}
	if c.copt && e == Borsh {
		x := r.Fixed(4, false)
		if x > 1 {
			r.Stop(Reject)
		}
		if x == 0 {
			v.SetZero()
			return
		}
	}
	big := c.big && e != Borsh
	switch t.K {
	case LibK:
		v.Set(t.Lib.Dec(r, e, c.big))
	case Bool:
		b := r.Byte()
		if b > 1 {
			r.Lenient = true
		}
		v.SetBool(b != 0)
	case U8, U16, U32, U64:
		v.SetUint(r.Fixed(t.K.Width(), big))
	case I8:
		v.SetInt(int64(int8(r.Fixed(1, big))))
	case I16:
		v.SetInt(int64(int16(r.Fixed(2, big))))
	case I32:
		v.SetInt(int64(int32(r.Fixed(4, big))))
	case I64:
		v.SetInt(int64(r.Fixed(8, big)))
	case F32:
		n := uint32(r.Fixed(4, big))
		if f := math.Float32frombits(n); f != f && e == Borsh {
			r.Stop(Reject)
		}
		SetF32Bits(v, n)
	case F64:
		f := math.Float64frombits(r.Fixed(8, big))
		if math.IsNaN(f) && e == Borsh {
			r.Stop(Reject)
		}
		v.SetFloat(f)
	case Str:
		n := 0
		if e == Bin {
			x := r.Fixed(8, false)
			if x > math.MaxInt32 {
				r.Stop(Trunc)
			}
			n = int(x)
		} else {
			n = r.Length(e)
		}
		v.SetString(string(r.Take(n)))
	case Arr:
		for i := 0; i < t.N; i++ {
			r.val(t.Elem, e, v.Index(i), fctx{})
		}
	case Slice:
		n := 0
		if c.size != nil {
			n = *c.size
			if n < 0 {
				r.Stop(Reject)
			}
		} else {
			n = r.Length(e)
		}
		r.slice(t, e, v, n)
	case Map:
		n := r.Length(e)
		m := reflect.MakeMap(t.RT)
		var prev reflect.Value
		if n > 0 && MinSize(t.Key, e) == 0 {
			r.Unsure = true
			r.Stop(Reject)
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key.RT).Elem()
			r.val(t.Key, e, k, fctx{})
			x := reflect.New(t.Elem.RT).Elem()
			r.val(t.Elem, e, x, fctx{})
			if k.Kind() == reflect.Float32 || k.Kind() == reflect.Float64 {
				if k.Float() != k.Float() {
					r.Unsure = true // NaN keys never compare equal
				}
			}
			if m.MapIndex(k).IsValid() {
				r.Lenient = true
			}
			if e == Borsh && i > 0 && !KeyLess(prev, k) {
				r.Lenient = true
			}
			prev = k
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case Ptr:
		p := reflect.New(t.Elem.RT)
		r.val(t.Elem, e, p.Elem(), fctx{big: c.big, size: c.size})
		v.Set(p)
	case Iface:
	case Struct:
		if t.Enum && e == Borsh {
			tag := int(r.Byte())
			if tag+1 >= len(t.F) {
				r.Stop(Reject)
			}
			v.Field(0).SetUint(uint64(tag))
			r.val(t.F[tag+1].T, e, v.Field(tag+1), fctx{})
			return
		}
		sizes := map[string]int{}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				continue
			}
			if f.Ext && r.P == len(r.D) {
				continue
			}
			fc := fctx{opt: f.Opt, copt: f.COpt, big: f.Big}
			if s, ok := sizes[f.Name]; ok {
				fc.size = &s
			}
			r.val(f.T, e, v.Field(i), fc)
			if f.SizeOf != "" {
				fv := v.Field(i)
				// a uint64 count beyond 2^63 is negative here, and refused
				sizes[f.SizeOf] = intOf(fv)
			}
		}
	default:
		panic("tm: kind")
	}
}

func (r *R) slice(t *T, e Enc, v reflect.Value, n int) {
	min := MinSize(t.Elem, e)
	if n > 0 && min == 0 {
		r.Unsure = true // an element may be empty: outside the model
		r.Stop(Reject)
	}
	if n > len(r.D)-r.P {
		r.Stop(Trunc)
	}
	s := reflect.MakeSlice(t.RT, 0, 0)
	big := n > (32<<20)/(1+int(t.Elem.RT.Size())) // most such counts are damage and end soon
	if n > 0 && !big {
		s = reflect.MakeSlice(t.RT, n, n)
	}
	for i := 0; i < n; i++ {
		if big {
			s = reflect.Append(s, reflect.Zero(t.Elem.RT))
		}
		r.val(t.Elem, e, s.Index(i), fctx{})
	}
	v.Set(s)
}
