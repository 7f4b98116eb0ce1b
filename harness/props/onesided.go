package props

import (
	"bytes"
	"reflect"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// everywhere holds a value at every kind of place.
type everywhere[T any] struct {
	A uint8
	V T
	S []T
	R [3]T
	P *T
	O T  `bin:"optional"`
	Q *T `bin:"coption"`
	M map[uint8]T
	N uint8 `bin:"sizeof=C"`
	C []T
	D [][]T
	H struct{ X T }
	Z uint16
}

func fillEverywhere[T any](x []T, coll int) everywhere[T] {
	i := 0
	next := func() T { i++; return x[i%len(x)] }
	many := func(n int) (s []T) {
		for j := 0; j < n; j++ {
			s = append(s, next())
		}
		return s
	}
	v := everywhere[T]{A: 1, Z: 0x1234}
	v.V = next()
	v.S = many(coll)
	copy(v.R[:], many(3))
	p, q := next(), next()
	v.P, v.Q = &p, &q
	v.O = next()
	v.M = map[uint8]T{7: next()}
	v.C = many(coll / 2)
	v.N = uint8(len(v.C))
	v.D = [][]T{many(2), many(coll % 3)}
	v.H.X = next()
	return v
}

// oneSided: a type with only one of the two methods must have that one obeyed.
// L has both, M marshals, U unmarshals; all three have the same kind.
func oneSided[L, M, U any](k *core.Case, l func(uint32) L, m func(uint32) M, u func(uint32) U) {
	e := tm.Encs[k.N(3)]
	var ls []L
	var ms []M
	var us []U
	for len(ls) < 7 {
		x := uint32(k.Edge())
		if x&0xff == st.FaultID&0xff {
			continue
		}
		ls, ms, us = append(ls, l(x)), append(ms, m(x)), append(us, u(x))
	}
	coll := k.N(6)
	full, mar, unm := fillEverywhere(ls, coll), fillEverywhere(ms, coll), fillEverywhere(us, coll)
	enc := func(v interface{}) ([]byte, []tm.Call) {
		w := &sink{}
		en := newEncoder(e, w)
		log := st.Watch(en)
		defer st.Unwatch(en)
		if err := en.Encode(v); err != nil {
			k.Fail("encoding failed: %v", err)
		}
		return w.b, *log
	}
	k.Detail(map[string]interface{}{"encoding": e.String(), "type": reflect.TypeOf(mar).String()})
	want, calls := enc(&full)
	got, mcalls := enc(&mar)
	if d := callsEq(mcalls, calls); d != "" {
		k.Fail("calls to the marshaler of a type without unmarshaler: %s", d)
	}
	if !bytes.Equal(got, want) {
		k.Fail("a type without unmarshaler encodes differently at offset %d", firstDiff(got, want))
	}
	var back everywhere[U]
	d := newDecoder(e, want)
	log := st.Watch(d)
	err := d.Decode(&back)
	st.Unwatch(d)
	if err != nil {
		k.Fail("decoding with a type without marshaler failed: %v", err)
	}
	if d := callsEq(*log, calls); d != "" {
		k.Fail("calls to the unmarshaler of a type without marshaler: %s", d)
	}
	t := tm.Of(reflect.TypeOf(unm))
	if diff := tm.Diff(t, e, reflect.ValueOf(&unm).Elem(), reflect.ValueOf(&back).Elem()); diff != "" {
		k.Fail("a type without marshaler decodes to another value: %s", diff)
	}
	k.Eval(2)
	k.Count("one_sided", 1)
	k.Count("calls_logged", int64(len(*log)+len(mcalls)))
	k.Seen("one sided", int(e), reflect.TypeOf(mar).String(), want)
}

var oneSideds = []func(k *core.Case){
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LI8 { return st.LI8(int32(x)) }, func(x uint32) st.MI8 { return st.MI8(int32(x)) }, func(x uint32) st.UI8 { return st.UI8(int32(x)) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LI16 { return st.LI16(int32(x)) }, func(x uint32) st.MI16 { return st.MI16(int32(x)) }, func(x uint32) st.UI16 { return st.UI16(int32(x)) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LInt { return st.LInt(int32(x)) }, func(x uint32) st.MI32 { return st.MI32(int32(x)) }, func(x uint32) st.UI32 { return st.UI32(int32(x)) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LI64 { return st.LI64(int32(x)) }, func(x uint32) st.MI64 { return st.MI64(int32(x)) }, func(x uint32) st.UI64 { return st.UI64(int32(x)) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LU8 { return st.LU8(x) }, func(x uint32) st.MU8 { return st.MU8(x) }, func(x uint32) st.UU8 { return st.UU8(x) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LU16 { return st.LU16(x) }, func(x uint32) st.MU16 { return st.MU16(x) }, func(x uint32) st.UU16 { return st.UU16(x) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LU32 { return st.LU32(x) }, func(x uint32) st.MU32 { return st.MU32(x) }, func(x uint32) st.UU32 { return st.UU32(x) })
	},
	func(k *core.Case) {
		oneSided(k, func(x uint32) st.LU64 { return st.LU64(x) }, func(x uint32) st.MU64 { return st.MU64(x) }, func(x uint32) st.UU64 { return st.UU64(x) })
	},
}
