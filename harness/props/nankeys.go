package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"vmon/core"
	"vmon/tm"
)

type nanPair struct {
	A float64
	B uint8
}

type namedF32 float32

var nanKeyTypes = []reflect.Type{
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(namedF32(0)),
	reflect.TypeOf(nanPair{}), reflect.TypeOf([2]float32{}),
}

var nanElemTypes = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(""), reflect.TypeOf([]uint16(nil)),
	reflect.TypeOf(nanPair{}), reflect.TypeOf(false),
}

// nanKeys encodes maps some of whose keys are, or hold, NaN. Such keys equal
// nothing, so that a map can hold many of them and none can be looked up; they
// are entries like the others all the same.
func nanKeys(c *core.Ctx, e tm.Enc) {
	c.Run("nan-keys", c.Scaled(1500), func(k *core.Case) {
		g := tm.NewGen(k.Rng, tm.Full(e))
		kt := tm.Of(nanKeyTypes[k.N(len(nanKeyTypes))])
		et := tm.Of(nanElemTypes[k.N(len(nanElemTypes))])
		mt := reflect.MapOf(kt.RT, et.RT)
		m := reflect.MakeMap(mt)
		var want []string
		nans := 0
		for i, n := 0, 1+k.N(7); i < n; i++ {
			key := reflect.New(kt.RT).Elem()
			bits32, bits64 := uint32(0x7fc00000)^uint32(k.N(3))<<31|uint32(k.N(1<<20)), uint64(0x7ff8)<<48^uint64(k.N(2))<<63|uint64(k.N(1<<30))
			if k.P(40) {
				bits32, bits64 = math.Float32bits(float32(i)+0.5), math.Float64bits(float64(i)+0.5)
			} else {
				nans++
			}
			switch key.Kind() {
			case reflect.Float32:
				key.Set(reflect.ValueOf(math.Float32frombits(bits32)).Convert(kt.RT))
			case reflect.Float64:
				key.SetFloat(math.Float64frombits(bits64))
			case reflect.Struct:
				key.Set(reflect.ValueOf(nanPair{math.Float64frombits(bits64), uint8(i)}))
			case reflect.Array:
				key.Set(reflect.ValueOf([2]float32{float32(i), math.Float32frombits(bits32)}))
			}
			v := g.Value(et)
			m.SetMapIndex(key, v)
			a, err1 := tm.Encode(kt, e, key)
			b, err2 := tm.Encode(et, e, v)
			if err1 != nil || err2 != nil {
				return
			}
			want = append(want, string(a.B)+string(b.B))
		}
		if m.Len() != len(want) || nans == 0 {
			return
		}
		sort.Strings(want)
		k.Detail(map[string]string{"encoding": e.String(), "type": mt.String(), "value": fmt.Sprintf("%v", m)})
		b, err := encodeVia(k, e, m.Interface())
		k.Eval(1)
		if err != nil {
			k.Fail("a map with %d entries, %d of them with NaN in the key, was not encoded: %v", len(want), nans, err)
		}
		k.Count("nan_keys", int64(nans))
		k.Seen("nan", int(e), mt.String(), b)
		// one of the orders of the entries
		if len(b) < 1 || int(b[0]) != len(want) {
			k.Fail("a map with %d entries, %d of them with NaN in the key, starts with %s", len(want), nans, core.Hex(b))
		}
		if why := anyOrder(b[1:], want); why != "" {
			k.Fail("a map with NaN keys was encoded as %s: %s", core.Hex(b), why)
		}
		out := reflect.New(mt)
		n, err := decodeVia(k, e, b, out.Interface())
		k.Eval(1)
		if err != nil || n != len(b) && n >= 0 {
			k.Fail("a map with NaN keys does not decode: %v after %d of %d bytes", err, n, len(b))
		}
		var got []string
		for it := out.Elem().MapRange(); it.Next(); {
			a, err1 := tm.Encode(kt, e, it.Key())
			x, err2 := tm.Encode(et, e, it.Value())
			if err1 != nil || err2 != nil {
				k.Fail("a decoded entry of a map with NaN keys is %v: %v", it.Key(), it.Value())
			}
			got = append(got, string(a.B)+string(x.B))
		}
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			k.Fail("a map with NaN keys decodes into %d entries that differ from the %d encoded: %x, want %x", len(got), len(want), got, want)
		}
	})
}

// anyOrder looks for an order in which the parts make up the whole.
func anyOrder(b []byte, parts []string) string {
	used := make([]bool, len(parts))
	var try func(at, left int) bool
	try = func(at, left int) bool {
		if left == 0 {
			return at == len(b)
		}
		for i, p := range parts {
			if used[i] || i > 0 && p == parts[i-1] && !used[i-1] || len(b)-at < len(p) || string(b[at:at+len(p)]) != p {
				continue
			}
			used[i] = true
			if try(at+len(p), left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	if !try(0, len(parts)) {
		return fmt.Sprintf("these are not its %d entries in some order: %x", len(parts), parts)
	}
	return ""
}
