package props

import (
	"fmt"
	"math"
	"reflect"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// Sweeps walk through one dimension completely (every length, every number of
// fields, every depth, ...), where a draw would visit a few points.

type sweepFn func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value)

func typ(x interface{}) reflect.Type { return reflect.TypeOf(x) }

var sweepElems = []reflect.Type{typ(uint8(0)), typ(uint16(0)), typ(uint32(0)), typ(uint64(0)), typ(int8(0)), typ(false), typ(int16(0)), typ(float32(0)), typ(float64(0)), typ(int64(0)), typ(""), typ(st.NU8(0)), typ(st.NU32(0)),
	typ([2]uint8{}), typ(struct {
		A uint8
		B uint16
	}{}), typ([]byte(nil)), typ((*uint16)(nil))}

// sweepNumbers are numbers at which arithmetic changes its mind.
var sweepNumbers = func() (out []uint64) {
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for i := uint(0); i < 64; i++ {
		for d := uint64(0); d < 5; d++ {
			add(uint64(1)<<i + d - 2)
			add(-(uint64(1) << i) + d - 2)
		}
		for j := uint(0); j < i; j += 7 {
			add(uint64(1)<<i | uint64(1)<<j)
			add(uint64(1)<<i - uint64(1)<<j)
		}
	}
	for x, i := uint64(1), 0; i < 20; i++ {
		add(x - 1)
		add(x)
		add(x + 1)
		add(-x)
		x *= 10
	}
	for b := uint64(0); b < 256; b++ {
		add(b)
		add(b * 0x0101010101010101)
		add(b << 56)
		add(^b)
	}
	for i := uint(0); i < 8; i++ { // one byte that differs
		for _, b := range []uint64{1, 0x7f, 0x80, 0xff} {
			add(b << (8 * i))
			add(^(b << (8 * i)))
		}
	}
	return out
}()

func setNumber(f reflect.Value, x uint64) {
	switch f.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := uint(64 - 8*f.Type().Size())
		f.SetInt(int64(x<<sh) >> sh)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sh := uint(64 - 8*f.Type().Size())
		f.SetUint(x << sh >> sh)
	case reflect.Float32:
		f.SetFloat(float64(math.Float32frombits(uint32(x))))
	case reflect.Float64:
		f.SetFloat(math.Float64frombits(x))
	}
}

func always(e tm.Enc) func(k *core.Case) tm.Enc { return func(*core.Case) tm.Enc { return e } }

func anyOf(k *core.Case) tm.Enc { return tm.Encs[k.N(3)] }

// sweeps hands over every value of every sweep; the values are struct fields
// with neighbours, so that what spills over is seen.
func sweeps(c *core.Ctx, pick func(k *core.Case) tm.Enc, fn sweepFn) {
	one := func(k *core.Case, g *tm.Gen, rt reflect.Type, fill func(f reflect.Value)) {
		sr := reflect.StructOf([]reflect.StructField{{Name: "A", Type: typ(uint16(0))}, {Name: "B", Type: rt}, {Name: "C", Type: typ(uint32(0))}})
		t := tm.Of(sr)
		v := reflect.New(sr).Elem()
		v.Field(0).SetUint(0xbeef)
		v.Field(2).SetUint(0xfeedface)
		if fill != nil {
			fill(v.Field(1))
		} else {
			g.Left = 50
			v.Field(1).Set(g.Value(tm.Of(rt)))
		}
		k.Count("swept", 1)
		fn(k, t, g.C.Enc, g, v)
	}
	gen := func(k *core.Case) *tm.Gen { return tm.NewGen(k.Rng, tm.Full(pick(k))) }

	// every length
	kinds := len(sweepElems) + 3
	const top, step = 640, 32
	c.Run("sweep_lengths", kinds*top/step, func(k *core.Case) {
		g := gen(k)
		kind := k.I % kinds
		for n := k.I / kinds * step; n < (k.I/kinds+1)*step; n++ {
			switch {
			case kind < len(sweepElems):
				el := sweepElems[kind]
				if el.Size() > 8 && n > 200 && n%13 != 0 && n&(n-1) != 0 {
					continue
				}
				one(k, g, reflect.SliceOf(el), func(f reflect.Value) {
					f.Set(reflect.MakeSlice(f.Type(), n, n+k.N(2)))
					et := tm.Of(el)
					for i := 0; i < n; i++ {
						g.Left = 3
						f.Index(i).Set(g.Value(et))
					}
				})
			case kind == len(sweepElems):
				one(k, g, typ(""), func(f reflect.Value) { f.SetString(string(k.Bytes(n))) })
			case kind == len(sweepElems)+1:
				one(k, g, typ(st.NStr("")), func(f reflect.Value) { f.SetString(string(k.Bytes(n))) })
			default:
				one(k, g, typ(map[uint16]uint8{}), func(f reflect.Value) {
					f.Set(reflect.MakeMap(f.Type()))
					for i := 0; i < n; i++ {
						f.SetMapIndex(reflect.ValueOf(uint16(i*40503)), reflect.ValueOf(uint8(i)))
					}
				})
			}
		}
	})
	// every number
	nums := []reflect.Type{typ(uint16(0)), typ(int16(0)), typ(uint32(0)), typ(int32(0)), typ(uint64(0)), typ(int64(0)), typ(float32(0)), typ(float64(0)), typ(st.NI64(0)), typ(st.NU16(0))}
	c.Run("sweep_numbers", len(nums)*16, func(k *core.Case) {
		nt := nums[k.I%len(nums)]
		var fs []reflect.StructField
		for i, tag := range []reflect.StructTag{"", `bin:"big"`, `bin:"optional"`, `bin:"little"`, `bin:"big optional"`, `bin:"coption"`} {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: nt, Tag: tag})
		}
		fs = append(fs, reflect.StructField{Name: "S", Type: reflect.SliceOf(nt)}, reflect.StructField{Name: "A", Type: reflect.ArrayOf(3, nt)}, reflect.StructField{Name: "P", Type: reflect.PtrTo(nt)},
			reflect.StructField{Name: "M", Type: reflect.MapOf(typ(uint8(0)), nt)}, reflect.StructField{Name: "Z", Type: typ(uint8(0))})
		rt := reflect.StructOf(fs)
		t := tm.Of(rt)
		g := gen(k)
		for i := k.I / len(nums); i < len(sweepNumbers); i += 16 {
			x := sweepNumbers[i]
			v := reflect.New(rt).Elem()
			if nt.Kind() == reflect.Float32 || nt.Kind() == reflect.Float64 {
				f := reflect.New(nt).Elem()
				setNumber(f, x)
				if f.Float() != f.Float() || f.Float() == 0 {
					continue
				}
			}
			set := func(f reflect.Value) { setNumber(f, x) }
			for j := 0; j < 6; j++ {
				set(v.Field(j))
			}
			s := reflect.MakeSlice(reflect.SliceOf(nt), 2, 2)
			set(s.Index(0))
			set(s.Index(1))
			v.FieldByName("S").Set(s)
			set(v.FieldByName("A").Index(1))
			p := reflect.New(nt)
			set(p.Elem())
			v.FieldByName("P").Set(p)
			m := reflect.MakeMap(reflect.MapOf(typ(uint8(0)), nt))
			m.SetMapIndex(reflect.ValueOf(uint8(7)), p.Elem())
			v.FieldByName("M").Set(m)
			v.FieldByName("Z").SetUint(0x5a)
			k.Count("swept", 1)
			fn(k, t, g.C.Enc, g, v)
		}
	})
	// every number of fields
	c.Run("sweep_fields", 150, func(k *core.Case) {
		g := gen(k)
		for variant := 0; variant < 4; variant++ {
			var fs []reflect.StructField
			for i := 0; i < k.I; i++ {
				f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: []reflect.Type{typ(uint8(0)), typ(uint16(0)), typ(""), typ(int64(0)), typ([]uint16(nil))}[k.N(5)]}
				switch variant {
				case 1:
					f.Type = typ(uint16(0))
					f.Tag = []reflect.StructTag{"", `bin:"big"`, `bin:"-"`, `bin:"optional"`, `bin:"big optional"`, `bin:"coption"`}[k.N(6)]
				case 2: // one field that is different, each time another one
					f.Type = typ(uint8(0))
					if i == k.N(k.I) {
						f.Type = typ([]string(nil))
					}
				case 3:
					if i >= k.I-k.I/3 {
						f.Tag = `bin:"binary_extension"`
						f.Type = typ(uint16(0))
					}
				}
				fs = append(fs, f)
			}
			rt := reflect.StructOf(fs)
			t := tm.Of(rt)
			g.Left = 600
			k.Count("swept", 1)
			fn(k, t, g.C.Enc, g, g.Value(t))
			if variant != 3 {
				one(k, g, rt, nil)
			}
		}
	})
	// every depth
	type wrap func(t reflect.Type) reflect.Type
	field := func(tag reflect.StructTag) wrap {
		return func(t reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{{Name: "X", Type: typ(uint8(0))}, {Name: "In", Type: t, Tag: tag}})
		}
	}
	wraps := []wrap{
		field(""), reflect.SliceOf, func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }, reflect.PtrTo,
		func(t reflect.Type) reflect.Type { return reflect.MapOf(typ(uint8(0)), t) },
		func(t reflect.Type) reflect.Type { return field(`bin:"optional"`)(reflect.PtrTo(t)) },
		func(t reflect.Type) reflect.Type { return field(`bin:"coption"`)(reflect.PtrTo(t)) },
		func(t reflect.Type) reflect.Type { return field(`bin:"big"`)(reflect.SliceOf(t)) },
	}
	c.Run("sweep_depths", len(wraps)*24+40, func(k *core.Case) {
		g := gen(k)
		rt := []reflect.Type{typ(uint8(0)), typ(uint32(0)), typ(""), typ([]byte(nil)), typ([3]uint16{})}[k.N(5)]
		if k.I < len(wraps)*24 {
			for i := 0; i < k.I/len(wraps); i++ {
				rt = wraps[k.I%len(wraps)](rt)
			}
		} else { // every wrapper once in a while
			for i := 0; i < k.I-len(wraps)*24; i++ {
				rt = wraps[k.N(len(wraps))](rt)
			}
		}
		for i := 0; i < 3; i++ {
			one(k, g, rt, func(f reflect.Value) { fillDeep(k, f) })
		}
	})
	// every length of array
	c.Run("sweep_arrays", len(sweepElems)*20, func(k *core.Case) {
		g := gen(k)
		el := sweepElems[k.I%len(sweepElems)]
		for n := k.I / len(sweepElems); n < 280; n += 20 {
			one(k, g, reflect.ArrayOf(n, el), func(f reflect.Value) {
				et := tm.Of(el)
				for i := 0; i < n; i++ {
					g.Left = 3
					f.Index(i).Set(g.Value(et))
				}
			})
		}
	})
}

// fillDeep fills a value all the way down: nothing in it is empty.
func fillDeep(k *core.Case, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillDeep(k, v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillDeep(k, v.Index(i))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fillDeep(k, v.Index(0))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		x := reflect.New(v.Type().Elem()).Elem()
		fillDeep(k, x)
		v.SetMapIndex(reflect.ValueOf(uint8(k.N(256))), x)
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillDeep(k, v.Elem())
	case reflect.String:
		v.SetString(string(k.Bytes(1 + k.N(5))))
	default:
		setNumber(v, k.Edge()|1)
	}
}
