package props

import (
	"reflect"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

const genRule = "Types are drawn at random (scalars, strings, arrays, slices, maps, pointers, nested structs, enums, options, sizeof, extensions, skipped fields, byte orders, named and library types, custom marshalers) and filled with boundary-biased values; a case is non-trivial when its encoding is not empty, and distinct by (encoding, type, bytes)."

// forValues draws types and values and hands them over.
func forValues(c *core.Ctx, group string, n, perType int, conf func(k *core.Case) tm.Conf, fn func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value)) {
	c.Run(group, n, func(k *core.Case) {
		cf := conf(k)
		g := tm.NewGen(k.Rng, cf)
		t := tm.Of(g.Top())
		features(k, t)
		for j := 0; j < perType; j++ {
			fn(k, t, cf.Enc, g, g.Value(t))
		}
	})
}

func full(e tm.Enc) func(k *core.Case) tm.Conf {
	return func(k *core.Case) tm.Conf {
		c := tm.Full(e)
		c.Depth = 2 + k.N(3)
		return c
	}
}

func anyEnc(k *core.Case) tm.Conf {
	c := tm.Full(tm.Encs[k.N(3)])
	c.Depth = 2 + k.N(3)
	return c
}

func note(k *core.Case, e tm.Enc, t *tm.T, v reflect.Value, b []byte) {
	if len(b) > 0 {
		k.Seen(int(e), typeStr(t), b)
		if len(b) > 4 && len(b) < 120 && k.WantSample() {
			k.Sample(info(e, t, v, b, ""))
		}
	}
}

func wireProp(id string, e tm.Enc) {
	reg(&core.Prop{ID: id, Rule: genRule, Need: map[string]int64{"encoded": 5000, "types_with_map": 100, "types_with_option": 100, "swept": 10000}, Run: func(c *core.Ctx) {
		forValues(c, "generated", c.Scaled(9000), 6, func(k *core.Case) tm.Conf {
			cf := full(e)(k)
			cf.NilPtrs = k.P(15)
			return cf
		}, func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
			w := conformEnc(k, t, e, v)
			if w == nil {
				return
			}
			k.Count("encoded", 1)
			note(k, e, t, v, w.B)
			conformDec(k, t, e, w.B)
		})
		staticWire(c, e)
		bigColl(c, e)
		if e != tm.Borsh {
			nanKeys(c, e)
		}
		sweeps(c, always(e), func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
			if w := conformEnc(k, t, e, v); w != nil {
				k.Seen(int(e), typeStr(t), w.B)
				conformDec(k, t, e, w.B)
			}
		})
		deepValues(c, e, func(k *core.Case, t *tm.T, v reflect.Value) {
			if w := conformEnc(k, t, e, v); w != nil {
				conformDec(k, t, e, w.B)
			}
		})
	}})
}

// deepValues nests recursive types far, but within what decoding allows.
func deepValues(c *core.Ctx, e tm.Enc, fn func(k *core.Case, t *tm.T, v reflect.Value)) {
	depths := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1500, 2000, 3000, 4500, 7000, 9500}
	c.Run("deep_values", 3*len(depths), func(k *core.Case) {
		d := depths[k.I/3]
		k.Detail(map[string]interface{}{"encoding": e.String(), "levels": d, "type": []string{"List", "CList", "Tree"}[k.I%3]})
		var v reflect.Value
		switch k.I % 3 {
		case 0:
			x := &st.List{V: uint16(k.U64())}
			for ; d > 1; d-- {
				x = &st.List{V: uint16(k.U64()), Next: x}
			}
			v = reflect.ValueOf(x).Elem()
		case 1:
			x := &st.CList{V: int32(k.U64()), Tail: []uint16{1}}
			for ; d > 1; d-- {
				x = &st.CList{V: int32(k.U64()), Next: x, Tail: []uint16{uint16(d), 7}[:k.N(3)]}
			}
			v = reflect.ValueOf(x).Elem()
		case 2:
			x := &st.Tree{V: uint8(k.U64())}
			for ; d > 1; d-- {
				y := &st.Tree{V: uint8(k.U64()), Kids: make([]st.Tree, 1+k.N(3))}
				y.Kids[k.N(len(y.Kids))] = *x
				x = y
			}
			v = reflect.ValueOf(x).Elem()
		}
		k.Count("deep_values", 1)
		fn(k, tm.Of(v.Type()), v)
	})
}

// staticWire gives every named type of the workload its share.
func staticWire(c *core.Ctx, e tm.Enc) {
	sts := tm.StaticTypes()
	c.Run("static", c.Scaled(2400), func(k *core.Case) {
		g := tm.NewGen(k.Rng, tm.Full(e))
		t := tm.Of(sts[k.I%len(sts)])
		v := g.Value(t)
		w := conformEnc(k, t, e, v)
		if w == nil {
			return
		}
		k.Count("encoded_static", 1)
		note(k, e, t, v, w.B)
		conformDec(k, t, e, w.B)
	})
	c.Run("libtypes", c.Scaled(1600), func(k *core.Case) {
		g := tm.NewGen(k.Rng, tm.Full(e))
		l := tm.LibList[k.I%len(tm.LibList)]
		t := tm.Of(l.RT)
		v := g.Value(t)
		w := conformEnc(k, t, e, v)
		if w == nil {
			return
		}
		note(k, e, t, v, w.B)
		conformDec(k, t, e, w.B)
	})
}

var bigLens = []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1<<21 - 1, 1 << 21, 1<<24 - 1, 1 << 24, 1<<24 + 3}

// bigColl crosses every prefix-size boundary with every cheap element type.
func bigColl(c *core.Ctx, e tm.Enc) {
	elems := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(false), reflect.TypeOf(int64(0))}
	c.Run("lengths", len(bigLens)*(len(elems)+2), func(k *core.Case) {
		n := bigLens[k.I%len(bigLens)]
		kind := k.I / len(bigLens)
		if n > 200000 && kind != 0 && kind != len(elems) {
			return
		}
		var rt reflect.Type
		if kind < len(elems) {
			rt = reflect.SliceOf(elems[kind])
		} else if kind == len(elems) {
			rt = reflect.TypeOf("")
		} else {
			rt = reflect.MapOf(reflect.TypeOf(uint32(0)), reflect.TypeOf(uint8(0)))
		}
		// with neighbours, so that a wrong length is visible
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint16(0))}, {Name: "B", Type: rt}, {Name: "C", Type: reflect.TypeOf(uint32(0))}})
		t := tm.Of(st)
		v := reflect.New(st).Elem()
		v.Field(0).SetUint(0xbeef)
		v.Field(2).SetUint(0xfeedface)
		f := v.Field(1)
		switch f.Kind() {
		case reflect.String:
			f.SetString(string(k.Bytes(n)))
		case reflect.Slice:
			f.Set(reflect.MakeSlice(rt, n, n))
			if kind == 0 {
				f.SetBytes(k.Bytes(n))
				break
			}
			for i := 0; i < n; i++ {
				x := k.U64()
				switch el := f.Index(i); el.Kind() {
				case reflect.Bool:
					el.SetBool(x&1 == 1)
				case reflect.Int8, reflect.Int64:
					if el.Kind() == reflect.Int8 {
						el.SetInt(int64(int8(x)))
					} else {
						el.SetInt(int64(x))
					}
				default:
					el.SetUint(x & (^uint64(0) >> uint(64-8*int(el.Type().Size()))))
				}
			}
		case reflect.Map:
			f.Set(reflect.MakeMap(rt))
			for i := 0; i < n; i++ {
				f.SetMapIndex(reflect.ValueOf(uint32(i)*2654435761), reflect.ValueOf(uint8(i)))
			}
		}
		w := conformEnc(k, t, e, v)
		k.Count("length_boundaries", 1)
		if w == nil {
			return
		}
		k.Seen("len", int(e), kind, n)
		conformDec(k, t, e, w.B)
	})
}

func roundTrip(id string, e tm.Enc) {
	reg(&core.Prop{ID: id, Rule: genRule + " Each value is encoded and decoded by the library itself, alone and followed by other data.", Need: map[string]int64{"roundtrips": 5000, "swept": 10000}, Run: func(c *core.Ctx) {
		rt := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
			k.Detail(info(e, t, v, nil, ""))
			b, err := encodeVia(k, e, iface(k, v))
			if _, werr := tm.Encode(t, e, v); werr != nil {
				return
			}
			if err != nil {
				k.Fail("encoding failed: %v", err)
			}
			k.Detail(info(e, t, v, b, ""))
			data := b
			if k.P(40) && !tm.HasExt(t) {
				data = append(append([]byte(nil), b...), k.Bytes(k.N(12))...)
			}
			ptr := reflect.New(t.RT)
			n, err := decodeVia(k, e, data, ptr.Interface())
			k.Eval(1)
			k.Count("roundtrips", 1)
			if err != nil {
				k.Fail("decoding what was just encoded failed: %v", err)
			}
			if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
				k.Fail("round trip changed the value: %s", d)
			}
			if n >= 0 && n != len(b) {
				k.Fail("decoding consumed %d of the %d bytes the encoder wrote", n, len(b))
			}
			if d := tm.HiddenZero(t, e, ptr.Elem()); d != "" {
				k.Fail("%s", d)
			}
			note(k, e, t, v, b)
			if k.P(20) && !multiMap(t, v) {
				again, err := marshal(e, ptr.Interface())
				if err != nil {
					k.Fail("re-encoding a decoded value failed: %v", err)
				}
				// absent/empty containers may come back in another shape, but never other bytes,
				// unless an optional slice or map lost its emptiness
				if string(again) != string(b) && !optColl(t) {
					k.Detail(map[string]interface{}{"case": info(e, t, v, b, ""), "again": core.Hex(again)})
					k.Fail("re-encoding the decoded value gives other bytes (offset %d)", firstDiff(again, b))
				}
			}
		}
		forValues(c, "generated", c.Scaled(9000), 6, full(e), rt)
		sts := tm.StaticTypes()
		c.Run("static", c.Scaled(3000), func(k *core.Case) {
			g := tm.NewGen(k.Rng, tm.Full(e))
			t := tm.Of(sts[k.I%len(sts)])
			rt(k, t, e, g, g.Value(t))
		})
		bigColl(c, e)
		if e != tm.Borsh {
			nanKeys(c, e)
		}
		sweeps(c, always(e), rt)
		deepValues(c, e, func(k *core.Case, t *tm.T, v reflect.Value) {
			rt(k, t, e, tm.NewGen(k.Rng, tm.Full(e)), v)
		})
	}})
}

// optColl: an optional field whose zero-ness depends on nil versus empty, or on hidden parts.
func optColl(t *tm.T) bool {
	has := false
	tm.Walk(t, func(x *tm.T, f *tm.Field) {
		if f != nil && (f.Opt || f.COpt) && f.T.K != tm.Ptr {
			has = true
		}
		if x.K == tm.LibK && x.Lib.Name == "CNest" {
			has = true
		}
	})
	return has
}

func init() {
	wireProp("C01", tm.Borsh)
	wireProp("C02", tm.Bin)
	wireProp("C03", tm.Compact)
	roundTrip("C04", tm.Borsh)
	roundTrip("C05", tm.Bin)
	roundTrip("C06", tm.Compact)
}
