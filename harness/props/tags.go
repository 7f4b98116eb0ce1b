package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"time"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

const focusRule = "Types with the feature are drawn at random (and taken from the static ones) and filled with boundary-biased values. Parts without the feature are encoded by the library on their own and must round-trip there, so only the feature is judged; a case is non-trivial when its encoding is not empty, and distinct by (encoding, type, bytes)."

var (
	fEnum = &feature{name: "enum", has: func(t *tm.T, f *tm.Field) bool { return t.Enum }}
	fSkip = &feature{name: "skip", has: func(t *tm.T, f *tm.Field) bool { return f != nil && f.Hidden() }}
	fOpt  = &feature{name: "opt", has: func(t *tm.T, f *tm.Field) bool { return f != nil && !f.Hidden() && (f.Opt || f.COpt) }}
	fSize = &feature{name: "sizeof", has: func(t *tm.T, f *tm.Field) bool { return f != nil && !f.Hidden() && f.SizeOf != "" }}
	fExt  = &feature{name: "ext", has: func(t *tm.T, f *tm.Field) bool { return f != nil && f.Ext }}
	fBig  = &feature{name: "big", big: true, has: func(t *tm.T, f *tm.Field) bool { return f != nil && !f.Hidden() && f.Big }}
)

// holders puts a type at many places of a larger value.
func holders(k *core.Case, rt reflect.Type) reflect.Type {
	if k.P(6) {
		rt = tm.Deepen(k.Rng, rt, tm.Borsh, true)
	}
	return holdersFlat(k, rt)
}

func holdersFlat(k *core.Case, rt reflect.Type) reflect.Type {
	u8, u32 := reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0))
	mk := func(fs ...reflect.StructField) reflect.Type {
		for i := range fs {
			if fs[i].Name == "" {
				fs[i].Name = fmt.Sprintf("F%d", i)
			}
		}
		return reflect.StructOf(fs)
	}
	switch k.N(9) {
	case 0:
		return rt
	case 1:
		return reflect.SliceOf(rt)
	case 2:
		return reflect.ArrayOf(2, rt)
	case 3:
		return reflect.MapOf(u8, rt)
	case 4:
		return mk(reflect.StructField{Type: u8}, reflect.StructField{Type: rt}, reflect.StructField{Type: u32})
	case 5:
		if rt.Kind() == reflect.Map || rt.Kind() == reflect.Ptr {
			return mk(reflect.StructField{Type: rt}, reflect.StructField{Type: u32})
		}
		return mk(reflect.StructField{Type: reflect.PtrTo(rt)}, reflect.StructField{Type: u32})
	case 6:
		return mk(reflect.StructField{Type: rt, Tag: `bin:"optional"`}, reflect.StructField{Type: u8})
	case 7:
		return mk(reflect.StructField{Type: reflect.TypeOf("")}, reflect.StructField{Type: reflect.SliceOf(rt)}, reflect.StructField{Type: u8})
	}
	return mk(reflect.StructField{Type: mk(reflect.StructField{Type: rt})}, reflect.StructField{Type: rt})
}

func init() {
	// ---- enums ------------------------------------------------------------
	reg(&core.Prop{ID: "C17", Rule: focusRule, Need: map[string]int64{"judged": 5000, "bad_tags_refused": 3000, "distinct_tags": 200, "used_targets": 5000, "lookalikes": 10000}, Run: func(c *core.Ctx) {
		conf := func(k *core.Case) tm.Conf {
			cf := full(tm.Borsh)(k)
			cf.BigLens, cf.BigMax = k.P(6), 4200
			return cf
		}
		var tags [256]int64
		c.Run("enums", c.Scaled(12000), func(k *core.Case) {
			g := tm.NewGen(k.Rng, conf(k))
			et := tm.Of(sameVariants(k, g.EnumT(1+k.N(2))))
			t := tm.Of(holders(k, et.RT))
			for j := 0; j < 3; j++ {
				v := g.Value(t)
				focus(k, fEnum, t, tm.Borsh, v)
			}
			// the enum alone: what is chosen, and only that
			v := g.Value(et)
			n := len(et.F) - 1
			tag := k.N(n)
			v.Field(0).SetUint(uint64(tag))
			g.Left = 60
			v.Field(tag + 1).Set(g.Value(et.F[tag+1].T))
			k.Detail(info(tm.Borsh, et, v, nil, ""))
			b, err := marshal(tm.Borsh, iface(k, v))
			k.Eval(1)
			if err == nil {
				if len(b) == 0 || int(b[0]) != tag {
					k.Fail("enum with variant %d of %d encodes to %s", tag, n, core.Hex(b))
				}
				tags[tag] = 1
				// unchosen variants must not show
				w := g.Value(et)
				w.Field(0).SetUint(uint64(tag))
				w.Field(tag + 1).Set(v.Field(tag + 1))
				b2, err := marshal(tm.Borsh, iface(k, w))
				if err != nil || !bytes.Equal(b, b2) {
					k.Fail("the encoding depends on variants that are not chosen: %s, then %s (%v)", core.Hex(b), core.Hex(b2), err)
				}
			}
			// input that ends early, whatever the target holds
			if err == nil && !tm.HasExt(et) {
				for _, to := range []int{0, 1, len(b) - 1, k.N(len(b))} {
					if to < 0 || to >= len(b) {
						continue
					}
					for used := 0; used < 2; used++ {
						ptr := reflect.New(et.RT)
						if used == 1 {
							ptr.Elem().Set(g.Target(et))
							g.Left = 30
							ptr.Elem().Field(tag + 1).Set(g.Target(et.F[tag+1].T))
						}
						k.Detail(info(tm.Borsh, et, ptr.Elem(), b[:to], fmt.Sprintf("variant %d cut from %d bytes", tag, len(b))))
						k.Eval(1)
						if _, err := decodeVia(k, tm.Borsh, b[:to], ptr.Interface()); err == nil {
							if _, _, stt := tm.Decode(et, tm.Borsh, b[:to]); stt == tm.Trunc {
								k.Fail("variant %d cut to %d of %d bytes was decoded", tag, to, len(b))
							}
						}
						k.Count("cut_short", 1)
					}
				}
			}
			// a target that holds something: the tag and the chosen variant change, nothing else
			if err == nil {
				ptr := reflect.New(et.RT)
				ptr.Elem().Set(g.Target(et))
				for i := 1; i <= n; i++ {
					g.Left = 30
					ptr.Elem().Field(i).Set(g.Target(et.F[i].T))
				}
				var before []string
				for i := 1; i <= n; i++ {
					before = append(before, snap(ptr.Elem().Field(i)))
				}
				k.Detail(info(tm.Borsh, et, ptr.Elem(), b, fmt.Sprintf("decode variant %d into a used target", tag)))
				if _, err := decodeVia(k, tm.Borsh, b, ptr.Interface()); err != nil {
					k.Fail("decoding into a used target failed: %v", err)
				}
				k.Eval(1)
				k.Count("used_targets", 1)
				if got := ptr.Elem().Field(0).Uint(); got != uint64(tag) {
					k.Fail("decoding variant %d set the tag to %d", tag, got)
				}
				for i := 1; i <= n; i++ {
					if after := snap(ptr.Elem().Field(i)); i != tag+1 && after != before[i-1] {
						k.Fail("decoding variant %d changed variant %d: %s became %s", tag, i-1, cut(before[i-1], 200), cut(after, 200))
					}
				}
			}
			// tags out of range
			for _, bad := range []int{n, n + 1, 255, n + k.N(256-n)} {
				if bad < n || bad > 255 {
					continue
				}
				v.Field(0).SetUint(uint64(bad))
				k.Detail(info(tm.Borsh, et, v, nil, fmt.Sprintf("tag %d of %d variants", bad, n)))
				if out, err := marshal(tm.Borsh, iface(k, v)); err == nil {
					k.Fail("encoding an enum with tag %d but only %d variants succeeded: %s", bad, n, core.Hex(out))
				}
				data := append([]byte{byte(bad)}, k.Bytes(64)...)
				k.Detail(info(tm.Borsh, et, reflect.Value{}, data, fmt.Sprintf("tag %d of %d variants", bad, n)))
				ptr := reflect.New(et.RT)
				if _, err := decodeVia(k, tm.Borsh, data, ptr.Interface()); err == nil {
					k.Fail("decoding an enum with tag %d but only %d variants succeeded", bad, n)
				}
				k.Eval(2)
				k.Count("bad_tags_refused", 2)
			}
		})
		c.Run("static", c.Scaled(4000), func(k *core.Case) {
			g := tm.NewGen(k.Rng, conf(k))
			t := tm.Of([]reflect.Type{reflect.TypeOf(st.EnumA{}), reflect.TypeOf(st.EnumHolder{}), reflect.TypeOf([]st.EnumA{}), reflect.TypeOf(st.NotEnum{})}[k.I%4])
			focus(k, fEnum, t, tm.Borsh, g.Value(t))
		})
		c.Run("lookalikes", c.Scaled(4000), func(k *core.Case) {
			// structs that resemble an enum, and enums, side by side
			cf := conf(k)
			cf.Boost, cf.Depth = "lookalike", 1+k.N(2)
			g := tm.NewGen(k.Rng, cf)
			for i := 0; i < 4; i++ {
				rt := g.StructT(cf.Depth)
				if k.P(30) {
					rt = g.EnumT(1)
				}
				t := tm.Of(rt)
				v := g.Value(t)
				k.Count("lookalikes", 1)
				if w := conformEnc(k, t, tm.Borsh, v); w != nil {
					conformDec(k, t, tm.Borsh, w.B)
				}
			}
		})
		c.Run("nil_variants", c.Scaled(3000), func(k *core.Case) {
			// a variant behind a nil pointer is its zero value
			cf := conf(k)
			cf.NilPtrs, cf.Depth = true, 1+k.N(2)
			g := tm.NewGen(k.Rng, cf)
			et := tm.Of(g.EnumT(cf.Depth))
			t := tm.Of(holdersFlat(k, et.RT))
			for j := 0; j < 3; j++ {
				k.Count("nil_variants", 1)
				if w := conformEnc(k, t, tm.Borsh, g.Value(t)); w != nil {
					conformDec(k, t, tm.Borsh, w.B)
				}
			}
		})
		c.Run("no_variant", c.Scaled(600), func(k *core.Case) {
			// tags that name nothing: enums without variants, and variants that are not exported
			tag := byte(k.N(256))
			if k.P(60) {
				tag = byte(k.N(6))
			}
			data := append([]byte{tag}, k.Bytes(k.N(40))...)
			bad := func(what string, v interface{}, err error) {
				k.Eval(1)
				k.Count("bad_tags_refused", 1)
				if err == nil {
					k.Fail("%s of %T with tag %d succeeded", what, v, tag)
				}
			}
			k.Detail(map[string]interface{}{"bytes": core.Hex(data)})
			k.Seen("no_variant", data)
			none := st.EnumNone{Tag: bin.BorshEnum(tag)}
			_, err := marshal(tm.Borsh, iface(k, reflect.ValueOf(&none).Elem()))
			bad("encoding", none, err)
			_, err = decodeVia(k, tm.Borsh, data, &none)
			bad("decoding", none, err)
			h := st.EnumPriv{Tag: bin.BorshEnum(tag)}
			if tag == 1 {
				return
			}
			_, err = marshal(tm.Borsh, iface(k, reflect.ValueOf(&h).Elem()))
			bad("encoding", h, err)
			_, err = decodeVia(k, tm.Borsh, data, &h)
			bad("decoding", h, err)
			in := struct {
				A []st.EnumPriv
				B *st.EnumNone
			}{[]st.EnumPriv{h}, &none}
			_, err = marshal(tm.Borsh, in)
			bad("encoding", in, err)
			_, err = decodeVia(k, tm.Borsh, append([]byte{1, 0, 0, 0}, data...), &in)
			bad("decoding", in, err)
		})
		// an enum with the most variants a tag can name, each in turn
		fs := []reflect.StructField{{Name: "Tag", Type: tm.EnumTagType(), Tag: `borsh_enum:"true"`}}
		for i := 0; i < 256; i++ {
			ft := reflect.TypeOf(uint16(0))
			switch i % 4 {
			case 1:
				ft = reflect.TypeOf(struct{}{})
			case 2:
				ft = reflect.TypeOf("")
			case 3:
				ft = reflect.TypeOf([]int8{})
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: ft})
		}
		et := tm.Of(reflect.StructOf(fs))
		c.Run("every_tag", 256, func(k *core.Case) {
			cf := conf(k)
			g := tm.NewGen(k.Rng, cf)
			v := g.Value(et)
			v.Field(0).SetUint(uint64(k.I))
			v.Field(k.I + 1).Set(g.Value(et.F[k.I+1].T))
			if w := focus(k, fEnum, et, tm.Borsh, v); w != nil {
				k.Count("distinct_tags", 1)
				if int(w.w.B[0]) != k.I {
					panic("model")
				}
			}
		})
	}})

	// ---- skipped and unexported fields -------------------------------------
	reg(&core.Prop{ID: "C19", Rule: focusRule + " The hidden fields are re-filled between two encodings, and targets are pre-filled before decoding.", Need: map[string]int64{"judged": 5000, "rehidden": 3000, "prefilled_kept": 3000}, Run: func(c *core.Ctx) {
		focusGroup(c, fSkip, 9000, boosted("skip"), func(k *core.Case, t *tm.T, e tm.Enc, v reflect.Value, w *composer) {
			g := tm.NewGen(k.Rng, tm.Full(e))
			if !optColl(t) && (e == tm.Borsh || !multiMap(t, v)) {
				b1, err1 := marshal(e, iface(k, v))
				rehide(g, t, v)
				k.Detail(info(e, t, v, nil, "other hidden contents"))
				b2, err2 := marshal(e, iface(k, v))
				k.Eval(1)
				k.Count("rehidden", 1)
				if (err1 == nil) != (err2 == nil) || !bytes.Equal(b1, b2) {
					k.Fail("the encoding depends on hidden fields: %s (%v), then %s (%v)", core.Hex(b1), err1, core.Hex(b2), err2)
				}
			}
			// a prefilled target keeps what is hidden
			ptr := reflect.New(t.RT)
			ptr.Elem().Set(g.Target(t))
			before := hiddenSnap(t, e, ptr.Elem(), "", nil)
			if len(before) == 0 {
				return
			}
			k.Detail(info(e, t, ptr.Elem(), w.w.B, "decode into a prefilled target"))
			if _, err := decodeVia(k, e, w.w.B, ptr.Interface()); err != nil {
				k.Fail("decoding into a prefilled target failed: %v", err)
			}
			k.Eval(1)
			after := hiddenSnap(t, e, ptr.Elem(), "", nil)
			k.Count("prefilled_kept", 1)
			for i := range before {
				if before[i] != after[i] {
					k.Fail("decoding changed a hidden field: %s became %s", cut(before[i], 200), cut(after[i], 200))
				}
			}
		})
	}})

	// ---- optional fields ----------------------------------------------------
	reg(&core.Prop{ID: "C20", Rule: focusRule, Need: map[string]int64{"judged": 5000, "absent": 2000, "present": 2000, "reused_target": 2000, "bad_coption_refused": 100, "odd_flags": 2000}, Run: func(c *core.Ctx) {
		focusGroup(c, fOpt, 9000, boosted("opt"), func(k *core.Case, t *tm.T, e tm.Enc, v reflect.Value, w *composer) {
			g := tm.NewGen(k.Rng, tm.Full(e))
			for _, m := range w.w.Marks {
				if m.Kind == "opt" || m.Kind == "copt" {
					if w.w.B[m.Off] == 0 {
						k.Count("absent", 1)
					} else {
						k.Count("present", 1)
					}
				}
			}
			// absence must also reach a target that held something
			if t.K == tm.Struct {
				ptr := reflect.New(t.RT)
				ptr.Elem().Set(g.Target(t))
				k.Detail(info(e, t, v, w.w.B, "decode into a used target"))
				if err := unmarshal(e, ptr.Interface(), w.w.B); err != nil {
					k.Fail("decoding into a used target failed: %v", err)
				}
				k.Eval(1)
				k.Count("reused_target", 1)
				for i := range t.F {
					f := &t.F[i]
					if f.Hidden() || t.Enum && e == tm.Borsh || !(f.Opt || f.COpt && e == tm.Borsh) {
						continue
					}
					if v.Field(i).IsZero() && !ptr.Elem().Field(i).IsZero() {
						k.Fail("absent optional field %s kept an old value", f.Name)
					}
				}
				if !tm.HasExt(t) {
					if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
						k.Fail("a used target does not get the encoded value: %s", d)
					}
				}
			}
			// flags other than 0 and 1: refused, or as good as 1, but never taken for absence
			work := 1 << 20 // bytes decoded
			for _, mi := range k.Perm(len(w.w.Marks)) {
				m := w.w.Marks[mi]
				if work < 0 {
					break
				}
				if m.Kind != "opt" || w.w.B[m.Off] != 1 || k.P(60) {
					continue
				}
				work -= len(w.w.B)
				odd := append([]byte(nil), w.w.B...)
				if e == tm.Bin {
					y := tm.W{}
					y.Fixed([]uint64{2, 3, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x8000, 0x10000, 0x1000000, 0x80000000, 0xffffffff}[k.N(12)], 4, false)
					copy(odd[m.Off:], y.B)
				} else {
					odd[m.Off] = byte(2 + k.N(254))
					if k.P(40) {
						odd[m.Off] = 1 << (1 + k.N(7))
					}
				}
				k.Detail(info(e, t, v, odd, fmt.Sprintf("option flag %s", core.Hex(odd[m.Off:m.Off+1]))))
				ptr := reflect.New(t.RT)
				k.Eval(1)
				k.Count("odd_flags", 1)
				if err := unmarshal(e, ptr.Interface(), odd); err == nil {
					if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
						k.Fail("an option flag other than 0 and 1 was accepted, but not as presence: %s", d)
					}
				}
			}
			// coption flags other than 0 and 1
			if e == tm.Borsh {
				work = 1 << 20
				for _, mi := range k.Perm(len(w.w.Marks)) {
					m := w.w.Marks[mi]
					if work < 0 {
						break
					}
					if m.Kind != "copt" || k.P(50) {
						continue
					}
					work -= len(w.w.B)
					bad := append([]byte(nil), w.w.B...)
					x := []uint64{2, 3, 0x100, 0x101, 0x10000, 0x1000001, 0xff, 0xffffffff, 0x80000000}[k.N(9)]
					y := tm.W{}
					y.Fixed(x, 4, false)
					copy(bad[m.Off:], y.B)
					k.Detail(info(e, t, v, bad, fmt.Sprintf("coption flag %#x", x)))
					k.Eval(1)
					if err := unmarshal(e, reflect.New(t.RT).Interface(), bad); err == nil {
						k.Fail("a coption flag of %#x was accepted", x)
					}
					k.Count("bad_coption_refused", 1)
				}
			}
		})
		// large contents that are zero but for one place
		c.Run("sparse", c.Scaled(2500), func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			g := tm.NewGen(k.Rng, tm.Full(e))
			n := []int{1, 2, 9, 17, 33, 65, 130, 1 + k.N(300)}[k.N(8)]
			var big reflect.Type
			if k.P(50) {
				fs := make([]reflect.StructField, n)
				for i := range fs {
					fs[i] = reflect.StructField{Name: fmt.Sprintf("G%d", i), Type: g.Scalar()}
				}
				big = reflect.StructOf(fs)
			} else {
				big = reflect.ArrayOf(n, g.Scalar())
			}
			if k.P(20) {
				big = reflect.ArrayOf(1+k.N(3), big)
			}
			if k.P(20) {
				big = reflect.StructOf([]reflect.StructField{{Name: "H0", Type: reflect.TypeOf(uint8(0))}, {Name: "H1", Type: big}})
			}
			tag := []string{`bin:"optional"`, `bin:"optional"`, `bin:"coption"`, `bin:"optional" borsh_optional:"true"`}[k.N(4)]
			u8 := reflect.TypeOf(uint8(0))
			rt := reflect.StructOf([]reflect.StructField{{Name: "A", Type: u8}, {Name: "O", Type: big, Tag: reflect.StructTag(tag)}, {Name: "P", Type: big, Tag: reflect.StructTag(tag)}, {Name: "Z", Type: u8}})
			t := tm.Of(rt)
			v := reflect.New(rt).Elem()
			v.Field(0).SetUint(0xaa)
			v.Field(3).SetUint(0xbb)
			full := g.Value(t)
			for i := 1; i < 3; i++ {
				if k.P(30) {
					continue // absent
				}
				// one place of the content
				dst, src := v.Field(i), full.Field(i)
				for dst.Kind() == reflect.Struct && dst.NumField() > 0 || dst.Kind() == reflect.Array && dst.Len() > 0 {
					if dst.Kind() == reflect.Struct {
						j := dst.NumField() - 1
						if k.P(50) {
							j = k.N(dst.NumField())
						}
						if !dst.Field(j).CanSet() {
							break
						}
						dst, src = dst.Field(j), src.Field(j)
					} else {
						j := dst.Len() - 1
						if k.P(50) {
							j = k.N(dst.Len())
						}
						dst, src = dst.Index(j), src.Index(j)
					}
				}
				dst.Set(src)
			}
			cw, werr := compose(fOpt, t, e, v)
			if cw.polluted != "" || werr != nil {
				return
			}
			k.Detail(info(e, t, v, cw.w.B, "sparse optional contents"))
			b, err := marshal(e, iface(k, v))
			k.Eval(2)
			k.Count("sparse", 1)
			k.Seen("sparse", int(e), rt.String(), b)
			if err != nil || !bytes.Equal(b, cw.w.B) {
				k.Fail("encodes to %s (%v), want %s", core.Hex(b), err, core.Hex(cw.w.B))
			}
			ptr := reflect.New(rt)
			if k.P(50) {
				ptr.Elem().Set(g.Target(t))
			}
			if err := unmarshal(e, ptr.Interface(), b); err != nil {
				k.Fail("decoding failed: %v", err)
			}
			if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
				k.Fail("decoded value differs: %s", d)
			}
		})
	}})

	// ---- counted slices -----------------------------------------------------
	reg(&core.Prop{ID: "C21", Rule: focusRule + " Counts are then made to disagree with the slice.", Need: map[string]int64{"judged": 5000, "bad_counts_refused": 2000, "shorter_counts": 500}, Run: func(c *core.Ctx) {
		focusGroup(c, fSize, 8000, boosted("sizeof"), nil)
		c.Run("counts", c.Scaled(16000), func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			cf := tm.Full(e)
			cf.BigLens, cf.BigMax = k.P(6), 4200
			g := tm.NewGen(k.Rng, cf)
			cts := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(bin.Varuint16(0)), reflect.TypeOf(bin.Varint32(0)), reflect.TypeOf(bin.Uint64(0)), reflect.TypeOf(st.NU16(0)),
				reflect.TypeOf(bin.Int64(0)), reflect.TypeOf(bin.Varint16(0)), reflect.TypeOf(bin.Varuint32(0)), reflect.TypeOf(st.NI64(0)), reflect.TypeOf(st.NU32(0)), reflect.TypeOf(time.Duration(0))}
			ct := cts[k.N(len(cts))]
			el := g.Scalar()
			switch k.N(4) {
			case 0:
				el = reflect.TypeOf(st.Base{})
			case 1:
				el = reflect.TypeOf(bin.Varint16(0))
			}
			u16 := reflect.TypeOf(uint16(0))
			rt := reflect.StructOf([]reflect.StructField{{Name: "N", Type: ct, Tag: `bin:"sizeof=S"`}, {Name: "A", Type: u16}, {Name: "S", Type: reflect.SliceOf(el)}, {Name: "Z", Type: u16}, {Name: "S2", Type: reflect.SliceOf(u16)}})
			t := tm.Of(rt)
			v := g.Value(t)
			n := v.Field(2).Len()
			// the count decides, not the slice's length
			x := int64(n)
			switch k.N(5) {
			case 0:
				x = int64(k.N(n + 1))
			case 1:
				x = int64(n + 1 + k.N(3))
			case 3: // right only if it is cut to fewer bits
				x = int64(k.N(n+1)) + int64(1+k.N(3))<<uint([]int{8, 16, 24, 31, 32, 33, 48, 56}[k.N(8)])
				if k.P(20) {
					x -= math.MinInt64
				}
				k.Count("counts_right_modulo", 1)
			case 2:
				x = []int64{-1, -2, math.MinInt8, math.MinInt32, math.MinInt64, math.MaxInt8, math.MaxInt16, math.MaxInt32, math.MaxInt64, 1 << 40}[k.N(10)]
			}
			cv := v.Field(0)
			fits := true
			if cv.CanInt() {
				fits = !cv.OverflowInt(x)
				cv.SetInt(x)
				x = cv.Int()
			} else {
				cv.SetUint(uint64(x) & (^uint64(0) >> uint(64-8*int(ct.Size()))))
				fits = x >= 0
				x = int64(cv.Uint()) // negative from 2^63: no slice is that long
				if x < 0 {
					k.Count("counts_beyond_2^63", 1)
				}
			}
			_ = fits
			if x >= 0 && x <= int64(n) {
				want := reflect.New(rt).Elem()
				want.Set(v)
				want.Field(2).Set(v.Field(2).Slice(0, int(x)))
				cw, werr := compose(fSize, t, e, v)
				if cw.polluted != "" || werr != nil {
					return
				}
				k.Detail(info(e, t, v, cw.w.B, fmt.Sprintf("count %d of %d elements", x, n)))
				b, err := marshal(e, iface(k, v))
				k.Eval(1)
				k.Count("shorter_counts", 1)
				if err != nil || !bytes.Equal(b, cw.w.B) {
					k.Fail("count %d with %d elements encodes to %s (%v), want %s", x, n, core.Hex(b), err, core.Hex(cw.w.B))
				}
				ptr := reflect.New(rt)
				if err := unmarshal(e, ptr.Interface(), b); err != nil {
					k.Fail("decoding a counted slice failed: %v", err)
				}
				if d := tm.Diff(t, e, want, ptr.Elem()); d != "" {
					k.Fail("decoded value differs: %s", d)
				}
				k.Seen("counts", int(e), ct.String(), el.String(), n, int(x), b)
				return
			}
			k.Detail(info(e, t, v, nil, fmt.Sprintf("count %d of %d elements", x, n)))
			k.Eval(1)
			k.Count("bad_counts_refused", 1)
			k.Seen("badcount", int(e), ct.String(), el.String(), n, int(x))
			if b, err := marshal(e, iface(k, v)); err == nil {
				k.Fail("a count of %d with %d elements was encoded: %s", x, n, core.Hex(b))
			}
			// the same count with too few bytes behind it
			w := tm.W{}
			if tm.Of(ct).K == tm.LibK {
				tm.LibOf(ct).Enc(&w, e, false, cv)
			} else {
				w.Fixed(uint64(x), int(ct.Size()), false)
			}
			w.Fixed(0, 2, false)
			es := tm.MinSize(elemT(el), e)
			w.Raw(bytes.Repeat([]byte{0}, k.N(es*2+1)))
			if x < 0 || x > 1000 {
				w.Raw(make([]byte, k.N(200)))
			}
			if int64(len(w.B)) >= x*int64(es) && x > 0 && x < 1<<20 {
				return
			}
			k.Detail(info(e, t, reflect.Value{}, w.B, fmt.Sprintf("count %d", x)))
			if err := unmarshal(e, reflect.New(rt).Interface(), w.B); err == nil {
				k.Fail("a count of %d was accepted with only %d bytes of input", x, len(w.B))
			}
		})
		longs := []int{127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 1 << 18}
		for n := 1; n < 320; n++ {
			longs = append(longs, n)
		}
		lcts := []reflect.Type{reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(bin.Uint64(0)), reflect.TypeOf(bin.Varuint32(0))}
		lels := []interface{}{uint8(0), uint16(0), uint32(0), uint64(0), int16(0), false, st.Base{}, bin.Varuint16(0)}
		c.Run("long", 3*len(longs)*len(lels), func(k *core.Case) {
			// the count is not bound by the encoding's own lengths
			e := tm.Encs[k.I%3]
			n := longs[k.I/3%len(longs)]
			el := reflect.TypeOf(lels[k.I/3/len(longs)])
			ct := lcts[k.N(len(lcts))]
			if ct.Kind() == reflect.Uint16 && n > 65535 {
				ct = lcts[0]
			}
			if n < 128 && k.P(50) {
				ct = []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(bin.Varint16(0)), reflect.TypeOf(st.NU16(0))}[k.N(5)]
			}
			rt := reflect.StructOf([]reflect.StructField{{Name: "N", Type: ct, Tag: `bin:"sizeof=S"`}, {Name: "S", Type: reflect.SliceOf(el)}, {Name: "Z", Type: reflect.TypeOf(uint16(0))}})
			t := tm.Of(rt)
			v := reflect.New(rt).Elem()
			if v.Field(0).CanInt() {
				v.Field(0).SetInt(int64(n))
			} else {
				v.Field(0).SetUint(uint64(n))
			}
			s := reflect.MakeSlice(reflect.SliceOf(el), n, n)
			for i := 0; i < n; i++ {
				x := s.Index(i)
				for x.Kind() == reflect.Struct {
					x = x.Field(0)
				}
				switch {
				case x.CanUint():
					x.SetUint(uint64(i*7+1) & (^uint64(0) >> uint(64-8*int(x.Type().Size()))))
				case x.CanInt():
					x.SetInt(int64(int16(i*7 + 1)))
				case x.Kind() == reflect.Bool:
					x.SetBool(i%3 == 0)
				}
			}
			v.Field(1).Set(s)
			v.Field(2).SetUint(0xbeef)
			k.Detail(map[string]interface{}{"encoding": e.String(), "count": ct.String(), "element": el.String(), "n": n})
			w, werr := tm.Encode(t, e, v)
			if werr != nil {
				return
			}
			b, err := encodeVia(k, e, iface(k, v))
			k.Eval(1)
			k.Count("long_counts", 1)
			k.Seen("long", int(e), ct.String(), el.String(), n)
			if err != nil {
				k.Fail("encoding a counted slice of %d elements failed: %v", n, err)
			}
			if !bytes.Equal(b, w.B) {
				k.Fail("a counted slice of %d elements encodes wrongly, first difference at offset %d", n, firstDiff(b, w.B))
			}
			ptr := reflect.New(rt)
			if _, err := decodeVia(k, e, w.B, ptr.Interface()); err != nil {
				k.Fail("decoding a counted slice of %d elements failed: %v", n, err)
			}
			if !reflect.DeepEqual(ptr.Elem().Interface(), v.Interface()) {
				k.Fail("a counted slice of %d elements came back otherwise", n)
			}
			short := w.B[:len(w.B)-2-1-k.N(len(w.B)/2)]
			if err := unmarshal(e, reflect.New(rt).Interface(), short); err == nil {
				k.Fail("a count of %d was accepted with only %d of %d bytes", n, len(short), len(w.B))
			}
		})
	}})

	// ---- extensions -----------------------------------------------------------
	reg(&core.Prop{ID: "C22", Rule: focusRule + " Every encoding is also cut at every offset: at a boundary of extension fields it decodes with the rest absent, elsewhere it is refused.", Need: map[string]int64{"judged": 4000, "absent_tail": 3000, "absent_left_as_it_was": 1000, "partial_refused": 3000}, Run: func(c *core.Ctx) {
		focusGroup(c, fExt, 6000, boosted("ext"), nil)
		c.Run("cuts", c.Scaled(6000), func(k *core.Case) { extCuts(k, false) })
		c.Run("static", c.Scaled(600), func(k *core.Case) { extCuts(k, true) })
	}})

	// ---- byte order -------------------------------------------------------------
	reg(&core.Prop{ID: "C23", Rule: focusRule, Need: map[string]int64{"judged": 8000, "order_pairs": 3000}, Run: func(c *core.Ctx) {
		focusGroup(c, fBig, 10000, boosted("big"), nil)
		// the same value in a big-endian and a plain field: mirrored bytes, and only there
		kinds := []interface{}{uint16(0), uint32(0), uint64(0), int16(0), int32(0), int64(0), float32(0), float64(0), bin.Uint64(0), bin.Int64(0), bin.JSONFloat64(0), bin.Uint128{}, bin.Int128{}, bin.Float128{}, st.NU16(0), st.NI64(0), st.NF32(0)}
		c.Run("pairs", c.Scaled(9000), func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			g := tm.NewGen(k.Rng, tm.Full(e))
			rt := reflect.TypeOf(kinds[k.I%len(kinds)])
			ptr := k.P(30)
			ft := rt
			if ptr {
				ft = reflect.PtrTo(rt)
			}
			tags := []reflect.StructTag{"", `bin:"big"`, "", `bin:"little"`, `bin:"big"`, ""}
			opt := k.P(25)
			var fs []reflect.StructField
			for i, tg := range tags {
				if opt && tg != "" {
					tg = reflect.StructTag(fmt.Sprintf(`bin:"optional %s"`, tg.Get("bin")))
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: tg})
			}
			t := tm.Of(reflect.StructOf(fs))
			val := g.Value(tm.Of(rt))
			if opt && val.IsZero() {
				return
			}
			v := reflect.New(t.RT).Elem()
			for i := range fs {
				if ptr {
					p := reflect.New(rt)
					p.Elem().Set(val)
					v.Field(i).Set(p)
				} else {
					v.Field(i).Set(val)
				}
			}
			one, err := marshal(e, val.Interface())
			if err != nil {
				return
			}
			rev := append([]byte(nil), one...)
			for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
				rev[a], rev[b] = rev[b], rev[a]
			}
			var want []byte
			flag := func() {
				if opt {
					want = append(want, 1)
					if e == tm.Bin {
						want = append(want, 0, 0, 0)
					}
				}
			}
			for i := range tags {
				if tags[i] != "" {
					flag()
				}
				if (i == 1 || i == 4) && (e != tm.Borsh || tm.LibOf(rt) != nil) {
					want = append(want, rev...)
				} else {
					want = append(want, one...)
				}
			}
			k.Detail(info(e, t, v, want, ""))
			got, err := encodeVia(k, e, iface(k, v))
			k.Eval(1)
			k.Count("order_pairs", 1)
			k.Seen("pairs", int(e), rt.String(), want)
			if err != nil || !bytes.Equal(got, want) {
				k.Detail(map[string]interface{}{"case": info(e, t, v, nil, ""), "got": core.Hex(got), "want": core.Hex(want)})
				k.Fail("fields in both byte orders encode wrongly (%v), first difference at offset %d", err, firstDiff(got, want))
			}
			back := reflect.New(t.RT)
			if _, err := decodeVia(k, e, want, back.Interface()); err != nil {
				k.Fail("decoding fields in both byte orders failed: %v", err)
			}
			if d := tm.Diff(t, e, v, back.Elem()); d != "" {
				k.Fail("decoding fields in both byte orders gives %s", d)
			}
		})
	}})

	// ---- NaN ----------------------------------------------------------------------
	reg(&core.Prop{ID: "C32", Rule: "Values with floating-point numbers at any depth, with and without NaN in them (every sign, quiet and signalling, any payload), are encoded and decoded; distinct by (encoding, type, bytes).", Need: map[string]int64{"nan_refused_encoding": 2000, "nan_refused_decoding": 3000, "without_nan_accepted": 3000, "nan_kept_elsewhere": 1000}, Run: nanRun})
}

func nanRun(c *core.Ctx) {
	pats := []uint64{0x7ff8000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xfff8000000000000, 0xfff0000000000001, 0xffffffffffffffff, 0x7fffffffffffffff}
	pats32 := []uint64{0x7fc00000, 0x7f800001, 0xffc00000, 0xff800001, 0xffffffff, 0x7fffffff}
	c.Run("values", c.Scaled(12000), func(k *core.Case) {
		e := tm.Borsh
		if k.P(20) {
			e = tm.Encs[k.N(2)]
		}
		cf := tm.Full(e)
		cf.Depth = 1 + k.N(4)
		cf.BigLens, cf.BigMax = k.P(6), 4200
		g := tm.NewGen(k.Rng, cf)
		var t *tm.T
		fl := []reflect.Type{reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(bin.JSONFloat64(0)), reflect.TypeOf(st.NF32(0)), reflect.TypeOf(st.NF64(0)), reflect.TypeOf([]float64{}), reflect.TypeOf([3]float32{}), reflect.TypeOf(map[uint8]float64{}), reflect.TypeOf(map[string][]float32{})}[k.N(9)]
		if k.P(60) {
			t = tm.Of(holders(k, holders(k, fl)))
		} else {
			t = tm.Of(g.Top())
		}
		if tm.HasExt(t) {
			return
		}
		for j := 0; j < 4; j++ {
			g.NaN = j%2 == 1
			v := g.Value(t)
			w, werr := tm.Encode(t, e, v)
			k.Detail(info(e, t, v, nil, ""))
			b, err := encodeVia(k, e, iface(k, v))
			k.Eval(1)
			if werr == tm.ErrNaN {
				k.Count("nan_refused_encoding", 1)
				k.Seen("nan", typeStr(t), fmt.Sprint(v.Interface()))
				if err == nil {
					k.Fail("a Borsh value holding NaN was encoded: %s", core.Hex(b))
				}
				continue
			}
			if werr != nil {
				continue
			}
			hasFloat := false
			for _, m := range w.Marks {
				hasFloat = hasFloat || m.Kind == "float"
			}
			if !hasFloat {
				continue
			}
			if err != nil {
				k.Fail("encoding failed although no NaN is in it: %v", err)
			}
			k.Count("without_nan_accepted", 1)
			k.Seen(int(e), typeStr(t), w.B)
			if e != tm.Borsh {
				continue
			}
			// NaN in the place of every float of the encoding
			left := 8
			for _, m := range w.Marks {
				if m.Kind != "float" || left == 0 || k.P(30) {
					continue
				}
				left--
				p := pats[k.N(len(pats))]
				if m.Len == 4 {
					p = pats32[k.N(len(pats32))]
				}
				y := tm.W{}
				y.Fixed(p, m.Len, false)
				bad := append([]byte(nil), w.B...)
				copy(bad[m.Off:], y.B)
				if _, r, stt := tm.Decode(t, e, bad); r.Unsure || stt != tm.Reject {
					continue // a big-endian helper type, or a map key
				}
				k.Detail(info(e, t, v, bad, "NaN on the wire"))
				k.Eval(1)
				k.Count("nan_refused_decoding", 1)
				if _, err := decodeVia(k, e, bad, reflect.New(t.RT).Interface()); err == nil {
					k.Fail("Borsh input holding NaN at offset %d was accepted", m.Off)
				}
			}
		}
	})
	c.Run("long", c.Scaled(400), func(k *core.Case) {
		el := []reflect.Type{reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(bin.JSONFloat64(0)), reflect.TypeOf(st.NF32(0)), reflect.TypeOf(st.NF64(0)), reflect.TypeOf([2]float32{}), reflect.TypeOf(struct{ F float64 }{}), reflect.TypeOf((*float64)(nil))}[k.I%8]
		n := []int{7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257, 300, 513, 1025, 2050, 4100}[k.I/8%18] + k.N(3)
		rt := reflect.SliceOf(el)
		if k.P(50) {
			rt = reflect.ArrayOf(n, el)
		}
		v := reflect.New(rt).Elem()
		if rt.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(rt, n, n))
		}
		put := func(i int, bits uint64) {
			x := v.Index(i)
			switch x.Kind() {
			case reflect.Array:
				x = x.Index(k.N(2))
			case reflect.Struct:
				x = x.Field(0)
			case reflect.Ptr:
				x.Set(reflect.New(x.Type().Elem()))
				x = x.Elem()
			}
			if x.Kind() == reflect.Float32 {
				x.Set(reflect.ValueOf(math.Float32frombits(uint32(bits))).Convert(x.Type()))
			} else {
				x.SetFloat(math.Float64frombits(bits))
			}
		}
		for i := 0; i < n; i++ {
			put(i, uint64(k.N(1<<20)))
		}
		k.Detail(map[string]interface{}{"type": rt.String(), "elements": n})
		b, err := marshal(tm.Borsh, v.Interface())
		k.Eval(1)
		if err != nil {
			k.Fail("encoding failed although no NaN is in it: %v", err)
		}
		size := 8
		if w := el.Kind(); w == reflect.Float32 || w == reflect.Array {
			size = 4
		}
		head := len(b) % size // the length of a slice
		if rt.Kind() == reflect.Slice {
			head = 4
		}
		back := reflect.New(rt)
		if err := unmarshal(tm.Borsh, back.Interface(), b); err != nil {
			k.Fail("decoding failed although no NaN is in it: %v", err)
		}
		m := (len(b) - head) / size
		for j := 0; j < 6; j++ {
			at := []int{0, m - 1, m / 2, k.N(m), k.N(m), m - 1 - k.N(m/4+1)}[j]
			y := tm.W{}
			if size == 8 {
				y.Fixed(pats[k.N(len(pats))], 8, false)
			} else {
				y.Fixed(pats32[k.N(len(pats32))], 4, false)
			}
			bad := append([]byte(nil), b...)
			copy(bad[head+at*size:], y.B)
			k.Eval(1)
			k.Count("nan_refused_decoding", 1)
			if _, err := decodeVia(k, tm.Borsh, bad, reflect.New(rt).Interface()); err == nil {
				k.Fail("Borsh input holding NaN as number %d of %d was accepted", at, m)
			}
		}
		bits := pats[k.N(len(pats))]
		if size == 4 {
			bits = pats32[k.N(len(pats32))]
		}
		at := k.N(n)
		put(at, bits)
		k.Eval(1)
		k.Count("nan_refused_encoding", 1)
		k.Seen("long", rt.String(), n)
		if out, err := marshal(tm.Borsh, v.Interface()); err == nil {
			k.Fail("a Borsh value of %d elements whose element %d is NaN was encoded to %d bytes", n, at, len(out))
		}
	})
	c.Run("primitives", c.Scaled(8000), func(k *core.Case) {
		// straight from the bits: a detour over another width would quieten the NaN
		p := pats[k.N(len(pats))]
		p32 := uint32(pats32[k.N(len(pats32))])
		switch k.N(3) {
		case 0:
			p, p32 = p^uint64(k.N(1<<20)), p32^uint32(k.N(1<<10))
		case 1:
			p, p32 = p&^(1<<52-1)|1<<uint(k.N(52)), p32&^(1<<23-1)|1<<uint(k.N(23))
		}
		f, f32 := math.Float64frombits(p), math.Float32frombits(p32)
		if f == f || f32 == f32 {
			return
		}
		k.Detail(map[string]interface{}{"bits": fmt.Sprintf("%016x %08x", p, p32)})
		big := k.P(50)
		var ord binary.ByteOrder = binary.LittleEndian
		if big {
			ord = binary.BigEndian
		}
		for _, e := range tm.Encs {
			var buf bytes.Buffer
			enc := newEncoder(e, &buf)
			err1, n1 := enc.WriteFloat32(f32, ord), buf.Len()
			err2 := enc.WriteFloat64(f, ord)
			k.Eval(2)
			if e == tm.Borsh {
				if err1 == nil || err2 == nil || buf.Len() != 0 {
					k.Fail("Borsh wrote a NaN: %s (%v, %v)", core.Hex(buf.Bytes()), err1, err2)
				}
			} else if err1 != nil || err2 != nil || n1 != 4 {
				k.Fail("%s refused a NaN: %v, %v", e, err1, err2)
			}
			y := tm.W{}
			y.Fixed(uint64(p32), 4, big)
			y.Fixed(p, 8, big)
			if e != tm.Borsh && !bytes.Equal(y.B, buf.Bytes()) {
				k.Fail("%s wrote NaN as %s, want %s", e, core.Hex(buf.Bytes()), core.Hex(y.B))
			}
			g32, err1 := newDecoder(e, y.B).ReadFloat32(ord)
			g64, err2 := newDecoder(e, y.B[4:]).ReadFloat64(ord)
			if e == tm.Borsh {
				if err1 == nil || err2 == nil {
					k.Fail("Borsh read a NaN from %s (%v, %v)", core.Hex(y.B), err1, err2)
				}
			} else if err1 != nil || err2 != nil || math.Float32bits(g32) != p32 || math.Float64bits(g64) != p {
				k.Fail("%s reads NaN as %08x %016x (%v, %v)", e, math.Float32bits(g32), math.Float64bits(g64), err1, err2)
			}
		}
		k.Count("nan_primitives", 1)
		// and as the parts of a value
		n32, n64 := st.NF32(f32), st.NF64(f)
		for i, v := range []interface{}{f, f32, &f, &f32, []float32{1, f32}, []float64{1, f}, [2]float32{f32}, [1]float64{f}, map[uint8]float32{1: f32}, map[string]float64{"": f}, n32, n64, []st.NF32{n32}, []st.NF64{n64}, bin.JSONFloat64(f), &n32,
			struct{ A, B float32 }{1, f32}, struct {
				A *float32 `bin:"optional"`
			}{&f32}, struct {
				A float32 `bin:"optional"`
			}{f32}, struct {
				A float64 `bin:"coption"`
			}{f}, struct{ A []map[uint8]*st.NF32 }{[]map[uint8]*st.NF32{{1: &n32}}}, struct {
				A float32 `bin:"big"`
			}{f32}, struct {
				A float64 `bin:"binary_extension"`
			}{f}} {
			k.Eval(1)
			k.Count("nan_refused_encoding", 1)
			if b, err := marshal(tm.Borsh, v); err == nil {
				k.Fail("a Borsh value of type %T holding the NaN %016x/%08x was encoded: %s (case %d)", v, p, p32, core.Hex(b), i)
			}
		}
		k.Seen("nan", p, p32)
	})
	c.Run("elsewhere", c.Scaled(4000), func(k *core.Case) {
		e := tm.Encs[k.N(2)] // Bin and CompactU16 carry NaN like any other number
		p := pats[k.N(len(pats))] ^ uint64(k.N(1<<20))
		if x := math.Float64frombits(p); x == x {
			return
		}
		p32 := uint32(p>>32)&0x80000000 | 0x7f800000 | uint32(1+k.N(0x7fffff))
		f32 := math.Float32frombits(p32)
		n32 := st.NF32(f32)
		v := struct {
			A float64
			B []float64
			C map[uint8]float64
			D float32
			E []float32
			F map[uint8]st.NF32
			G [2]st.NF32
			H *st.NF32
			I float32 `bin:"optional"`
			J float32 `bin:"big"`
		}{math.Float64frombits(p), []float64{1, math.Float64frombits(p)}, map[uint8]float64{3: math.Float64frombits(p)},
			f32, []float32{f32, 2}, map[uint8]st.NF32{9: n32}, [2]st.NF32{n32, 1}, &n32, f32, f32}
		b, err := marshal(e, v)
		k.Detail(map[string]interface{}{"encoding": e.String(), "bits": fmt.Sprintf("%016x %08x", p, p32), "bytes": core.Hex(b)})
		k.Eval(1)
		if err != nil {
			k.Fail("encoding NaN failed: %v", err)
		}
		back := v
		reflect.ValueOf(&back).Elem().Set(reflect.Zero(reflect.TypeOf(v)))
		if err := unmarshal(e, &back, b); err != nil {
			k.Fail("decoding NaN failed: %v", err)
		}
		for _, x := range []float64{back.A, back.B[1], back.C[3]} {
			if math.Float64bits(x) != p {
				k.Fail("a NaN came back as %016x", math.Float64bits(x))
			}
		}
		for i, x := range []float32{back.D, back.E[0], float32(back.F[9]), float32(back.G[0]), float32(*back.H), back.I, back.J} {
			if math.Float32bits(x) != p32 {
				k.Fail("the NaN %08x came back as %08x (place %d)", p32, math.Float32bits(x), i)
			}
		}
		w, werr := tm.Encode(tm.Of(reflect.TypeOf(v)), e, reflect.ValueOf(v))
		if werr == nil && !bytes.Equal(w.B, b) {
			k.Fail("a value with NaN encodes wrongly, first difference at offset %d", firstDiff(b, w.B))
		}
		k.Count("nan_kept_elsewhere", 1)
		k.Seen("elsewhere", int(e), p)
	})
}

// extCuts cuts the encoding of a struct with extension fields at every offset.
func extCuts(k *core.Case, static bool) {
	e := tm.Encs[k.N(3)]
	cf := tm.Full(e)
	cf.BigLens, cf.BigMax = k.P(6), 1100
	cf.Depth = 2
	g := tm.NewGen(k.Rng, cf)
	var t *tm.T
	if static {
		t = tm.Of(reflect.TypeOf(st.ExtTail{}))
	} else {
		var fs []reflect.StructField
		for i := 0; i < 1+k.N(3); i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("A%d", i), Type: noExt(g)})
		}
		for i := 0; i < 1+k.N(4); i++ {
			tag := "binary_extension"
			switch k.N(6) {
			case 0:
				tag = "binary_extension big"
			case 1:
				tag = "optional binary_extension"
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: noExt(g), Tag: reflect.StructTag(fmt.Sprintf("bin:%q", tag))})
		}
		if k.P(25) { // hidden fields between extensions do not disturb them
			for j, n := 0, 1+k.N(2); j < n; j++ {
				h := reflect.StructField{Name: fmt.Sprintf("H%d", j), Type: reflect.TypeOf(uint32(0)), Tag: `bin:"-"`}
				if k.P(40) {
					h = reflect.StructField{Name: fmt.Sprintf("h%d", j), PkgPath: "vmon/props", Type: h.Type}
				}
				at := k.N(len(fs) + 1)
				fs = append(fs[:at:at], append([]reflect.StructField{h}, fs[at:]...)...)
			}
		}
		t = tm.Of(reflect.StructOf(fs))
	}
	v := g.Value(t)
	// parts: the library's own encodings of the leading fields, then of each extension
	ends := []int{}
	var want []byte
	first := -1
	for i := range t.F {
		f := &t.F[i]
		if f.Hidden() {
			continue
		}
		if f.Ext && first < 0 {
			first = i
			ends = append(ends, len(want))
		}
		sub := tm.Of(reflect.StructOf([]reflect.StructField{{Name: f.Name, Type: f.T.RT, Tag: stripExt(t.RT.Field(i).Tag)}}))
		sv := reflect.New(sub.RT).Elem()
		sv.Field(0).Set(v.Field(i))
		b, err := marshal(e, sv.Interface())
		back := reflect.New(sub.RT)
		if err != nil || unmarshal(e, back.Interface(), b) != nil || tm.Diff(sub, e, sv, back.Elem()) != "" {
			return // this part misbehaves on its own
		}
		if e != tm.Borsh && multiMap(sub, sv) {
			return
		}
		want = append(want, b...)
		if f.Ext {
			ends = append(ends, len(want))
		}
	}
	k.Detail(info(e, t, v, want, ""))
	got, err := encodeVia(k, e, iface(k, v))
	k.Eval(1)
	if err != nil || !bytes.Equal(got, want) {
		k.Fail("a struct with extension fields encodes to %s (%v)", core.Hex(got), err)
	}
	isEnd := map[int]int{} // offset -> extensions present
	for i, o := range ends {
		isEnd[o] = i
	}
	k.Seen("cuts", int(e), typeStr(t), want)
	step := 1 + len(want)/200
	// deep inside something that adds nothing to the wire
	outer, down := tm.Nest(k.Rng, t.RT, []int{0, 0, 1 + k.N(24)}[k.N(3)])
	for o := ends[0]; o <= len(want); o++ {
		_, boundary := isEnd[o]
		if !boundary && o%step != 0 {
			continue
		}
		ptr := reflect.New(t.RT)
		target := ptr
		if outer != t.RT && k.P(60) {
			target = reflect.New(outer)
			ptr = down(target.Elem()).Addr()
			k.Count("nested_extensions", 1)
		}
		k.Detail(info(e, t, v, want[:o], fmt.Sprintf("first %d of %d bytes, as %s", o, len(want), cut(target.Type().String(), 300))))
		in, _ := guarded(want[:o], 1)
		used := k.P(40) // what the target held stays where the input has nothing
		held := make([]string, len(t.F))
		if used {
			ptr.Elem().Set(g.Target(t))
			for i := range t.F {
				if t.F[i].Ext {
					held[i] = snap(ptr.Elem().Field(i))
				}
			}
		}
		_, err := decodeVia(k, e, in, target.Interface())
		k.Eval(1)
		if !boundary {
			k.Count("partial_refused", 1)
			if err == nil {
				k.Fail("input ending inside an extension field was accepted")
			}
			continue
		}
		k.Count("absent_tail", 1)
		if err != nil {
			k.Fail("input ending between extension fields was refused: %v", err)
		}
		present := isEnd[o]
		n := 0
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				continue
			}
			if f.Ext {
				n++
			}
			if !f.Ext || n <= present {
				if d := tm.Diff(f.T, e, v.Field(i), ptr.Elem().Field(i)); d != "" {
					k.Fail("field %s decoded wrongly: %s", f.Name, d)
				}
			} else if used {
				k.Count("absent_left_as_it_was", 1)
				if now := snap(ptr.Elem().Field(i)); now != held[i] {
					k.Fail("absent extension %s was not left as it was: %s", f.Name, diffAt(held[i], now))
				}
			} else if !emptyVal(ptr.Elem().Field(i)) {
				// an extension of size zero is the same present or absent
				if d := tm.Diff(f.T, e, v.Field(i), ptr.Elem().Field(i)); d != "" {
					k.Fail("absent extension %s was filled in: %v", f.Name, ptr.Elem().Field(i))
				}
			}
		}
	}
}

func emptyVal(v reflect.Value) bool {
	return v.IsZero() || (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.Len() == 0
}

func stripExt(t reflect.StructTag) reflect.StructTag {
	s := ""
	for _, w := range bytes.Fields([]byte(t.Get("bin"))) {
		if string(w) != "binary_extension" {
			s += " " + string(w)
		}
	}
	return reflect.StructTag(fmt.Sprintf("bin:%q", s))
}

func noExt(g *tm.Gen) reflect.Type {
	for {
		t := g.Type(g.C.Depth - 1)
		if d := tm.Of(t); !tm.HasExt(d) && tm.MinSize(d, g.C.Enc) > 0 {
			return t
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// rehide gives every hidden field other contents.
func rehide(g *tm.Gen, t *tm.T, v reflect.Value) {
	switch t.K {
	case tm.Arr, tm.Slice:
		for i := 0; i < v.Len(); i++ {
			rehide(g, t.Elem, v.Index(i))
		}
	case tm.Ptr:
		if !v.IsNil() {
			rehide(g, t.Elem, v.Elem())
		}
	case tm.Map:
		for _, key := range v.MapKeys() {
			x := reflect.New(t.Elem.RT).Elem()
			x.Set(v.MapIndex(key))
			rehide(g, t.Elem, x)
			v.SetMapIndex(key, x)
		}
	case tm.Struct:
		for i := range t.F {
			f := &t.F[i]
			fv := v.Field(i)
			if !f.Hidden() {
				rehide(g, f.T, fv)
				continue
			}
			fv = tm.Settable(fv)
			if f.T == nil {
				fv.SetZero()
				continue
			}
			if g.P(30) {
				fv.SetZero()
			} else {
				g.Left = 30
				fv.Set(g.Value(f.T))
			}
		}
	}
}

// hiddenSnap lists the contents of the hidden fields reachable without a pointer,
// a collection or an option in between.
func hiddenSnap(t *tm.T, e tm.Enc, v reflect.Value, path string, out []string) []string {
	switch t.K {
	case tm.Arr:
		for i := 0; i < v.Len(); i++ {
			out = hiddenSnap(t.Elem, e, v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case tm.Struct:
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				out = append(out, path+"."+f.Name+"="+snap(tm.Settable(v.Field(i))))
			} else if !f.Opt && !f.COpt && !(t.Enum && e == tm.Borsh) {
				out = hiddenSnap(f.T, e, v.Field(i), path+"."+f.Name, out)
			}
		}
	}
	return out
}

// sameVariants gives some variants of an enum the type of another one.
func sameVariants(k *core.Case, rt reflect.Type) reflect.Type {
	if rt.Name() != "" || rt.NumField() < 3 || k.P(50) {
		return rt
	}
	fs := make([]reflect.StructField, rt.NumField())
	for i := range fs {
		fs[i] = rt.Field(i)
		fs[i].Offset, fs[i].Index = 0, nil
	}
	from := 1 + k.N(len(fs)-1)
	if fs[from].PkgPath != "" {
		return rt
	}
	typ := fs[from].Type
	if k.P(50) && typ.Kind() != reflect.Ptr {
		typ = reflect.PtrTo(typ)
	}
	for i := 1; i < len(fs); i++ {
		if fs[i].PkgPath == "" && !fs[i].Anonymous && (i == from || k.P(50)) {
			fs[i].Type = typ
		}
	}
	return reflect.StructOf(fs)
}
