package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	mbig "math/big"
	"reflect"
	"sync"
	"syscall"
	"unsafe"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// tally counts bytes without touching them.
type tally struct{ n int64 }

func (t *tally) Write(p []byte) (int, error) { t.n += int64(len(p)); return len(p), nil }

var huge struct {
	sync.Once
	b []byte
}

// hugeBytes is 4 GiB and a little of address space, never touched.
func hugeBytes() []byte {
	huge.Do(func() {
		b, err := syscall.Mmap(-1, 0, 1<<32+4096, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			panic(err)
		}
		huge.b = b
	})
	return huge.b
}

var limits = []int{0, 1, 127, 128, 255, 256, 16383, 16384, 65534, 65535, 65536, 65537, 65663, 65664, 131071, 131072, 1<<21 - 1, 1 << 21, 1<<24 + 3, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 65535, 1 << 40, 1<<48 + 7, math.MaxInt64, -1, -2, -128, -65536, math.MinInt32, math.MinInt64}

func drawLimit(k *core.Case) int {
	switch k.N(4) {
	case 0:
		return limits[k.N(len(limits))] + k.N(5) - 2
	case 1:
		return int(k.Edge())
	case 2:
		return k.N(1 << 17)
	}
	return limits[k.N(len(limits))]
}

func init() {
	reg(&core.Prop{ID: "C33", Rule: "Lengths and numbers around and beyond every representable limit go through every path that has to squeeze them: length writers, collections, strings, byte slices (4 GiB of untouched address space), narrow varint readers and JSON numbers. Each must be exact or refused. Distinct by (path, number).",
		Need: map[string]int64{"refused": 8000, "exact": 8000, "giant_collections": 12, "long_collections": 200}, Run: func(c *core.Ctx) {
			// length writers
			c.Run("lengths", c.Scaled(40000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				n := drawLimit(k)
				var want []byte
				ok := false
				name := ""
				var got []byte
				var err error
				w := &sink{}
				enc := newEncoder(e, w)
				switch k.N(4) {
				case 0, 1:
					if e == tm.Bin && n < 0 {
						return // written as the two's complement pattern, and not claimed
					}
					name = "WriteLength"
					want, ok = prefix(e, n)
					if e == tm.Borsh && (n < 0 || n > math.MaxUint32) {
						ok = false
					}
					err = enc.WriteLength(n)
					got = w.b
				case 2:
					name = "WriteCompactU16"
					want = compact16(n)
					ok = want != nil
					if k.P(50) {
						err = enc.WriteCompactU16(n)
					} else {
						err = enc.WriteCompactU16Length(n)
					}
					got = w.b
				case 3:
					name = "EncodeCompactU16Length"
					want = compact16(n)
					ok = want != nil
					err = bin.EncodeCompactU16Length(&got, n)
				}
				k.Eval(1)
				k.Detail(map[string]interface{}{"encoding": e.String(), "call": name, "n": n, "wrote": core.Hex(got)})
				k.Seen(name, int(e), uint64(n))
				if !ok {
					k.Count("refused", 1)
					if err == nil {
						k.Fail("%s accepted %d, which %s cannot express", name, n, e)
					}
					return
				}
				k.Count("exact", 1)
				if err != nil {
					k.Fail("%s refused %d: %v", name, n, err)
				}
				if !bytes.Equal(got, want) {
					k.Fail("%s wrote %x for %d, want %x", name, got, n, want)
				}
			})
			// narrow varint readers
			c.Run("varints", c.Scaled(40000), func(k *core.Case) {
				x := k.Edge()
				if k.P(40) {
					x = uint64(limits[k.N(len(limits))]) + uint64(k.N(3)) - 1
				}
				d := newDecoder(tm.Encs[k.N(3)], nil)
				var got, want interface{}
				var err error
				ok := false
				zz := tm.ZigZag(int64(x))
				name := ""
				rd := func(b []byte) *bin.Decoder { d.Reset(append(b, k.Bytes(k.N(3))...)); return d }
				switch k.N(8) {
				case 0:
					name = "ReadUvarint16"
					got, err = rd(uvarint(x)).ReadUvarint16()
					want, ok = uint16(x), x <= math.MaxUint16
				case 1:
					name = "ReadUvarint32"
					got, err = rd(uvarint(x)).ReadUvarint32()
					want, ok = uint32(x), x <= math.MaxUint32
				case 2:
					name = "ReadVarint16"
					got, err = rd(uvarint(zz)).ReadVarint16()
					want, ok = int16(x), int64(int16(x)) == int64(x)
				case 3:
					name = "ReadVarint32"
					got, err = rd(uvarint(zz)).ReadVarint32()
					want, ok = int32(x), int64(int32(x)) == int64(x)
				case 4:
					name = "Varuint16"
					var v bin.Varuint16
					err = rd(uvarint(x)).Decode(&v)
					got, want, ok = uint16(v), uint16(x), x <= math.MaxUint16
				case 5:
					name = "Varuint32"
					var v bin.Varuint32
					err = rd(uvarint(x)).Decode(&v)
					got, want, ok = uint32(v), uint32(x), x <= math.MaxUint32
				case 6:
					name = "Varint16"
					var v struct{ A []bin.Varint16 }
					b, _ := prefix(tm.Bin, 1)
					err = bin.UnmarshalBin(&v, append(b, uvarint(zz)...))
					if err == nil {
						got = int16(v.A[0])
					}
					want, ok = int16(x), int64(int16(x)) == int64(x)
				case 7:
					name = "Varint32"
					var v bin.Varint32
					err = rd(uvarint(zz)).Decode(&v)
					got, want, ok = int32(v), int32(x), int64(int32(x)) == int64(x)
				}
				k.Eval(1)
				k.Seen(name, x)
				k.Detail(map[string]interface{}{"call": name, "number": fmt.Sprint(x), "signed": fmt.Sprint(int64(x))})
				if !ok {
					k.Count("refused", 1)
					if err == nil {
						k.Fail("%s gave %v for a number that does not fit", name, got)
					}
					return
				}
				k.Count("exact", 1)
				if err != nil {
					k.Fail("%s refused a number that fits: %v", name, err)
				}
				if got != want {
					k.Fail("%s gave %v, want %v", name, got, want)
				}
			})
			// length readers: a declared length is used as it is or refused, never wrapped
			c.Run("readlengths", c.Scaled(40000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				pay := k.Bytes(64 + k.N(64))
				small := uint64(k.N(64))
				n := small
				if k.P(75) {
					n += []uint64{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1<<32 + 1<<31, 1 << 33, 1 << 40, 1 << 48, 1 << 62, 1 << 63, 1<<64 - 64}[k.N(14)]
				}
				var pre []byte
				name := ""
				kind := k.N(9)
				if kind == 3 || kind == 4 && e == tm.Bin {
					x := tm.W{}
					x.Fixed(n, 8, false)
					pre = x.B
				} else {
					switch e {
					case tm.Bin:
						pre = uvarint(n)
					case tm.Borsh:
						if n > math.MaxUint32 {
							return
						}
						x := tm.W{}
						x.Fixed(n, 4, false)
						pre = x.B
					default:
						if pre = compact16(int(n)); n > math.MaxUint16 || pre == nil {
							return
						}
					}
				}
				data := append(append([]byte(nil), pre...), pay...)
				d := newDecoder(e, data)
				var err error
				got, want := []byte(nil), pay[:small]
				elem := 1
				switch kind {
				case 0:
					name = "ReadLength"
					var x int
					x, err = d.ReadLength()
					if err == nil && (x < 0 || uint64(x) != n) {
						k.Fail("ReadLength gives %d for the length %d", x, n)
					}
					k.Eval(1)
					k.Seen(name, int(e), n)
					if err != nil {
						if n < 1<<15 {
							k.Fail("ReadLength refused the length %d: %v", n, err)
						}
						k.Count("refused", 1)
					} else {
						k.Count("exact", 1)
					}
					return
				case 1:
					name = "ReadByteSlice"
					got, err = d.ReadByteSlice()
				case 2:
					name = "ReadString"
					var x string
					x, err = d.ReadString()
					got = []byte(x)
				case 3:
					name = "ReadRustString"
					var x string
					x, err = d.ReadRustString()
					got = []byte(x)
				case 4:
					name = "string"
					var x struct{ S string }
					err = d.Decode(&x)
					got = []byte(x.S)
				case 5:
					name = "[]byte"
					err = d.Decode(&got)
				case 6:
					name = "[]uint16"
					elem = 2
					var x []uint16
					err = d.Decode(&x)
					for _, y := range x {
						got = append(got, byte(y), byte(y>>8))
					}
				case 7:
					name = "[]int8"
					var x []int8
					err = d.Decode(&x)
					for _, y := range x {
						got = append(got, byte(y))
					}
				case 8:
					name = "SafeReadUTF8String"
					for i := range pay {
						pay[i] &= 0x7f
					}
					d.Reset(append(append([]byte(nil), pre...), pay...))
					var x string
					x, err = d.SafeReadUTF8String()
					got = []byte(x)
				}
				k.Eval(1)
				k.Detail(map[string]interface{}{"encoding": e.String(), "call": name, "length": fmt.Sprint(n), "bytes_there": len(pay)})
				k.Seen(name, int(e), n)
				if n > uint64(len(pay)/elem) {
					k.Count("refused", 1)
					if err == nil {
						k.Fail("%s accepted the length %d with %d bytes there, and gave %d bytes", name, n, len(pay), len(got))
					}
					return
				}
				k.Count("exact", 1)
				if want = pay[:int(n)*elem]; err != nil || !bytes.Equal(got, want) {
					k.Fail("%s of length %d gave %x, %v; want %x", name, n, got, err, want)
				}
			})
			// numbers in JSON
			c.Run("json", c.Scaled(20000), func(k *core.Case) {
				x := new(mbig.Int).SetUint64(k.Edge())
				if k.P(60) {
					x.Lsh(x, uint(k.N(70)))
					x.Add(x, mbig.NewInt(int64(k.N(5)-2)))
				}
				if k.P(20) {
					x = new(mbig.Int).Lsh(mbig.NewInt(1), []uint{15, 16, 31, 32, 63, 64, 127, 128, 129, 200}[k.N(10)])
					x.Add(x, mbig.NewInt(int64(k.N(5)-2)))
				}
				neg := k.P(35)
				if neg {
					x.Neg(x)
				}
				text := x.String()
				quoted := `"` + text + `"`
				kind := k.N(6)
				var err error
				var got string
				ok := false
				name := ""
				doc := quoted
				switch kind {
				case 0, 1:
					name = "Int64"
					var v bin.Int64
					if kind == 1 {
						doc = text
					}
					err = json.Unmarshal([]byte(doc), &v)
					got, ok = fmt.Sprint(int64(v)), x.IsInt64()
				case 2, 3:
					name = "Uint64"
					var v bin.Uint64
					if kind == 3 {
						doc = text
					}
					err = json.Unmarshal([]byte(doc), &v)
					got, ok = fmt.Sprint(uint64(v)), x.IsUint64()
				case 4:
					name = "Uint128"
					var v bin.Uint128
					err = json.Unmarshal([]byte(doc), &v)
					got, ok = v.DecimalString(), x.Sign() >= 0 && x.BitLen() <= 128
				case 5:
					name = "Int128"
					var v bin.Int128
					err = json.Unmarshal([]byte(doc), &v)
					got = v.DecimalString()
					lo := new(mbig.Int).Neg(new(mbig.Int).Lsh(mbig.NewInt(1), 127))
					ok = x.Cmp(lo) >= 0 && x.Cmp(new(mbig.Int).Neg(lo)) < 0
					if !ok && x.Sign() > 0 && x.BitLen() <= 128 {
						return // the unsigned reading of the bit pattern is not judged here
					}
					if ok && x.Sign() < 0 && err != nil {
						ok = false // the JSON form is the unsigned pattern: a sign may be refused
					}
				}
				k.Eval(1)
				k.Seen("json", name, doc)
				k.Detail(map[string]interface{}{"type": name, "json": doc, "got": got})
				if !ok {
					k.Count("refused", 1)
					if err == nil {
						k.Fail("%s took %s from JSON as %s", name, text, got)
					}
					return
				}
				k.Count("exact", 1)
				if err != nil {
					k.Fail("%s refused %s from JSON: %v", name, text, err)
				}
				if got != text {
					k.Fail("%s took %s from JSON as %s", name, text, got)
				}
			})
			// collections that are too long for a two-byte prefix, anywhere
			elems := []reflect.Type{reflect.TypeOf([]uint8{}), reflect.TypeOf([]uint16{}), reflect.TypeOf([]uint32{}), reflect.TypeOf([]uint64{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]int8{}),
				reflect.TypeOf([]string{}), reflect.TypeOf(bin.HexBytes{}), reflect.TypeOf(bin.SafeString("")), reflect.TypeOf(""), reflect.TypeOf(map[uint32]uint8{}), reflect.TypeOf(map[uint32]string{}),
				reflect.TypeOf([]st.CKind{}), reflect.TypeOf([]struct{ A uint8 }{}), reflect.TypeOf(st.NamedStrs{}), reflect.TypeOf([]bin.Varuint16{}), reflect.TypeOf([][2]uint8{}), reflect.TypeOf([]*uint8{})}
			sizes := []int{65534, 65535, 65536, 65537, 65664, 131072, 131073}
			c.Run("collections", c.Scaled(len(elems)*24), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				if k.P(75) {
					e = tm.Compact
				}
				rt := elems[k.I%len(elems)]
				n := sizes[k.N(len(sizes))]
				v := reflect.New(rt).Elem()
				switch rt.Kind() {
				case reflect.String:
					v.SetString(string(bytes.Repeat([]byte("a"), n)))
				case reflect.Slice:
					v.Set(reflect.MakeSlice(rt, n, n))
					if rt.Elem().Kind() == reflect.Ptr {
						one := reflect.ValueOf(new(uint8))
						for i := 0; i < n; i++ {
							v.Index(i).Set(one)
						}
					}
				case reflect.Map:
					v.Set(reflect.MakeMapWithSize(rt, n))
					z := reflect.Zero(rt.Elem())
					for i := 0; i < n; i++ {
						v.SetMapIndex(reflect.ValueOf(uint32(i)), z)
					}
				}
				// where it sits
				u8 := reflect.TypeOf(uint8(0))
				wrap := k.N(6)
				var h reflect.Value
				mk := func(fs ...reflect.StructField) reflect.Value {
					for i := range fs {
						fs[i].Name = fmt.Sprintf("F%d", i)
					}
					return reflect.New(reflect.StructOf(fs)).Elem()
				}
				switch wrap {
				case 0:
					h = v
				case 1:
					h = mk(reflect.StructField{Type: u8}, reflect.StructField{Type: rt}, reflect.StructField{Type: u8})
					h.Field(1).Set(v)
				case 2:
					h = mk(reflect.StructField{Type: rt, Tag: `bin:"optional"`}, reflect.StructField{Type: u8})
					h.Field(0).Set(v)
				case 3:
					h = reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
					h.Index(1).Set(v)
				case 4:
					h = mk(reflect.StructField{Type: rt, Tag: `bin:"big"`}, reflect.StructField{Type: u8})
					h.Field(0).Set(v)
				case 5:
					h = reflect.MakeMap(reflect.MapOf(u8, rt))
					h.SetMapIndex(reflect.ValueOf(uint8(3)), v)
				}
				t := tm.Of(h.Type())
				w, werr := tm.Encode(t, e, h)
				out, err := encodeVia(k, e, h.Interface())
				k.Eval(1)
				k.Count("long_collections", 1)
				k.Seen("coll", int(e), rt.String(), n, wrap)
				k.Detail(map[string]interface{}{"encoding": e.String(), "type": h.Type().String(), "length": n})
				if werr != nil {
					k.Count("refused", 1)
					if err == nil {
						k.Fail("a %s of length %d was encoded (%d bytes), although its length has no encoding", rt, n, len(out))
					}
					if cn, cerr := byteCount(e, h.Interface()); cerr == nil {
						k.Fail("a %s of length %d was counted as %d bytes, although its length has no encoding", rt, n, cn)
					}
					return
				}
				k.Count("exact", 1)
				if err != nil {
					k.Fail("a %s of length %d was refused: %v", rt, n, err)
				}
				if len(out) != len(w.B) {
					k.Fail("a %s of length %d became %d bytes, want %d", rt, n, len(out), len(w.B))
				}
				if (e == tm.Borsh || !multiMap(t, h)) && !bytes.Equal(out, w.B) {
					k.Fail("a %s of length %d was encoded differently at offset %d", rt, n, firstDiff(out, w.B))
				}
				if p, ok := prefix(e, n); wrap == 0 && ok && rt.Kind() != reflect.String && !bytes.HasPrefix(out, p) {
					k.Fail("a %s of length %d does not begin with its length %x: %s", rt, n, p, core.Hex(out[:len(p)]))
				}
				if k.P(30) {
					ptr := reflect.New(h.Type())
					if err := unmarshal(e, ptr.Interface(), out); err != nil {
						k.Fail("the encoding of a %s of length %d does not decode: %v", rt, n, err)
					}
					if d := tm.Diff(t, e, h, ptr.Elem()); d != "" {
						k.Fail("a %s of length %d came back different: %s", rt, n, d)
					}
					k.Count("decoded_back", 1)
				}
			})
			// four billion elements: nothing is touched when the length is refused
			c.RunN("giants", 12, 1, func(k *core.Case) {
				w := &tally{}
				enc := bin.NewBorshEncoder(w)
				n := 1<<32 + k.N(2)*3
				var err error
				name := ""
				switch k.I % 6 {
				case 0:
					name = "[]struct{}"
					err = enc.Encode(make([]struct{}, n))
				case 1:
					name = "field []struct{}"
					err = enc.Encode(struct {
						A uint8
						S []struct{}
					}{1, make([]struct{}, n)})
				case 2:
					name = "[]byte"
					err = enc.Encode(hugeBytes()[:n])
				case 3:
					name = "WriteBytes"
					err = enc.WriteBytes(hugeBytes()[:n], true)
				case 4:
					name = "HexBytes"
					err = enc.Encode(bin.HexBytes(hugeBytes()[:n]))
				case 5:
					name = "count of []struct{}"
					_, err = bin.BorshByteCount(make([]struct{}, n))
				}
				k.Eval(1)
				k.Count("giant_collections", 1)
				k.Count("refused", 1)
				k.Seen("giant", name, n)
				k.Detail(map[string]interface{}{"what": name, "length": n, "written": w.n})
				if err == nil {
					k.Fail("a Borsh %s of %d elements was encoded, although its length has no encoding", name, n)
				}
			})
		}})

	reg(&core.Prop{ID: "C34", Rule: "Every kind of invalid target is handed to every decoding entry point, and every kind of unsupported type is placed at every kind of position and encoded and decoded where it is reached; each must give an error. Hidden fields of those types must not matter. Distinct by (encoding, place, type).",
		Need: map[string]int64{"invalid_targets": 4000, "unsupported_encoded": 4000, "unsupported_decoded": 4000, "hidden_unsupported": 400, "unorderable_keys": 400, "mixed_keys": 400, "endless_values": 30}, Run: func(c *core.Ctx) {
			c.Run("targets", c.Scaled(6000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				g.C.BigLens, g.C.BigMax = k.P(5), 300
				var rt reflect.Type
				switch k.N(4) {
				case 0:
					sts := tm.StaticTypes()
					rt = sts[k.N(len(sts))]
				case 1:
					rt = tm.LibList[k.N(len(tm.LibList))].RT
				default:
					rt = g.Top()
				}
				t := tm.Of(rt)
				var x interface{}
				how := ""
				switch k.N(4) {
				case 0:
					x, how = nil, "nil"
				case 1:
					x, how = reflect.Zero(reflect.PtrTo(rt)).Interface(), "a nil *T"
				case 2:
					if rt.Kind() == reflect.Ptr {
						return
					}
					x, how = g.Value(t).Interface(), "a T"
				case 3:
					x = []interface{}{3, "s", map[string]int{}, []byte{1}, make(chan int), func() {}, 1.5, struct{ A int }{}, error(nil), (*int)(nil), (*interface{})(nil), (*bin.Uint128)(nil), (**uint8)(nil), (*st.CMagic)(nil)}[k.N(14)]
					how = fmt.Sprintf("%T", x)
				}
				data := k.Bytes(k.N(20))
				k.Detail(map[string]interface{}{"encoding": e.String(), "target": how, "type": typeStr(t)})
				var err error
				if k.P(40) {
					err = unmarshal(e, x, data)
				} else {
					d := newDecoder(e, data)
					at := k.N(len(data) + 1)
					d.SkipBytes(uint(at))
					err = d.Decode(x)
					if int(d.Position()) != at {
						k.Fail("decoding into %s moved the decoder from %d to %d", how, at, d.Position())
					}
				}
				k.Eval(1)
				k.Count("invalid_targets", 1)
				k.Seen(int(e), how, typeStr(t))
				if err == nil {
					k.Fail("decoding into %s reported success", how)
				}
				var ide *bin.InvalidDecoderError
				if !errors.As(err, &ide) {
					k.Fail("decoding into %s gives %T (%v) instead of the invalid-target error", how, err, err)
				}
				if ide.Error() == "" {
					k.Fail("the invalid-target error says nothing")
				}
			})
			ch := make(chan int)
			bads := []reflect.Value{reflect.ValueOf(int(5)), reflect.ValueOf(uint(5)), reflect.ValueOf(ch), reflect.ValueOf(func() {}), reflect.ValueOf(complex64(1)), reflect.ValueOf(complex128(1)),
				reflect.ValueOf(uintptr(1)), reflect.ValueOf(unsafe.Pointer(&ch)), reflect.ValueOf(st.PlainInt(3)), reflect.ValueOf(st.PlainUint(3))}
			good := reflect.ValueOf(uint8(5))
			// place builds the same surroundings for a bad and for a good value
			place := func(e tm.Enc, shape int, x reflect.Value) (reflect.Value, bool) {
				rt := x.Type()
				u8 := reflect.TypeOf(uint8(0))
				mk := func(fs ...reflect.StructField) reflect.Value {
					for i := range fs {
						if fs[i].Name == "" {
							fs[i].Name = fmt.Sprintf("F%d", i)
						}
					}
					return reflect.New(reflect.StructOf(fs)).Elem()
				}
				p := reflect.New(rt)
				p.Elem().Set(x)
				switch shape {
				case 0:
					return x, true
				case 1:
					h := reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
					h.Index(0).Set(x)
					h.Index(1).Set(x)
					if rt == u8 { // keep the good twin out of the packed path
						return h, true
					}
					return h, true
				case 2:
					h := reflect.New(reflect.ArrayOf(2, rt)).Elem()
					h.Index(0).Set(x)
					h.Index(1).Set(x)
					return h, true
				case 3:
					h := reflect.MakeMap(reflect.MapOf(u8, rt))
					h.SetMapIndex(reflect.ValueOf(uint8(1)), x)
					return h, true
				case 4:
					if !rt.Comparable() {
						return x, false
					}
					h := reflect.MakeMap(reflect.MapOf(rt, u8))
					h.SetMapIndex(x, reflect.ValueOf(uint8(1)))
					return h, true
				case 5:
					h := mk(reflect.StructField{Type: u8}, reflect.StructField{Type: rt}, reflect.StructField{Type: u8})
					h.Field(1).Set(x)
					return h, true
				case 6:
					h := mk(reflect.StructField{Type: reflect.PtrTo(rt)}, reflect.StructField{Type: u8})
					h.Field(0).Set(p)
					return h, true
				case 7:
					h := mk(reflect.StructField{Type: rt, Tag: `bin:"optional"`}, reflect.StructField{Type: u8})
					h.Field(0).Set(x)
					return h, true
				case 8:
					h := mk(reflect.StructField{Type: reflect.PtrTo(rt), Tag: `bin:"optional"`}, reflect.StructField{Type: u8})
					h.Field(0).Set(p)
					return h, true
				case 9:
					if e != tm.Borsh {
						return x, false
					}
					h := mk(reflect.StructField{Type: tm.EnumTagType(), Tag: `borsh_enum:"true"`}, reflect.StructField{Type: u8}, reflect.StructField{Type: rt})
					h.Field(0).SetUint(1)
					h.Field(2).Set(x)
					return h, true
				case 10:
					h := mk(reflect.StructField{Type: u8}, reflect.StructField{Type: rt, Tag: `bin:"binary_extension"`})
					h.Field(1).Set(x)
					return h, true
				case 11:
					h := mk(reflect.StructField{Type: rt, Tag: `bin:"big"`})
					h.Field(0).Set(x)
					return h, true
				case 12:
					h := mk(reflect.StructField{Type: u8, Name: "N", Tag: `bin:"sizeof=S"`}, reflect.StructField{Type: reflect.SliceOf(rt), Name: "S"})
					h.Field(0).SetUint(1)
					h.Field(1).Set(reflect.Append(h.Field(1), x))
					return h, true
				case 13:
					h := mk(reflect.StructField{Type: rt, Tag: `bin:"coption"`}, reflect.StructField{Type: u8})
					h.Field(0).Set(x)
					return h, true
				}
				return x, false
			}
			const shapes = 14
			c.Run("unsupported", c.Scaled(9000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				b := bads[k.N(len(bads))]
				s := k.I % shapes
				v, ok := place(e, s, b)
				if !ok {
					return
				}
				gv, _ := place(e, s, good)
				what := fmt.Sprintf("%s at place %d", b.Type(), s)
				if k.P(50) {
					s2 := k.N(shapes)
					if s2 == 4 && !v.Type().Comparable() || s2 == 7 || s2 == 8 || s2 == 13 || s2 == 9 && e != tm.Borsh || v.Kind() == reflect.Map && s2 == 6 {
						s2 = 5
					}
					v, _ = place(e, s2, v)
					gv, _ = place(e, s2, gv)
					what += fmt.Sprintf(" in place %d", s2)
				}
				k.Detail(map[string]interface{}{"encoding": e.String(), "what": what, "type": fmt.Sprint(v.Type())})
				k.Seen(int(e), what)
				pv := reflect.New(v.Type())
				pv.Elem().Set(v)
				arg := v.Interface()
				if k.P(50) {
					arg = pv.Interface()
				}
				var err error
				var out []byte
				if pan, stk := core.Try(func() { out, err = encodeVia(k, e, arg) }); pan != nil {
					_ = stk
					k.Fail("encoding %s panicked: %v", what, pan)
				}
				k.Eval(1)
				k.Count("unsupported_encoded", 1)
				if err == nil {
					k.Fail("encoding %s reported success (%x)", what, out)
				}
				if _, err := byteCount(e, arg); err == nil {
					k.Fail("counting %s reported success", what)
				}
				// input that reaches it: the encoding of the same shape around a byte
				w, werr := tm.Encode(tm.Of(gv.Type()), e, gv)
				if werr != nil {
					return
				}
				data := append(append([]byte(nil), w.B...), k.Bytes(40)...)
				target := reflect.New(v.Type())
				if pan, _ := core.Try(func() { _, err = decodeVia(k, e, data, target.Interface()) }); pan != nil {
					k.Fail("decoding into %s panicked: %v", what, pan)
				}
				k.Eval(1)
				k.Count("unsupported_decoded", 1)
				if err == nil {
					k.Fail("decoding into %s reported success", what)
				}
				// any other input: never a panic
				for j := 0; j < 3; j++ {
					in, _ := mutate(k, w.B, w.Marks, e)
					t := reflect.New(v.Type())
					if pan, _ := core.Try(func() { newDecoder(e, in).Decode(t.Interface()) }); pan != nil {
						k.Detail(map[string]interface{}{"encoding": e.String(), "what": what, "type": fmt.Sprint(v.Type()), "data": core.Hex(in)})
						k.Fail("decoding into %s panicked: %v", what, pan)
					}
				}
			})
			c.Run("hidden", c.Scaled(900), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				x := st.HiddenBad{A: uint16(k.U64()), C: ch, F: func() {}, I: 4, U: 7, B: uint32(k.U64())}
				want := append(fixed(uint64(x.A), 2, false), fixed(uint64(x.B), 4, false)...)
				k.Detail(map[string]interface{}{"encoding": e.String(), "value": fmt.Sprintf("%+v", x)})
				out, err := encodeVia(k, e, x)
				k.Eval(2)
				k.Count("hidden_unsupported", 1)
				if err != nil {
					k.Fail("a struct whose unsupported fields are all hidden was refused: %v", err)
				}
				if !bytes.Equal(out, want) {
					k.Count("foreign", 1)
				}
				var y st.HiddenBad
				if err := newDecoder(e, want).Decode(&y); err != nil {
					k.Fail("decoding a struct whose unsupported fields are all hidden failed: %v", err)
				}
				if y.C != nil || y.F != nil || y.I != 0 {
					k.Fail("hidden fields were filled in")
				}
			})
			keys := []reflect.Type{reflect.TypeOf(false), reflect.TypeOf([2]uint8{}), reflect.TypeOf(struct{ A uint8 }{}), reflect.TypeOf([4]bool{}), reflect.TypeOf(st.Key32{}), reflect.TypeOf(bin.Bool(false)), reflect.TypeOf(st.NBool(false))}
			c.Run("keys", c.Scaled(1000), func(k *core.Case) {
				rt := keys[k.N(len(keys))]
				m := reflect.MakeMap(reflect.MapOf(rt, reflect.TypeOf(uint8(0))))
				g := tm.NewGen(k.Rng, tm.Full(tm.Bin))
				for try := 0; m.Len() < 2 && try < 99; try++ {
					m.SetMapIndex(g.Value(tm.Of(rt)), reflect.ValueOf(uint8(1)))
				}
				if m.Len() < 2 {
					return
				}
				h := m
				if k.P(60) {
					h = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf("")}, {Name: "M", Type: m.Type()}})).Elem()
					h.Field(1).Set(m)
				}
				k.Detail(map[string]interface{}{"type": h.Type().String(), "entries": m.Len()})
				k.Seen("key", rt.String(), h.Kind().String(), m.Len())
				var err error
				if pan, _ := core.Try(func() { _, err = encodeVia(k, tm.Borsh, h.Interface()) }); pan != nil {
					k.Fail("encoding a map with keys of type %s panicked: %v", rt, pan)
				}
				k.Eval(1)
				k.Count("unorderable_keys", 1)
				if err == nil {
					// an order was found after all: then it must be one
					k.Count("keys_ordered", 1)
					oneOrder(k, h)
				}
			})
			pool := []interface{}{nil, true, false, int8(-3), int16(-3), int32(7), int64(1 << 40), uint8(3), uint16(9), uint32(1), uint64(2), float32(1.5), float64(-2), "", "a", "key", [2]uint8{1, 2}, struct{ A uint8 }{4}, st.NStr("x"), st.NBool(true), complex(1, 2), int(4), uint(5), uintptr(9)}
			c.Run("mixed_keys", c.Scaled(3000), func(k *core.Case) {
				m := map[interface{}]uint8{}
				for i, n := 0, 2+k.N(5); i < n; i++ {
					m[pool[k.N(len(pool))]] = uint8(i)
				}
				class := map[string]bool{}
				bad := false
				for x := range m {
					c := "none"
					switch reflect.ValueOf(x).Kind() {
					case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
						c = "int"
					case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
						c = "uint"
					case reflect.Float32, reflect.Float64:
						c = "float"
					case reflect.String:
						c = "string"
					default:
						bad = true
					}
					class[c] = true
				}
				if len(m) < 2 || !bad && len(class) == 1 {
					return // they can be ordered
				}
				h := reflect.ValueOf(m)
				if k.P(60) {
					h = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf("")}, {Name: "M", Type: h.Type()}})).Elem()
					h.Field(1).Set(reflect.ValueOf(m))
				}
				k.Detail(map[string]interface{}{"type": h.Type().String(), "keys": fmt.Sprintf("%#v", m)})
				k.Seen("mixed", fmt.Sprint(m), h.Kind().String())
				var err error
				if pan, _ := core.Try(func() { _, err = encodeVia(k, tm.Borsh, h.Interface()) }); pan != nil {
					k.Fail("encoding a map with keys of different kinds panicked: %v", pan)
				}
				k.Eval(1)
				k.Count("mixed_keys", 1)
				if err == nil {
					oneOrder(k, h)
				}
			})
			cycles(c)
		}})
}

// oneOrder encodes a value with a map again and again, rebuilding the map.
func oneOrder(k *core.Case, h reflect.Value) {
	m := h
	if h.Kind() == reflect.Struct {
		m = h.Field(1)
	}
	var first []byte
	for i := 0; i < 24; i++ {
		if i > 0 {
			m2 := reflect.MakeMapWithSize(m.Type(), i)
			for _, key := range m.MapKeys() {
				m2.SetMapIndex(key, m.MapIndex(key))
			}
			m = m2
			if h.Kind() == reflect.Struct {
				h.Field(1).Set(m)
			} else {
				h = m
			}
		}
		b, err := bin.MarshalBorsh(h.Interface())
		if err != nil {
			k.Fail("encoding the same map failed on repetition %d: %v", i, err)
		}
		if i == 0 {
			first = b
		} else if !bytes.Equal(first, b) {
			k.Fail("keys without an order were encoded, in a different order each time")
		}
	}
}
