package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

var variantImpls = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(""), reflect.TypeOf(int32(0)), reflect.TypeOf(false),
	reflect.TypeOf(st.Base{}), reflect.TypeOf(st.Embeds{}), reflect.TypeOf(st.Account{}), reflect.TypeOf(st.Counted{}), reflect.TypeOf(st.OptMix{}),
	reflect.TypeOf(st.Ordered{}), reflect.TypeOf(st.Key32{}), reflect.TypeOf(st.List{}), reflect.TypeOf(st.CMagic{}), reflect.TypeOf(st.CNest{}),
	reflect.TypeOf(bin.Uint128{}), reflect.TypeOf(bin.HexBytes{}), reflect.TypeOf([]uint16{}), reflect.TypeOf(st.NamedStrs{}), reflect.TypeOf(bin.Varuint32(0)),
	reflect.TypeOf(struct{}{}), reflect.TypeOf(st.NU16(0)), reflect.TypeOf([4]int16{}), reflect.TypeOf(st.ExtTail{}),
}

var idEncodings = []bin.TypeIDEncoding{bin.Uvarint32TypeIDEncoding, bin.Uint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.AnchorTypeIDEncoding, bin.NoTypeIDEncoding}
var idNames = []string{"uvarint32", "uint32", "uint8", "anchor", "none"}

// wireID is the documented prefix of the i-th variant.
func wireID(enc int, i int, name string) []byte {
	switch enc {
	case 0:
		return uvarint(uint64(i))
	case 1:
		return fixed(uint64(i), 4, false)
	case 2:
		return []byte{byte(i)}
	case 3:
		s := sha256.Sum256([]byte("global:" + name))
		return s[:8]
	}
	return nil
}

func pad8(b []byte) (id bin.TypeID) { copy(id[:], b); return }

// holder embeds a variant the way programs do.
type variantBox struct {
	bin.BaseVariant
	def *bin.VariantDefinition
	enc int
}

func (b *variantBox) UnmarshalWithDecoder(d *bin.Decoder) error {
	return b.BaseVariant.UnmarshalBinaryVariant(d, b.def)
}

func init() {
	reg(&core.Prop{ID: "C18", Rule: "Variant definitions with 1 to 300 entries of mixed value and pointer types are drawn under each of the five type-ID encodings; streams of variants are written from the documented prefixes and the library's own encodings of the payloads; distinct by (definition, stream).",
		Need: map[string]int64{"variants_decoded": 20000, "unknown_ids_refused": 5000, "truncations_refused": 2000, "pointer_impls": 2000, "value_impls": 2000, "swept": 100000}, Run: func(c *core.Ctx) {
			c.Run("streams", c.Scaled(9000), func(k *core.Case) {
				idEnc := k.I % 5
				n := 1 + k.N(8)
				if k.P(12) {
					n = []int{127, 128, 129, 255, 256, 300}[k.N(6)]
				}
				if idEnc == 2 && n > 256 {
					n = 256
				}
				if idEnc == 4 {
					n = 1
				}
				var defs []bin.VariantType
				var types []reflect.Type
				var ptrs []bool
				names := map[string]bool{}
				for i := 0; i < n; i++ {
					rt := variantImpls[k.N(len(variantImpls))]
					name := randName(k)
					for names[name] {
						name = fmt.Sprintf("%s%d", randName(k), i)
					}
					names[name] = true
					p := k.P(50)
					z := reflect.New(rt)
					if p {
						if k.P(40) {
							z = reflect.Zero(z.Type()) // a typed nil, as programs write it
						}
						defs = append(defs, bin.VariantType{Name: name, Type: z.Interface()})
					} else {
						defs = append(defs, bin.VariantType{Name: name, Type: z.Elem().Interface()})
					}
					types = append(types, rt)
					ptrs = append(ptrs, p)
				}
				given := append([]bin.VariantType(nil), defs...)
				def := bin.NewVariantDefinition(idEncodings[idEnc], given)
				// the list is the caller's again: a definition does not change after it is made
				for i := range given {
					given[i] = bin.VariantType{Name: fmt.Sprintf("reused %d", i), Type: (*st.Base)(nil)}
				}
				e := tm.Encs[k.N(3)]
				what := func(note string) {
					k.Detail(map[string]interface{}{"encoding": e.String(), "ids": idNames[idEnc], "entries": n, "note": note})
				}
				what("")
				// ids by name
				for i := range defs {
					want := pad8(wireID(idEnc, i, defs[i].Name))
					if got := def.TypeID(defs[i].Name); got != want {
						k.Fail("the id of entry %d (%q) is %x, want %x", i, defs[i].Name, got[:], want[:])
					}
					k.Eval(1)
				}
				unknown := "no such entry " + fmt.Sprint(k.U64())
				if pan, _ := core.Try(func() { def.TypeID(unknown) }); pan == nil {
					k.Fail("the id of the unknown name %q was given", unknown)
				}
				// a stream of variants
				g := tm.NewGen(k.Rng, tm.Full(e))
				g.C.BigLens, g.C.BigMax = k.P(5), 5000
				type item struct {
					i      int
					v      reflect.Value
					at, to int
				}
				var items []item
				data := k.Bytes(k.N(5))
				start := len(data)
				for j, m := 0, 1+k.N(6); j < m; j++ {
					i := k.N(n)
					if types[i] == reflect.TypeOf(st.ExtTail{}) && j < m-1 {
						continue
					}
					g.Left = 60
					v := g.Value(tm.Of(types[i]))
					b, err := marshal(e, v.Interface())
					if err != nil {
						continue
					}
					back := reflect.New(types[i])
					if unmarshal(e, back.Interface(), b) != nil || tm.Diff(tm.Of(types[i]), e, v, back.Elem()) != "" {
						k.Count("skipped_foreign_defect", 1)
						continue
					}
					at := len(data)
					data = append(append(data, wireID(idEnc, i, defs[i].Name)...), b...)
					items = append(items, item{i, v, at, len(data)})
				}
				if len(items) == 0 {
					return
				}
				k.Seen(idEnc, int(e), data[start:], n)
				d := newDecoder(e, data)
				if d.SkipBytes(uint(start)) != nil {
					return
				}
				reuse := &bin.BaseVariant{}
				var kept []*bin.BaseVariant
				for j, it := range items {
					var bv *bin.BaseVariant
					if k.P(40) {
						bv = reuse
					} else {
						bv = &bin.BaseVariant{}
						if k.P(30) {
							bv.Assign(pad8(k.Bytes(8)), "leftover")
						}
					}
					what(fmt.Sprintf("variant %d of %d at %d: entry %d, %s (pointer %v), stream %s", j, len(items), it.at, it.i, types[it.i], ptrs[it.i], core.Hex(data)))
					var err error
					if k.P(30) {
						box := &variantBox{def: def}
						err = d.Decode(box)
						*bv = box.BaseVariant
					} else {
						err = bv.UnmarshalBinaryVariant(d, def)
					}
					k.Eval(1)
					k.Count("variants_decoded", 1)
					if err != nil {
						k.Fail("decoding a variant failed: %v", err)
					}
					if int(d.Position()) != it.to {
						k.Fail("the cursor is at %d after the variant, want %d", d.Position(), it.to)
					}
					id, name, impl := bv.Obtain(def)
					if want := pad8(wireID(idEnc, it.i, defs[it.i].Name)); id != want || bv.TypeID != want {
						k.Fail("the variant has id %x, want %x", id[:], want[:])
					}
					if name != defs[it.i].Name {
						k.Fail("the variant is called %q, want %q", name, defs[it.i].Name)
					}
					wantT := types[it.i]
					if ptrs[it.i] {
						wantT = reflect.PtrTo(wantT)
						k.Count("pointer_impls", 1)
					} else {
						k.Count("value_impls", 1)
					}
					if reflect.TypeOf(impl) != wantT {
						k.Fail("the variant holds a %T, want a %s", impl, wantT)
					}
					iv := reflect.ValueOf(impl)
					if ptrs[it.i] {
						if iv.IsNil() {
							k.Fail("the variant holds a nil pointer")
						}
						iv = iv.Elem()
					}
					if df := tm.Diff(tm.Of(types[it.i]), e, it.v, iv); df != "" {
						k.Fail("the payload differs: %s", df)
					}
					cp := *bv
					kept = append(kept, &cp)
				}
				// earlier results stay what they were
				for j, it := range items {
					iv := reflect.Indirect(reflect.ValueOf(kept[j].Impl))
					if df := tm.Diff(tm.Of(types[it.i]), e, it.v, iv); df != "" {
						k.Fail("decoding a later variant changed variant %d: %s", j, df)
					}
				}
				// prefixes without an entry
				for j := 0; j < 3 && idEnc != 4; j++ {
					var id []byte
					switch idEnc {
					case 0:
						id = uvarint(uint64(n) + []uint64{0, 1, 127, 128, 1 << 20, 1<<32 - 400, 1 << 32, 1<<32 + 1, 1 << 35, 1<<64 - 1000}[k.N(10)])
					case 1:
						id = fixed(uint64(n)+[]uint64{0, 1, 255, 256, 65536 - uint64(n), 1<<24 - uint64(n), 1<<32 - 400}[k.N(7)], 4, k.P(0))
					case 2:
						if n == 256 {
							continue
						}
						id = []byte{byte(n + k.N(256-n))}
					case 3:
						id = append([]byte(nil), wireID(3, 0, defs[k.N(n)].Name)...)
						id[k.N(8)] ^= 1 << uint(k.N(8))
					}
					in := append(id, make([]byte, 64)...)
					what("unknown id " + core.Hex(id))
					bv := &bin.BaseVariant{}
					if err := bv.UnmarshalBinaryVariant(newDecoder(e, in), def); err == nil {
						k.Fail("a variant with the unknown id %x was decoded as %T", id, bv.Impl)
					}
					k.Eval(1)
					k.Count("unknown_ids_refused", 1)
				}
				// early end
				it := items[len(items)-1]
				if types[it.i] != reflect.TypeOf(st.ExtTail{}) && it.to > it.at {
					cutAt := it.at + k.N(it.to-it.at)
					what(fmt.Sprintf("stream ends at %d of %d", cutAt-it.at, it.to-it.at))
					bv := &bin.BaseVariant{}
					if err := bv.UnmarshalBinaryVariant(newDecoder(e, data[it.at:cutAt]), def); err == nil {
						if _, _, stt := tm.Decode(tm.Of(types[it.i]), e, data[it.at+len(wireID(idEnc, it.i, defs[it.i].Name)):cutAt]); stt != tm.OK {
							k.Fail("a variant cut short was decoded")
						}
					}
					k.Eval(1)
					k.Count("truncations_refused", 1)
				}
				// assign and obtain
				bv := &bin.BaseVariant{}
				i := k.N(n)
				x := g.Value(tm.Of(types[i])).Interface()
				bv.Assign(def.TypeID(defs[i].Name), &x)
				id, name, impl := bv.Obtain(def)
				if id != def.TypeID(defs[i].Name) || name != defs[i].Name || impl != interface{}(&x) {
					k.Fail("Obtain gives %x %q %p after Assign of entry %d", id[:], name, impl, i)
				}
				// the name is that of the id, whatever is assigned along with it
				j := k.N(n)
				y := reflect.New(types[j]).Interface()
				if k.P(30) {
					y = nil
				}
				bv.Assign(def.TypeID(defs[i].Name), y)
				if id, name, impl := bv.Obtain(def); id != def.TypeID(defs[i].Name) || name != defs[i].Name || impl != y {
					k.Fail("Obtain gives %x %q %T after Assign of the id of entry %d and a value of entry %d", id[:], name, impl, i, j)
				}
			})
			// every entry of definitions of every size, and the first id beyond
			c.Run("large", 6, func(k *core.Case) {
				idEnc := k.I % 2
				n := []int{16385, 65537, 70000}[k.I/2] + k.N(200)
				var defs []bin.VariantType
				for i := 0; i < n; i++ {
					z := []interface{}{uint16(0), (*st.Base)(nil), "", [3]uint8{}}[i%4]
					defs = append(defs, bin.VariantType{Name: fmt.Sprintf("entry%d", i), Type: z})
				}
				def := bin.NewVariantDefinition(idEncodings[idEnc], defs)
				at := []int{0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, n - 1}
				for j := 0; j < 300; j++ {
					i := k.N(n)
					if j < len(at) {
						i = at[j]
					}
					if i >= n {
						continue
					}
					e := tm.Encs[k.N(3)]
					k.Detail(map[string]interface{}{"encoding": e.String(), "ids": idNames[idEnc], "entries": n, "entry": i})
					k.Eval(1)
					k.Count("swept", 1)
					wire := wireID(idEnc, i, "")
					bv := &bin.BaseVariant{}
					d := newDecoder(e, append(append([]byte(nil), wire...), make([]byte, 64)...))
					if err := bv.UnmarshalBinaryVariant(d, def); err != nil {
						k.Fail("decoding entry %d of %d failed: %v", i, n, err)
					}
					if id, name, impl := bv.Obtain(def); id != pad8(wire) || name != defs[i].Name || def.TypeID(name) != id || reflect.TypeOf(impl) != reflect.TypeOf(defs[i].Type) {
						k.Fail("entry %d of %d comes back as %x %q %T", i, n, id[:], name, impl)
					}
				}
				for _, i := range []int{n, n + 1, n + 65536, n + 1<<24, math.MaxInt32} {
					bv := &bin.BaseVariant{}
					k.Eval(1)
					if err := bv.UnmarshalBinaryVariant(newDecoder(tm.Bin, append(wireID(idEnc, i, ""), make([]byte, 64)...)), def); err == nil {
						k.Fail("a variant with the unknown id %d of %d was decoded as %T", i, n, bv.Impl)
					}
				}
				k.Seen("large", idEnc, n)
			})
			c.Run("every", 3*320, func(k *core.Case) {
				idEnc, n := k.I%3, 1+k.I/3
				if idEnc == 2 && n > 256 {
					return
				}
				impls := []reflect.Type{reflect.TypeOf(uint16(0)), reflect.TypeOf(st.Base{}), reflect.TypeOf(""), reflect.TypeOf([3]uint8{})}
				var defs []bin.VariantType
				for i := 0; i < n; i++ {
					z := reflect.New(impls[i%4])
					if i/4%2 == 0 {
						z = z.Elem()
					}
					defs = append(defs, bin.VariantType{Name: fmt.Sprintf("entry%d", i), Type: z.Interface()})
				}
				def := bin.NewVariantDefinition(idEncodings[idEnc], defs)
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				for i := 0; i <= n; i++ {
					k.Detail(map[string]interface{}{"encoding": e.String(), "ids": idNames[idEnc], "entries": n, "entry": i})
					k.Eval(1)
					k.Count("swept", 1)
					bv := &bin.BaseVariant{}
					if i == n {
						if idEnc == 2 && n == 256 {
							break
						}
						if err := bv.UnmarshalBinaryVariant(newDecoder(e, append(wireID(idEnc, n, ""), make([]byte, 64)...)), def); err == nil {
							k.Fail("a variant with the unknown id %d was decoded as %T", n, bv.Impl)
						}
						break
					}
					t := tm.Of(impls[i%4])
					g.Left = 20
					v := g.Value(t)
					w, werr := tm.Encode(t, e, v)
					if werr != nil {
						continue
					}
					d := newDecoder(e, append(append(wireID(idEnc, i, defs[i].Name), w.B...), 1, 2, 3))
					if err := bv.UnmarshalBinaryVariant(d, def); err != nil {
						k.Fail("decoding entry %d of %d failed: %v", i, n, err)
					}
					id, name, impl := bv.Obtain(def)
					if want := pad8(wireID(idEnc, i, defs[i].Name)); id != want || name != defs[i].Name || def.TypeID(name) != want || reflect.TypeOf(impl) != reflect.TypeOf(defs[i].Type) {
						k.Fail("entry %d of %d comes back as %x %q %T", i, n, id[:], name, impl)
					}
					if df := tm.Diff(t, e, v, reflect.Indirect(reflect.ValueOf(impl))); df != "" || d.Remaining() != 3 {
						k.Fail("the payload of entry %d of %d differs (%d bytes left, want 3): %s", i, n, d.Remaining(), df)
					}
				}
				k.Seen("every", idEnc, n, int(e))
			})
			c.Run("ids", c.Scaled(12000), func(k *core.Case) {
				x := uint32(k.Edge())
				if k.I < 4096+len(sweepNumbers) {
					x = uint32(k.I)
					if k.I >= 4096 {
						x = uint32(sweepNumbers[k.I-4096])
					}
				}
				k.Detail(map[string]interface{}{"number": x})
				k.Eval(8)
				k.Seen("id", uint64(x))
				if id := bin.TypeIDFromUvarint32(x); id != pad8(uvarint(uint64(x))) || bin.Uvarint32FromTypeID(id) != x || id.Uvarint32() != x {
					k.Fail("uvarint type ID of %d is %x and reads back as %d", x, id[:], id.Uvarint32())
				}
				for b, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
					if id := bin.TypeIDFromUint32(x, o); id != pad8(fixed(uint64(x), 4, b == 1)) || bin.Uint32FromTypeID(id, o) != x || b == 0 && id.Uint32() != x {
						k.Fail("uint32 type ID of %d is %x and reads back as %d", x, id[:], bin.Uint32FromTypeID(id, o))
					}
				}
				if id := bin.TypeIDFromUint8(uint8(x)); id != pad8([]byte{byte(x)}) || bin.Uint8FromTypeID(id) != uint8(x) || id.Uint8() != uint8(x) {
					k.Fail("uint8 type ID of %d is %x and reads back as %d", uint8(x), id[:], id.Uint8())
				}
				raw := k.Bytes(k.N(9))
				id := bin.TypeIDFromBytes(raw)
				if id != pad8(raw) || bin.TypeIDFromSighash(raw) != id || !bytes.Equal(id.Bytes(), pad8(raw).Bytes()) {
					k.Fail("the type ID of %x is %x", raw, id[:])
				}
				if !id.Equal(id.Bytes()) || len(raw) == 8 && !id.Equal(raw) {
					k.Fail("type ID %x is not equal to its own bytes", id[:])
				}
				other := append([]byte(nil), id.Bytes()...)
				other[k.N(8)] ^= 1 << uint(k.N(8))
				if id.Equal(other) || id.Equal(other[:7]) || id.Equal(nil) {
					k.Fail("type ID %x is equal to other bytes", id[:])
				}
				if len(raw) > 0 {
					raw[0] ^= 0xff
					if id == pad8(raw) {
						k.Fail("the type ID shares memory with the bytes it was made from")
					}
				}
				id.Bytes()[0] ^= 1
				// a whole hash: its first eight bytes count (or it is refused loudly)
				long := k.Bytes(9 + k.N(40))
				for n, f := range []func([]byte) bin.TypeID{bin.TypeIDFromBytes, bin.TypeIDFromSighash} {
					if pan, _ := core.Try(func() { id = f(long) }); pan == nil && id != pad8(long[:8]) {
						k.Fail("the type ID (way %d) of the %d bytes %x is %x", n, len(long), long, id[:])
					}
				}
			})
			c.Run("bad-definitions", 20, func(k *core.Case) {
				k.Eval(2)
				two := []bin.VariantType{{Name: "a", Type: uint8(0)}, {Name: "b", Type: uint8(0)}}
				if pan, _ := core.Try(func() { bin.NewVariantDefinition(bin.NoTypeIDEncoding, two) }); pan == nil {
					k.Fail("a definition without ids but with two entries was accepted")
				}
				// ids that wrap around would select another entry than the one they were looked up for
				var many []bin.VariantType
				for i := 0; i < 257+k.I*13; i++ {
					many = append(many, bin.VariantType{Name: fmt.Sprintf("v%d", i), Type: uint8(0)})
				}
				if pan, _ := core.Try(func() { bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, many) }); pan == nil {
					k.Fail("a definition of %d entries with one-byte ids was accepted", len(many))
				}
				if pan, _ := core.Try(func() { bin.NewVariantDefinition(bin.TypeIDEncoding(77), two) }); pan == nil {
					k.Fail("a definition with an unknown id encoding was accepted")
				}
			})
		}})
}
