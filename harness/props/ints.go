package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	mbig "math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

var min128 = new(mbig.Int).Neg(new(mbig.Int).Lsh(mbig.NewInt(1), 127))
var two64 = new(mbig.Int).Lsh(mbig.NewInt(1), 64)
var two128 = new(mbig.Int).Lsh(mbig.NewInt(1), 128)

func bigOf(lo, hi uint64) *mbig.Int {
	x := new(mbig.Int).SetUint64(hi)
	return x.Mul(x, two64).Add(x, new(mbig.Int).SetUint64(lo))
}

func signedOf(lo, hi uint64) *mbig.Int {
	x := bigOf(lo, hi)
	if hi>>63 == 1 {
		x.Sub(x, two128)
	}
	return x
}

var orders = []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}

// jsonInto decodes with encoding/json, alone or inside a document.
func jsonInto(k *core.Case, doc string, x interface{}) error {
	if len(doc) > 2 && doc[0] == '"' && k.P(25) { // the same string, spelled with escapes
		in := doc[1 : len(doc)-1]
		var sb strings.Builder
		sb.WriteByte('"')
		for i := 0; i < len(in); i++ {
			if in[i] == '\\' || in[i] >= 0x80 || in[i] < 0x20 {
				sb.WriteString(in[i:])
				break
			}
			if k.P(30) {
				fmt.Fprintf(&sb, []string{`\u%04x`, `\u%04X`}[k.N(2)], in[i])
			} else {
				sb.WriteByte(in[i])
			}
		}
		sb.WriteByte('"')
		doc = sb.String()
		k.Count("escaped_documents", 1)
	}
	switch k.N(4) {
	case 0:
		return json.Unmarshal([]byte(doc), x)
	case 1:
		w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "X", Type: reflect.TypeOf(x).Elem()}, {Name: "Z", Type: reflect.TypeOf("")}}))
		w.Elem().Field(1).Set(reflect.ValueOf(x).Elem())
		err := json.Unmarshal([]byte(`{"A":7, "X": `+doc+` ,"Z":"z"}`), w.Interface())
		reflect.ValueOf(x).Elem().Set(w.Elem().Field(1))
		if err == nil && (w.Elem().Field(0).Int() != 7 || w.Elem().Field(2).String() != "z") {
			return fmt.Errorf("harness: neighbours lost")
		}
		return err
	case 2:
		w := reflect.New(reflect.SliceOf(reflect.TypeOf(x)))
		err := json.Unmarshal([]byte("[ "+doc+"\n]"), w.Interface())
		if err == nil {
			reflect.ValueOf(x).Elem().Set(w.Elem().Index(0).Elem())
		}
		return err
	}
	dec := json.NewDecoder(strings.NewReader(" " + doc + " "))
	return dec.Decode(x)
}

func jsonOf(k *core.Case, x interface{}) (string, error) {
	switch k.N(3) {
	case 0:
		b, err := json.Marshal(x)
		return string(b), err
	case 1:
		b, err := json.Marshal(map[string]interface{}{"k": x})
		return strings.TrimSuffix(strings.TrimPrefix(string(b), `{"k":`), "}"), err
	}
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	b, err := json.Marshal([]interface{}{p.Interface()})
	return strings.TrimSuffix(strings.TrimPrefix(string(b), `[`), "]"), err
}

func init() {
	reg(&core.Prop{ID: "C24", Rule: "Pairs of boundary-biased 64-bit halves under each byte-order setting; all notations are compared with math/big and all wire forms with the arithmetic definition; distinct by (halves).",
		Need: map[string]int64{"values": 20000, "out_of_range_refused": 3000, "wire_forms": 100000, "swept": 3000}, Run: func(c *core.Ctx) {
			value := func(k *core.Case, lo, hi uint64) {
				ord := orders[k.N(3)]
				u := bin.Uint128{Lo: lo, Hi: hi, Endianness: ord}
				i, f := bin.Int128(u), bin.Float128(u)
				x, s := bigOf(lo, hi), signedOf(lo, hi)
				k.Detail(map[string]interface{}{"lo": fmt.Sprintf("%#x", lo), "hi": fmt.Sprintf("%#x", hi), "order": fmt.Sprint(ord)})
				be := append(fixed(hi, 8, true), fixed(lo, 8, true)...)
				le := append(fixed(lo, 8, false), fixed(hi, 8, false)...)
				k.Eval(8)
				k.Count("values", 1)
				k.Seen(lo, hi)
				if u.BigInt().Cmp(x) != 0 {
					k.Fail("Uint128 BigInt is %v, want %v", u.BigInt(), x)
				}
				if u.DecimalString() != x.String() || u.String() != x.String() {
					k.Fail("Uint128 prints as %s and %s, want %s", u.DecimalString(), u.String(), x)
				}
				if fmt.Sprint(u) != x.String() {
					k.Fail("Uint128 prints as %v, want %s", u, x)
				}
				if want := "0x" + hex.EncodeToString(be); u.HexString() != want {
					k.Fail("Uint128 in hexadecimal is %s, want %s", u.HexString(), want)
				}
				if !bytes.Equal(u.Bytes(), be) {
					k.Fail("Uint128 Bytes are %x, want %x", u.Bytes(), be)
				}
				if i.BigInt().Cmp(s) != 0 || i.DecimalString() != s.String() {
					k.Fail("Int128 is %v and %s, want %v", i.BigInt(), i.DecimalString(), s)
				}
				if i.String() != s.String() || fmt.Sprint(i) != s.String() {
					k.Fail("Int128 prints as %s and %v, want %v", i.String(), i, s)
				}
				// none of this may change the number
				if u.Lo != lo || u.Hi != hi {
					k.Fail("printing changed the number")
				}
				// what was handed out is the caller's: computing with it changes no later answer
				for _, y := range []*mbig.Int{u.BigInt(), i.BigInt()} {
					y.Add(y, mbig.NewInt(int64(1+k.N(9)))).Lsh(y, uint(k.N(9)))
				}
				if b := u.Bytes(); len(b) > 0 {
					b[k.N(len(b))] ^= 0x55
				}
				if u.BigInt().Cmp(x) != 0 || i.BigInt().Cmp(s) != 0 || !bytes.Equal(u.Bytes(), be) || u.DecimalString() != x.String() || i.DecimalString() != s.String() {
					k.Fail("changing an obtained number or byte string changed later answers: %v, %v, %x; want %v, %v, %x", u.BigInt(), i.BigInt(), u.Bytes(), x, s, be)
				}
				// JSON: back to the same number, from its own output and from both notations
				for n, y := range []interface{}{u, i, f} {
					doc, err := jsonOf(k, y)
					k.Eval(1)
					if err != nil {
						k.Fail("%T to JSON failed: %v", y, err)
					}
					if n == 0 && doc != `"`+x.String()+`"` {
						k.Fail("Uint128 as JSON is %s, want %q", doc, x)
					}
					if n == 1 && doc != `"`+s.String()+`"` {
						k.Fail("Int128 as JSON is %s, want %q", doc, s)
					}
					docs := []string{doc, `"0x` + hex.EncodeToString(be) + `"`, `"0X` + strings.ToUpper(hex.EncodeToString(be)) + `"`, `"` + x.String() + `"`}
					if n == 1 && s.Sign() < 0 {
						docs = docs[:3] // a negative number as its unsigned reading: not judged
					}
					for _, doc := range docs {
						p := reflect.New(reflect.TypeOf(y))
						if k.P(50) { // a used target, in another byte order
							reflect.Indirect(p).Set(reflect.ValueOf(bin.Uint128{Lo: k.U64(), Hi: k.U64(), Endianness: orders[k.N(3)]}).Convert(p.Elem().Type()))
						}
						if err := jsonInto(k, doc, p.Interface()); err != nil {
							k.Fail("%s into %T failed: %v", doc, y, err)
						}
						got := p.Elem().Convert(reflect.TypeOf(u)).Interface().(bin.Uint128)
						if got.Lo != lo || got.Hi != hi || got.BigInt().Cmp(x) != 0 {
							k.Fail("%s into %T gives %s (lo %#x, hi %#x), want %s", doc, y, got, got.Lo, got.Hi, x)
						}
						k.Count("json_round_trips", 1)
					}
				}
				// the wire, in both orders, through every route
				e := tm.Encs[k.N(3)]
				for b, want := range [][]byte{le, be} {
					o := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[b]
					var buf bytes.Buffer
					enc := newEncoder(e, &buf)
					if err := enc.WriteUint128(u, o); err != nil {
						k.Fail("writing failed: %v", err)
					}
					if err := enc.WriteInt128(i, o); err != nil {
						k.Fail("writing failed: %v", err)
					}
					own := bin.Uint128{Lo: lo, Hi: hi, Endianness: o}
					ms := []bin.BinaryMarshaler{own, bin.Int128(own), bin.Float128(own)}
					for _, m := range ms {
						if err := m.MarshalWithEncoder(newEncoder(e, &buf)); err != nil {
							k.Fail("writing failed: %v", err)
						}
					}
					if !bytes.Equal(buf.Bytes(), bytes.Repeat(want, 5)) {
						k.Fail("%s order: written as %x, want five times %x", ordName(o), buf.Bytes(), want)
					}
					d := newDecoder(e, buf.Bytes())
					r1, e1 := d.ReadUint128(o)
					r2, e2 := d.ReadInt128(o)
					r3, e3 := d.ReadFloat128(o)
					t4, t5 := bin.NewUint128LittleEndian(), new(bin.Int128)
					if b == 1 {
						t4 = bin.NewUint128BigEndian()
					}
					t5.Endianness = o
					e4 := t4.UnmarshalWithDecoder(newDecoder(e, want))
					e5 := t5.UnmarshalWithDecoder(newDecoder(e, want))
					for n, err := range []error{e1, e2, e3, e4, e5} {
						if err != nil {
							k.Fail("reading (route %d) failed: %v", n, err)
						}
					}
					for n, r := range []bin.Uint128{r1, bin.Uint128(r2), bin.Uint128(r3), *t4, bin.Uint128(*t5)} {
						if r.Lo != lo || r.Hi != hi || r.BigInt().Cmp(x) != 0 {
							k.Fail("%s order: read (route %d) as %s, want %s", ordName(o), n, r, x)
						}
					}
					k.Eval(10)
					k.Count("wire_forms", 10)
				}
			}
			c.Run("values", c.Scaled(24000), func(k *core.Case) { value(k, k.Edge(), k.Edge()) })
			// every number at which arithmetic changes its mind, in either half
			c.Run("sweep", len(sweepNumbers)*4, func(k *core.Case) {
				x := sweepNumbers[k.I/4]
				y := sweepNumbers[k.N(len(sweepNumbers))]
				k.Count("swept", 1)
				switch k.I % 4 {
				case 0:
					value(k, x, []uint64{0, ^uint64(0)}[k.N(2)])
				case 1:
					value(k, []uint64{0, ^uint64(0)}[k.N(2)], x)
				case 2:
					value(k, x, y)
				default:
					value(k, y, x)
				}
			})
			// powers of ten, where the decimal notation grows, and their neighbours
			c.Run("decimals", 39*5*4, func(k *core.Case) {
				x := new(mbig.Int).Exp(mbig.NewInt(10), mbig.NewInt(int64(k.I%39)), nil)
				x.Mul(x, mbig.NewInt(int64(1+k.I/39/5*3)))
				x.Add(x, mbig.NewInt(int64(k.I/39%5-2)))
				x.And(x, new(mbig.Int).Sub(two128, mbig.NewInt(1)))
				k.Count("swept", 1)
				for i := 0; i < 2; i++ {
					value(k, new(mbig.Int).And(x, new(mbig.Int).SetUint64(^uint64(0))).Uint64(), new(mbig.Int).Rsh(x, 64).Uint64())
					x.Sub(two128, x).And(x, new(mbig.Int).Sub(two128, mbig.NewInt(1))) // as a negative number
				}
			})
			c.Run("json-range", c.Scaled(6000), func(k *core.Case) {
				x := new(mbig.Int).Set(two128)
				switch k.N(5) {
				case 0:
				case 1:
					x.Add(x, new(mbig.Int).SetUint64(k.Edge()))
				case 2:
					x.Lsh(x, uint(1+k.N(200)))
					x.Sub(x, mbig.NewInt(int64(k.N(2))))
				case 3:
					x.SetUint64(1 + k.Edge()>>1)
					x.Neg(x)
				case 4:
					x.Neg(bigOf(k.Edge(), k.Edge()))
					x.Sub(x, mbig.NewInt(1))
					if k.P(30) { // just below the smallest
						x.Sub(min128, new(mbig.Int).SetUint64(1+k.Edge()>>1))
					}
				}
				docs := []string{`"` + x.String() + `"`}
				bad := []string{`""`, `"abc"`, `"12x"`, `"0x"`, `"0x1g000000000000000000000000000000"`, `"0x00000000000000000000000000000000000"`, `"0x000000000000000000000000000000001"`, `"1.5"`, `"1e3"`, `" 1"`, `{}`, `[1]`, `true`, `"-"`}
				docs = append(docs, bad[k.N(len(bad))])
				for _, doc := range docs {
					for _, p := range []interface{}{&bin.Uint128{Lo: 5}, &bin.Int128{Lo: 5}, &bin.Float128{Lo: 5}} {
						k.Detail(map[string]interface{}{"document": doc, "type": fmt.Sprintf("%T", p)})
						if _, ok := p.(*bin.Int128); ok && doc == docs[0] && x.Sign() < 0 && x.Cmp(min128) >= 0 {
							continue // a negative number of 128 bits
						}
						err := jsonInto(k, doc, p)
						k.Eval(1)
						now := reflect.ValueOf(p).Elem().Convert(reflect.TypeOf(bin.Uint128{})).Interface().(bin.Uint128)
						if err == nil {
							k.Fail("%s was accepted as %T: %v", doc, p, now)
						}
						if now.Lo != 5 || now.Hi != 0 {
							k.Fail("refusing %s changed a %T from 5 to %v", doc, p, now)
						}
						k.Count("out_of_range_refused", 1)
					}
				}
			})
			c.Run("reverse", c.Scaled(2000), func(k *core.Case) {
				b := k.Bytes(k.I % 300)
				r := append([]byte(nil), b...)
				bin.ReverseBytes(r)
				k.Eval(1)
				for j := range b {
					if r[j] != b[len(b)-1-j] {
						k.Fail("reversing %x gives %x", b, r)
					}
				}
			})
		}})

	reg(&core.Prop{ID: "C25", Rule: "Boundary-biased numbers around 2^31, 2^32, 2^53, 2^63, 2^64, byte strings and documents in every notation, alone and inside larger documents; distinct by (type, document).",
		Need: map[string]int64{"numbers": 20000, "refused": 5000, "bytes": 3000, "floats": 5000, "swept": 3000}, Run: func(c *core.Ctx) {
			edge := func(k *core.Case) uint64 {
				b := []uint64{0, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 0xffffffff, ^uint64(0)}[k.N(7)]
				if k.P(50) {
					return k.Edge()
				}
				return b + uint64(k.N(5)) - 2
			}
			number := func(k *core.Case, x uint64) {
				k.Count("numbers", 2)
				k.Seen("n", x)
				// signed
				n := int64(x)
				txt := strconv.FormatInt(n, 10)
				doc, err := jsonOf(k, bin.Int64(n))
				k.Detail(map[string]interface{}{"number": txt, "document": doc})
				k.Eval(4)
				wide := n > math.MaxUint32 || n < -math.MaxUint32
				want := txt
				if wide {
					want = `"` + txt + `"`
				}
				if err != nil || doc != want {
					k.Fail("Int64 %d becomes %s (%v), want %s", n, doc, err, want)
				}
				for _, d := range []string{doc, txt, `"` + txt + `"`} {
					y := bin.Int64(k.U64())
					if err := jsonInto(k, d, &y); err != nil || int64(y) != n {
						k.Fail("%s reads as Int64 %d, %v; want %d", d, y, err, n)
					}
				}
				// unsigned
				txt = strconv.FormatUint(x, 10)
				doc, err = jsonOf(k, bin.Uint64(x))
				k.Detail(map[string]interface{}{"number": txt, "document": doc})
				want = txt
				if x > math.MaxUint32 {
					want = `"` + txt + `"`
				}
				if err != nil || doc != want {
					k.Fail("Uint64 %d becomes %s (%v), want %s", x, doc, err, want)
				}
				for _, d := range []string{doc, txt, `"` + txt + `"`} {
					y := bin.Uint64(k.U64())
					if err := jsonInto(k, d, &y); err != nil || uint64(y) != x {
						k.Fail("%s reads as Uint64 %d, %v; want %d", d, y, err, x)
					}
				}
			}
			c.Run("numbers", c.Scaled(24000), func(k *core.Case) { number(k, edge(k)) })
			c.Run("sweep", len(sweepNumbers), func(k *core.Case) {
				k.Count("swept", 4)
				for i := 0; i < 4; i++ {
					number(k, sweepNumbers[k.I])
				}
			})
			c.Run("small", 1024, func(k *core.Case) { // every number of 17 bits
				for i := 0; i < 64; i++ {
					number(k, uint64(k.I*64+i))
					number(k, -uint64(k.I*64+i))
				}
			})
			c.Run("refused", c.Scaled(6000), func(k *core.Case) {
				var over *mbig.Int
				bad := []string{`"x"`, `""`, `"1.5"`, `1.5`, `"1e2"`, `1e400`, `{}`, `[]`, `true`, `"0x10"`, `" 1"`, `"1 "`, `"1,000"`, `"true"`}
				doc := bad[k.N(len(bad))]
				p := interface{}(new(bin.Int64))
				if k.P(50) {
					p = new(bin.Uint64)
				}
				if k.P(60) {
					over = new(mbig.Int).SetUint64(edge(k))
					over.Add(over, two64)
					if _, ok := p.(*bin.Int64); ok && k.P(70) {
						over.SetUint64(1<<63 + edge(k)>>1)
						if k.P(50) {
							over.Neg(over)
							over.Sub(over, mbig.NewInt(1))
						}
					} else if !ok && k.P(50) {
						over.SetUint64(1 + edge(k)>>1)
						over.Neg(over)
					}
					doc = over.String()
					if k.P(50) {
						doc = `"` + doc + `"`
					}
				}
				k.Detail(map[string]interface{}{"document": doc, "type": fmt.Sprintf("%T", p)})
				k.Eval(1)
				k.Seen("r", fmt.Sprintf("%T", p), doc)
				old := k.Edge()
				if i, ok := p.(*bin.Int64); ok {
					*i = bin.Int64(old)
				} else {
					*p.(*bin.Uint64) = bin.Uint64(old)
				}
				before := fmt.Sprint(reflect.ValueOf(p).Elem())
				if err := jsonInto(k, doc, p); err == nil {
					k.Fail("%s was accepted as %T %v", doc, p, reflect.ValueOf(p).Elem())
				}
				if after := fmt.Sprint(reflect.ValueOf(p).Elem()); after != before {
					k.Fail("refusing %s changed a %T from %s to %s", doc, p, before, after)
				}
				k.Count("refused", 1)
			})
			c.Run("bool", 400, func(k *core.Case) {
				y := bin.Bool(k.P(50))
				n := int64(k.N(5)) - 2
				if k.P(30) {
					n = int64(k.Edge())
				}
				for d, want := range map[string]bool{"true": true, "false": false, fmt.Sprint(n): n != 0} {
					k.Detail(map[string]interface{}{"document": d})
					k.Eval(1)
					if err := jsonInto(k, d, &y); err != nil || bool(y) != want {
						k.Fail("%s reads as %v, %v; want %v", d, y, err, want)
					}
					k.Seen("b", d)
				}
				for _, d := range []string{`"true"`, `"1"`, `{}`, `[1]`, `""`, `"yes"`} {
					k.Eval(1)
					y = bin.Bool(k.P(50))
					old := y
					if err := jsonInto(k, d, &y); err == nil {
						k.Fail("%s was accepted as a Bool: %v", d, y)
					}
					if y != old {
						k.Fail("refusing %s changed a Bool from %v to %v", d, old, y)
					}
				}
				doc, err := jsonOf(k, y)
				if err != nil || doc != fmt.Sprint(bool(y)) {
					k.Fail("Bool %v becomes %s, %v", y, doc, err)
				}
			})
			c.Run("hex", c.Scaled(4000), func(k *core.Case) {
				b := k.Bytes(k.N(40))
				if k.I < 700 {
					b = k.Bytes(k.I)
				}
				want := hex.EncodeToString(b)
				k.Detail(map[string]interface{}{"bytes": want})
				doc, err := jsonOf(k, bin.HexBytes(b))
				k.Eval(3)
				k.Count("bytes", 1)
				k.Seen("h", b)
				if err != nil || doc != `"`+want+`"` {
					k.Fail("%x becomes %s, %v", b, doc, err)
				}
				if s := bin.HexBytes(b).String(); s != want || fmt.Sprint(bin.HexBytes(b)) != want {
					k.Fail("%x prints as %s", b, s)
				}
				for _, d := range []string{doc, `"` + strings.ToUpper(want) + `"`} {
					y := bin.HexBytes(k.Bytes(k.N(50)))
					if err := jsonInto(k, d, &y); err != nil || !bytes.Equal(y, b) {
						k.Fail("%s reads as %x, %v", d, []byte(y), err)
					}
				}
				for _, d := range []string{`"` + want + `0"`, `"` + want + `zz"`, `"0x` + want + `"`, `5`, `{}`, `[1]`, `"` + want + ` "`} {
					old := k.Bytes(k.N(6))
					y := bin.HexBytes(append([]byte(nil), old...))
					if err := jsonInto(k, d, &y); err == nil {
						k.Fail("%s was accepted as %x", d, []byte(y))
					}
					if !bytes.Equal(y, old) {
						k.Fail("refusing %s left %x in place of %x", d, []byte(y), old)
					}
					k.Eval(1)
				}
			})
			c.Run("floats", c.Scaled(8000), func(k *core.Case) {
				g := tm.NewGen(k.Rng, tm.Full(tm.Bin))
				f := g.F64()
				if k.P(40) {
					f = math.Float64frombits(k.U64())
				}
				if k.I < len(sweepNumbers) {
					f = math.Float64frombits(sweepNumbers[k.I])
				} else if k.I < 3*len(sweepNumbers) {
					f = float64(int64(sweepNumbers[k.I%len(sweepNumbers)])) / []float64{1, 10, 1000, 3, 1e20}[k.N(5)]
				}
				if math.IsNaN(f) || math.IsInf(f, 0) {
					return
				}
				k.Count("floats", 1)
				k.Seen("f", math.Float64bits(f))
				txt := strconv.FormatFloat(f, 'g', -1, 64)
				doc, err := jsonOf(k, bin.JSONFloat64(f))
				k.Detail(map[string]interface{}{"number": txt, "document": doc})
				if err != nil {
					k.Fail("float %v to JSON failed: %v", f, err)
				}
				num := strings.ReplaceAll(txt, "e+", "e")
				for _, d := range []string{doc, `"` + txt + `"`, num, `"` + strconv.FormatFloat(f, 'e', -1, 64) + `"`} {
					y := bin.JSONFloat64(99)
					k.Eval(1)
					if err := jsonInto(k, d, &y); err != nil || math.Float64bits(float64(y)) != math.Float64bits(f) {
						k.Fail("%s reads as %v, %v; want %v", d, y, err, f)
					}
				}
				for _, d := range []string{`"x"`, `""`, `{}`, `[1]`, `true`, `"1.5.2"`, `"1,5"`, `" 1"`, `1e400`, `"1e400"`, `"-2e309"`, `"` + txt + `x"`} {
					y := bin.JSONFloat64(f)
					k.Eval(1)
					if err := jsonInto(k, d, &y); err == nil {
						k.Fail("%s was accepted as a float: %v", d, y)
					}
					if math.Float64bits(float64(y)) != math.Float64bits(f) {
						k.Fail("refusing %s changed a float from %v to %v", d, f, y)
					}
				}
			})
		}})

	reg(&core.Prop{ID: "C26", Rule: "Random identifiers built from words in every case and joined in every style, plus random strings over letters, digits, separators and non-ASCII letters; discriminators and case conversions are compared with an independent reference, and spellings of one name with each other; distinct by string.",
		Need: map[string]int64{"names": 20000, "spellings": 5000}, Run: func(c *core.Ctx) {
			c.Run("strings", c.Scaled(30000), func(k *core.Case) {
				s := randName(k)
				if k.P(25) {
					for n := k.N(30); n > 0; n-- {
						s += []string{"", "_", "-", " "}[k.N(4)] + randName(k)
					}
				}
				if k.I < 1200 { // every length up to 400
					for len(s) < k.I/3 {
						s += []string{"", "_", "-", " "}[k.N(4)] + randName(k)
					}
					s = s[:k.I/3]
					k.Count("every_length", 1)
				}
				if k.N(150) == 0 {
					for n := []int{300, 600, 1100, 2100, 4200, 9000}[k.N(6)]; len(s) < n; {
						s += []string{"", "_", "-", " "}[k.N(4)] + randName(k)
					}
					k.Count("very_long_names", 1)
				}
				if len(s) > 64 {
					k.Count("long_names", 1)
				}
				ns := []string{"global", "account", "state", "", "x:y", randName(k)}[k.N(6)]
				k.Detail(map[string]interface{}{"name": s, "namespace": ns})
				k.Count("names", 1)
				k.Seen(s)
				k.Eval(8)
				words := refWords(s)
				snake, pascal := refSnake(words), refPascal(words)
				if got := bin.ToRustSnakeCase(s); got != snake {
					k.Fail("snake case of %q is %q, want %q", s, got, snake)
				}
				if got := bin.ToSnakeForSighash(s); got != snake {
					k.Fail("snake case (for discriminators) of %q is %q, want %q", s, got, snake)
				}
				if got := bin.ToPascalCase(s); got != pascal {
					k.Fail("Pascal case of %q is %q, want %q", s, got, pascal)
				}
				sum := func(ns, name string) []byte {
					h := sha256.New()
					h.Write([]byte(ns))
					h.Write([]byte(":"))
					h.Write([]byte(name))
					return h.Sum(nil)[:8]
				}
				if got := bin.Sighash(ns, s); !bytes.Equal(got, sum(ns, s)) {
					k.Fail("discriminator of %q in %q is %x, want %x", s, ns, got, sum(ns, s))
				}
				if got := bin.SighashTypeID(ns, s); !bytes.Equal(got[:], sum(ns, s)) {
					k.Fail("type ID of %q in %q is %x, want %x", s, ns, got[:], sum(ns, s))
				}
				if got := bin.SighashInstruction(s); !bytes.Equal(got, sum("global", snake)) {
					k.Fail("instruction discriminator of %q is %x, want %x", s, got, sum("global", snake))
				}
				if got := bin.SighashAccount(s); !bytes.Equal(got, sum("account", pascal)) {
					k.Fail("account discriminator of %q is %x, want %x", s, got, sum("account", pascal))
				}
				// the same names again in any order of namespaces
				names := []string{s, snake, pascal, s + "_", strings.ToLower(s)}
				if len(s) > 0 {
					// the boundary between namespace and name moves
					names = append(names, s[1:], s[:len(s)-1], s[:len(s)-1]+string(rune('a'+k.N(26))))
				}
				spaces := []string{"global", "account", "state", ns, ns + ":" + s, ""}
				for i := 0; i < 6; i++ {
					ns, s := spaces[k.N(len(spaces))], names[k.N(len(names))]
					k.Eval(1)
					var got []byte
					if k.P(50) {
						got = bin.Sighash(ns, s)
					} else {
						id := bin.SighashTypeID(ns, s)
						got = id[:]
					}
					if !bytes.Equal(got, sum(ns, s)) {
						k.Fail("discriminator of %q in %q is %x, want %x", s, ns, got, sum(ns, s))
					}
				}
				if a, b := bin.Sighash(ns, s), bin.Sighash(ns, s); len(a) == 8 {
					a[0] ^= 0xff
					_ = append(a, 9)
					if !bytes.Equal(b, sum(ns, s)) || !bytes.Equal(bin.Sighash(ns, s), sum(ns, s)) {
						k.Fail("discriminators share memory")
					}
				}
				if k.WantSample() {
					k.Sample(map[string]interface{}{"name": s, "snake": snake, "pascal": pascal})
				}
			})
			c.Run("spellings", c.Scaled(8000), func(k *core.Case) {
				var words []string
				for i, n := 0, 1+k.N(5); i < n; i++ {
					w := ""
					for j, m := 0, 2+k.N(7); j < m; j++ {
						if j > 1 && k.P(15) {
							w += string(rune('0' + k.N(10)))
						} else {
							w += string(rune('a' + k.N(26)))
						}
					}
					words = append(words, w)
				}
				title := func(w string) string { return strings.ToUpper(w[:1]) + w[1:] }
				snake := strings.Join(words, "_")
				pascal, camel := "", words[0]
				for i, w := range words {
					pascal += title(w)
					if i > 0 {
						camel += title(w)
					}
				}
				sp := []string{snake, pascal, camel, strings.Join(words, "-"), strings.Join(words, " "), strings.ToUpper(snake), "__" + strings.Join(words, "__") + "_", strings.Join(words, "::")}
				k.Detail(map[string]interface{}{"spellings": sp})
				for _, s := range sp {
					k.Eval(1)
					k.Seen(s)
					k.Count("spellings", 1)
					if got := bin.ToRustSnakeCase(s); got != snake {
						k.Fail("snake case of %q is %q, want %q", s, got, snake)
					}
					if got := bin.ToPascalCase(s); got != pascal {
						k.Fail("Pascal case of %q is %q, want %q", s, got, pascal)
					}
					if !bytes.Equal(bin.SighashInstruction(s), bin.SighashInstruction(snake)) || !bytes.Equal(bin.SighashAccount(s), bin.SighashAccount(pascal)) {
						k.Fail("the discriminator depends on how the name %q is spelled", s)
					}
				}
			})
		}})

	reg(&core.Prop{ID: "C31", Rule: "Byte strings mixing valid UTF-8 of every length, truncated and overlong sequences, surrogates and noise are decoded as safe strings through every route; distinct by byte string.",
		Need: map[string]int64{"strings": 10000, "with_invalid_bytes": 5000, "odd_characters": 500, "long_rarely_invalid": 1000, "positions": 10000}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, raw []byte) {
				e := tm.Encs[k.N(3)]
				if e == tm.Compact && len(raw) > 65535 {
					e = tm.Borsh
				}
				want := st.SafeUTF8(raw)
				var buf bytes.Buffer
				enc := newEncoder(e, &buf)
				if k.P(50) {
					enc.WriteBytes(raw, true)
				} else if err := enc.Encode(bin.SafeString(raw)); err != nil {
					k.Fail("encoding a safe string failed: %v", err)
				}
				k.Detail(map[string]interface{}{"encoding": e.String(), "string": core.Hex(raw), "bytes": core.Hex(buf.Bytes())})
				k.Count("strings", 1)
				if !utf8.Valid(raw) {
					k.Count("with_invalid_bytes", 1)
				}
				k.Seen(raw)
				k.Eval(3)
				check := func(route, got string, err error) {
					if err != nil {
						k.Fail("%s: %v", route, err)
					}
					if !utf8.ValidString(got) {
						k.Fail("%s gives invalid UTF-8: %q", route, got)
					}
					if got != want {
						k.Fail("%s gives %q, want %q", route, got, want)
					}
				}
				d := newDecoder(e, buf.Bytes())
				got, err := d.SafeReadUTF8String()
				check("SafeReadUTF8String", got, err)
				if int(d.Position()) != buf.Len() {
					k.Fail("SafeReadUTF8String stopped at %d of %d", d.Position(), buf.Len())
				}
				var s bin.SafeString
				_, err = decodeVia(k, e, buf.Bytes(), &s)
				check("Decode", string(s), err)
				type holder struct {
					A uint8
					S bin.SafeString
					O *bin.SafeString `bin:"optional"`
					L []bin.SafeString
					M map[bin.SafeString]bin.SafeString
					Z uint16
				}
				v := bin.SafeString(raw)
				h := holder{3, v, &v, []bin.SafeString{v, "x", v}, map[bin.SafeString]bin.SafeString{v: v}, 0xbeef}
				b, err := marshal(e, h)
				if err != nil {
					k.Fail("encoding failed: %v", err)
				}
				var back holder
				_, err = decodeVia(k, e, b, &back)
				check("Decode of a struct", string(back.S), err)
				if back.O == nil || len(back.L) != 3 || back.Z != 0xbeef {
					k.Fail("the neighbours of safe strings are lost: %+v", back)
				}
				check("optional field", string(*back.O), nil)
				check("element", string(back.L[0])+string(back.L[1])+string(back.L[2]), rewant(&want, want+"x"+want))
				want = st.SafeUTF8(raw)
				for mk, mv := range back.M {
					check("map key", string(mk), nil)
					check("map value", string(mv), nil)
				}
				// plain strings keep their bytes
				var p string
				_, err = decodeVia(k, e, append([]byte(nil), mustMarshal(k, e, string(raw))...), &p)
				if err != nil || p != string(raw) {
					k.Fail("a plain string came back as %q, %v", p, err)
				}
			}
			c.Run("noise", c.Scaled(9000), func(k *core.Case) {
				var raw []byte
				for i, n := 0, k.N(12); i < n; i++ {
					switch k.N(9) {
					case 0:
						raw = append(raw, byte(k.N(256)))
					case 1:
						raw = append(raw, byte(0x80+k.N(128)))
					case 2:
						r := rune(k.N(0x110000))
						if k.P(50) {
							r = oddRunes[k.N(len(oddRunes))]
						}
						raw = append(raw, string(r)...)
					case 3:
						full := []byte(string(rune(0x800 + k.N(0x10000))))
						raw = append(raw, full[:1+k.N(len(full))]...)
					case 4:
						full := []byte(string(rune(0x10000 + k.N(0x100000))))
						raw = append(raw, full[:1+k.N(len(full))]...)
					case 5:
						raw = append(raw, [][]byte{{0xc0, 0x80}, {0xe0, 0x80, 0x80}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xf0, 0x80, 0x80, 0x80}, {0xff, 0xfe}, {0xef, 0xbf, 0xbd}, {0xf8, 0x88, 0x80, 0x80, 0x80}}[k.N(8)]...)
					default:
						raw = append(raw, byte(k.N(128)))
					}
				}
				one(k, raw)
			})
			// long and almost everywhere valid: the exceptions may be anywhere
			c.Run("rare", c.Scaled(2500), func(k *core.Case) {
				n := []int{30, 60, 64, 128, 250, 256, 512, 600, 1024, 2000, 4096, 5000, 8192}[k.N(13)] + k.N(9) - 4
				unit := []string{"a", "plain ascii text ", "é", "世", "🙂", "aé世🙂"}[k.N(6)]
				raw := bytes.Repeat([]byte(unit), n/len(unit)+1)[:n]
				bad := [][]byte{{0xff}, {0x80}, {0xc3}, {0xe4, 0xb8}, {0xed, 0xa0, 0x80}, {0xf0, 0x9f}, {0xc0, 0xaf}, {0xfe, 0xff}}
				for i, m := 0, k.N(3); i <= m; i++ {
					b := bad[k.N(len(bad))]
					at := k.N(len(raw) + 1)
					switch k.N(4) {
					case 0:
						at = len(raw)
					case 1:
						at = len(raw) / 2
					case 2:
						at = len(raw) - k.N(8)
					}
					if k.P(50) && at+len(b) <= len(raw) {
						copy(raw[at:], b)
					} else {
						raw = append(raw[:at:at], append(append([]byte(nil), b...), raw[at:]...)...)
					}
				}
				k.Count("long_rarely_invalid", 1)
				one(k, raw)
			})
			// one invalid byte at every position of every length up to 80, and of some others
			lens := []int{128, 200, 256, 257, 320}
			for n := 1; n <= 80; n++ {
				lens = append(lens, n)
			}
			c.Run("positions", len(lens)*4, func(k *core.Case) {
				n := lens[k.I/4]
				unit := []string{"abcdefghijklm", "é", "世a", "🙂é"}[k.I%4]
				for at := 0; at < n; at++ {
					raw := bytes.Repeat([]byte(unit), n/len(unit)+1)[:n]
					raw[at] = []byte{0x80, 0xff, 0xc3, 0xe4, 0xf0, 0xed}[k.N(6)]
					k.Count("positions", 1)
					one(k, raw)
				}
			})
			// characters with a meaning elsewhere, at either end and in between
			c.Run("odd", len(oddChars)*12, func(k *core.Case) {
				r := string(oddChars[k.I%len(oddChars)])
				body := []string{"", "a", "text", r, "é", "\xff", "\x80b"}[k.N(7)]
				s := [][]string{{r}, {r, body}, {body, r}, {r, body, r}, {body, r, body}, {r, r}}[k.I/len(oddChars)%6]
				k.Count("odd_characters", 1)
				one(k, []byte(strings.Join(s, "")))
			})
			c.Run("short", 3000, func(k *core.Case) {
				one(k, []byte{byte(k.I), byte(k.N(256)), byte(k.N(256))}[:1+k.I/256%3])
			})
			c.Run("long", 60, func(k *core.Case) {
				n := bigLens[k.N(len(bigLens))]
				if n > 20000 {
					n = 20000
				}
				if k.I%10 == 0 {
					n = 65530 + k.N(20000)
				}
				raw := k.Bytes(n)
				if k.P(50) {
					for i := range raw {
						if i%7 != 0 {
							raw[i] &= 0x7f
						}
					}
				}
				if k.I%10 == 5 {
					// only one byte is invalid, far along
					n = []int{70000, 140000, 300000, 1 << 20}[k.I/10%4]
					raw = bytes.Repeat([]byte{'x'}, n)
					raw[n-1-k.N(n/8)] = 0xff
					if k.P(30) {
						raw[n-1] = 0xe4
					}
				}
				one(k, raw)
			})
		}})
}

// oddChars are valid characters that somebody might treat as something else.
var oddChars = []rune{0, 1, 7, 8, '\t', '\n', '\r', 0x1b, ' ', '"', '\'', '\\', '<', '>', '&', '%', 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x300, 0x7ff, 0x800, 0x1680, 0x180e, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202e, 0x2060,
	0x3000, 0xd7ff, 0xe000, 0xf8ff, 0xfdd0, 0xfdef, 0xfe0f, 0xfeff, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1fffe, 0x1ffff, 0xe0001, 0xe0100, 0xf0000, 0xffffe, 0x10fffd, 0x10fffe, 0x10ffff}

func rewant(p *string, s string) error { *p = s; return nil }

func mustMarshal(k *core.Case, e tm.Enc, x interface{}) []byte {
	b, err := marshal(e, x)
	if err != nil {
		k.Fail("encoding failed: %v", err)
	}
	return b
}

// ---- reference case conversion ------------------------------------------------

// refWords cuts at everything that is neither alphabetic nor numeric, between a lower
// case part and an upper case letter, and before the last capital of a run that
// is followed by a lower case letter. Uncased characters belong to the case
// before them.
func refWords(s string) (out []string) {
	var run []rune
	flush := func() {
		start := 0
		lastCased := func(from, to int) rune { // in [from, to)
			for j := to - 1; j >= from; j-- {
				if lower(run[j]) || upper(run[j]) {
					return run[j]
				}
			}
			return 0
		}
		for i := 0; i < len(run); i++ {
			switch {
			case i > start && upper(run[i]) && lower(lastCased(start, i)):
				out = append(out, string(run[start:i]))
				start = i
			case i > start && i+1 < len(run) && upper(run[i]) && lower(run[i+1]) && upper(lastCased(start, i)):
				out = append(out, string(run[start:i]))
				start = i
			}
		}
		if len(run) > start {
			out = append(out, string(run[start:]))
		}
		run = nil
	}
	for _, r := range s {
		if unicode.In(r, unicode.L, unicode.N, unicode.Other_Alphabetic) {
			run = append(run, r)
		} else {
			flush()
		}
	}
	flush()
	return
}

// lower and upper are the Unicode properties Lowercase and Uppercase.
func lower(r rune) bool { return unicode.In(r, unicode.Ll, unicode.Other_Lowercase) }
func upper(r rune) bool { return unicode.In(r, unicode.Lu, unicode.Other_Uppercase) }

func refSnake(words []string) string {
	var out []string
	for _, w := range words {
		var b []rune
		for _, r := range w {
			b = append(b, unicode.ToLower(r))
		}
		out = append(out, string(b)) // the tests pin this for a final sigma, too
	}
	return strings.Join(out, "_")
}

func refPascal(words []string) string {
	var out strings.Builder
	for _, w := range words {
		var b []rune
		for i, r := range []rune(w) {
			if i == 0 {
				b = append(b, unicode.ToUpper(r))
			} else {
				b = append(b, unicode.ToLower(r))
			}
		}
		if len(b) == 1 {
			out.WriteString(string(b))
		} else {
			out.WriteString(finalSigma(w, b))
		}
	}
	return out.String()
}

// finalSigma puts the final form of the letter in the place of a capital sigma
// that ends the word.
func finalSigma(word string, b []rune) string {
	if strings.HasSuffix(word, "Σ") {
		b[len(b)-1] = 'ς'
	}
	return string(b)
}

var oddRunes = []rune("éÉßñÑøØжЖяЯαβΩΣσς日本語あ٣४Ǆǅǆǉǲİıŉﬁक\u093f\u094d²½ⅣⅳªᵃⓐⒶา\u0301\u00a0€")

func randName(k *core.Case) string {
	var sb strings.Builder
	kind := k.N(4)
	for i, n := 0, k.N(16); i < n; i++ {
		switch x := k.N(100); {
		case x < 35:
			sb.WriteByte(byte('a' + k.N(26)))
		case x < 62:
			sb.WriteByte(byte('A' + k.N(26)))
		case x < 74:
			sb.WriteByte(byte('0' + k.N(10)))
		case x < 86:
			sb.WriteByte("_-_ .:/$_"[k.N(9)])
		case kind == 0:
			if k.P(50) {
				// any category: number forms, marks, symbols, modifiers, title case
				r := rune(0x80 + k.N([]int{0x180, 0x600, 0x2f00, 0xfe00, 0x1f700}[k.N(5)]))
				if utf8.ValidRune(r) {
					sb.WriteRune(r)
				}
				continue
			}
			sb.WriteRune(oddRunes[k.N(len(oddRunes))])
		case kind == 1 && x > 96:
			sb.WriteByte(byte(0x80 + k.N(128)))
		default:
			sb.WriteByte(byte('a' + k.N(26)))
		}
	}
	return sb.String()
}
