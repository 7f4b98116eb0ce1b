package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"sync/atomic"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

const hostileRule = "Valid encodings of randomly drawn types are damaged (truncation, hostile lengths, flags, tags and counts, bit flips, insertions, deletions, splices, noise); a case is non-trivial when the input is not empty, and distinct by (encoding, type, input)."

// hostileInputs draws a type, a valid encoding of it and damaged versions.
func hostileInputs(c *core.Ctx, group string, n, per int, conf func(k *core.Case) tm.Conf, fn func(k *core.Case, t *tm.T, e tm.Enc, data []byte, how string)) {
	c.Run(group, n, func(k *core.Case) {
		cf := conf(k)
		cf.BigLens = k.P(10)
		g := tm.NewGen(k.Rng, cf)
		rt := g.Top()
		if k.P(12) {
			rt = tm.StaticTypes()[k.N(len(tm.StaticTypes()))]
		} else if k.P(8) {
			rt = tm.LibList[k.N(len(tm.LibList))].RT
		}
		t := tm.Of(rt)
		features(k, t)
		for j := 0; j < per; j++ {
			w, err := tm.Encode(t, cf.Enc, g.Value(t))
			var b []byte
			var marks []tm.Mark
			if err == nil {
				b, marks = w.B, w.Marks
			}
			for i := 0; i < 3; i++ {
				data, how := mutate(k, b, marks, cf.Enc)
				if k.P(25) {
					data, _ = mutate(k, data, nil, cf.Enc)
					how += "+"
				}
				if tooFat(t, len(data)) {
					k.Count("too_fat", 1)
					continue
				}
				if len(data) > 0 {
					k.Seen(int(cf.Enc), typeStr(t), data)
				}
				k.Count("inputs_"+how[:min(len(how), 8)], 1)
				fn(k, t, cf.Enc, data, how)
			}
		}
	})
}

// tooFat tells that n bytes may well describe more memory than there is: flags
// or tags of one byte for elements of many kilobytes.
func tooFat(t *tm.T, n int) bool { return uint64(n)*uint64(tm.MaxGo(t, 0)) > 4<<30 }

// noCrash decodes and turns a panic into a violation.
func noCrash(k *core.Case, t *tm.T, e tm.Enc, data []byte, how string) {
	ptr := reflect.New(t.RT)
	var err error
	pan, stack := core.Try(func() { _, err = decodeVia(k, e, data, ptr.Interface()) })
	k.Eval(1)
	if pan != nil {
		if !core.FromLibrary(stack) {
			panic(pan)
		}
		k.Detail(map[string]interface{}{"case": info(e, t, reflect.Value{}, data, how), "stack": stack})
		k.Fail("decoding hostile input panicked: %v", pan)
	}
	if err != nil {
		k.Count("errors", 1)
	} else {
		k.Count("accepted", 1)
	}
	if k.WantSample() && err != nil && len(data) > 3 && len(data) < 80 {
		k.Sample(map[string]interface{}{"case": info(e, t, reflect.Value{}, data, how), "error": errText(err)})
	}
}

var hugeInts = []int{0, 1, 2, 7, 8, 9, 16, 255, 256, 65535, 65536, 1 << 20, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, 1 << 62, math.MaxInt64 - 1, math.MaxInt64, -1, -2, -8, math.MinInt32, math.MinInt64, math.MinInt64 + 1}

func hugeInt(k *core.Case, around int) int {
	if k.P(40) {
		return around + k.N(5) - 2
	}
	return hugeInts[k.N(len(hugeInts))]
}

// rawCalls drives every exported read primitive with hostile arguments.
func rawCalls(k *core.Case) {
	e := tm.Encs[k.N(3)]
	data := k.Bytes(k.N(40))
	if k.P(30) {
		for i := range data {
			data[i] = []byte{0xff, 0x80, 0, 0x7f}[k.N(4)]
		}
	}
	d := newDecoder(e, data)
	trace := ""
	for s := 0; s < 12; s++ {
		var name string
		pan, stack := core.Try(func() { name = anyRead(k, d, len(data)) })
		trace += name + " "
		k.Eval(1)
		if pan != nil {
			if !core.FromLibrary(stack) {
				panic(pan)
			}
			k.Detail(map[string]interface{}{"encoding": e.String(), "data": core.Hex(data), "calls": trace, "stack": stack})
			k.Fail("a read primitive panicked: %v", pan)
		}
	}
	k.Seen("raw", int(e), data, trace)
	k.Count("raw_histories", 1)
}

func order(k *core.Case) binary.ByteOrder {
	if k.P(50) {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func anyRead(k *core.Case, d *bin.Decoder, n int) (name string) {
	rem := d.Remaining()
	switch k.N(34) {
	case 0:
		x := hugeInt(k, rem)
		d.ReadNBytes(x)
		return fmt.Sprintf("ReadNBytes(%d)", x)
	case 1:
		x := hugeInt(k, rem)
		d.ReadBytes(x)
		return fmt.Sprintf("ReadBytes(%d)", x)
	case 2:
		x := hugeInt(k, rem)
		d.Peek(x)
		return fmt.Sprintf("Peek(%d)", x)
	case 3:
		x := hugeInt(k, rem)
		d.Discard(x)
		return fmt.Sprintf("Discard(%d)", x)
	case 4:
		x := uint(hugeInt(k, rem))
		d.SkipBytes(x)
		return fmt.Sprintf("SkipBytes(%d)", x)
	case 5:
		x := uint(hugeInt(k, n))
		d.SetPosition(x)
		return fmt.Sprintf("SetPosition(%d)", x)
	case 6:
		d.Read(make([]byte, k.N(50)))
		return "Read"
	case 7:
		d.ReadUvarint64()
		return "ReadUvarint64"
	case 8:
		d.ReadVarint64()
		return "ReadVarint64"
	case 9:
		d.ReadVarint32()
		return "ReadVarint32"
	case 10:
		d.ReadUvarint32()
		return "ReadUvarint32"
	case 11:
		d.ReadVarint16()
		return "ReadVarint16"
	case 12:
		d.ReadUvarint16()
		return "ReadUvarint16"
	case 13:
		d.ReadByteSlice()
		return "ReadByteSlice"
	case 14:
		d.ReadLength()
		return "ReadLength"
	case 15:
		d.ReadTypeID()
		return "ReadTypeID"
	case 16:
		d.ReadDiscriminator()
		return "ReadDiscriminator"
	case 17:
		d.PeekDiscriminator()
		return "PeekDiscriminator"
	case 18:
		d.ReadCompactU16()
		return "ReadCompactU16"
	case 19:
		d.ReadOption()
		return "ReadOption"
	case 20:
		d.ReadCOption()
		return "ReadCOption"
	case 21:
		d.ReadByte()
		return "ReadByte"
	case 22:
		d.ReadBool()
		return "ReadBool"
	case 23:
		d.ReadUint16(order(k))
		d.ReadInt16(order(k))
		return "ReadUint16,ReadInt16"
	case 24:
		d.ReadUint32(order(k))
		d.ReadInt32(order(k))
		return "ReadUint32,ReadInt32"
	case 25:
		d.ReadUint64(order(k))
		d.ReadInt64(order(k))
		return "ReadUint64,ReadInt64"
	case 26:
		d.ReadUint128(order(k))
		return "ReadUint128"
	case 27:
		d.ReadInt128(order(k))
		d.ReadFloat128(order(k))
		return "ReadInt128,ReadFloat128"
	case 28:
		d.ReadFloat32(order(k))
		return "ReadFloat32"
	case 29:
		d.ReadFloat64(order(k))
		return "ReadFloat64"
	case 30:
		d.SafeReadUTF8String()
		return "SafeReadUTF8String"
	case 31:
		d.ReadString()
		return "ReadString"
	case 32:
		d.ReadRustString()
		return "ReadRustString"
	}
	d.ReadCompactU16Length()
	d.ReadInt8()
	d.ReadUint8()
	return "ReadCompactU16Length,ReadInt8,ReadUint8"
}

// nest is a type that nests without bound and the bytes of one level of it.
type nest struct {
	rt   reflect.Type
	unit map[tm.Enc][]byte
}

var nestKnown, nestWide = func() (known, wide []nest) {
	in := func(b, c, n []byte) map[tm.Enc][]byte {
		return map[tm.Enc][]byte{tm.Borsh: b, tm.Compact: c, tm.Bin: n}
	}
	one := in([]byte{1}, []byte{1}, []byte{1})
	length := in([]byte{1, 0, 0, 0}, []byte{1}, []byte{1})
	entry := in([]byte{1, 0, 0, 0, 5}, []byte{1, 5}, []byte{1, 5})
	opt := in([]byte{1}, []byte{1}, []byte{1, 0, 0, 0})
	add := func(to *[]nest, x interface{}, unit map[tm.Enc][]byte) {
		*to = append(*to, nest{reflect.TypeOf(x).Elem(), unit})
	}
	add(&known, new(st.List), in([]byte{1, 0, 1}, []byte{1, 0, 1}, []byte{1, 0, 1, 0, 0, 0}))
	add(&known, new(st.Tree), in([]byte{7, 1, 0, 0, 0}, []byte{7, 1}, []byte{7, 1}))
	add(&known, new(st.CList), in([]byte{9, 0, 0, 0, 1}, []byte{9, 0, 0, 0, 1}, []byte{9, 0, 0, 0, 1, 0, 0, 0}))
	add(&wide, new(st.NestSlice), length)
	add(&wide, new(st.NestMap), entry)
	add(&wide, new(st.NestArr), length)
	add(&wide, new(st.NestStructs), length)
	add(&wide, new(st.NestEnum), one)
	add(&wide, new(st.NestSelf), one)
	add(&wide, new(st.NestSelfSlice), length)
	add(&wide, new(st.NestPtrs), opt)
	add(&wide, new(st.NestForever), one)
	return
}()

// weightless are types of which no entry takes a byte of the input.
var weightless = []reflect.Type{
	reflect.TypeOf(map[struct{}]struct{}{}), reflect.TypeOf(map[[0]uint8]struct{}{}), reflect.TypeOf(map[struct{}][0]uint64{}),
	reflect.TypeOf(map[[3]struct{}]struct{ A, B struct{} }{}), reflect.TypeOf([]struct{}{}), reflect.TypeOf([][0]uint32{}),
	reflect.TypeOf([]struct{ A [0]string }{}), reflect.TypeOf([][4]struct{}{}), reflect.TypeOf([]*struct{}{}), reflect.TypeOf(map[struct{}]*struct{}{}),
	reflect.TypeOf(map[struct{}][2][0]int8{}), reflect.TypeOf(struct {
		A uint8
		M map[struct{}]struct{}
		B uint8
	}{}), reflect.TypeOf([]map[struct{}]struct{}{}), reflect.TypeOf(map[uint8]map[struct{}]struct{}{}), reflect.TypeOf(map[struct{}]map[struct{}]struct{}{}),
	reflect.TypeOf(struct {
		N uint32 `bin:"sizeof=S"`
		S []struct{}
	}{}), reflect.TypeOf(struct {
		N uint64 `bin:"sizeof=S"`
		S [][0]byte
	}{}),
}

// largeInputs decodes valid inputs with very many entries: the time must stay
// within reach.
func largeInputs(c *core.Ctx) {
	c.RunN("large", 3*6*2, 8, func(k *core.Case) {
		e := tm.Encs[k.I%3]
		n := []int{150000, 65000}[k.I/18]
		if e == tm.Compact {
			n = 65535
		}
		var x, y interface{}
		switch k.I / 3 % 6 {
		case 0:
			m := make(map[uint32]uint8, n)
			for i := 0; i < n; i++ {
				m[uint32(i)*7] = uint8(i)
			}
			x, y = m, &map[uint32]uint8{}
		case 1:
			m := make(map[string][]uint8, n)
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("key %d", i)] = []byte{1}
			}
			x, y = m, &map[string][]uint8{}
		case 2:
			l := make([]st.Base, n)
			for i := range l {
				l[i].ID = uint32(i)
			}
			x, y = l, &[]st.Base{}
		case 3:
			l := make([]*uint16, n)
			for i := range l {
				z := uint16(i)
				l[i] = &z
			}
			x, y = l, &[]*uint16{}
		case 4:
			l := make([]string, n)
			for i := range l {
				l[i] = "s"
			}
			x, y = l, &[]string{}
		case 5:
			x, y = make([][3]bool, n), &[][3]bool{}
		}
		b, err := marshal(e, x)
		k.Detail(map[string]interface{}{"encoding": e.String(), "type": fmt.Sprintf("%T", x), "entries": n})
		if err != nil {
			k.Fail("encoding failed: %v", err)
		}
		k.Eval(1)
		k.Count("large", 1)
		k.Seen("large", int(e), k.I)
		if pan, _ := core.Try(func() { err = unmarshal(e, y, b) }); pan != nil {
			k.Fail("decoding a large input panics: %v", pan)
		}
		if err != nil {
			k.Count("errors", 1)
		} else {
			k.Count("accepted", 1)
		}
	})
}

// weightlessInputs declares very many entries that take no bytes: the time may
// not follow the declared number (the watcher ends a case that burns too much).
func weightlessInputs(c *core.Ctx) {
	c.RunN("weightless", len(weightless)*3*5, 4, func(k *core.Case) {
		rt := weightless[k.I%len(weightless)]
		e := tm.Encs[k.I/len(weightless)%3]
		w := tm.W{}
		if rt.Kind() == reflect.Struct {
			if rt.NumField() == 3 {
				w.Byte(7)
			}
		} else if k.P(50) && rt.Elem().Kind() == reflect.Map {
			w.Length(e, 1)
			if rt.Kind() == reflect.Map && rt.Key().Kind() == reflect.Uint8 {
				w.Byte(3)
			}
		}
		x := []uint64{math.MaxUint32, math.MaxInt32, math.MaxUint32 - 1, math.MaxInt32 - 8, 1 << 30}[k.I/len(weightless)/3]
		switch {
		case rt.Kind() == reflect.Struct && rt.Field(0).Type.Kind() == reflect.Uint32:
			w.Fixed(x, 4, false)
		case rt.Kind() == reflect.Struct && rt.Field(0).Type.Kind() == reflect.Uint64:
			w.Fixed(x, 8, false)
		default:
			hugeLen(k, &w, e, x)
		}
		for i := k.N(3); i > 0; i-- {
			hugeLen(k, &w, e, x)
		}
		k.Detail(map[string]interface{}{"type": rt.String(), "encoding": e.String(), "data": core.Hex(w.B), "declared": x})
		unmarshal(e, reflect.New(rt).Interface(), w.B)
		k.Eval(1)
		k.Count("weightless", 1)
		k.Seen("weightless", rt.String(), int(e), w.B)
	})
}

// deepInputs nests recursive types as deep as an input of n bytes can.
func deepInputs(c *core.Ctx) {
	deep, wide := nestKnown, nestWide
	c.RunN("deepest", len(wide)*3*4, 2, func(k *core.Case) {
		d := wide[k.I%len(wide)]
		e := tm.Encs[k.I/len(wide)%3]
		n := []int{4 << 10, 1 << 20, 8 << 20, 64 << 20}[k.I/len(wide)/3]
		data := bytes.Repeat(d.unit[e], n/len(d.unit[e]))
		rt := d.rt
		k.Detail(map[string]interface{}{"type": rt.String(), "encoding": e.String(), "unit": core.Hex(d.unit[e]), "bytes": len(data)})
		err := unmarshal(e, reflect.New(rt).Interface(), data)
		k.Eval(1)
		k.Count("deep_inputs", 1)
		k.Seen("deepest", rt.String(), int(e), n)
		if err == nil {
			k.Fail("a value nested beyond the end of the input was accepted")
		}
	})
	c.RunN("deep", len(deep)*3*4, 2, func(k *core.Case) {
		d := deep[k.I%len(deep)]
		e := tm.Encs[k.I/len(deep)%3]
		n := []int{100, 4 << 10, 64 << 10, 4 << 20}[k.I/len(deep)/3]
		data := bytes.Repeat(d.unit[e], n/len(d.unit[e]))
		ptr := reflect.New(d.rt)
		k.Detail(map[string]interface{}{"type": d.rt.String(), "encoding": e.String(), "unit": core.Hex(d.unit[e]), "bytes": len(data)})
		err := unmarshal(e, ptr.Interface(), data)
		k.Eval(1)
		k.Count("deep_inputs", 1)
		k.Seen("deep", d.rt.String(), int(e), n)
		if err == nil {
			k.Fail("a value nested beyond the end of the input was accepted")
		}
	})
}

// hostileVariant dispatches damaged bytes through variant definitions.
func hostileVariant(c *core.Ctx, n int) {
	c.Run("variant", n, func(k *core.Case) {
		te := []bin.TypeIDEncoding{bin.Uvarint32TypeIDEncoding, bin.Uint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.AnchorTypeIDEncoding, bin.NoTypeIDEncoding}[k.N(5)]
		vt := []bin.VariantType{{Name: "a", Type: (*st.Account)(nil)}, {Name: "b", Type: st.Base{}}, {Name: "c", Type: (*st.EnumA)(nil)}, {Name: "d", Type: uint64(0)}, {Name: "e", Type: []string{}}}
		if te == bin.NoTypeIDEncoding {
			vt = vt[:1]
		}
		def := bin.NewVariantDefinition(te, vt)
		e := tm.Encs[k.N(3)]
		data := k.Bytes(k.N(60))
		if k.P(70) && len(data) > 8 {
			for i := range data[:8] {
				data[i] = byte(k.N(2))
			}
			data[0] = byte(k.N(7))
			if te == bin.AnchorTypeIDEncoding {
				copy(data, bin.Sighash("global", vt[k.N(len(vt))].Name))
			}
		}
		var bv bin.BaseVariant
		pan, stack := core.Try(func() { bv.UnmarshalBinaryVariant(newDecoder(e, data), def) })
		k.Eval(1)
		k.Seen("variant", int(te), int(e), data)
		if pan != nil {
			if !core.FromLibrary(stack) {
				panic(pan)
			}
			k.Detail(map[string]interface{}{"encoding": e.String(), "type_id_encoding": int(te), "data": core.Hex(data), "stack": stack})
			k.Fail("decoding a hostile variant panicked: %v", pan)
		}
	})
}

// verdict judges the library's answer on one input against the reference parser.
func verdict(k *core.Case, t *tm.T, e tm.Enc, data []byte, how string) {
	want, r, stt := tm.Decode(t, e, data)
	if r.Unsure {
		k.Count("outside_model", 1)
		return
	}
	in, untouched := guarded(data, []byte{0, 1, 0xff, 0x5a}[k.N(4)])
	ptr := reflect.New(t.RT)
	var d *bin.Decoder
	var err error
	k.Detail(info(e, t, reflect.Value{}, data, how))
	d = newDecoder(e, in)
	err = d.Decode(ptr.Interface())
	k.Eval(1)
	if s := untouched(); s != "" {
		k.Fail("decoding changed its input: %s", s)
	}
	switch {
	case stt != tm.OK:
		if err == nil {
			k.Detail(info(e, t, ptr.Elem(), data, how))
			k.Fail("input that is %s was accepted", stt)
		}
		k.Count("refused_"+stt.String(), 1)
		if k.WantSample() && len(data) > 3 && len(data) < 80 {
			k.Sample(map[string]interface{}{"case": info(e, t, reflect.Value{}, data, how), "model": stt.String(), "error": errText(err)})
		}
	case r.Lenient:
		if err != nil {
			k.Count("lenient_refused", 1)
			return
		}
		k.Count("lenient_accepted", 1)
		if df := tm.Diff(t, e, want, ptr.Elem()); df != "" {
			k.Fail("accepted input decoded to another value: %s", df)
		}
		if int(d.Position()) != r.P {
			k.Fail("decoding consumed %d bytes, the value has %d", d.Position(), r.P)
		}
	default:
		k.Count("valid", 1)
		if err != nil {
			k.Fail("well-formed input was refused: %v", err)
		}
		if df := tm.Diff(t, e, want, ptr.Elem()); df != "" {
			k.Fail("accepted input decoded to another value: %s", df)
		}
		if int(d.Position()) != r.P {
			k.Fail("decoding consumed %d bytes, the value has %d", d.Position(), r.P)
		}
	}
}

// everyPrefix cuts a valid encoding at every offset.
func everyPrefix(c *core.Ctx, n int) {
	c.Run("prefixes", n, func(k *core.Case) {
		cf := anyEnc(k)
		cf.BigLens, cf.BigMax = k.P(6), 2100
		g := tm.NewGen(k.Rng, cf)
		t := tm.Of(g.Top())
		if k.P(20) {
			t = tm.Of(tm.StaticTypes()[k.N(len(tm.StaticTypes()))])
		}
		w, err := tm.Encode(t, cf.Enc, g.Value(t))
		if err != nil {
			return
		}
		if tooFat(t, len(w.B)) {
			return
		}
		step := 1 + len(w.B)/400
		for i := 0; i < len(w.B); i += step {
			verdict(k, t, cf.Enc, w.B[:i], fmt.Sprintf("first %d of %d bytes", i, len(w.B)))
		}
		k.Count("cut_points", int64(len(w.B)/step))
		k.Seen("prefix", int(cf.Enc), typeStr(t), w.B)
	})
}

var maxUse int64

var memBuf runtime.MemStats

func allocated(fn func()) uint64 {
	runtime.ReadMemStats(&memBuf)
	a := memBuf.TotalAlloc
	fn()
	runtime.ReadMemStats(&memBuf)
	return memBuf.TotalAlloc - a
}

// budget is what decoding n bytes into t may allocate: linear in n, with the
// in-memory size of the widest element as the factor.
func budget(t *tm.T, n int) uint64 {
	return uint64(16<<10) + uint64(6*tm.MaxGo(t, 0)) + uint64(n+1)*uint64(800+8*tm.MaxGo(t, 0))
}

func allocCheck(k *core.Case, t *tm.T, e tm.Enc, data []byte, how string, limit uint64) {
	ptr := reflect.New(t.RT)
	var err error
	used := allocated(func() { err = newDecoder(e, data).Decode(ptr.Interface()) })
	k.Eval(1)
	if used > limit {
		// measure again: only a repeatable excess counts
		k.Count("remeasured", 1)
		again := used
		for i := 0; i < 4 && again > limit; i++ {
			again = allocated(func() { newDecoder(e, data).Decode(reflect.New(t.RT).Interface()) })
		}
		if again > limit {
			k.Detail(info(e, t, reflect.Value{}, data, how))
			k.Fail("decoding %d bytes allocated %d bytes (again %d), more than the linear budget of %d (error: %s)", len(data), used, again, limit, errText(err))
		}
	}
	p := int64(used * 100 / limit)
	if v := int64(used * 1000 / limit); v > atomic.LoadInt64(&maxUse) {
		atomic.StoreInt64(&maxUse, v)
	}
	k.C.Note("max_budget_use_permille", atomic.LoadInt64(&maxUse))
	switch {
	case p > 50:
		k.Count("budget_use_over_50pct", 1)
	case p > 10:
		k.Count("budget_use_10_50pct", 1)
	default:
		k.Count("budget_use_under_10pct", 1)
	}
}

func init() {
	reg(&core.Prop{ID: "C07", Rule: hostileRule, Need: map[string]int64{"errors": 5000, "accepted": 1000, "raw_histories": 1000, "deep_inputs": 144, "weightless": 200}, Run: func(c *core.Ctx) {
		hostileInputs(c, "mutated", c.Scaled(7000), 3, anyEnc, noCrash)
		c.Run("raw", c.Scaled(30000), rawCalls)
		hostileVariant(c, c.Scaled(12000))
		deepInputs(c)
		weightlessInputs(c)
		largeInputs(c)
		c.Run("compact", c.Scaled(20000), func(k *core.Case) {
			b := k.Bytes(k.N(6))
			pan, _ := core.Try(func() {
				bin.DecodeCompactU16(b)
				bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader(b))
				bin.TypeIDFromBytes(k.Bytes(k.N(12)))
			})
			k.Eval(1)
			if pan != nil {
				k.Detail(core.Hex(b))
				k.Fail("compact-u16 decoding panicked: %v", pan)
			}
		})
	}})
	reg(&core.Prop{ID: "C08", Rule: hostileRule + " The verdict comes from an independent parser of the formats; the input is surrounded by poison.", Need: map[string]int64{"refused_truncated": 2000, "refused_rejected": 200, "valid": 1000, "cut_points": 5000, "varints": 5000}, Run: func(c *core.Ctx) {
		hostileInputs(c, "mutated", c.Scaled(9000), 3, anyEnc, verdict)
		everyPrefix(c, c.Scaled(1500))
		// varints out of range, without an end, of more bits than there are
		c.Run("varints", c.Scaled(12000), func(k *core.Case) {
			raw := hostileVarint(k)
			data := append(append([]byte(nil), raw...), k.Bytes(k.N(3))...)
			e := tm.Encs[k.N(3)]
			in, untouched := guarded(data, []byte{0, 1, 0xff, 0x5a}[k.N(4)])
			d := newDecoder(e, in)
			u, n := refUvarint(data)
			x := tm.UnZigZag(u)
			calls := []struct {
				name string
				read func() (interface{}, error)
				want interface{}
				ok   bool
			}{
				{"ReadUvarint64", func() (interface{}, error) { return d.ReadUvarint64() }, u, true},
				{"ReadUvarint32", func() (interface{}, error) { return d.ReadUvarint32() }, uint32(u), u <= math.MaxUint32},
				{"ReadUvarint16", func() (interface{}, error) { return d.ReadUvarint16() }, uint16(u), u <= math.MaxUint16},
				{"ReadVarint64", func() (interface{}, error) { return d.ReadVarint64() }, x, true},
				{"ReadVarint32", func() (interface{}, error) { return d.ReadVarint32() }, int32(x), x == int64(int32(x))},
				{"ReadVarint16", func() (interface{}, error) { return d.ReadVarint16() }, int16(x), x == int64(int16(x))},
			}
			call := calls[k.N(len(calls))]
			k.Detail(map[string]interface{}{"encoding": e.String(), "call": call.name, "data": core.Hex(data)})
			k.Seen("varints", call.name, data)
			got, err := call.read()
			k.Eval(1)
			k.Count("varints", 1)
			if s := untouched(); s != "" {
				k.Fail("%s changed its input: %s", call.name, s)
			}
			if n < 0 || !call.ok {
				if err == nil {
					k.Fail("%s gave %v on a varint that has no such value", call.name, got)
				}
				return
			}
			if err != nil { // written longer than needed: either answer, but no other value
				if w := (tm.W{}); n == w.Uvarint(u) {
					k.Fail("%s refused a well-formed varint: %v", call.name, err)
				}
				return
			}
			if got != call.want || int(d.Position()) != n {
				k.Fail("%s gave %v at %d, want %v at %d", call.name, got, d.Position(), call.want, n)
			}
		})
		// a declared length just beyond what is there, for every element type and position
		c.Run("lengths", c.Scaled(12000), func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			g := tm.NewGen(k.Rng, tm.Full(e))
			t, w := headed(k, g, e, k.N(6))
			verdict(k, t, e, w, "declared length against available bytes")
			k.Seen("lengths", int(e), typeStr(t), w)
		})
	}})
	reg(&core.Prop{ID: "C09", Rule: hostileRule + " Each decode runs alone on a quiet process and the bytes it allocated are read from the runtime's accounting.", Quick: 100, Thor: 1000, Need: map[string]int64{"huge_counts": 3000, "fat_elements": 100}, Run: func(c *core.Ctx) {
		// one worker: the accounting is process-wide
		c.RunN("counts", c.Scaled(9000), 1, func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			g := tm.NewGen(k.Rng, tm.Full(e))
			t, w := headed(k, g, e, k.N(3))
			k.Count("huge_counts", 1)
			k.Seen("counts", int(e), typeStr(t), w)
			allocCheck(k, t, e, w, "huge declared count", budget(t, len(w)))
			if k.WantSample() {
				k.Sample(info(e, t, reflect.Value{}, w, "huge declared count"))
			}
		})
		c.RunN("mutated", c.Scaled(1500), 1, func(k *core.Case) {
			cf := anyEnc(k)
			g := tm.NewGen(k.Rng, cf)
			t := tm.Of(g.Top())
			for j := 0; j < 2; j++ {
				w, err := tm.Encode(t, cf.Enc, g.Value(t))
				if err != nil {
					continue
				}
				for i := 0; i < 3; i++ {
					data, how := mutate(k, w.B, w.Marks, cf.Enc)
					if _, r, _ := tm.Decode(t, cf.Enc, data); r.Unsure {
						continue
					}
					k.Seen(int(cf.Enc), typeStr(t), data)
					allocCheck(k, t, cf.Enc, data, how, budget(t, len(data)))
				}
			}
		})
		// elements with many bytes each, where a count the input could not possibly
		// hold is still smaller than the number of bytes that are left
		c.RunN("fat", c.Scaled(150), 1, func(k *core.Case) {
			e := tm.Encs[k.I%3]
			n := []int{600, 1024, 2048, 4096}[k.N(4)]
			inner := []reflect.Type{reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf([2]uint64{}), reflect.TypeOf(bin.Uint64(0))}[k.N(5)]
			el := reflect.ArrayOf(n, inner)
			switch k.N(4) {
			case 0:
				el = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "B", Type: el}})
			case 1:
				el = reflect.StructOf([]reflect.StructField{{Name: "A", Type: el}, {Name: "B", Type: reflect.TypeOf("")}})
			}
			size := tm.MinSize(tm.Of(el), e)
			body := make([]byte, k.N(3)*size/2+200)
			count := []int{len(body), len(body) - 1, len(body) - 20, len(body) / 2, len(body)/size + 1}[k.N(5)]
			if e == tm.Compact && count > 0xffff {
				count = 0xffff
			}
			w := tm.W{}
			rt := reflect.SliceOf(el)
			switch k.N(4) {
			case 0:
				rt = reflect.MapOf(reflect.TypeOf(uint16(0)), el)
				w.Length(e, count)
			case 1:
				rt = reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.TypeOf(uint32(0)), Tag: `bin:"sizeof=S"`}, {Name: "S", Type: rt}})
				w.Fixed(uint64(count), 4, false)
			default:
				w.Length(e, count)
			}
			w.Raw(body)
			k.Count("fat_elements", 1)
			k.Seen("fat", int(e), rt.String(), len(body), count)
			held := uint64(len(w.B)/size + 2)
			allocCheck(k, tm.Of(rt), e, w.B, fmt.Sprintf("%d elements of %d bytes declared", count, size), 64<<10+uint64(len(w.B))*300+8*held*uint64(el.Size()))
		})
		// growth: a well-formed input twice as long must not cost four times as much
		c.RunN("growth", c.Scaled(400), 1, func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			cf := tm.Full(e)
			g := tm.NewGen(k.Rng, cf)
			el := g.Scalar()
			if k.P(40) {
				el = reflect.TypeOf(st.Base{})
			} else if k.P(20) {
				el = reflect.TypeOf([]byte(nil))
			}
			rt := reflect.SliceOf(el)
			n := 1000 + k.N(3000)
			v := reflect.MakeSlice(rt, n, n)
			for i := 0; i < n; i++ {
				g.Left = 3
				v.Index(i).Set(g.Value(tm.Of(el)))
			}
			t := tm.Of(rt)
			w, err := tm.Encode(t, e, v)
			if err != nil {
				return
			}
			k.Seen("growth", int(e), rt.String(), n)
			allocCheck(k, t, e, w.B, "large well-formed input", uint64(64<<10)+uint64(len(w.B))*3000)
		})
		// nesting: the error a deeply nested failure returns is memory too
		nests := append(append([]nest(nil), nestKnown...), nestWide[:len(nestWide)-1]...) // the last one is endless on no input at all
		c.RunN("nested", len(nests)*9, 1, func(k *core.Case) {
			d := nests[k.I%len(nests)]
			e := tm.Encs[k.I/len(nests)%3]
			unit := d.unit[e]
			data := bytes.Repeat(unit, []int{1000, 4000, 9000}[k.I/len(nests)/3])
			allocCheck(k, tm.Of(d.rt), e, data, "nested until the input ends", uint64(64<<10)+uint64(len(data)/len(unit))*2500)
			k.Count("nested_failures", 1)
			k.Seen("nested", d.rt.String(), int(e), len(data))
		})
		c.RunN("primitives", c.Scaled(3000), 1, func(k *core.Case) {
			e := tm.Encs[k.N(3)]
			w := tm.W{}
			x := []uint64{1 << 16, 1 << 20, 1 << 24, math.MaxInt32, math.MaxInt32 - 8, 1 << 31, math.MaxUint32, 1 << 40, math.MaxInt64, math.MaxUint64}[k.N(10)]
			kind := k.N(6)
			if kind == 2 {
				w.Fixed(x, 8, false)
			} else {
				hugeLen(k, &w, e, x)
			}
			w.Raw(k.Bytes(k.N(8)))
			var err error
			call := func() {
				d := newDecoder(e, w.B)
				switch kind {
				case 0:
					_, err = d.ReadByteSlice()
				case 1:
					_, err = d.ReadString()
				case 2:
					_, err = d.ReadRustString()
				case 3:
					_, err = d.SafeReadUTF8String()
				case 4:
					_, err = d.ReadNBytes(int(x))
				case 5:
					_, err = d.Peek(int(x))
				}
			}
			used := allocated(call)
			for i := 0; i < 4 && used > 16<<10; i++ {
				used = allocated(call)
			}
			k.Eval(1)
			k.Seen("prim", int(e), kind, w.B)
			k.Detail(map[string]interface{}{"encoding": e.String(), "call": kind, "data": core.Hex(w.B)})
			if used > 16<<10 {
				k.Fail("a read primitive allocated %d bytes on %d bytes of input", used, len(w.B))
			}
			if e == tm.Borsh && kind != 2 && kind < 4 {
				x &= math.MaxUint32
			}
			if err == nil && x > 8 && (e != tm.Compact || kind >= 4 || kind == 2) {
				k.Fail("a length of %d on %d bytes of input was accepted", x, len(w.B))
			}
		})
	}})
}

// refUvarint is an independent reader of base-128 numbers of at most 64 bits; n
// is negative if there is none.
func refUvarint(b []byte) (x uint64, n int) {
	for i, c := range b {
		low := uint64(c & 0x7f)
		if i > 9 || i == 9 && c > 1 {
			return 0, -1
		}
		x |= low << uint(7*i)
		if c < 0x80 {
			return x, i + 1
		}
	}
	return 0, -1
}

func hugeLen(k *core.Case, w *tm.W, e tm.Enc, x uint64) {
	switch e {
	case tm.Bin:
		w.Uvarint(x)
	case tm.Borsh:
		w.Fixed(x, 4, false)
	case tm.Compact:
		w.Raw([]byte{0xff, 0xff, 0x03})
	}
}

// headed builds an input that declares far more (or just more) elements than it
// has, for a collection at a random place; mode 0,1: huge, else: off by a little.
func headed(k *core.Case, g *tm.Gen, e tm.Enc, mode int) (*tm.T, []byte) {
	w := tm.W{}
	el := g.Scalar()
	switch k.N(8) {
	case 0:
		el = reflect.TypeOf(st.Account{})
	case 1:
		el = reflect.TypeOf([16]uint64{})
	case 2:
		el = reflect.TypeOf("")
	case 3:
		el = tm.LibList[k.N(len(tm.LibList))].RT
		if tm.LibOf(el).PtrOnly {
			el = reflect.PtrTo(el)
		}
	case 4:
		el = reflect.TypeOf([]uint32(nil))
	}
	wide := tm.MinSize(elemT(el), e)
	body := k.Bytes(k.N(40))
	x := []uint64{1 << 12, 1 << 16, 1 << 20, 1 << 24, 1 << 28, math.MaxInt32, math.MaxInt32 - 8, 1 << 31, math.MaxUint32, math.MaxUint32 - 1, 1 << 40, 1 << 60, 1 << 61, 1<<61 + 1, 1 << 62, math.MaxInt64, 1 << 63, math.MaxUint64}[k.N(18)]
	if mode > 1 {
		x = uint64(len(body)/max(wide, 1) + k.N(4) - 1)
		if k.P(30) {
			x = uint64(len(body) + k.N(3) - 1)
		}
		if int64(x) < 0 {
			x = 0
		}
	}
	counted := k.P(20)
	var rt reflect.Type
	switch sel := k.N(10); {
	case counted:
		rt = reflect.SliceOf(el)
	case sel < 6:
		rt = reflect.SliceOf(el)
	case sel < 7:
		rt = reflect.TypeOf("")
	case sel < 9:
		kt := []reflect.Type{reflect.TypeOf(uint32(0)), reflect.TypeOf(""), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint64(0))}[k.N(5)]
		rt = reflect.MapOf(kt, el)
	default:
		rt = reflect.TypeOf(bin.HexBytes(nil))
		if k.P(50) {
			rt = reflect.TypeOf(bin.SafeString(""))
		}
	}
	if counted {
		ck := []reflect.Type{reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0))}[k.N(7)]
		w.Fixed(x, int(ck.Size()), false)
		w.Raw(body)
		rt = reflect.StructOf([]reflect.StructField{{Name: "N", Type: ck, Tag: `bin:"sizeof=S"`}, {Name: "S", Type: rt}})
		return tm.Of(rt), w.B
	}
	nest := k.N(3)
	if nest == 1 {
		w.Byte(7)
		rt2 := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "B", Type: rt}, {Name: "C", Type: reflect.TypeOf(uint32(0))}})
		defer func() {}()
		lenOf(k, &w, e, rt, x)
		w.Raw(body)
		return tm.Of(rt2), w.B
	}
	if nest == 2 {
		w.Length(e, 1)
		lenOf(k, &w, e, rt, x)
		w.Raw(body)
		return tm.Of(reflect.SliceOf(rt)), w.B
	}
	lenOf(k, &w, e, rt, x)
	w.Raw(body)
	return tm.Of(rt), w.B
}

func elemT(rt reflect.Type) *tm.T { return tm.Of(reflect.SliceOf(rt)).Elem }

func lenOf(k *core.Case, w *tm.W, e tm.Enc, rt reflect.Type, x uint64) {
	switch {
	case e == tm.Bin && rt.Kind() == reflect.String && tm.LibOf(rt) == nil:
		w.Fixed(x, 8, false)
	case e == tm.Compact:
		if x <= 0xffff {
			w.Uvarint(x)
		} else {
			w.Raw([]byte{0xff, 0xff, 0x03})
		}
	default:
		hugeLen(k, w, e, x)
	}
}

var _ = errors.Is
var _ io.Reader
