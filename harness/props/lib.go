// Package props holds one monitor per property. Everything goes through the
// exported API of the library under test.
package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"reflect"
	"sort"
	"strings"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	_ "vmon/st"
	"vmon/tm"
)

var all = map[string]*core.Prop{}

func reg(p *core.Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.Quick == 0 {
		p.Quick = 100
	}
	if p.Thor == 0 {
		p.Thor = 2000
	}
	all[p.ID] = p
}

func Get(id string) *core.Prop { return all[id] }
func All() (out []*core.Prop) {
	for _, p := range all {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return
}

func encOf(e tm.Enc) bin.Encoding {
	switch e {
	case tm.Bin:
		return bin.EncodingBin
	case tm.Compact:
		return bin.EncodingCompactU16
	}
	return bin.EncodingBorsh
}

func newEncoder(e tm.Enc, w interface{ Write([]byte) (int, error) }) *bin.Encoder {
	switch e {
	case tm.Bin:
		return bin.NewBinEncoder(w)
	case tm.Compact:
		return bin.NewCompactU16Encoder(w)
	}
	return bin.NewBorshEncoder(w)
}

func newDecoder(e tm.Enc, data []byte) *bin.Decoder {
	switch e {
	case tm.Bin:
		return bin.NewBinDecoder(data)
	case tm.Compact:
		return bin.NewCompactU16Decoder(data)
	}
	return bin.NewBorshDecoder(data)
}

func marshal(e tm.Enc, x interface{}) ([]byte, error) {
	switch e {
	case tm.Bin:
		return bin.MarshalBin(x)
	case tm.Compact:
		return bin.MarshalCompactU16(x)
	}
	return bin.MarshalBorsh(x)
}

func unmarshal(e tm.Enc, x interface{}, data []byte) error {
	switch e {
	case tm.Bin:
		return bin.UnmarshalBin(x, data)
	case tm.Compact:
		return bin.UnmarshalCompactU16(x, data)
	}
	return bin.UnmarshalBorsh(x, data)
}

func byteCount(e tm.Enc, x interface{}) (uint64, error) {
	switch e {
	case tm.Bin:
		return bin.BinByteCount(x)
	case tm.Compact:
		return bin.CompactU16ByteCount(x)
	}
	return bin.BorshByteCount(x)
}

func mustByteCount(e tm.Enc, x interface{}) uint64 {
	switch e {
	case tm.Bin:
		return bin.MustBinByteCount(x)
	case tm.Compact:
		return bin.MustCompactU16ByteCount(x)
	}
	return bin.MustBorshByteCount(x)
}

// typeStr writes a type out, shortened.
func typeStr(t *tm.T) string {
	s := t.RT.String()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func valStr(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

type caseInfo struct {
	Encoding string `json:"encoding"`
	Type     string `json:"type"`
	Value    string `json:"value,omitempty"`
	Bytes    string `json:"bytes,omitempty"`
	Note     string `json:"note,omitempty"`
}

func info(e tm.Enc, t *tm.T, v reflect.Value, b []byte, note string) caseInfo {
	c := caseInfo{Encoding: e.String(), Type: typeStr(t), Bytes: core.Hex(b), Note: note}
	if v.IsValid() {
		c.Value = valStr(v)
	}
	return c
}

// iface passes a value to the library by value or behind a pointer.
func iface(k *core.Case, v reflect.Value) interface{} {
	if t := tm.LibOf(v.Type()); t != nil && t.PtrOnly {
		return v.Addr().Interface()
	}
	if k.P(50) && v.CanAddr() && v.Kind() != reflect.Map && v.Kind() != reflect.Ptr {
		return v.Addr().Interface()
	}
	return v.Interface()
}

// encodeVia drives one of the equivalent entry points.
func encodeVia(k *core.Case, e tm.Enc, x interface{}) (out []byte, err error) {
	switch k.N(5) {
	case 0:
		return marshal(e, x)
	case 1:
		var buf bytes.Buffer
		err = newEncoder(e, &buf).Encode(x)
		return buf.Bytes(), err
	case 3:
		w, got := anyWriter(k)
		err = newEncoder(e, w).Encode(x)
		return got(), err
	case 2:
		w := &sink{}
		err = bin.NewEncoderWithEncoding(w, encOf(e)).Encode(x)
		return w.b, err
	}
	w := bin.NewWriteByWrite("w")
	err = newEncoder(e, w).Encode(x)
	return w.Bytes(), err
}

// sink keeps a copy of every write and scribbles over nothing.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// ample also offers what the writers of the standard library do.
type ample struct{ sink }

func (a *ample) WriteByte(b byte) error            { a.b = append(a.b, b); return nil }
func (a *ample) WriteString(s string) (int, error) { a.b = append(a.b, s...); return len(s), nil }
func (a *ample) Len() int                          { return len(a.b) }
func (a *ample) Bytes() []byte                     { return a.b }
func (a *ample) Reset()                            { a.b = nil }
func (a *ample) Truncate(n int)                    { a.b = a.b[:n] }
func (a *ample) ReadFrom(r io.Reader) (int64, error) {
	b, err := ioutil.ReadAll(r)
	a.b = append(a.b, b...)
	return int64(len(b)), err
}

// anyWriter draws a destination of the kinds programs use, new or with content,
// and a function that says what an encoder has added to it.
func anyWriter(k *core.Case) (io.Writer, func() []byte) {
	had := k.Bytes(k.N(30))
	switch k.N(8) {
	case 0:
		buf := &bytes.Buffer{}
		buf.Write(had)
		return buf, func() []byte { return buf.Bytes()[len(had):] }
	case 1:
		buf := &bytes.Buffer{}
		buf.Write(had)
		n := k.N(len(had) + 1)
		buf.Next(n)
		return buf, func() []byte { return buf.Bytes()[len(had)-n:] }
	case 2:
		sb := &strings.Builder{}
		sb.Write(had)
		return sb, func() []byte { return []byte(sb.String()[len(had):]) }
	case 3:
		s := &sink{}
		bw := bufio.NewWriterSize(s, 16+k.N(60))
		bw.Write(had)
		return bw, func() []byte { bw.Flush(); return s.b[len(had):] }
	case 4:
		a, b := &sink{}, &bytes.Buffer{}
		return io.MultiWriter(a, b), func() []byte {
			if !bytes.Equal(a.b, b.Bytes()) {
				k.Fail("two writers of one encoding got %x and %x", a.b, b.Bytes())
			}
			return a.b
		}
	case 5:
		a := &ample{}
		a.Write(had)
		return a, func() []byte { return a.b[len(had):] }
	case 6:
		w := bin.NewWriteByWrite("w")
		w.Write(had)
		return w, func() []byte { return w.Bytes()[len(had):] }
	}
	var out []byte
	return writerFunc(func(p []byte) (int, error) { out = append(out, p...); return len(p), nil }), func() []byte { return out }
}

// decodeVia drives one of the equivalent entry points; consumed is -1 when the
// entry point does not reveal it.
func decodeVia(k *core.Case, e tm.Enc, data []byte, ptr interface{}) (consumed int, err error) {
	switch k.N(5) {
	case 0:
		return -1, unmarshal(e, ptr, data)
	case 1:
		d := newDecoder(e, data)
		err = d.Decode(ptr)
		return int(d.Position()), err
	case 2:
		d := bin.NewDecoderWithEncoding(data, encOf(e))
		err = d.Decode(ptr)
		return int(d.Position()), err
	case 3:
		d := newDecoder(tm.Encs[k.N(3)], []byte{1, 2, 3})
		d.SetEncoding(encOf(e))
		d.Reset(data)
		err = d.Decode(ptr)
		return int(d.Position()), err
	}
	pre := k.N(9)
	buf := make([]byte, pre, pre+len(data))
	buf = append(buf, data...)
	d := newDecoder(e, buf)
	if err := d.SkipBytes(uint(pre)); err != nil {
		return -1, err
	}
	err = d.Decode(ptr)
	return int(d.Position()) - pre, err
}

// guarded copies data into a larger buffer, so that the bytes around it (and in
// its spare capacity) are poison.
func guarded(data []byte, poison byte) (slice []byte, check func() string) {
	const z = 48
	buf := make([]byte, z+len(data)+z)
	for i := range buf {
		buf[i] = poison
	}
	copy(buf[z:], data)
	want := append([]byte(nil), buf...)
	return buf[z : z+len(data)], func() string {
		if !bytes.Equal(buf, want) {
			for i := range buf {
				if buf[i] != want[i] {
					return fmt.Sprintf("input buffer byte %d changed from %#x to %#x", i-z, want[i], buf[i])
				}
			}
		}
		return ""
	}
}

// conformEnc checks the library's bytes for v against the reference, returning
// the reference writer (nil when v is not encodable).
func conformEnc(k *core.Case, t *tm.T, e tm.Enc, v reflect.Value) *tm.W {
	w, werr := tm.Encode(t, e, v)
	k.Detail(info(e, t, v, nil, ""))
	got, gerr := encodeVia(k, e, iface(k, v))
	k.Eval(1)
	if werr != nil {
		k.Count("encode_refusals", 1)
		if gerr == nil {
			k.Detail(info(e, t, v, got, ""))
			k.Fail("encoding succeeded although the value has no encoding (%v)", werr)
		}
		return nil
	}
	if gerr != nil {
		k.Fail("encoding a supported value failed: %v", gerr)
	}
	if bytes.Equal(got, w.B) {
		return w
	}
	if e != tm.Borsh && multiMap(t, v) && len(got) == len(w.B) {
		// map order is free: the bytes must parse back, strictly, to the same value
		dv, r, st := tm.Decode(t, e, got)
		if st == tm.OK && !r.Lenient && r.P == len(got) && tm.Diff(t, e, v, dv) == "" {
			k.Count("free_map_order", 1)
			return w
		}
	}
	k.Detail(map[string]interface{}{"case": info(e, t, v, nil, ""), "got": core.Hex(got), "want": core.Hex(w.B)})
	k.Fail("encoded bytes differ from the format at offset %d (got %d bytes, want %d)", firstDiff(got, w.B), len(got), len(w.B))
	return nil
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// multiMap reports whether v holds a map with several entries on the wire.
func multiMap(t *tm.T, v reflect.Value) bool {
	switch t.K {
	case tm.Map:
		if v.Len() > 1 {
			return true
		}
		for it := v.MapRange(); it.Next(); {
			if multiMap(t.Elem, it.Value()) {
				return true
			}
		}
	case tm.Slice, tm.Arr:
		switch t.Elem.K {
		case tm.Struct, tm.Map, tm.Slice, tm.Arr, tm.Ptr:
			for i := 0; i < v.Len(); i++ {
				if multiMap(t.Elem, v.Index(i)) {
					return true
				}
			}
		}
	case tm.Ptr:
		return !v.IsNil() && multiMap(t.Elem, v.Elem())
	case tm.Struct:
		for i := range t.F {
			if !t.F[i].Hidden() && multiMap(t.F[i].T, v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// conformDec checks that the library decodes data (a canonical encoding) to the
// reference's value and consumes the same bytes.
func conformDec(k *core.Case, t *tm.T, e tm.Enc, data []byte) reflect.Value {
	want, r, st := tm.Decode(t, e, data)
	if st != tm.OK || r.Unsure {
		panic(fmt.Sprintf("model cannot decode its own output: %v %s %s", st, typeStr(t), core.Hex(data)))
	}
	ptr := reflect.New(t.RT)
	k.Detail(info(e, t, want, data, "decode"))
	n, err := decodeVia(k, e, data, ptr.Interface())
	k.Eval(1)
	if err != nil {
		k.Fail("decoding a valid encoding failed: %v", err)
	}
	if n >= 0 && n != r.P {
		k.Fail("decoding consumed %d bytes, the value has %d", n, r.P)
	}
	if d := tm.Diff(t, e, want, ptr.Elem()); d != "" {
		k.Fail("decoded value differs: %s", d)
	}
	if d := tm.HiddenZero(t, e, ptr.Elem()); d != "" {
		k.Fail("%s", d)
	}
	return ptr.Elem()
}

// features counts what a value's type exercises.
func features(k *core.Case, t *tm.T) {
	seen := map[string]bool{}
	tm.Walk(t, func(x *tm.T, f *tm.Field) {
		switch x.K {
		case tm.Map:
			seen["types_with_map"] = true
		case tm.Ptr:
			seen["types_with_pointer"] = true
		case tm.LibK:
			seen["types_with_custom_codec"] = true
		case tm.Slice:
			seen["types_with_slice"] = true
		case tm.Arr:
			seen["types_with_array"] = true
		}
		if x.Enum {
			seen["types_with_enum"] = true
		}
		if f != nil {
			if f.Opt || f.COpt {
				seen["types_with_option"] = true
			}
			if f.Big {
				seen["types_with_big_endian"] = true
			}
			if f.SizeOf != "" {
				seen["types_with_sizeof"] = true
			}
			if f.Ext {
				seen["types_with_extension"] = true
			}
			if f.Hidden() {
				seen["types_with_hidden_field"] = true
			}
		}
	})
	for n := range seen {
		k.Count(n, 1)
	}
}

// mutate damages an encoding: truncations, bit flips, hostile lengths and flags,
// insertions, deletions, splices and noise.
func mutate(k *core.Case, b []byte, marks []tm.Mark, e tm.Enc) ([]byte, string) {
	out := append([]byte(nil), b...)
	switch x := k.N(100); {
	case x < 14 && len(out) > 0:
		return out[:k.N(len(out))], "truncate"
	case x < 52 && len(marks) > 0:
		m := marks[k.N(len(marks))]
		return hostileField(k, out, m, e)
	case x < 66 && len(out) > 0:
		for i := 0; i < 1+k.N(3); i++ {
			out[k.N(len(out))] ^= 1 << uint(k.N(8))
		}
		return out, "bitflip"
	case x < 76 && len(out) > 0:
		for i := 0; i < 1+k.N(4); i++ {
			out[k.N(len(out))] = []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0xfe}[k.N(8)]
		}
		return out, "bytes"
	case x < 82:
		at := k.N(len(out) + 1)
		ins := k.Bytes(1 + k.N(9))
		return append(out[:at:at], append(ins, out[at:]...)...), "insert"
	case x < 87 && len(out) > 0:
		at := k.N(len(out))
		n := 1 + k.N(len(out)-at)
		return append(out[:at:at], out[at+n:]...), "delete"
	case x < 92:
		return append(out, k.Bytes(k.N(40))...), "extend"
	}
	return k.Bytes(k.N(80)), "noise"
}

// hostileVarint writes a varint that is out of range, endless, longer than it
// needs to be or as large as it can be.
func hostileVarint(k *core.Case) []byte {
	w := tm.W{}
	switch k.N(6) {
	case 0: // at the limits of every width
		w.Uvarint(uint64(1)<<uint([]int{7, 8, 14, 15, 16, 17, 21, 31, 32, 33, 63}[k.N(11)]) - uint64(k.N(3)))
	case 1:
		w.Uvarint(k.Edge())
	case 2: // of about 64 bits
		for i, n := 0, 8+k.N(4); i < n; i++ {
			w.Byte(0x80 | byte(k.N(2)*k.N(128)))
		}
		w.Byte([]byte{0, 1, 2, 3, 0x7f, 0x40}[k.N(6)])
	case 3: // without an end
		for i, n := 0, 1+k.N(14); i < n; i++ {
			w.Byte([]byte{0x80, 0xff}[k.N(2)])
		}
	case 4: // longer than needed
		w.Uvarint(k.Edge() >> uint(k.N(64)))
		w.B[len(w.B)-1] |= 0x80
		for i, n := 0, k.N(4); i < n; i++ {
			w.Byte(0x80)
		}
		w.Byte(0)
	default:
		w.Uvarint(^uint64(0) - uint64(k.N(4)))
	}
	return w.B
}

func hostileField(k *core.Case, out []byte, m tm.Mark, e tm.Enc) ([]byte, string) {
	cut := func(repl []byte) []byte {
		return append(append(append([]byte(nil), out[:m.Off]...), repl...), out[m.Off+m.Len:]...)
	}
	remaining := uint64(len(out) - m.Off - m.Len)
	huge := []uint64{0, 1, remaining, remaining + 1, remaining - 1, remaining * 2, 0xff, 0x100, 0xffff, 0x10000, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1 << 40,
		1<<62 + 3, 1<<63 - 1, 1 << 63, 1<<63 + remaining, ^uint64(0), ^uint64(0) - 7, 1 << 61, 1<<61 + 1, 1 << 60, remaining / 2, remaining / 4, remaining / 8}
	x := huge[k.N(len(huge))]
	switch m.Kind {
	case "len":
		switch e {
		case tm.Borsh:
			w := tm.W{}
			w.Fixed(x, 4, false)
			return cut(w.B), "len"
		case tm.Bin:
			w := tm.W{}
			if k.P(15) {
				return cut([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(k.N(256)), 1}[:1+k.N(11)]), "len"
			}
			w.Uvarint(x)
			return cut(w.B), "len"
		}
		forms := [][]byte{{0xff, 0xff, 0x03}, {0xff, 0xff, 0x04}, {0x80, 0x80, 0x04}, {0x80, 0x80, 0x80}, {0x80, 0}, {0xff, 0x80, 0}, {0x80, 0x80, 0}, {0xff, 0xff, 0xff}, {0x7f}, {0x80, 1}, {0xff, 0x7f}, {0x80, 0x80, 1}, {0}}
		return cut(forms[k.N(len(forms))]), "len"
	case "varint":
		return cut(hostileVarint(k)), "varint"
	case "rust":
		w := tm.W{}
		w.Fixed(x, 8, false)
		return cut(w.B), "rustlen"
	case "opt", "copt":
		w := tm.W{}
		w.Fixed([]uint64{0, 1, 2, 0x80, 0x100, 0x10000, 0x1000000, 0xff, 0xffffffff}[k.N(9)], m.Len, false)
		return cut(w.B), "flag"
	case "tag":
		return cut([]byte{byte(k.N(256))}), "tag"
	case "bool":
		return cut([]byte{byte(k.N(256))}), "bool"
	case "float":
		w := tm.W{}
		pats := []uint64{0x7ff8000000000001, 0x7ff0000000000001, 0xfff8000000000000, 0x7fc000007fc00000, 0x7f8000017f800001, 0xffffffffffffffff}
		w.Fixed(pats[k.N(len(pats))], m.Len, k.P(30))
		return cut(w.B), "nan"
	case "count":
		w := tm.W{}
		w.Fixed(x, m.Len, k.P(30))
		return cut(w.B), "count"
	}
	return out, "none"
}

func isErr(err, target error) bool { return errors.Is(err, target) }

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return strings.SplitN(err.Error(), "\n", 2)[0]
}
