package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// wop is one primitive write with its documented bytes and the read that undoes it.
type wop struct {
	name   string
	call   func(e *bin.Encoder) error
	want   []byte
	refuse bool
	read   func(d *bin.Decoder) (interface{}, error)
	val    interface{}
}

func fixed(x uint64, n int, big bool) []byte {
	w := tm.W{}
	w.Fixed(x, n, big)
	return w.B
}

func uvarint(x uint64) []byte {
	w := tm.W{}
	w.Uvarint(x)
	return w.B
}

// compact16 is an independent writer of the compact-u16 notation.
func compact16(n int) []byte {
	switch {
	case n < 0 || n > 65535:
		return nil
	case n < 128:
		return []byte{byte(n)}
	case n < 1<<14:
		return []byte{byte(n%128) + 128, byte(n / 128)}
	}
	return []byte{byte(n%128) + 128, byte(n/128%128) + 128, byte(n / 16384)}
}

func prefix(e tm.Enc, n int) ([]byte, bool) {
	switch e {
	case tm.Borsh:
		if n < 0 || uint64(n) > math.MaxUint32 {
			return nil, false
		}
		return fixed(uint64(n), 4, false), true
	case tm.Bin:
		return uvarint(uint64(n)), true
	}
	b := compact16(n)
	return b, b != nil
}

var wordLens = []int{0, 1, 2, 3, 8, 31, 127, 128, 129, 255, 256, 300, 16383, 16384}

func drawWrite(k *core.Case, e tm.Enc) wop { return drawWriteOf(k, e, k.Edge(), k.N(30), -1) }

// wideWrite is a write of the 128-bit number with the halves x (low) and y.
func wideWrite(x, y uint64, o binary.ByteOrder, op int) wop {
	w := fixed(x, 8, false)
	w = append(w, fixed(y, 8, false)...)
	if o == binary.ByteOrder(binary.BigEndian) {
		w = append(fixed(y, 8, true), fixed(x, 8, true)...)
	}
	switch op {
	case 0:
		return wop{"WriteUint128" + ordName(o), func(w *bin.Encoder) error { return w.WriteUint128(bin.Uint128{Lo: x, Hi: y}, o) }, w, false,
			func(d *bin.Decoder) (interface{}, error) {
				z, err := d.ReadUint128(o)
				return [2]uint64{z.Lo, z.Hi}, err
			}, [2]uint64{x, y}}
	case 1:
		return wop{"WriteUint128/ReadFloat128" + ordName(o), func(w *bin.Encoder) error { return w.WriteUint128(bin.Uint128{Lo: x, Hi: y}, o) }, w, false,
			func(d *bin.Decoder) (interface{}, error) {
				z, err := d.ReadFloat128(o)
				return [2]uint64{z.Lo, z.Hi}, err
			}, [2]uint64{x, y}}
	}
	return wop{"WriteInt128" + ordName(o), func(w *bin.Encoder) error { return w.WriteInt128(bin.Int128{Lo: x, Hi: y}, o) }, w, false,
		func(d *bin.Decoder) (interface{}, error) {
			z, err := d.ReadInt128(o)
			return [2]uint64{z.Lo, z.Hi}, err
		}, [2]uint64{x, y}}
}

// drawWriteOf draws a write of the given kind and number; a size of -1 is drawn too.
func drawWriteOf(k *core.Case, e tm.Enc, x uint64, kind, size int) wop {
	o := order(k)
	b := big(o)
	sz := func() int {
		if size >= 0 {
			return size
		}
		if k.P(85) {
			return k.N(20)
		}
		if k.P(4) {
			n := []int{20000, 65535, 65536, 65537, 65664, 70000, 131072, 100000 + k.N(70000)}[k.N(8)]
			if _, ok := prefix(e, n); ok {
				return n
			}
		}
		return wordLens[k.N(len(wordLens))]
	}
	switch kind {
	case 0:
		return wop{"WriteByte", func(w *bin.Encoder) error { return w.WriteByte(byte(x)) }, fixed(x, 1, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadByte() }, byte(x)}
	case 1:
		return wop{"WriteUint8", func(w *bin.Encoder) error { return w.WriteUint8(uint8(x)) }, fixed(x, 1, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint8() }, uint8(x)}
	case 2:
		return wop{"WriteInt8", func(w *bin.Encoder) error { return w.WriteInt8(int8(x)) }, fixed(x, 1, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt8() }, int8(x)}
	case 3:
		return wop{"WriteBool", func(w *bin.Encoder) error { return w.WriteBool(x&1 == 1) }, fixed(x&1, 1, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadBool() }, x&1 == 1}
	case 4:
		return wop{"WriteUint16" + ordName(o), func(w *bin.Encoder) error { return w.WriteUint16(uint16(x), o) }, fixed(x, 2, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint16(o) }, uint16(x)}
	case 5:
		return wop{"WriteInt16" + ordName(o), func(w *bin.Encoder) error { return w.WriteInt16(int16(x), o) }, fixed(x, 2, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt16(o) }, int16(x)}
	case 6:
		return wop{"WriteUint32" + ordName(o), func(w *bin.Encoder) error { return w.WriteUint32(uint32(x), o) }, fixed(x, 4, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint32(o) }, uint32(x)}
	case 7:
		return wop{"WriteInt32" + ordName(o), func(w *bin.Encoder) error { return w.WriteInt32(int32(x), o) }, fixed(x, 4, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt32(o) }, int32(x)}
	case 8:
		return wop{"WriteUint64" + ordName(o), func(w *bin.Encoder) error { return w.WriteUint64(x, o) }, fixed(x, 8, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint64(o) }, x}
	case 9:
		return wop{"WriteInt64" + ordName(o), func(w *bin.Encoder) error { return w.WriteInt64(int64(x), o) }, fixed(x, 8, b), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt64(o) }, int64(x)}
	case 10, 11, 12:
		return wideWrite(x, k.Edge(), o, k.N(3))
	case 13:
		u := uint32(x)
		if k.P(20) && size < 0 {
			u = 0x7f800000 | uint32(k.N(4)) | uint32(k.N(2))<<31
		}
		f := math.Float32frombits(u)
		if f != f {
			u = math.Float32bits(f)
		}
		return wop{"WriteFloat32" + ordName(o), func(w *bin.Encoder) error { return w.WriteFloat32(f, o) }, fixed(uint64(u), 4, b), e == tm.Borsh && f != f,
			func(d *bin.Decoder) (interface{}, error) { z, err := d.ReadFloat32(o); return math.Float32bits(z), err }, u}
	case 14:
		u := x
		if k.P(20) && size < 0 {
			u = 0x7ff0000000000000 | uint64(k.N(4)) | uint64(k.N(2))<<63
		}
		f := math.Float64frombits(u)
		return wop{"WriteFloat64" + ordName(o), func(w *bin.Encoder) error { return w.WriteFloat64(f, o) }, fixed(u, 8, b), e == tm.Borsh && f != f,
			func(d *bin.Decoder) (interface{}, error) { z, err := d.ReadFloat64(o); return math.Float64bits(z), err }, u}
	case 15, 16:
		v := int(x)
		want := uvarint(uint64(v))
		op := wop{"WriteUVarInt", func(w *bin.Encoder) error { return w.WriteUVarInt(v) }, want, false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint64() }, uint64(v)}
		switch {
		case uint64(v) <= 0xffff && k.P(50):
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint16() }, uint16(v)
		case uint64(v) <= 0xffffffff && k.P(60):
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint32() }, uint32(v)
		}
		return op
	case 17, 18:
		v := int(x)
		op := wop{"WriteVarInt", func(w *bin.Encoder) error { return w.WriteVarInt(v) }, uvarint(tm.ZigZag(int64(v))), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint64() }, int64(v)}
		switch {
		case int(int16(v)) == v && k.P(50):
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint16() }, int16(v)
		case int(int32(v)) == v && k.P(60):
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint32() }, int32(v)
		}
		return op
	case 19, 20:
		s := string(k.Bytes(sz()))
		p, _ := prefix(e, len(s))
		op := wop{"WriteString", func(w *bin.Encoder) error { return w.WriteString(s) }, append(p, s...), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadString() }, s}
		if k.P(25) {
			op.name = "WriteString/Safe"
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.SafeReadUTF8String() }, st.SafeUTF8([]byte(s))
		}
		return op
	case 21:
		s := string(k.Bytes(sz()))
		return wop{"WriteRustString", func(w *bin.Encoder) error { return w.WriteRustString(s) }, append(fixed(uint64(len(s)), 8, false), s...), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadRustString() }, s}
	case 22, 23:
		s := k.Bytes(sz())
		if len(s) == 0 && k.P(50) {
			s = nil
		}
		p, _ := prefix(e, len(s))
		return wop{"WriteBytes(len)", func(w *bin.Encoder) error { return w.WriteBytes(s, true) }, append(p, s...), false, func(d *bin.Decoder) (interface{}, error) {
			z, err := d.ReadByteSlice()
			return string(z), err
		}, string(s)}
	case 24:
		s := k.Bytes(sz())
		if len(s) == 0 && k.P(50) {
			s = nil
		}
		op := wop{"WriteBytes", func(w *bin.Encoder) error { return w.WriteBytes(s, false) }, s, false, func(d *bin.Decoder) (interface{}, error) {
			z, err := d.ReadNBytes(len(s))
			return string(z), err
		}, string(s)}
		if len(s) == 8 && k.P(50) {
			op.read, op.val = func(d *bin.Decoder) (interface{}, error) { return d.ReadTypeID() }, bin.TypeIDFromBytes(s)
		}
		return op
	case 25:
		s := k.Bytes(1 + sz())
		return wop{"Write", func(w *bin.Encoder) error {
			n, err := w.Write(s)
			if err == nil && n != len(s) {
				err = fmt.Errorf("Write returned %d for %d bytes without an error", n, len(s))
			}
			return err
		}, s, false, func(d *bin.Decoder) (interface{}, error) {
			z := make([]byte, len(s))
			n, err := d.Read(z)
			if err == nil && n != len(s) {
				err = fmt.Errorf("Read returned %d for %d bytes without an error", n, len(s))
			}
			return string(z), err
		}, string(s)}
	case 26:
		n := int(x % 70000)
		if k.P(50) && size < 0 {
			n = bigLens[k.N(len(bigLens))]
		}
		p, ok := prefix(e, n)
		// a declared length is only readable back when that much input could follow
		return wop{"WriteLength", func(w *bin.Encoder) error { return w.WriteLength(n) }, p, !ok, func(d *bin.Decoder) (interface{}, error) { return d.ReadLength() }, n}
	case 27:
		n := int(x % 66000)
		if k.P(50) && size < 0 {
			n = bigLens[k.N(len(bigLens))]
		}
		p := compact16(n)
		if k.P(50) {
			return wop{"WriteCompactU16", func(w *bin.Encoder) error { return w.WriteCompactU16(n) }, p, p == nil, func(d *bin.Decoder) (interface{}, error) { return d.ReadCompactU16() }, n}
		}
		return wop{"WriteCompactU16Length", func(w *bin.Encoder) error { return w.WriteCompactU16Length(n) }, p, p == nil, func(d *bin.Decoder) (interface{}, error) { return d.ReadCompactU16Length() }, n}
	case 28:
		return wop{"WriteOption", func(w *bin.Encoder) error { return w.WriteOption(x&1 == 1) }, fixed(x&1, 1, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadOption() }, x&1 == 1}
	}
	return wop{"WriteCOption", func(w *bin.Encoder) error { return w.WriteCOption(x&1 == 1) }, fixed(x&1, 4, false), false, func(d *bin.Decoder) (interface{}, error) { return d.ReadCOption() }, x&1 == 1}
}

func sixteen(k *core.Case, n uint16) {
	e := tm.Encs[int(n)%3]
	var buf bytes.Buffer
	enc := newEncoder(e, &buf)
	k.Detail(map[string]interface{}{"encoding": e.String(), "number": n})
	var want []byte
	u32 := uint32(n)<<16 | uint32(n>>3)
	u64 := uint64(n)<<48 | uint64(n)<<13
	i32, i64 := int32(u32), int64(u64)
	ok := func(name string, err error) {
		if err != nil {
			k.Fail("%s of %d failed: %v", name, n, err)
		}
	}
	for _, o := range []binary.ByteOrder{bin.LE, bin.BE} {
		b := big(o)
		ok("WriteUint16", enc.WriteUint16(n, o))
		ok("WriteInt16", enc.WriteInt16(int16(n), o))
		ok("WriteUint32", enc.WriteUint32(u32, o))
		ok("WriteInt32", enc.WriteInt32(i32, o))
		ok("WriteUint64", enc.WriteUint64(u64, o))
		ok("WriteInt64", enc.WriteInt64(i64, o))
		for _, w := range []int{2, 2, 4, 4, 8, 8} {
			want = append(want, fixed([]uint64{2: uint64(n), 4: uint64(u32), 8: u64}[w], w, b)...)
		}
	}
	ok("WriteUVarInt", enc.WriteUVarInt(int(n)))
	ok("WriteUVarInt", enc.WriteUVarInt(int(u32)))
	ok("WriteUVarInt", enc.WriteUVarInt(int(i64)))
	ok("WriteVarInt", enc.WriteVarInt(int(int16(n))))
	ok("WriteVarInt", enc.WriteVarInt(int(i32)))
	ok("WriteVarInt", enc.WriteVarInt(int(i64)))
	ok("Varuint16", enc.Encode(bin.Varuint16(n)))
	ok("Varint16", enc.Encode(bin.Varint16(n)))
	ok("Varuint32", enc.Encode(bin.Varuint32(u32)))
	ok("Varint32", enc.Encode(bin.Varint32(i32)))
	zz := tm.ZigZag
	for _, x := range []uint64{uint64(n), uint64(u32), u64, zz(int64(int16(n))), zz(int64(i32)), zz(i64), uint64(n), zz(int64(int16(n))), uint64(u32), zz(int64(i32))} {
		want = append(want, uvarint(x)...)
	}
	k.Eval(1)
	if !bytes.Equal(buf.Bytes(), want) {
		k.Fail("written as %s, want %s (offset %d)", core.Hex(buf.Bytes()), core.Hex(want), firstDiff(buf.Bytes(), want))
	}
	d := newDecoder(e, want)
	get := func(name string, got, want interface{}, err error) {
		k.Eval(1)
		if err != nil || got != want {
			k.Fail("%s gives %v, %v; want %v", name, got, err, want)
		}
	}
	for _, o := range []binary.ByteOrder{bin.LE, bin.BE} {
		a, err := d.ReadUint16(o)
		get("ReadUint16", a, n, err)
		b, err := d.ReadInt16(o)
		get("ReadInt16", b, int16(n), err)
		c, err := d.ReadUint32(o)
		get("ReadUint32", c, u32, err)
		f, err := d.ReadInt32(o)
		get("ReadInt32", f, i32, err)
		g, err := d.ReadUint64(o)
		get("ReadUint64", g, u64, err)
		h, err := d.ReadInt64(o)
		get("ReadInt64", h, i64, err)
	}
	for pass := 0; pass < 2; pass++ {
		a, err := d.ReadUvarint16()
		get("ReadUvarint16", a, n, err)
		if pass == 0 {
			b, err := d.ReadUvarint32()
			get("ReadUvarint32", b, u32, err)
			c, err := d.ReadUvarint64()
			get("ReadUvarint64", c, u64, err)
		}
		f, err := d.ReadVarint16()
		get("ReadVarint16", f, int16(n), err)
		if pass == 1 {
			b, err := d.ReadUvarint32()
			get("ReadUvarint32", b, u32, err)
		}
		g, err := d.ReadVarint32()
		get("ReadVarint32", g, i32, err)
		if pass == 0 {
			h, err := d.ReadVarint64()
			get("ReadVarint64", h, i64, err)
		}
	}
	if d.HasRemaining() {
		k.Fail("%d bytes are left", d.Remaining())
	}
}

// byteSrc is an io.ByteReader with a chosen end.
type byteSrc struct {
	b   []byte
	n   int
	end error
}

func (s *byteSrc) ReadByte() (byte, error) {
	if s.n >= len(s.b) {
		return 0, s.end
	}
	s.n++
	return s.b[s.n-1], nil
}

// model16 reads a compact-u16 by its definition: least value, at most three
// bytes, no needless bytes, at most 65535.
func model16(b []byte) (n, size int, st tm.Status) {
	for i := 0; ; i++ {
		if i >= len(b) {
			return 0, 0, tm.Trunc
		}
		n += int(b[i]&0x7f) << uint(7*i)
		if i == 2 && b[i] > 3 {
			return 0, 0, tm.Reject
		}
		if b[i] < 0x80 {
			if i > 0 && b[i] == 0 {
				return 0, 0, tm.Reject
			}
			return n, i + 1, tm.OK
		}
	}
}

func init() {
	reg(&core.Prop{ID: "C15", Rule: "Every number 0..65535 (and a spread of numbers outside) is written by each of the writers; every byte string of up to three bytes (and four for the ambiguous leads) is read by each of the readers; distinct by number and by byte string.",
		Need: map[string]int64{"numbers_written": 65536, "strings_read": 16843008}, Run: func(c *core.Ctx) {
			const chunk = 512
			c.Run("write", 65536/chunk, func(k *core.Case) {
				for n := k.I * chunk; n < (k.I+1)*chunk; n++ {
					want := compact16(n)
					k.Detail(map[string]interface{}{"n": n})
					pre := k.Bytes(k.N(4))
					buf := append(make([]byte, 0, 16), pre...)
					if err := bin.EncodeCompactU16Length(&buf, n); err != nil || !bytes.Equal(buf[len(pre):], want) || !bytes.Equal(buf[:len(pre)], pre) {
						k.Fail("%d appended to %x gives %x, %v; want %x", n, pre, buf, err, want)
					}
					var out bytes.Buffer
					e := newEncoder(tm.Encs[n%3], &out)
					var err error
					switch n / 3 % 2 {
					case 0:
						err = e.WriteCompactU16(n)
					case 1:
						err = e.WriteCompactU16Length(n)
					}
					if err != nil || !bytes.Equal(out.Bytes(), want) {
						k.Fail("%d is written as %x, %v; want %x", n, out.Bytes(), err, want)
					}
					out.Reset()
					if err := newEncoder(tm.Compact, &out).WriteLength(n); err != nil || !bytes.Equal(out.Bytes(), want) {
						k.Fail("length %d is written as %x, %v; want %x", n, out.Bytes(), err, want)
					}
					got, size, err := bin.DecodeCompactU16(append(append([]byte(nil), want...), k.Bytes(3)...))
					if err != nil || got != n || size != len(want) {
						k.Fail("%x reads as %d (%d bytes), %v; want %d", want, got, size, err, n)
					}
					k.Seen("n", n)
				}
				k.Eval(4 * chunk)
				k.Count("numbers_written", chunk)
			})
			c.Run("outside", 4000, func(k *core.Case) {
				n := 65536 + k.N(1<<16)
				switch k.N(5) {
				case 0:
					n = -1 - int(k.Edge()>>1)
				case 1:
					n = 65536 + int(k.Edge()>>1&(1<<62-1))
				case 2:
					n = (1+k.N(1<<20))<<16 + k.N(3)
				}
				if n >= 0 && n < 65536 {
					return
				}
				k.Detail(map[string]interface{}{"n": n})
				buf := []byte{9, 8, 7}
				if err := bin.EncodeCompactU16Length(&buf, n); err == nil {
					k.Fail("%d was written as %x", n, buf)
				}
				if !bytes.Equal(buf, []byte{9, 8, 7}) {
					k.Fail("refusing %d left %x in the buffer", n, buf)
				}
				var out bytes.Buffer
				e := newEncoder(tm.Compact, &out)
				if e.WriteCompactU16(n) == nil || e.WriteCompactU16Length(n) == nil || e.WriteLength(n) == nil || out.Len() > 0 {
					k.Fail("%d was written as %x", n, out.Bytes())
				}
				k.Eval(4)
				k.Seen("n", n)
				k.Count("numbers_refused", 1)
			})
			// all byte strings, by leading two bytes
			read := func(k *core.Case, b []byte, deep bool) {
				want, size, stt := model16(b)
				got, n, err := bin.DecodeCompactU16(b)
				if stt != tm.OK {
					if err == nil {
						k.Fail("DecodeCompactU16(%x) gave %d (%d bytes) although the string is %s", b, got, n, stt)
					}
				} else if err != nil || got != want || n != size {
					k.Fail("DecodeCompactU16(%x) gave %d (%d bytes), %v; want %d (%d bytes)", b, got, n, err, want, size)
				}
				if stt == tm.Trunc && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF) {
					k.Fail("DecodeCompactU16(%x) reports %v for a string that ends early", b, err)
				}
				if !deep {
					return
				}
				src := &byteSrc{b: b, end: io.EOF}
				got, err = bin.DecodeCompactU16LengthFromByteReader(src)
				if stt != tm.OK {
					if err == nil {
						k.Fail("reading %x byte by byte gave %d although the string is %s", b, got, stt)
					}
				} else if err != nil || got != want || src.n != size {
					k.Fail("reading %x byte by byte gave %d after %d bytes, %v; want %d (%d bytes)", b, got, src.n, err, want, size)
				}
				// sources of every kind: nothing beyond the form is taken from them
				for j := 0; j < 4; j++ {
					var br io.ByteReader
					var left func() int
					long := append(append([]byte(nil), b...), 0x80, 0x01, 0x00)
					if stt != tm.OK {
						long = b
					}
					switch j {
					case 0:
						r := bytes.NewReader(long)
						br, left = r, r.Len
					case 1:
						r := bytes.NewBuffer(long)
						br, left = r, r.Len
					case 2:
						r := strings.NewReader(string(long))
						br, left = r, r.Len
					case 3:
						r := newDecoder(tm.Encs[len(b)%3], long)
						br, left = r, r.Remaining
					}
					got, err := bin.DecodeCompactU16LengthFromByteReader(br)
					if stt != tm.OK {
						if err == nil {
							k.Fail("reading %x from a %T gave %d although the string is %s", b, br, got, stt)
						}
					} else if err != nil || got != want || left() != len(long)-size {
						k.Fail("reading %x from a %T gave %d and left %d bytes, %v; want %d and %d", long, br, got, left(), err, want, len(long)-size)
					}
				}
				for _, e := range tm.Encs {
					d := newDecoder(e, b)
					var err error
					name := "ReadCompactU16"
					switch {
					case e == tm.Compact:
						name = "ReadLength"
						got, err = d.ReadLength()
					case e == tm.Bin:
						name = "ReadCompactU16Length"
						got, err = d.ReadCompactU16Length()
					default:
						got, err = d.ReadCompactU16()
					}
					if stt != tm.OK {
						if err == nil {
							k.Fail("%s of %x gave %d although the string is %s", name, b, got, stt)
						}
					} else if err != nil || got != want || int(d.Position()) != size {
						k.Fail("%s of %x gave %d at %d, %v; want %d (%d bytes)", name, b, got, d.Position(), err, want, size)
					}
				}
			}
			c.Run("read", 256, func(k *core.Case) {
				a := byte(k.I)
				b := [4]byte{a}
				k.Detail(map[string]interface{}{"lead": k.I})
				read(k, b[:1], true)
				if k.I == 0 {
					read(k, nil, true)
				}
				cnt := 1
				for x := 0; x < 256; x++ {
					b[1] = byte(x)
					read(k, b[:2], true)
					cnt++
					for y := 0; y < 256; y++ {
						b[2] = byte(y)
						// the wrappers only differ in what they wrap: all of them near the edges, the rest by sampling
						deep := y < 6 || y > 0x7d && y < 0x86 || (a+byte(x)+byte(y))%8 == 0
						read(k, b[:3], deep)
						if y >= 0x80 && y&7 == 0 {
							b[3] = byte(x ^ y)
							read(k, b[:4], deep)
						}
						cnt++
					}
					k.Seen("s", b[:2])
				}
				k.Eval(cnt)
				k.Count("strings_read", int64(cnt))
			})
			c.Run("reader-fault", 300, func(k *core.Case) {
				// an error of the byte source comes out
				boom := errors.New("source failed")
				b := []byte{byte(k.N(128)) | 128, byte(k.N(128)) | 128}[:k.N(3)]
				_, err := bin.DecodeCompactU16LengthFromByteReader(&byteSrc{b: b, end: boom})
				k.Eval(1)
				if !errors.Is(err, boom) {
					k.Fail("the error of the byte source was replaced by %v", err)
				}
			})
		}})

	reg(&core.Prop{ID: "C16", Rule: "Random sequences of primitive writes go through one encoder; after every write the bytes, the byte count and the refusals are compared with the documented form, and one decoder reads everything back in order; distinct by (encoding, bytes).",
		Need: map[string]int64{"writes": 100000, "reads": 100000, "refusals": 500, "all_16bit": 65536, "swept": 50000, "own_orders": 20000}, Run: func(c *core.Ctx) {
			// every 16-bit number through every 16-bit call, and its neighbours of 32 and 64 bits
			c.Run("sixteen", 256, func(k *core.Case) {
				for lo := 0; lo < 256; lo++ {
					n := uint16(k.I<<8 | lo)
					sixteen(k, n)
				}
				k.Count("all_16bit", 256)
				k.Seen("sixteen", k.I)
			})
			c.Run("sequences", c.Scaled(14000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				writeSequence(k, e, steps(k, 1, 31), func(int) wop { return drawWrite(k, e) })
			})
			// byte orders other than the two of encoding/binary
			c.Run("orders", c.Scaled(3000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				o := oddOrders[k.I%len(oddOrders)]
				for i := 0; i < 8; i++ {
					ownOrder(k, e, o, k.Edge())
				}
			})
			// every number at which arithmetic changes its mind, through every call
			c.Run("numbers", len(sweepNumbers)*3, func(k *core.Case) {
				e := tm.Encs[k.I%3]
				x := sweepNumbers[k.I/3]
				k.Count("swept", 60)
				writeSequence(k, e, 60, func(i int) wop { return drawWriteOf(k, e, x, i%30, k.N(12)) })
			})
			// 128-bit numbers: each of those as a half next to the halves that carry a sign, a border or the same again
			c.Run("wide", len(sweepNumbers), func(k *core.Case) {
				x := sweepNumbers[k.I]
				ys := []uint64{0, 1, x, ^x, 1 << 63, 1<<63 - 1, ^uint64(0), k.Edge()}
				n := len(ys) * 12
				k.Count("swept", int64(n))
				writeSequence(k, tm.Encs[k.I%3], n, func(i int) wop {
					lo, hi, o := x, ys[i/12], binary.ByteOrder(binary.LittleEndian)
					if i&1 == 1 {
						lo, hi = hi, lo
					}
					if i&2 == 2 {
						o = binary.BigEndian
					}
					return wideWrite(lo, hi, o, i/4%3)
				})
			})
			// every length
			c.Run("lengths", 700*3, func(k *core.Case) {
				e := tm.Encs[k.I%3]
				k.Count("swept", 14)
				writeSequence(k, e, 14, func(i int) wop { return drawWriteOf(k, e, k.Edge(), 19+i%7, k.I/3) })
			})
		}})
}

// anOrder is another name for a byte order.
type anOrder struct{ binary.ByteOrder }

// pdp is the order of the PDP-11: the words of a number in big-endian order, the
// bytes of a word in little-endian order.
type pdp struct{}

func (pdp) Uint16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func (p pdp) Uint32(b []byte) uint32 {
	return uint32(p.Uint16(b))<<16 | uint32(p.Uint16(b[2:4]))
}
func (p pdp) Uint64(b []byte) uint64 {
	return uint64(p.Uint32(b))<<32 | uint64(p.Uint32(b[4:8]))
}
func (pdp) PutUint16(b []byte, x uint16) { b[0], b[1] = byte(x), byte(x>>8) }
func (p pdp) PutUint32(b []byte, x uint32) {
	p.PutUint16(b, uint16(x>>16))
	p.PutUint16(b[2:4], uint16(x))
}
func (p pdp) PutUint64(b []byte, x uint64) {
	p.PutUint32(b, uint32(x>>32))
	p.PutUint32(b[4:8], uint32(x))
}
func (pdp) String() string { return "LittleEndian" }

var oddOrders = []binary.ByteOrder{binary.NativeEndian, anOrder{bin.LE}, anOrder{bin.BE}, &anOrder{bin.LE}, &anOrder{bin.BE}, pdp{}}

// ownOrder writes and reads in a byte order of the caller's: the bytes are what it makes of the number.
func ownOrder(k *core.Case, e tm.Enc, o binary.ByteOrder, x uint64) {
	k.Detail(map[string]interface{}{"encoding": e.String(), "order": fmt.Sprintf("%T of %v", o, o), "number": x})
	b2, b4, b8 := make([]byte, 2), make([]byte, 4), make([]byte, 8)
	o.PutUint16(b2, uint16(x))
	o.PutUint32(b4, uint32(x))
	o.PutUint64(b8, x)
	f32, f64 := math.Float32frombits(uint32(x)), math.Float64frombits(x)
	if f32 != f32 || f64 != f64 {
		return
	}
	all := []struct {
		name  string
		write func(w *bin.Encoder) error
		read  func(d *bin.Decoder) (interface{}, error)
		want  []byte
		val   interface{}
	}{
		{"Uint16", func(w *bin.Encoder) error { return w.WriteUint16(uint16(x), o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint16(o) }, b2, uint16(x)},
		{"Int16", func(w *bin.Encoder) error { return w.WriteInt16(int16(x), o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt16(o) }, b2, int16(x)},
		{"Uint32", func(w *bin.Encoder) error { return w.WriteUint32(uint32(x), o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint32(o) }, b4, uint32(x)},
		{"Int32", func(w *bin.Encoder) error { return w.WriteInt32(int32(x), o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt32(o) }, b4, int32(x)},
		{"Uint64", func(w *bin.Encoder) error { return w.WriteUint64(x, o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint64(o) }, b8, x},
		{"Int64", func(w *bin.Encoder) error { return w.WriteInt64(int64(x), o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt64(o) }, b8, int64(x)},
		{"Float32", func(w *bin.Encoder) error { return w.WriteFloat32(f32, o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadFloat32(o) }, b4, f32},
		{"Float64", func(w *bin.Encoder) error { return w.WriteFloat64(f64, o) }, func(d *bin.Decoder) (interface{}, error) { return d.ReadFloat64(o) }, b8, f64},
	}
	for _, a := range all {
		var buf bytes.Buffer
		err := a.write(newEncoder(e, &buf))
		k.Eval(2)
		k.Count("own_orders", 1)
		if err != nil || !bytes.Equal(buf.Bytes(), a.want) {
			k.Fail("Write%s in the order %T writes %v as %s, %v; want %s", a.name, o, a.val, core.Hex(buf.Bytes()), err, core.Hex(a.want))
		}
		d := newDecoder(e, a.want)
		if got, err := a.read(d); err != nil || got != a.val || d.Remaining() != 0 {
			k.Fail("Read%s in the order %T reads %s as %v, %v; want %v", a.name, o, core.Hex(a.want), got, err, a.val)
		}
	}
	k.Seen("order", int(e), fmt.Sprintf("%T", o), b8)
}

// writeSequence makes n writes on one encoder and reads them back.
func writeSequence(k *core.Case, e tm.Enc, n int, draw func(i int) wop) {
	var buf bytes.Buffer
	enc := newEncoder(e, &buf)
	var ops []wop
	var names []string
	for i := 0; i < n; i++ {
		w := draw(i)
		names = append(names, fmt.Sprintf("%s(%.40v)", w.name, w.val))
		k.Detail(map[string]interface{}{"encoding": e.String(), "calls": names})
		at := buf.Len()
		err := w.call(enc)
		k.Eval(1)
		got := buf.Bytes()[at:]
		if w.refuse {
			k.Count("refusals", 1)
			if err == nil {
				k.Fail("%s accepted a value it cannot represent: %v as %s", w.name, w.val, core.Hex(got))
			}
			if len(got) > 0 || enc.Written() != at {
				k.Fail("%s refused but wrote %s (Written %d, before %d)", w.name, core.Hex(got), enc.Written(), at)
			}
			continue
		}
		k.Count("writes", 1)
		if err != nil {
			k.Fail("%s(%v) failed: %v", w.name, w.val, err)
		}
		if !bytes.Equal(got, w.want) {
			k.Fail("%s(%v) wrote %s, want %s", w.name, w.val, core.Hex(got), core.Hex(w.want))
		}
		if enc.Written() != buf.Len() {
			k.Fail("after %s Written is %d, but %d bytes were written", w.name, enc.Written(), buf.Len())
		}
		ops = append(ops, w)
	}
	// room for declared lengths
	room := 0
	for _, w := range ops {
		if w.name == "WriteLength" {
			room = 100001
		}
	}
	data := append(append([]byte(nil), buf.Bytes()...), make([]byte, room)...)
	d := newDecoder(e, data)
	pos := 0
	for _, w := range ops {
		got, err := w.read(d)
		k.Eval(1)
		k.Count("reads", 1)
		if err != nil {
			k.Fail("reading back %s(%v) failed: %v", w.name, w.val, err)
		}
		if !reflect.DeepEqual(got, w.val) {
			k.Fail("%s(%v) reads back as %v", w.name, w.val, got)
		}
		pos += len(w.want)
		if int(d.Position()) != pos {
			k.Fail("reading back %s consumed up to %d, want %d", w.name, d.Position(), pos)
		}
	}
	k.Seen(int(e), buf.Bytes())
	if k.WantSample() {
		k.Sample(map[string]interface{}{"encoding": e.String(), "calls": names, "bytes": core.Hex(buf.Bytes())})
	}
}
