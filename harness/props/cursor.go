package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// op is one read of the cursor machine: the call on the library, and the same
// read on the reference reader. The results are compared as Go values.
type op struct {
	name string
	// atomic: when it fails, the cursor has not moved
	atomic bool
	call   func(d *bin.Decoder) (interface{}, error)
	model  func(r *tm.R) interface{}
}

func big(o binary.ByteOrder) bool { return o == binary.BigEndian }

func ordName(o binary.ByteOrder) string {
	if big(o) {
		return "BE"
	}
	return "LE"
}

const opKinds = 33

func drawOp(k *core.Case, e tm.Enc, rem, length int) op {
	return drawOpOf(k, e, rem, length, k.N(opKinds))
}

func drawOpOf(k *core.Case, e tm.Enc, rem, length, kind int) op {
	o := order(k)
	b := big(o)
	switch kind {
	case 0:
		return op{"ReadByte", true, func(d *bin.Decoder) (interface{}, error) { return d.ReadByte() }, func(r *tm.R) interface{} { return r.Byte() }}
	case 1:
		return op{"ReadUint8", true, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint8() }, func(r *tm.R) interface{} { return r.Byte() }}
	case 2:
		return op{"ReadInt8", true, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt8() }, func(r *tm.R) interface{} { return int8(r.Byte()) }}
	case 3:
		return op{"ReadBool", true, func(d *bin.Decoder) (interface{}, error) { return d.ReadBool() }, func(r *tm.R) interface{} { return r.Byte() != 0 }}
	case 4:
		return op{"ReadUint16" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint16(o) }, func(r *tm.R) interface{} { return uint16(r.Fixed(2, b)) }}
	case 5:
		return op{"ReadInt16" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt16(o) }, func(r *tm.R) interface{} { return int16(r.Fixed(2, b)) }}
	case 6:
		return op{"ReadUint32" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint32(o) }, func(r *tm.R) interface{} { return uint32(r.Fixed(4, b)) }}
	case 7:
		return op{"ReadInt32" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt32(o) }, func(r *tm.R) interface{} { return int32(r.Fixed(4, b)) }}
	case 8:
		return op{"ReadUint64" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadUint64(o) }, func(r *tm.R) interface{} { return r.Fixed(8, b) }}
	case 9:
		return op{"ReadInt64" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) { return d.ReadInt64(o) }, func(r *tm.R) interface{} { return int64(r.Fixed(8, b)) }}
	case 10:
		return op{"ReadUint128" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadUint128(o)
			return [2]uint64{x.Lo, x.Hi}, err
		}, model128(b)}
	case 11:
		return op{"ReadInt128" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadInt128(o)
			return [2]uint64{x.Lo, x.Hi}, err
		}, model128(b)}
	case 12:
		return op{"ReadFloat128" + ordName(o), true, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadFloat128(o)
			return [2]uint64{x.Lo, x.Hi}, err
		}, model128(b)}
	case 13:
		return op{"ReadFloat32" + ordName(o), false, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadFloat32(o)
			return math.Float32bits(x), err
		}, func(r *tm.R) interface{} {
			x := uint32(r.Fixed(4, b))
			if f := math.Float32frombits(x); f != f && e == tm.Borsh {
				r.Stop(tm.Reject)
			}
			return x
		}}
	case 14:
		return op{"ReadFloat64" + ordName(o), false, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadFloat64(o)
			return math.Float64bits(x), err
		}, func(r *tm.R) interface{} {
			x := r.Fixed(8, b)
			if f := math.Float64frombits(x); f != f && e == tm.Borsh {
				r.Stop(tm.Reject)
			}
			return x
		}}
	case 15:
		return op{"ReadUvarint64", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint64() }, func(r *tm.R) interface{} { return r.Uvarint() }}
	case 16:
		return op{"ReadVarint64", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint64() }, func(r *tm.R) interface{} { return tm.UnZigZag(r.Uvarint()) }}
	case 17:
		return op{"ReadUvarint32", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint32() }, func(r *tm.R) interface{} {
			x := r.Uvarint()
			if x > math.MaxUint32 {
				r.Stop(tm.Reject)
			}
			return uint32(x)
		}}
	case 18:
		return op{"ReadVarint32", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint32() }, func(r *tm.R) interface{} {
			x := tm.UnZigZag(r.Uvarint())
			if x != int64(int32(x)) {
				r.Stop(tm.Reject)
			}
			return int32(x)
		}}
	case 19:
		return op{"ReadUvarint16", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadUvarint16() }, func(r *tm.R) interface{} {
			x := r.Uvarint()
			if x > math.MaxUint16 {
				r.Stop(tm.Reject)
			}
			return uint16(x)
		}}
	case 20:
		return op{"ReadVarint16", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadVarint16() }, func(r *tm.R) interface{} {
			x := tm.UnZigZag(r.Uvarint())
			if x != int64(int16(x)) {
				r.Stop(tm.Reject)
			}
			return int16(x)
		}}
	case 21:
		return op{"ReadCompactU16", false, func(d *bin.Decoder) (interface{}, error) {
			if k.P(50) {
				return d.ReadCompactU16Length()
			}
			return d.ReadCompactU16()
		}, func(r *tm.R) interface{} { return r.Compact16() }}
	case 22:
		return op{"ReadLength", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadLength() }, func(r *tm.R) interface{} { return r.Length(e) }}
	case 23:
		return op{"ReadByteSlice", false, func(d *bin.Decoder) (interface{}, error) {
			x, err := d.ReadByteSlice()
			return string(x), err
		}, func(r *tm.R) interface{} { return string(r.Take(r.Length(e))) }}
	case 24:
		return op{"ReadString", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadString() }, func(r *tm.R) interface{} { return string(r.Take(r.Length(e))) }}
	case 25:
		return op{"SafeReadUTF8String", false, func(d *bin.Decoder) (interface{}, error) { return d.SafeReadUTF8String() }, func(r *tm.R) interface{} { return st.SafeUTF8(r.Take(r.Length(e))) }}
	case 26:
		return op{"ReadRustString", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadRustString() }, func(r *tm.R) interface{} {
			n := r.Fixed(8, false)
			if n > math.MaxInt32 {
				r.Stop(tm.Trunc)
			}
			return string(r.Take(int(n)))
		}}
	case 27:
		n := hugeInt(k, rem)
		if k.P(50) {
			n = k.N(10)
		} else if k.P(30) {
			n = k.N(rem + 3)
		}
		f := k.P(50)
		return op{fmt.Sprintf("ReadNBytes(%d)", n), true, func(d *bin.Decoder) (interface{}, error) {
			if f {
				x, err := d.ReadBytes(n)
				return string(x), err
			}
			x, err := d.ReadNBytes(n)
			return string(x), err
		}, func(r *tm.R) interface{} { return string(r.Take(n)) }}
	case 28:
		n := k.N(12)
		if k.P(20) {
			n = k.N(rem + 3)
		}
		return op{fmt.Sprintf("Read(%d)", n), true, func(d *bin.Decoder) (interface{}, error) {
			buf := bytes.Repeat([]byte{0xc3}, n+4)
			m, err := d.Read(buf[:n])
			if err == nil && (m != n || !bytes.Equal(buf[n:], []byte{0xc3, 0xc3, 0xc3, 0xc3})) {
				return fmt.Sprintf("Read returned %d of %d bytes, or wrote past the buffer", m, n), nil
			}
			return string(buf[:n]), err
		}, func(r *tm.R) interface{} { return string(r.Take(n)) }}
	case 29:
		return op{"ReadTypeID", true, func(d *bin.Decoder) (interface{}, error) {
			if k.P(50) {
				x, err := d.ReadDiscriminator()
				return string(x[:]), err
			}
			x, err := d.ReadTypeID()
			return string(x[:]), err
		}, func(r *tm.R) interface{} { return string(r.Take(8)) }}
	case 30:
		n := hugeInt(k, rem)
		if k.P(50) {
			n = k.N(10)
		} else if k.P(30) {
			n = k.N(rem + 3)
		}
		f := k.N(2)
		return op{fmt.Sprintf("Skip(%d)", n), true, func(d *bin.Decoder) (interface{}, error) {
			if f == 0 {
				return nil, d.Discard(n)
			}
			return nil, d.SkipBytes(uint(n))
		}, func(r *tm.R) interface{} { r.Take(n); return nil }}
	case 31:
		return op{"ReadOption", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadOption() }, func(r *tm.R) interface{} {
			x := r.Byte()
			if x > 1 {
				r.Lenient = true
			}
			return x != 0
		}}
	}
	return op{"ReadCOption", false, func(d *bin.Decoder) (interface{}, error) { return d.ReadCOption() }, func(r *tm.R) interface{} {
		x := r.Fixed(4, false)
		if x > 1 {
			r.Stop(tm.Reject)
		}
		return x != 0
	}}
}

func model128(b bool) func(r *tm.R) interface{} {
	return func(r *tm.R) interface{} {
		x := r.Take(16)
		sub := tm.R{D: x}
		p, q := sub.Fixed(8, b), sub.Fixed(8, b)
		if b {
			return [2]uint64{q, p}
		}
		return [2]uint64{p, q}
	}
}

// msgLen draws the length of a message, now and then a long one.
func msgLen(k *core.Case) int {
	if k.P(3) {
		return []int{200, 300, 1000, 5000, 20000, 66000}[k.N(6)] + k.N(100)
	}
	return k.N(120)
}

// steps draws the length of a history: lo or more, fewer than hi, and now and
// then far more.
func steps(k *core.Case, lo, hi int) int {
	if k.N(120) == 0 {
		return 200 + k.N(1500)
	}
	return lo + k.N(hi-lo)
}

// history drives one decoder through a random sequence of calls.
func history(k *core.Case, steps int) {
	e := tm.Encs[k.N(3)]
	data := k.Bytes(msgLen(k))
	switch k.N(3) {
	case 0: // small values, so that length prefixes are often satisfiable
		for i := range data {
			data[i] &= 7
		}
	case 1:
		for i := range data {
			if k.P(60) {
				data[i] = byte(k.N(3))
			}
		}
	}
	in, untouched := guarded(data, 0x2e)
	d := newDecoder(e, in)
	pos := 0
	trace := []string{e.String()}
	fail := func(f string, a ...interface{}) {
		if len(trace) > 40 {
			trace = append(trace[:1], trace[len(trace)-39:]...)
		}
		k.Detail(map[string]interface{}{"data": core.Hex(data), "calls": trace})
		k.Fail(f, a...)
	}
	state := func() {
		if d.Len() != len(data) || int(d.Position())+d.Remaining() != d.Len() || d.HasRemaining() != (d.Remaining() > 0) || int(d.Position()) > len(data) || d.Remaining() < 0 {
			fail("cursor state is inconsistent: Position %d, Remaining %d, Len %d, HasRemaining %v on %d bytes", d.Position(), d.Remaining(), d.Len(), d.HasRemaining(), len(data))
		}
	}
	state()
	for s := 0; s < steps; s++ {
		k.Eval(1)
		switch x := k.N(100); {
		case x < 2: // another message
			if s := untouched(); s != "" {
				fail("reading changed the buffer: %s", s)
			}
			switch k.N(5) {
			case 0:
				data = nil
			case 1:
				data = data[:k.N(len(data)+1)]
			default:
				data = k.Bytes(msgLen(k))
				if k.P(60) {
					for i := range data {
						data[i] &= 7
					}
				}
			}
			in, untouched = guarded(data, 0x2e)
			if data == nil {
				in = nil
			}
			trace = append(trace, fmt.Sprintf("Reset(%s)", core.Hex(data)))
			d.Reset(in)
			pos = 0
			k.Count("resets", 1)
		case x < 6: // reposition
			p := hugeInt(k, k.N(len(data)+1))
			trace = append(trace, fmt.Sprintf("SetPosition(%d)", uint(p)))
			err := d.SetPosition(uint(p))
			switch {
			case p >= 0 && p < len(data):
				if err != nil {
					fail("SetPosition inside the buffer failed: %v", err)
				}
				pos = p
			case p == len(data): // the end: both answers are reasonable
				if err == nil {
					pos = p
				}
			default:
				if err == nil {
					fail("SetPosition(%d) outside a buffer of %d bytes succeeded", uint(p), len(data))
				}
			}
			k.Count("repositions", 1)
		case x < 14: // peek
			n := hugeInt(k, len(data)-pos)
			if k.P(50) {
				n = k.N(10)
			}
			trace = append(trace, fmt.Sprintf("Peek(%d)", n))
			got, err := d.Peek(n)
			if n >= 0 && n <= len(data)-pos {
				if err != nil || !bytes.Equal(got, data[pos:pos+n]) {
					fail("Peek(%d) at %d gave %x, %v; the next bytes are %x", n, pos, got, err, data[pos:pos+n])
				}
			} else if err == nil {
				fail("Peek(%d) with %d bytes left succeeded", n, len(data)-pos)
			}
			k.Count("peeks", 1)
		case x < 17:
			trace = append(trace, "PeekDiscriminator")
			got, err := d.PeekDiscriminator()
			if len(data)-pos >= 8 {
				if err != nil || !bytes.Equal(got[:], data[pos:pos+8]) {
					fail("PeekDiscriminator gave %x, %v; the next bytes are %x", got[:], err, data[pos:pos+8])
				}
			} else if err == nil {
				fail("PeekDiscriminator with %d bytes left succeeded", len(data)-pos)
			}
		case x < 25: // a reflective decode of a random type in the middle of the stream
			g := tm.NewGen(k.Rng, tm.Full(e))
			var rt reflect.Type
			if k.P(50) {
				rt = g.Scalar()
			} else {
				g.C.Depth = 2
				g.C.BigLens, g.C.BigMax = k.P(6), 5000
				rt = g.Top()
			}
			t := tm.Of(rt)
			trace = append(trace, "Decode("+typeStr(t)+")")
			want, r, stt := decodeAt(t, e, data, pos)
			ptr := reflect.New(rt)
			err := d.Decode(ptr.Interface())
			if r.Unsure {
				pos = syncPos(d, pos, fail)
				break
			}
			if stt != tm.OK {
				if err == nil {
					fail("Decode accepted input that is %s", stt)
				}
				pos = syncPos(d, pos, fail)
				break
			}
			if err != nil {
				if r.Lenient {
					pos = syncPos(d, pos, fail)
					break
				}
				fail("Decode refused well-formed input: %v", err)
			}
			if df := tm.Diff(t, e, want, ptr.Elem()); df != "" {
				fail("Decode gave another value: %s", df)
			}
			pos = r.P
			k.Count("decodes", 1)
		default:
			o := drawOp(k, e, len(data)-pos, len(data))
			trace = append(trace, o.name)
			r := &tm.R{D: data, P: pos}
			var want interface{}
			stt := r.Run(func() { want = o.model(r) })
			got, err := o.call(d)
			if stt == tm.OK && err != nil && r.Lenient {
				pos = syncPos(d, pos, fail)
				break
			}
			if stt == tm.OK {
				if err != nil {
					fail("%s at %d failed: %v", o.name, pos, err)
				}
				if !reflect.DeepEqual(got, want) {
					fail("%s at %d gave %v, want %v", o.name, pos, got, want)
				}
				pos = r.P
				k.Count("reads_ok", 1)
				break
			}
			if err == nil {
				fail("%s at %d with %d bytes left succeeded (%v) although the input is %s", o.name, pos, len(data)-pos, got, stt)
			}
			k.Count("reads_refused", 1)
			if o.atomic {
				if int(d.Position()) != pos {
					fail("%s failed but moved the cursor from %d to %d", o.name, pos, d.Position())
				}
			} else {
				pos = syncPos(d, pos, fail)
			}
		}
		state()
		if int(d.Position()) != pos {
			fail("cursor is at %d, expected %d after %s", d.Position(), pos, trace[len(trace)-1])
		}
		if pos == len(data) && k.P(60) && len(data) > 0 {
			p := k.N(len(data))
			if err := d.SetPosition(uint(p)); err != nil {
				fail("SetPosition(%d) failed: %v", p, err)
			}
			pos = p
			trace = append(trace, fmt.Sprintf("SetPosition(%d)", p))
		}
	}
	if s := untouched(); s != "" {
		fail("reading changed the buffer: %s", s)
	}
	k.Seen(int(e), data, fmt.Sprint(trace))
	k.Count("histories", 1)
	if k.WantSample() {
		k.Sample(map[string]interface{}{"data": core.Hex(data), "calls": trace})
	}
}

// everyCall makes every call at one position.
func everyCall(k *core.Case, e tm.Enc, d *bin.Decoder, data []byte, at int) {
	for kind := 0; kind < opKinds; kind++ {
		o := drawOpOf(k, e, len(data)-at, len(data), kind)
		fail := func(f string, a ...interface{}) {
			k.Detail(map[string]interface{}{"encoding": e.String(), "length": len(data), "position": at, "call": o.name, "from there": core.Hex(data[at:])})
			k.Fail(f, a...)
		}
		if at < len(data) {
			if err := d.SetPosition(uint(at)); err != nil {
				fail("SetPosition(%d) failed: %v", at, err)
			}
		} else { // the end itself cannot be sought
			d.Reset(data)
			if err := d.SkipBytes(uint(at)); err != nil {
				fail("SkipBytes(%d) failed: %v", at, err)
			}
		}
		r := &tm.R{D: data, P: at}
		var want interface{}
		stt := r.Run(func() { want = o.model(r) })
		got, err := o.call(d)
		k.Eval(1)
		k.Count("swept", 1)
		switch {
		case stt == tm.OK && err != nil && r.Lenient:
			syncPos(d, at, fail)
		case stt == tm.OK && err != nil:
			fail("%s at %d failed: %v", o.name, at, err)
		case stt == tm.OK:
			if !reflect.DeepEqual(got, want) {
				fail("%s at %d gave %.200v, want %.200v", o.name, at, got, want)
			}
			if int(d.Position()) != r.P {
				fail("%s at %d ended at %d, want %d", o.name, at, d.Position(), r.P)
			}
		case err == nil:
			fail("%s at %d with %d bytes left succeeded (%v) although the input is %s", o.name, at, len(data)-at, got, stt)
		case o.atomic && int(d.Position()) != at:
			fail("%s failed but moved the cursor from %d to %d", o.name, at, d.Position())
		default:
			syncPos(d, at, fail)
		}
		if d.Len() != len(data) || int(d.Position())+d.Remaining() != d.Len() || d.HasRemaining() != (d.Remaining() > 0) {
			fail("cursor state is inconsistent: Position %d, Remaining %d, Len %d, HasRemaining %v on %d bytes", d.Position(), d.Remaining(), d.Len(), d.HasRemaining(), len(data))
		}
	}
}

// syncPos accepts a cursor that a failed composite read left inside the buffer, not before where it started.
func syncPos(d *bin.Decoder, pos int, fail func(string, ...interface{})) int {
	p := int(d.Position())
	if p < pos || p > d.Len() {
		fail("a failed read moved the cursor from %d to %d of %d", pos, p, d.Len())
	}
	return p
}

func decodeAt(t *tm.T, e tm.Enc, data []byte, pos int) (reflect.Value, *tm.R, tm.Status) {
	r := &tm.R{D: data, P: pos}
	v := reflect.New(t.RT).Elem()
	stt := r.Run(func() { r.Into(t, e, v) })
	return v, r, stt
}

func init() {
	reg(&core.Prop{ID: "C10", Rule: "One decoder is driven through a random sequence of reads, peeks, skips, seeks and decodes over random bytes, step by step against a reference cursor; distinct by (encoding, bytes, call sequence).", Need: map[string]int64{"reads_ok": 10000, "reads_refused": 2000, "peeks": 2000, "repositions": 1000, "decodes": 500, "resets": 1000, "swept": 100000, "far_positions": 1000}, Run: func(c *core.Ctx) {
		c.Run("histories", c.Scaled(14000), func(k *core.Case) { history(k, steps(k, 10, 70)) })
		// every call at every position of every length up to 80
		c.Run("positions", 81*3, func(k *core.Case) {
			data := k.Bytes(k.I / 3)
			if k.P(60) {
				for i := range data {
					data[i] &= []byte{1, 3, 7, 0x8f}[k.N(4)]
				}
			}
			e := tm.Encs[k.I%3]
			d := newDecoder(e, data)
			for pos := 0; pos <= len(data); pos++ {
				everyCall(k, e, d, data, pos)
			}
			k.Seen("positions", int(e), data)
		})
		// far into a large buffer, where positions need more bits
		big := make([]byte, 1<<24+300)
		for i := range big {
			big[i] = byte(i*i>>8) & 7
		}
		var far []int
		for i := uint(7); i <= 24; i++ {
			for j := -9; j <= 9; j++ {
				far = append(far, 1<<i+j)
			}
		}
		for j := 0; j <= 40; j++ {
			far = append(far, len(big)-j)
		}
		for i := uint(7); i <= 24; i++ {
			for j := -2; j <= 2; j++ {
				far = append(far, len(big)-(1<<i+j))
			}
		}
		c.Run("far", len(far)*3, func(k *core.Case) {
			e := tm.Encs[k.I%3]
			k.Count("far_positions", 1)
			everyCall(k, e, newDecoder(e, big), big, far[k.I/3])
			k.Seen("far", k.I)
		})
	}})
}
