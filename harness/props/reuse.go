package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// moody refuses one write on request.
type moody struct {
	b    []byte
	fail int // bytes left before the next refusal; negative: never
}

var errMoody = errors.New("harness: writer refused")

func (m *moody) Write(p []byte) (int, error) {
	if m.fail >= 0 {
		if len(p) > m.fail {
			n := m.fail
			m.b = append(m.b, p[:n]...)
			m.fail = -1
			return n, errMoody
		}
		m.fail -= len(p)
	}
	m.b = append(m.b, p...)
	return len(p), nil
}

type encStep struct {
	name  string
	loose bool // map order is free
	run   func(enc *bin.Encoder) error
}

var directs = []reflect.Type{
	reflect.TypeOf(bin.Uint64(0)), reflect.TypeOf(bin.Int64(0)), reflect.TypeOf(bin.JSONFloat64(0)), reflect.TypeOf(bin.Uint128{}), reflect.TypeOf(bin.Int128{}),
	reflect.TypeOf(bin.Float128{}), reflect.TypeOf(bin.HexBytes{}), reflect.TypeOf(bin.SafeString("")), reflect.TypeOf(bin.Varint16(0)), reflect.TypeOf(bin.Varuint32(0)),
	reflect.TypeOf(bin.Bool(false)), reflect.TypeOf(st.CNest{}), reflect.TypeOf(st.CReent{}),
}

// tailed draws small types that end in an unusual byte order, option or size.
func tailed(k *core.Case) reflect.Type {
	u := []reflect.Type{reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(bin.Uint128{}), reflect.TypeOf(bin.Uint64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(int64(0))}
	tags := []string{`bin:"big"`, `bin:"optional"`, `bin:"coption"`, `bin:"optional big"`, `bin:"coption big"`, `bin:"little"`, ``}
	var fs []reflect.StructField
	for i, n := 0, 1+k.N(3); i < n; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: u[k.N(len(u))], Tag: reflect.StructTag(tags[k.N(len(tags))])})
	}
	if k.P(30) {
		fs = append(fs, reflect.StructField{Name: "N", Type: reflect.TypeOf(uint8(0)), Tag: `bin:"sizeof=S"`}, reflect.StructField{Name: "S", Type: reflect.SliceOf(u[k.N(3)])})
	}
	return reflect.StructOf(fs)
}

func drawEncStep(k *core.Case, e tm.Enc, g *tm.Gen) encStep {
	g.Left = 60
	g.NaN = k.P(15)
	x := k.N(10)
	switch {
	case x < 2:
		w := drawWrite(k, e)
		return encStep{name: w.name, run: w.call}
	case x < 4:
		rt := directs[k.N(len(directs))]
		v := g.Value(tm.Of(rt))
		if v.Kind() == reflect.Struct && k.P(40) {
			if f := v.FieldByName("Endianness"); f.IsValid() {
				f.Set(reflect.ValueOf(orders[1+k.N(2)]))
			}
		}
		m := v.Addr().Interface().(bin.BinaryMarshaler)
		return encStep{name: fmt.Sprintf("MarshalWithEncoder of %s %v", rt, v.Interface()), run: m.MarshalWithEncoder}
	}
	var t *tm.T
	switch {
	case x < 6:
		t = tm.Of(tailed(k))
	case x < 7:
		sts := tm.StaticTypes()
		t = tm.Of(sts[k.N(len(sts))])
	default:
		g.C.Boost = []string{"", "", "log"}[k.N(3)]
		t = tm.Of(g.Top())
	}
	v := g.Value(t)
	if k.P(25) {
		setFault(k, t, e, v)
	}
	arg := iface(k, v)
	return encStep{name: fmt.Sprintf("Encode of %.300s", t.RT), loose: e != tm.Borsh && multiMap(t, v), run: func(enc *bin.Encoder) error { return enc.Encode(arg) }}
}

// sameErr: two executions of one step end alike.
func sameErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return a == nil || errors.Is(a, st.Fault) == errors.Is(b, st.Fault)
}

func encHistory(k *core.Case) {
	e := tm.Encs[k.N(3)]
	cf := tm.Full(e)
	cf.BigLens, cf.BigMax = k.P(6), 5000
	cf.Depth = 1 + k.N(3)
	g := tm.NewGen(k.Rng, cf)
	w := &moody{fail: -1}
	enc := newEncoder(e, w)
	var trail []string
	for i, n := 0, steps(k, 3, 15); i < n; i++ {
		s := drawEncStep(k, e, g)
		fw := &sink{}
		fresh := newEncoder(e, fw)
		ferr := s.run(fresh)
		from, wfrom := len(w.b), enc.Written()
		broken := false
		if k.P(10) && len(fw.b) > 0 {
			w.fail = k.N(len(fw.b))
			broken = true
		}
		trail = append(trail, s.name)
		k.Detail(map[string]interface{}{"encoding": e.String(), "steps": trail})
		err := s.run(enc)
		if broken {
			w.fail = -1
			trail[len(trail)-1] += " (the writer refused)"
			k.Count("steps_with_refused_write", 1)
			if err == nil && !s.loose {
				// C12 is about the error; here only the steps after it matter
				k.Count("refusal_unreported", 1)
			}
			continue
		}
		got := w.b[from:]
		k.Eval(1)
		if err != nil {
			k.Count("steps_refused", 1)
			trail[len(trail)-1] += " (refused)"
		}
		if !sameErr(err, ferr) {
			k.Fail("step %d: a used encoder says %v, a fresh one %v", i, err, ferr)
		}
		if s.loose {
			if err == nil && len(got) != len(fw.b) {
				k.Fail("step %d: a used encoder writes %d bytes, a fresh one %d", i, len(got), len(fw.b))
			}
		} else if !bytes.Equal(got, fw.b) {
			k.Detail(map[string]interface{}{"encoding": e.String(), "steps": trail, "got": core.Hex(got), "fresh": core.Hex(fw.b)})
			k.Fail("step %d: a used encoder writes other bytes than a fresh one (offset %d)", i, firstDiff(got, fw.b))
		}
		if !s.loose && enc.Written()-wfrom != fresh.Written() {
			k.Fail("step %d: a used encoder counts %d bytes, a fresh one %d", i, enc.Written()-wfrom, fresh.Written())
		}
		k.Count("encoder_steps", 1)
	}
	k.Seen("enc", int(e), w.b)
	if k.WantSample() && len(trail) < 8 {
		k.Sample(map[string]interface{}{"encoding": e.String(), "steps": trail})
	}
}

type decStep struct {
	name string
	run  func(d *bin.Decoder) (string, error)
}

func drawDecStep(k *core.Case, e tm.Enc, g *tm.Gen, types []*tm.T, rem int) decStep {
	switch x := k.N(10); {
	case x < 3:
		o := drawOp(k, e, rem, rem)
		return decStep{o.name, func(d *bin.Decoder) (string, error) { v, err := o.call(d); return fmt.Sprintf("%#v", v), err }}
	case x < 5:
		rt := directs[k.N(len(directs))]
		var ord interface{}
		if k.P(40) {
			ord = orders[1+k.N(2)]
		}
		return decStep{fmt.Sprintf("UnmarshalWithDecoder of %s", rt), func(d *bin.Decoder) (string, error) {
			p := reflect.New(rt)
			if ord != nil && rt.Kind() == reflect.Struct {
				if f := p.Elem().FieldByName("Endianness"); f.IsValid() {
					f.Set(reflect.ValueOf(ord))
				}
			}
			err := p.Interface().(bin.BinaryUnmarshaler).UnmarshalWithDecoder(d)
			if err != nil {
				return "", err
			}
			return content(p.Elem(), false), nil
		}}
	}
	return decodeStep(types[k.N(len(types))])
}

func decodeStep(t *tm.T) decStep {
	return decStep{fmt.Sprintf("Decode of %.300s", t.RT), func(d *bin.Decoder) (string, error) {
		p := reflect.New(t.RT)
		err := d.Decode(p.Interface())
		if err != nil {
			return "", err
		}
		return content(p.Elem(), false), nil
	}}
}

func decHistory(k *core.Case) {
	e := tm.Encs[k.N(3)]
	var types []*tm.T
	var layout []*tm.T       // what follows what in the stream
	var free []int           // bytes that carry contents, not structure
	var hist, plan []decStep // steps since the last reset; steps to come
	stream := func() []byte {
		layout, free = nil, nil
		cf := tm.Full(e)
		cf.BigLens, cf.BigMax, cf.Depth, cf.Ext = k.P(6), 5000, 1+k.N(3), k.P(20)
		g := tm.NewGen(k.Rng, cf)
		var data []byte
		types = types[:0]
		for i, n := 0, 1+k.N(5); i < n; i++ {
			t := tm.Of(g.Top())
			if k.P(40) {
				t = tm.Of(tailed(k))
			}
			g.Left = 60
			if w, err := tm.Encode(t, e, g.Value(t)); err == nil {
				types = append(types, t)
				for j := 1 + k.N(2); j > 0; j-- {
					at := 0
					for _, m := range w.Marks {
						for ; at < m.Off; at++ {
							free = append(free, len(data)+at)
						}
						at = m.Off + m.Len
					}
					for ; at < len(w.B); at++ {
						free = append(free, len(data)+at)
					}
					data = append(data, w.B...)
					layout = append(layout, t)
				}
			}
		}
		if len(types) == 0 {
			types = append(types, tm.Of(reflect.TypeOf(uint8(0))))
		}
		if k.P(30) {
			for i := 0; i < 1+k.N(4) && len(data) > 0; i++ {
				data[k.N(len(data))] ^= byte(1 + k.N(255))
			}
		}
		return append(data, k.Bytes(k.N(30))...)
	}
	data := stream()
	d := newDecoder(e, data)
	var trail []string
	fail := func(f string, a ...interface{}) {
		k.Detail(map[string]interface{}{"encoding": e.String(), "steps": trail, "data": core.Hex(data)})
		k.Fail(f, a...)
	}
	inOrder := func() {
		for _, t := range layout {
			plan = append(plan, decodeStep(t))
		}
	}
	if k.P(40) {
		inOrder()
	}
	for i, n := 0, steps(k, 4, 18); i < n; i++ {
		x := k.N(100)
		if len(plan) > 0 && k.P(90) {
			x = 99
		}
		switch {
		case x < 20:
			plan = nil
			again := false
			switch k.N(14) {
			case 10, 11, 12, 13: // the same structure with other contents
				if k.P(70) {
					data = append([]byte(nil), data...)
				}
				for _, j := range free {
					if j < len(data) && k.P(30) {
						data[j] ^= 1 << k.N(7)
					}
				}
				again = true
				k.Count("similar_messages", 1)
			case 0, 1:
				data = stream()[:0]
				if k.P(50) {
					data = nil
				}
			case 2, 3, 4, 5: // much like the last message
				data = append([]byte(nil), data...)
				for j := 1 + k.N(3); j > 0 && len(data) > 0; j-- {
					data[k.N(len(data))] ^= 1 << k.N(5)
				}
				again = k.P(50)
				k.Count("similar_messages", 1)
			case 6: // in the same memory
				for j := 1 + k.N(3); j > 0 && len(data) > 0; j-- {
					data[k.N(len(data))] ^= 1 << k.N(5)
				}
				k.Count("similar_messages", 1)
				again = k.P(50)
			default:
				data = stream()
				if k.P(40) {
					inOrder()
				}
			}
			if again {
				plan = hist
				k.Count("histories_repeated", 1)
			}
			hist = nil
			d.Reset(data)
			trail = append(trail, fmt.Sprintf("Reset to %d bytes", len(data)))
			k.Count("resets", 1)
			k.Eval(1)
			if d.Position() != 0 || d.Remaining() != len(data) || d.Len() != len(data) {
				fail("after Reset the decoder is at %d with %d of %d bytes left, want 0 with %d", d.Position(), d.Remaining(), d.Len(), len(data))
			}
			continue
		case x < 26:
			e = tm.Encs[k.N(3)]
			d.SetEncoding(encOf(e))
			trail = append(trail, "SetEncoding "+e.String())
			k.Count("encoding_switches", 1)
			k.Eval(1)
			if d.IsBorsh() != (e == tm.Borsh) || d.IsBin() != (e == tm.Bin) || d.IsCompactU16() != (e == tm.Compact) {
				fail("after SetEncoding(%s) the decoder claims another encoding", e)
			}
			continue
		}
		pos := int(d.Position())
		if pos > len(data) {
			fail("the decoder is at %d of %d bytes", pos, len(data))
		}
		s := drawDecStep(k, e, nil, types, len(data)-pos)
		if len(plan) > 0 {
			s, plan = plan[0], plan[1:]
		}
		hist = append(hist, s)
		trail = append(trail, fmt.Sprintf("%s at %d", s.name, pos))
		k.Detail(map[string]interface{}{"encoding": e.String(), "steps": trail, "data": core.Hex(data)})
		got, err := s.run(d)
		fresh := newDecoder(e, data[pos:])
		want, ferr := s.run(fresh)
		k.Eval(1)
		k.Count("decoder_steps", 1)
		if err != nil {
			k.Count("failed_decodes", 1)
			trail[len(trail)-1] += " (error)"
		}
		if !sameErr(err, ferr) {
			fail("step %d: a used decoder says %v, a fresh one %v", i, err, ferr)
		}
		if err == nil && got != want {
			fail("step %d: a used decoder gives another value than a fresh one: %s", i, diffAt(want, got))
		}
		if int(d.Position())-pos != int(fresh.Position()) {
			fail("step %d: a used decoder moves by %d, a fresh one by %d", i, int(d.Position())-pos, fresh.Position())
		}
	}
	k.Seen("dec", int(e), data, len(trail))
}

// endurance puts one decoder (encoder) through tens of thousands of equal
// steps, which all fail or all succeed, and compares it with a fresh one.
func endurance(k *core.Case) {
	e := tm.Encs[k.I%3]
	g := tm.NewGen(k.Rng, tm.Full(e))
	var t *tm.T
	var v reflect.Value
	var w *tm.W
	for {
		t = tm.Of(g.Type(3))
		v = g.Value(t)
		var err error
		if w, err = tm.Encode(t, e, v); err == nil && len(w.B) > 3 && len(w.B) < 200 && (k.P(10) || t.K == tm.Struct || t.K == tm.Slice) {
			break
		}
	}
	n := 35000 + k.N(5000)
	if len(w.B) > 60 {
		n /= 2
	}
	fails := k.I/3%2 == 0
	k.Detail(info(e, t, v, w.B, fmt.Sprintf("%d times, failing: %v", n, fails)))
	k.Count("endurance_steps", int64(n))
	k.Seen("endurance", int(e), t.RT.String(), fails, w.B)
	if k.I/6%2 == 0 { // decoder
		data := w.B
		if fails {
			data = w.B[:len(w.B)-1-k.N(len(w.B)-1)]
		}
		first := newDecoder(e, data).Decode(reflect.New(t.RT).Interface())
		d := newDecoder(e, data)
		for i := 0; i < n; i++ {
			if i%500 != 499 {
				d.Reset(data)
				if err := d.Decode(reflect.New(t.RT).Interface()); (err == nil) != (first == nil) {
					k.Fail("decode %d of the same %d bytes says %v, the first %v", i, len(data), err, first)
				}
				continue
			}
			d.Reset(w.B)
			a, b := reflect.New(t.RT), reflect.New(t.RT)
			err := d.Decode(a.Interface())
			f := newDecoder(e, w.B)
			ferr := f.Decode(b.Interface())
			k.Eval(1)
			if !sameErr(err, ferr) {
				k.Fail("after %d decodes a decoder says %v, a fresh one %v", i, err, ferr)
			}
			if d.Position() != f.Position() {
				k.Fail("after %d decodes a decoder stops at %d, a fresh one at %d", i, d.Position(), f.Position())
			}
			if x, y := content(a.Elem(), false), content(b.Elem(), false); err == nil && x != y {
				k.Fail("after %d decodes a decoder gives another value: %s", i, diffAt(y, x))
			}
		}
		return
	}
	iv := iface(k, v)
	want, werr := marshal(e, iv)
	if multiMap(t, v) && e != tm.Borsh {
		want = nil
	}
	room := -1
	if fails {
		room = k.N(len(w.B))
	}
	var out []byte
	left := -1
	enc := newEncoder(e, writerFunc(func(p []byte) (int, error) {
		if left >= 0 && len(p) > left {
			return 0, errMoody
		}
		if left >= 0 {
			left -= len(p)
		}
		out = append(out, p...)
		return len(p), nil
	}))
	for i := 0; i < n; i++ {
		out, left = out[:0], room
		if i%500 == 499 {
			left = -1
		}
		err := enc.Encode(iv)
		if left != -1 {
			if err == nil {
				k.Fail("encode %d succeeded although the writer failed", i)
			}
			continue
		}
		if i%500 != 499 {
			if (err == nil) != (werr == nil) {
				k.Fail("encode %d of the same value says %v, the first %v", i, err, werr)
			}
			continue
		}
		k.Eval(1)
		if !sameErr(err, werr) {
			k.Fail("after %d encodes an encoder says %v, a fresh one %v", i, err, werr)
		}
		if want != nil && !bytes.Equal(out, want) {
			k.Fail("after %d encodes an encoder writes other bytes (offset %d)", i, firstDiff(out, want))
		}
	}
}

// oldElements looks for remains of earlier contents in the elements of slices
// and maps, where everything is new, what the wire does not carry included.
func oldElements(k *core.Case, t *tm.T, e tm.Enc, fresh, used reflect.Value) string {
	switch t.K {
	case tm.Slice, tm.Map:
		k.Count("collections_compared", 1)
		if a, b := content(fresh, false), content(used, false); a != b {
			return diffAt(a, b)
		}
	case tm.Arr:
		for i := 0; i < fresh.Len(); i++ {
			if d := oldElements(k, t.Elem, e, fresh.Index(i), used.Index(i)); d != "" {
				return d
			}
		}
	case tm.Ptr:
		if !fresh.IsNil() && !used.IsNil() {
			return oldElements(k, t.Elem, e, fresh.Elem(), used.Elem())
		}
	case tm.Struct:
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() || f.T == nil || t.Enum && e == tm.Borsh && i != int(fresh.Field(0).Uint())+1 {
				continue
			}
			if d := oldElements(k, f.T, e, fresh.Field(i), used.Field(i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func init() {
	reg(&core.Prop{ID: "C28", Rule: "One encoder (decoder) lives through a random history of encodes, primitive calls, direct marshaler calls, refusals, failing writers, damaged input, Reset and SetEncoding; each step is compared with the same step on a fresh one. Types that share a printed name are interleaved and compared with the reference. Distinct by (encoding, bytes, length of history).",
		Need: map[string]int64{"encoder_steps": 30000, "decoder_steps": 30000, "steps_refused": 500, "steps_with_refused_write": 1000, "resets": 2000, "encoding_switches": 1500, "failed_decodes": 2000, "alike": 5000}, Run: func(c *core.Ctx) {
			c.Run("encoder", c.Scaled(7000), encHistory)
			c.Run("decoder", c.Scaled(8000), decHistory)
			alike := st.Alike()
			c.Run("alike", c.Scaled(3000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				cf.BigLens, cf.BigMax = k.P(6), 5000
				g := tm.NewGen(k.Rng, cf)
				for i := 0; i < 4; i++ {
					rt := alike[k.N(len(alike))]
					if k.P(30) {
						if h := holders(k, rt); h.Kind() == reflect.Struct && !tm.HasExt(tm.Of(rt)) && !elemMinBad(tm.Of(h), e) {
							rt = h
						}
					}
					t := tm.Of(rt)
					v := g.Value(t)
					// alone in its own world: an unnamed twin of the type
					w := conformEnc(k, t, e, v)
					k.Count("alike", 1)
					if w != nil {
						conformDec(k, t, e, w.B)
					}
				}
			})
			c.Run("endurance", c.Scaled(24), endurance)
			if c.OnlyGroup == "" {
				c.Note("same_named_types", len(alike))
			}
		}})

	reg(&core.Prop{ID: "C30", Rule: genRule + " Each input, valid or damaged, is decoded into a fresh target and into one that already holds a random value or the remains of earlier (also failed) decodes; success, position and wire-visible value must agree.",
		Need: map[string]int64{"reused": 20000, "after_failure": 2000, "damaged": 10000, "collections_compared": 10000}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen) {
				target := reflect.New(t.RT)
				target.Elem().Set(g.Target(t))
				failedBefore := false
				for j, n := 0, 2+k.N(4); j < n; j++ {
					v := g.Value(t)
					w, err := tm.Encode(t, e, v)
					if err != nil {
						continue
					}
					data, how := w.B, "valid"
					if k.P(45) {
						data, how = mutate(k, w.B, w.Marks, e)
						k.Count("damaged", 1)
					}
					fresh := reflect.New(t.RT)
					fd, ud := newDecoder(e, data), newDecoder(e, data)
					k.Detail(info(e, t, v, data, "decode "+how))
					ferr := fd.Decode(fresh.Interface())
					before := content(target.Elem(), false)
					if len(before) > 600 {
						before = before[:600]
					}
					k.Detail(map[string]interface{}{"case": info(e, t, v, data, "decode into a used target, "+how), "target": before})
					uerr := ud.Decode(target.Interface())
					k.Eval(1)
					k.Count("reused", 1)
					if failedBefore {
						k.Count("after_failure", 1)
					}
					if (ferr == nil) != (uerr == nil) {
						k.Fail("into a fresh target: %v; into a used one: %v", ferr, uerr)
					}
					if fd.Position() != ud.Position() {
						k.Fail("into a fresh target %d bytes were consumed, into a used one %d", fd.Position(), ud.Position())
					}
					if ferr == nil {
						if d := tm.Diff(t, e, fresh.Elem(), target.Elem()); d != "" {
							k.Fail("the value depends on what the target held before: %s", d)
						}
						if d := oldElements(k, t, e, fresh.Elem(), target.Elem()); d != "" {
							k.Fail("elements are not new ones: %s", d)
						}
						note(k, e, t, v, data)
					} else {
						failedBefore = true
					}
				}
			}
			c.Run("generated", c.Scaled(6000), func(k *core.Case) {
				cf := anyEnc(k)
				cf.Ext = false // absent extensions leave their field alone
				cf.BigLens = k.P(5)
				cf.Boost = []string{"", "", "opt", "map", "slice", "ptr"}[k.N(6)]
				g := tm.NewGen(k.Rng, cf)
				one(k, tm.Of(g.Top()), cf.Enc, g)
			})
			// collections of one size decoded over those of another
			c.Run("sizes", c.Scaled(1800), func(k *core.Case) {
				e := tm.Encs[k.I%3]
				g := tm.NewGen(k.Rng, tm.Conf{Enc: e})
				el := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(struct {
					A uint8
					B string
				}{}), reflect.TypeOf((*uint16)(nil)), reflect.TypeOf([]uint8(nil)), reflect.TypeOf(map[string]uint8(nil)), reflect.TypeOf([2]int32{})}[k.N(10)]
				rt := reflect.SliceOf(el)
				if k.P(60) {
					rt = reflect.MapOf([]reflect.Type{reflect.TypeOf(uint16(0)), reflect.TypeOf(""), reflect.TypeOf(int64(0))}[k.N(3)], el)
				}
				if k.P(70) {
					rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "F", Type: rt}, {Name: "Z", Type: reflect.TypeOf("")}})
				}
				t := tm.Of(rt)
				fill := func(n int) reflect.Value {
					v := reflect.New(rt).Elem()
					f := v
					if rt.Kind() == reflect.Struct {
						v.Field(0).SetUint(k.U64() & 255)
						v.Field(2).SetString(g.Str(k.N(9)))
						f = v.Field(1)
					}
					if f.Kind() == reflect.Slice {
						f.Set(reflect.MakeSlice(f.Type(), n, n+k.N(3)))
						for i := 0; i < n; i++ {
							f.Index(i).Set(g.Value(tm.Of(el)))
						}
						return v
					}
					f.Set(reflect.MakeMap(f.Type()))
					at := k.U64() & 0xff
					for i := 0; i < n; i++ {
						key := reflect.New(f.Type().Key()).Elem()
						switch x := at + uint64(i)*7; key.Kind() {
						case reflect.String:
							key.SetString(fmt.Sprint("k", x))
						case reflect.Int64:
							key.SetInt(-int64(x))
						default:
							key.SetUint(x)
						}
						f.SetMapIndex(key, g.Value(tm.Of(el)))
					}
					return v
				}
				size := func() int { return []int{0, 1, 2, k.N(10), k.N(80), 63 + k.N(3), 100 + k.N(300)}[k.N(7)] }
				target := reflect.New(rt)
				n := size()
				target.Elem().Set(fill(n))
				for j := 0; j < 4; j++ {
					m := size()
					if k.P(25) {
						m = n
					}
					v := fill(m)
					w, err := tm.Encode(t, e, v)
					if err != nil {
						k.Fail("the model refuses its own value: %v", err)
					}
					k.Detail(info(e, t, v, w.B, fmt.Sprintf("%d entries over %d", m, n)))
					fresh := reflect.New(rt)
					ferr, uerr := unmarshal(e, fresh.Interface(), w.B), unmarshal(e, target.Interface(), w.B)
					k.Eval(1)
					k.Count("sizes", 1)
					if ferr != nil || uerr != nil {
						k.Fail("into a fresh target: %v; into a used one: %v", ferr, uerr)
					}
					if d := tm.Diff(t, e, fresh.Elem(), target.Elem()); d != "" {
						k.Fail("the value depends on what the target held before: %s", d)
					}
					k.Seen("sizes", int(e), typeStr(t), n, w.B)
					n = m
				}
			})
			sts := tm.StaticTypes()
			c.Run("static", c.Scaled(2500), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				cf.Ext = false
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(sts[k.I%len(sts)])
				if tm.HasExt(t) {
					return
				}
				one(k, t, e, g)
			})
			c.Run("libtypes", c.Scaled(2500), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(tm.LibList[k.I%len(tm.LibList)].RT)
				one(k, t, e, g)
			})
		}})

	reg(&core.Prop{ID: "C35", Rule: genRule + " Every value goes through every way of encoding it and every input, valid or damaged, through every way of decoding it; all must agree.",
		Need: map[string]int64{"values": 8000, "inputs": 15000, "damaged": 8000, "refused_by_all": 300}, Run: func(c *core.Ctx) {
			forValues(c, "generated", c.Scaled(4000), 3, func(k *core.Case) tm.Conf {
				cf := anyEnc(k)
				cf.BigLens = k.P(10)
				cf.Boost = []string{"", "log"}[k.N(2)]
				cf.NilPtrs = k.P(15)
				return cf
			}, agree)
			sts := tm.StaticTypes()
			c.Run("static", c.Scaled(2500), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				g.C.BigLens, g.C.BigMax = k.P(6), 5000
				t := tm.Of(sts[k.I%len(sts)])
				agree(k, t, e, g, g.Value(t))
			})
			sweeps(c, anyOf, func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				if k.P(25) {
					agree(k, t, e, g, v)
				}
			})
		}})
}

func agree(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
	if k.P(12) {
		g.NaN = true
		v = g.Value(t)
		g.NaN = false
	}
	if k.P(25) {
		setFault(k, t, e, v)
	}
	loose := e != tm.Borsh && multiMap(t, v)
	p := reflect.New(t.RT)
	p.Elem().Set(v)
	byVal, byPtr := v.Interface(), p.Interface()
	if l := tm.LibOf(t.RT); l != nil && l.PtrOnly {
		byVal = byPtr
	}
	type res struct {
		how string
		b   []byte
		err error
	}
	var rs []res
	add := func(how string, b []byte, err error) { rs = append(rs, res{how, b, err}) }
	k.Detail(info(e, t, v, nil, ""))
	for i, arg := range []interface{}{byVal, byPtr} {
		kind := []string{"value", "pointer"}[i]
		b, err := marshal(e, arg)
		add("Marshal of the "+kind, b, err)
		w := &sink{}
		enc := newEncoder(e, w)
		err = enc.Encode(arg)
		add("encoder given the "+kind, w.b, err)
		if err == nil && enc.Written() != len(w.b) {
			k.Count("written_disagrees", 1)
		}
		w = &sink{}
		err = bin.NewEncoderWithEncoding(w, encOf(e)).Encode(arg)
		add("NewEncoderWithEncoding given the "+kind, w.b, err)
		wb := bin.NewWriteByWrite("x")
		err = newEncoder(e, wb).Encode(arg)
		add("WriteByWrite given the "+kind, wb.Bytes(), err)
		aw, got := anyWriter(k)
		err = newEncoder(e, aw).Encode(arg)
		add(fmt.Sprintf("an encoder on a %T given the %s", aw, kind), got(), err)
	}
	if m, ok := byPtr.(bin.BinaryMarshaler); ok && t.K == tm.LibK {
		w := &sink{}
		err := newEncoder(e, w).Encode(m)
		add("the marshaler interface", w.b, err)
	}
	k.Eval(len(rs))
	k.Count("values", 1)
	for _, r := range rs[1:] {
		if (r.err == nil) != (rs[0].err == nil) {
			k.Fail("%s: %v; %s: %v", rs[0].how, rs[0].err, r.how, r.err)
		}
		if r.err != nil {
			continue
		}
		if loose && len(r.b) == len(rs[0].b) {
			continue
		}
		if !bytes.Equal(r.b, rs[0].b) {
			k.Fail("%s and %s give other bytes (offset %d)", rs[0].how, r.how, firstDiff(rs[0].b, r.b))
		}
	}
	n, cerr := byteCount(e, byVal)
	if (cerr == nil) != (rs[0].err == nil) {
		k.Fail("%s: %v; counting: %v", rs[0].how, rs[0].err, cerr)
	}
	if cerr == nil && int(n) != len(rs[0].b) {
		k.Fail("%s gives %d bytes, counting %d", rs[0].how, len(rs[0].b), n)
	}
	if rs[0].err != nil {
		k.Count("refused_by_all", 1)
		return
	}
	data := rs[0].b
	note(k, e, t, v, data)
	wm, werr := tm.Encode(t, e, v)
	var marks []tm.Mark
	if werr == nil && bytes.Equal(wm.B, data) {
		marks = wm.Marks
	}
	for j := 0; j < 4; j++ {
		in, how := data, "valid"
		if j == 3 {
			if !k.P(25) {
				break
			}
			in, how = [][]byte{nil, {}}[k.N(2)], "nothing"
			k.Count("empty_inputs", 1)
		} else if j > 0 {
			in, how = mutate(k, data, marks, e)
			k.Count("damaged", 1)
		}
		k.Detail(info(e, t, v, in, "decode "+how))
		k.Count("inputs", 1)
		type dres struct {
			how string
			pos int
			err error
			v   reflect.Value
		}
		var ds []dres
		try := func(how string, d *bin.Decoder, base int) {
			p := reflect.New(t.RT)
			var err error
			pos := -1
			if d == nil {
				err = unmarshal(e, p.Interface(), in)
			} else {
				err = d.Decode(p.Interface())
				pos = int(d.Position()) - base
			}
			ds = append(ds, dres{how, pos, err, p.Elem()})
		}
		try("Unmarshal", nil, 0)
		try("the decoder", newDecoder(e, in), 0)
		try("NewDecoderWithEncoding", bin.NewDecoderWithEncoding(in, encOf(e)), 0)
		d := newDecoder(tm.Encs[k.N(3)], []byte("something else entirely"))
		d.SkipBytes(uint(k.N(9)))
		d.Reset(in)
		d.SetEncoding(encOf(e))
		try("a reset decoder", d, 0)
		pre := 1 + k.N(20)
		buf := append(make([]byte, pre), in...)
		d = newDecoder(e, buf)
		d.SkipBytes(uint(pre))
		try("a decoder further into a buffer", d, pre)
		if pre < len(buf) {
			d = newDecoder(e, buf)
			d.SetPosition(uint(pre))
			try("a positioned decoder", d, pre)
		}
		// through a pointer and through an interface holding it
		pp := reflect.New(reflect.PtrTo(t.RT))
		if t.RT.Kind() != reflect.Ptr && t.RT.Kind() != reflect.Map {
			d = newDecoder(e, in)
			err := d.Decode(pp.Interface())
			r := dres{"a pointer to a nil pointer", int(d.Position()), err, reflect.Value{}}
			if err == nil {
				if pp.Elem().IsNil() {
					k.Fail("decoding through a nil pointer left it nil")
				}
				r.v = pp.Elem().Elem()
			}
			ds = append(ds, r)
		}
		k.Eval(len(ds))
		for _, r := range ds[1:] {
			if (r.err == nil) != (ds[0].err == nil) {
				k.Fail("%s: %v; %s: %v", ds[0].how, ds[0].err, r.how, r.err)
			}
			if r.pos >= 0 && r.pos != ds[1].pos {
				k.Fail("%s consumed %d bytes, %s %d", ds[1].how, ds[1].pos, r.how, r.pos)
			}
			if r.err != nil {
				continue
			}
			if d := tm.Diff(t, e, ds[0].v, r.v); d != "" {
				k.Fail("%s and %s give other values: %s", ds[0].how, r.how, d)
			}
		}
		if ds[0].err == nil && k.P(40) && t.RT.Kind() != reflect.Ptr && t.RT.Kind() != reflect.Map {
			usedAlike(k, t, e, g.C, in, buf, pre)
		}
	}
}

// usedAlike decodes one input into equal used targets in several ways; what is
// in them afterwards, hidden fields included, must not depend on the way.
func usedAlike(k *core.Case, t *tm.T, e tm.Enc, cf tm.Conf, in, buf []byte, pre int) {
	seed := k.U64()
	twin := func() reflect.Value {
		cf.BigLens = false
		p := reflect.New(t.RT)
		p.Elem().Set(tm.NewGen(tm.NewRng(seed), cf).Target(t))
		return p
	}
	ways := []struct {
		how string
		dec func(p reflect.Value) error
	}{
		{"Unmarshal", func(p reflect.Value) error { return unmarshal(e, p.Interface(), in) }},
		{"the decoder", func(p reflect.Value) error { return newDecoder(e, in).Decode(p.Interface()) }},
		{"a decoder further into a buffer", func(p reflect.Value) error {
			d := newDecoder(e, buf)
			d.SkipBytes(uint(pre))
			return d.Decode(p.Interface())
		}},
		{"a pointer to a pointer", func(p reflect.Value) error {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			err := unmarshal(e, pp.Interface(), in)
			if pp.Elem().Pointer() != p.Pointer() {
				k.Fail("decoding through a pointer that was set replaced it")
			}
			return err
		}},
		{"a pointer to a pointer further into a buffer", func(p reflect.Value) error {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			d := newDecoder(e, buf)
			d.SkipBytes(uint(pre))
			return d.Decode(pp.Interface())
		}},
		{"two pointers to a pointer", func(p reflect.Value) error {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			ppp := reflect.New(pp.Type())
			ppp.Elem().Set(pp)
			return unmarshal(e, ppp.Interface(), in)
		}},
	}
	k.Detail(info(e, t, twin().Elem(), in, "decode into equal used targets"))
	var want string
	for i, w := range ways {
		p := twin()
		if err := w.dec(p); err != nil {
			k.Fail("decoding into a used target by %s failed: %v", w.how, err)
		}
		got := content(p.Elem(), false)
		if i == 0 {
			want = got
		} else if got != want {
			k.Fail("a used target decoded into by %s and by %s differ: %s", ways[0].how, w.how, diffAt(want, got))
		}
	}
	k.Eval(len(ways))
	k.Count("used_targets_alike", 1)
}
