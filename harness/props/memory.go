package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/tm"
)

// content renders a value without addresses and capacities; byte slices, which
// may share memory with the input, are left out on request.
func content(v reflect.Value, noBytes bool) string {
	var sb strings.Builder
	contentTo(&sb, v, noBytes)
	return sb.String()
}

func contentTo(sb *strings.Builder, v reflect.Value, noBytes bool) {
	switch v.Kind() {
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		contentTo(sb, v.Elem(), noBytes)
	case reflect.Slice:
		if noBytes && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "bytes(%d)", v.Len())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			contentTo(sb, v.Index(i), noBytes)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var es []string
		for it := v.MapRange(); it.Next(); {
			es = append(es, content(it.Key(), noBytes)+":"+content(it.Value(), noBytes))
		}
		sort.Strings(es)
		sb.WriteString("map{" + strings.Join(es, ",") + "}")
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			contentTo(sb, v.Field(i), noBytes)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	}
}

// slicesIn collects the slices of a decoded value that can be appended to.
func slicesIn(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			slicesIn(v.Elem(), out)
		}
	case reflect.Slice:
		if v.Len() > 0 || v.Cap() > 0 {
			*out = append(*out, v)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			slicesIn(v.Index(i), out)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			slicesIn(it.Value(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				slicesIn(v.Field(i), out)
			}
		}
	}
}

// poke appends to a slice the way a caller would, filling the new elements with junk.
func poke(s reflect.Value) {
	el := reflect.New(s.Type().Elem()).Elem()
	switch el.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		el.SetUint(0xe7)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		el.SetInt(0x67)
	case reflect.Bool:
		el.SetBool(true)
	}
	for i := 0; i < 9; i++ {
		s = reflect.Append(s, el)
	}
}

func isolated(k *core.Case, e tm.Enc, t *tm.T, ptr reflect.Value, slice []byte, intact func() string) {
	v := ptr.Elem()
	before := content(v, false)
	var ss []reflect.Value
	slicesIn(v, &ss)
	most := 41
	if n := 1 << 22 / (len(before) + 1); n < most {
		most = n + 2
	}
	for i, s := range ss {
		if i >= most {
			break
		}
		poke(s)
		k.Eval(1)
		k.Count("appends_to_decoded_slices", 1)
		if s.Type().Elem().Kind() == reflect.Uint8 && len(slice) > 0 && s.Len() > 0 {
			if a, lo := s.Pointer(), reflect.ValueOf(slice).Pointer(); a >= lo && a < lo+uintptr(len(slice)) {
				k.Count("slices_sharing_the_input", 1)
			}
		}
		if msg := intact(); msg != "" {
			k.Fail("appending to a decoded %s of %d elements changed the input: %s", s.Type(), s.Len(), msg)
		}
		if after := content(v, false); after != before {
			k.Fail("appending to a decoded %s of %d elements changed another part of the value: %s", s.Type(), s.Len(), diffAt(before, after))
		}
	}
	// the caller reuses its buffer
	keep := content(v, true)
	for i := range slice {
		slice[i] ^= 0x5b
	}
	k.Eval(1)
	k.Count("buffers_reused", 1)
	if after := content(v, true); after != keep {
		k.Fail("a decoded value other than a byte slice changed when the input buffer was reused: %s", diffAt(keep, after))
	}
}

// held is memory that a decoding target referred to before the decode.
type held struct {
	what, was string
	now       func() string
}

// holdSlices collects the slices and maps of a value that is about to be decoded into.
// Pointers are followed on decoding, so that slices behind them are not collected here
// as wholes but through their own headers.
func holdSlices(v reflect.Value) (out []held) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	add := func(v reflect.Value, full func() string) {
		if v.Pointer() == 0 || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		out = append(out, held{v.Type().String(), full(), full})
	}
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() && v.Elem().Kind() != reflect.Ptr {
				walk(v.Elem())
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			if tm.LibOf(v.Type()) != nil {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); v.Type().Field(i).PkgPath == "" {
					walk(f)
				}
			}
		case reflect.Slice:
			if v.Cap() == 0 {
				return
			}
			c := v.Slice(0, v.Cap()) // a header of its own
			add(c, func() string { return snap(c) })
		case reflect.Map:
			if v.IsNil() {
				return
			}
			m := reflect.ValueOf(v.Interface())
			add(m, func() string { return snap(m) })
		}
	}
	walk(v)
	return out
}

func init() {
	reg(&core.Prop{ID: "C11", Rule: genRule + " Deep snapshots (addresses, capacities, spare capacity, hidden fields) are taken of values around encoding and of guarded buffers around decoding; then decoded slices are appended to and the buffer is overwritten. Values and inputs are also put into write-protected memory between inaccessible pages, where any write and any read beyond them is a fault.",
		Need: map[string]int64{"encodes_watched": 10000, "decodes_watched": 20000, "appends_to_decoded_slices": 10000, "buffers_reused": 5000, "held_memory_watched": 2000, "encoded_read_only": 1000, "decoded_read_only": 1000, "decoded_over_read_only": 500}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				k.Detail(info(e, t, v, nil, ""))
				if k.P(6) { // failing encodes too
					g.NaN = true
				}
				before := snap(v)
				out, err := encodeVia(k, e, iface(k, v))
				k.Eval(1)
				k.Count("encodes_watched", 1)
				if after := snap(v); after != before {
					k.Fail("encoding changed the value: %s", diffAt(before, after))
				}
				if k.P(25) {
					if n, err2 := byteCount(e, iface(k, v)); err2 == nil && err == nil && int(n) != len(out) {
						k.Count("count_disagrees", 1)
					}
					if after := snap(v); after != before {
						k.Fail("counting changed the value: %s", diffAt(before, after))
					}
				}
				w, werr := tm.Encode(t, e, v)
				if werr != nil {
					return
				}
				if err == nil && !multiMap(t, v) {
					// the result is the caller's alone
					b1, err1 := marshal(e, iface(k, v))
					b2, err2 := marshal(e, iface(k, v))
					if err1 == nil && err2 == nil {
						keep := string(b2)
						for i := range b1 {
							b1[i] ^= 0xff
						}
						_ = append(b1, 1, 2, 3, 4)
						k.Eval(1)
						if string(b2) != keep {
							k.Fail("two encodings of one value share memory")
						}
						if after := snap(v); after != before {
							k.Fail("writing into the encoding changed the value: %s", diffAt(before, after))
						}
					}
				}
				note(k, e, t, v, w.B)
				for j := 0; j < 3; j++ {
					data, how := w.B, "valid"
					if j > 0 {
						data, how = mutate(k, w.B, w.Marks, e)
					}
					slice, intact := guarded(data, byte(0xd0+j))
					k.Detail(info(e, t, v, data, "decode "+how))
					ptr := reflect.New(t.RT)
					var derr error
					if k.P(25) { // into a used target: what shares memory with it must not change
						ptr.Elem().Set(g.Target(t))
						held := holdSlices(ptr.Elem())
						_, derr = decodeInPlace(k, e, slice, ptr.Interface())
						k.Eval(1)
						k.Count("held_memory_watched", int64(len(held)))
						for _, h := range held {
							if now := h.now(); now != h.was {
								k.Fail("decoding into a used target wrote into the %s it held: %s", h.what, diffAt(h.was, now))
							}
						}
					} else {
						_, derr = decodeInPlace(k, e, slice, ptr.Interface())
					}
					k.Eval(1)
					k.Count("decodes_watched", 1)
					if msg := intact(); msg != "" {
						k.Fail("decoding changed the input: %s", msg)
					}
					if derr == nil {
						isolated(k, e, t, ptr, slice, intact)
					}
				}
			}
			forValues(c, "generated", c.Scaled(3600), 3, anyEnc, one)
			forValues(c, "read-only", c.Scaled(5000), 3, anyEnc, readOnly)
			c.Run("read-only-static", c.Scaled(3000), func(k *core.Case) {
				cf := tm.Full(tm.Encs[k.N(3)])
				cf.BigLens, cf.BigMax = k.P(10), 5000
				g := tm.NewGen(k.Rng, cf)
				all := tm.StaticTypes()
				t := tm.Of(append(all[:len(all):len(all)], tm.Plain...)[k.N(len(all)+len(tm.Plain))])
				readOnly(k, t, cf.Enc, g, g.Value(t))
			})
			c.Run("plain", c.Scaled(3*4*len(tm.Plain)), func(k *core.Case) {
				cf := tm.Full(tm.Encs[k.I%3])
				cf.BigLens = k.P(10)
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(tm.Plain[k.I/3%len(tm.Plain)])
				for j := 0; j < 3; j++ {
					one(k, t, cf.Enc, g, g.Value(t))
				}
			})
			sts := tm.StaticTypes()
			c.Run("static", c.Scaled(1200), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				t := tm.Of(sts[k.I%len(sts)])
				one(k, t, e, g, g.Value(t))
			})
			c.Run("libtypes", c.Scaled(600), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				t := tm.Of(holders(k, tm.LibList[k.I%len(tm.LibList)].RT))
				if ptrOnlyByValue(t) {
					return
				}
				one(k, t, e, g, g.Value(t))
			})
			c.Run("packed", c.Scaled(800), func(k *core.Case) {
				// long packed slices and arrays: decoded in bulk
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				el := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(bin.Uint64(0))}[k.I%5]
				var rt reflect.Type
				if k.P(50) {
					rt = reflect.SliceOf(el)
				} else {
					rt = reflect.ArrayOf(1+k.N(40), el)
				}
				pad := reflect.ArrayOf(k.N(8), reflect.TypeOf(uint8(0)))
				tag := reflect.StructTag("")
				if k.P(30) {
					tag = `bin:"big"`
				}
				st := reflect.StructOf([]reflect.StructField{{Name: "P", Type: pad}, {Name: "A", Type: rt, Tag: tag}, {Name: "S", Type: reflect.TypeOf("")}, {Name: "B", Type: reflect.SliceOf(reflect.TypeOf(uint8(0)))}, {Name: "C", Type: reflect.SliceOf(reflect.TypeOf(uint8(0)))}})
				t := tm.Of(st)
				v := g.Value(t)
				if f := v.Field(1); f.Kind() == reflect.Slice {
					n := k.N(60)
					c := n + k.N(4)
					f.Set(reflect.MakeSlice(rt, c, c))
					for i := 0; i < c; i++ {
						f.Index(i).SetUint(k.U64() & (1<<(8*uint(el.Size())-1) - 1))
					}
					f.SetLen(n)
				}
				one(k, t, e, g, v)
			})
			c.Run("reads", c.Scaled(6000), func(k *core.Case) {
				// the same for the raw reading calls
				e := tm.Encs[k.N(3)]
				n := 1 + k.N(60)
				var pre bytes.Buffer
				enc := newEncoder(e, &pre)
				body := k.Bytes(n)
				kind := k.N(8)
				switch kind {
				case 0, 1, 2:
					pre.Write(body)
				case 3:
					enc.WriteBytes(body, true)
				case 4:
					enc.WriteString(string(body))
				case 5:
					enc.WriteRustString(string(body))
				case 6:
					enc.WriteString(string(body))
				case 7:
					pre.Write(body)
				}
				at := k.N(10)
				data := append(append(k.Bytes(at), pre.Bytes()...), k.Bytes(20)...)
				slice, intact := guarded(data, 0xc9)
				d := newDecoder(e, slice)
				if d.SkipBytes(uint(at)) != nil {
					return
				}
				var got []byte
				var str string
				var err error
				name := ""
				switch kind {
				case 0:
					name = "ReadNBytes"
					got, err = d.ReadNBytes(n)
				case 1:
					name = "ReadBytes"
					got, err = d.ReadBytes(n)
				case 2:
					name = "Peek"
					got, err = d.Peek(n)
				case 3:
					name = "ReadByteSlice"
					got, err = d.ReadByteSlice()
				case 4:
					name = "ReadString"
					str, err = d.ReadString()
				case 5:
					name = "ReadRustString"
					str, err = d.ReadRustString()
				case 6:
					name = "SafeReadUTF8String"
					str, err = d.SafeReadUTF8String()
				case 7:
					name = "Read"
					got = make([]byte, n)
					_, err = d.Read(got)
				}
				k.Detail(info(e, tm.Of(reflect.TypeOf([]byte{})), reflect.Value{}, data, name))
				k.Eval(1)
				if err != nil {
					return
				}
				k.Seen("read", name, data)
				k.Count("raw_reads_watched", 1)
				_ = append(got, 1, 2, 3, 4, 5, 6, 7, 8, 9)
				if msg := intact(); msg != "" {
					k.Fail("%s of %d bytes: reading and appending to the result changed the input: %s", name, n, msg)
				}
				keepS := strings.Clone(str)
				if kind == 7 {
					keepS = string(got)
				}
				for i := range slice {
					slice[i] ^= 0x77
				}
				if kind == 7 {
					str = string(got)
				}
				if str != keepS {
					k.Fail("the result of %s changed when the input buffer was reused", name)
				}
			})
		}})
}

func ptrOnlyByValue(t *tm.T) bool {
	bad := false
	var walk func(t *tm.T, under bool)
	seen := map[*tm.T]bool{}
	walk = func(t *tm.T, under bool) {
		if t.K == tm.LibK {
			if t.Lib.PtrOnly && !under {
				bad = true
			}
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Elem != nil {
			walk(t.Elem, t.K == tm.Ptr)
		}
		if t.Key != nil {
			walk(t.Key, false)
		}
		for i := range t.F {
			walk(t.F[i].T, false)
		}
	}
	walk(t, false)
	return bad
}

// decodeInPlace is decodeVia without copying the input.
func decodeInPlace(k *core.Case, e tm.Enc, data []byte, ptr interface{}) (int, error) {
	switch k.N(3) {
	case 0:
		return -1, unmarshal(e, ptr, data)
	case 1:
		d := newDecoder(e, nil)
		d.Reset(data)
		err := d.Decode(ptr)
		return int(d.Position()), err
	}
	d := bin.NewDecoderWithEncoding(data, encOf(e))
	err := d.Decode(ptr)
	return int(d.Position()), err
}
