package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

var fLog = &feature{name: "log", has: func(t *tm.T, f *tm.Field) bool { return t.K == tm.LibK && t.Lib.Log }}

func callsEq(a, b []tm.Call) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("call %d is %q at offset %d, want %q at %d", i, a[i].Key, a[i].Off, b[i].Key, b[i].Off)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d calls, want %d", len(a), len(b))
	}
	return ""
}

// setFault puts the refusing value somewhere into v and tells whether it did.
func setFault(k *core.Case, t *tm.T, e tm.Enc, v reflect.Value) bool {
	var spots []reflect.Value
	var walk func(t *tm.T, v reflect.Value)
	walk = func(t *tm.T, v reflect.Value) {
		switch t.K {
		case tm.LibK:
			if !v.CanSet() {
				return
			}
			switch t.Lib.Name {
			case "LVal", "LPtr", "CMagic", "LOwn", "LOwnP":
				spots = append(spots, v.Field(0))
			case "LEmb":
				spots = append(spots, v.Field(0).Field(0))
			case "LEmbP":
				spots = append(spots, v.Field(1).Field(0))
			case "LInt", "LI8", "LI16", "LI64", "LU8", "LU16", "LU32", "LU64", "LF32", "LF64", "LArr":
				spots = append(spots, v)
			}
		case tm.Slice, tm.Arr:
			for i := 0; i < v.Len(); i++ {
				walk(t.Elem, v.Index(i))
			}
		case tm.Ptr:
			if !v.IsNil() {
				walk(t.Elem, v.Elem())
			}
		case tm.Struct:
			if t.Enum && e == tm.Borsh {
				if i := int(v.Field(0).Uint()) + 1; i < len(t.F) {
					walk(t.F[i].T, v.Field(i))
				}
				return
			}
			for i := range t.F {
				if (t.F[i].Opt || t.F[i].COpt) && v.Field(i).IsZero() {
					continue // absent
				}
				if !t.F[i].Hidden() && t.F[i].SizeOf == "" {
					walk(t.F[i].T, v.Field(i))
				}
			}
		}
	}
	walk(t, v)
	if len(spots) == 0 {
		return false
	}
	s := spots[k.N(len(spots))]
	switch s.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(st.FaultID)
		if bits := s.Type().Bits(); bits < 32 { // the same low bits, sign extended
			x = x << (64 - bits) >> (64 - bits)
		}
		s.SetInt(x)
	case reflect.Float32, reflect.Float64:
		s.SetFloat(st.FaultID)
	case reflect.Array:
		s.Set(reflect.ValueOf(st.LArr{0, 0, st.FaultID >> 8, st.FaultID & 0xff}))
	default:
		x := uint64(st.FaultID)
		if bits := s.Type().Bits(); bits < 64 {
			x &= 1<<bits - 1
		}
		s.SetUint(x)
	}
	return true
}

func refusedCall(key string) bool {
	return strings.HasSuffix(key, " early end") || strings.HasSuffix(key, " fault")
}

type structErr struct{ Code int }

func (s structErr) Error() string { return fmt.Sprint("code ", s.Code) }

// drawError draws an error for a writer or a marshaler to fail with.
func drawError(k *core.Case) error {
	switch k.N(9) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return []error{io.ErrShortBuffer, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe}[k.N(4)]
	case 3:
		return fmt.Errorf("wrapped: %w", []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite}[k.N(3)])
	case 4:
		return structErr{k.N(3)}
	case 5:
		return &typedErr{k.N(1000)}
	case 6:
		return []error{os.ErrDeadlineExceeded, context.Canceled, os.ErrNotExist}[k.N(3)]
	case 7:
		return errors.New("")
	}
	return st.Fault
}

func init() {
	reg(&core.Prop{ID: "C29", Rule: "Types containing values that marshal themselves (struct, integer, string and slice kinds; value and pointer receivers; in fields, options, pointers, elements, map keys and values) log every call with encoder or decoder, offset and content; the log is compared with the expected one, with and without refusing values and damaged input. Distinct by (encoding, type, bytes).",
		Need: map[string]int64{"calls_logged": 30000, "encode_errors_propagated": 1500, "decode_errors_propagated": 1500, "judged": 8000, "one_sided": 1000, "entry_points_counted": 2000, "refusals_at_the_end": 3000}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				if !fLog.in(t) {
					return
				}
				cmp, werr := compose(fLog, t, e, v)
				if cmp.polluted != "" || werr != nil {
					k.Count("skipped_foreign_defect", 1)
					return
				}
				freeOrder := e != tm.Borsh && multiMap(t, v)
				want := cmp.w.Calls
				// encode
				w := &sink{}
				enc := newEncoder(e, w)
				log := st.Watch(enc)
				k.Detail(info(e, t, v, nil, "encode"))
				err := enc.Encode(iface(k, v))
				st.Unwatch(enc)
				k.Eval(1)
				k.Count("judged", 1)
				k.Count("calls_logged", int64(len(*log)))
				note(k, e, t, v, cmp.w.B)
				if err != nil {
					k.Fail("encoding failed: %v", err)
				}
				if !freeOrder {
					if d := callsEq(*log, want); d != "" {
						k.Fail("calls to marshalers: %s", d)
					}
					if !bytes.Equal(w.b, cmp.w.B) {
						k.Detail(map[string]interface{}{"case": info(e, t, v, nil, ""), "got": core.Hex(w.b), "want": core.Hex(cmp.w.B)})
						k.Fail("the encoding around marshalers differs at offset %d", firstDiff(w.b, cmp.w.B))
					}
				} else if len(*log) != len(want) {
					k.Fail("%d calls to marshalers, want %d", len(*log), len(want))
				}
				// decode what the library wrote
				data := cmp.w.B
				k.Detail(info(e, t, v, data, "decode"))
				dec := newDecoder(e, data)
				dlog := st.Watch(dec)
				ptr := reflect.New(t.RT)
				err = dec.Decode(ptr.Interface())
				st.Unwatch(dec)
				k.Eval(1)
				k.Count("calls_logged", int64(len(*dlog)))
				if err != nil {
					k.Fail("decoding failed: %v", err)
				}
				if d := callsEq(*dlog, want); d != "" {
					k.Fail("calls to unmarshalers: %s", d)
				}
				if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
					k.Fail("decoded value differs: %s", d)
				}
				// a refusing unmarshaler: its marker is damaged
				var marks []tm.Mark
				for _, m := range cmp.w.Marks {
					if m.Kind == "log" {
						marks = append(marks, m)
					}
				}
				if len(marks) > 0 {
					i := k.N(len(marks))
					at := callAt(want, i) // its place among all calls
					bad := append([]byte(nil), data...)
					bad[marks[i].Off] ^= byte(1 + k.N(255))
					k.Detail(info(e, t, v, bad, fmt.Sprintf("decode with the marker of call %d damaged", at)))
					dec := newDecoder(e, bad)
					dlog := st.Watch(dec)
					ferr := drawError(k)
					st.SetFault(dec, ferr)
					err := dec.Decode(reflect.New(t.RT).Interface())
					st.Unwatch(dec)
					k.Eval(1)
					if err == nil {
						k.Fail("an unmarshaler refused with %v, and decoding reported success", ferr)
					}
					if !errors.Is(err, ferr) {
						k.Fail("the unmarshaler's error is not the cause of the decoder's: %v", err)
					}
					if len(*dlog) != at+1 {
						k.Fail("%d calls to unmarshalers although number %d refused", len(*dlog), at)
					}
					k.Count("decode_errors_propagated", 1)
					// the same with nothing, or only the damaged marker, left to read
					bad = append([]byte(nil), data[:marks[i].Off+k.N(2)]...)
					if len(bad) > marks[i].Off {
						bad[marks[i].Off] ^= byte(1 + k.N(255))
					}
					k.Detail(info(e, t, v, bad, fmt.Sprintf("decode with the input cut at call %d", at)))
					dec = newDecoder(e, bad)
					dlog = st.Watch(dec)
					st.SetFault(dec, ferr)
					err = dec.Decode(reflect.New(t.RT).Interface())
					st.Unwatch(dec)
					if n := len(*dlog); n > 0 && refusedCall((*dlog)[n-1].Key) {
						k.Eval(1)
						k.Count("refusals_at_the_end", 1)
						if !errors.Is(err, ferr) {
							k.Fail("an unmarshaler refused with %v at the end of the input, and decoding reported %v", ferr, err)
						}
						if n > at+1 {
							k.Fail("%d calls to unmarshalers although number %d refused", n, at)
						}
					}
				}
				// a refusing marshaler
				if setFault(k, t, e, v) {
					cmp2, werr := compose(fLog, t, e, v)
					if cmp2.polluted != "" {
						return
					}
					if werr == nil {
						return // hidden by an option that is off, say
					}
					w := &sink{}
					enc := newEncoder(e, w)
					log := st.Watch(enc)
					ferr := drawError(k)
					st.SetFault(enc, ferr)
					k.Detail(info(e, t, v, nil, "encode with a refusing marshaler"))
					err := enc.Encode(iface(k, v))
					st.Unwatch(enc)
					k.Eval(1)
					if err == nil {
						k.Fail("a marshaler refused with %v, and encoding reported success", ferr)
					}
					if !errors.Is(err, ferr) {
						k.Fail("the marshaler's error is not the cause of the encoder's: %v", err)
					}
					if !freeOrder {
						if d := callsEq(*log, cmp2.w.Calls); d != "" {
							k.Fail("calls to marshalers up to the refusal: %s", d)
						}
						if !bytes.Equal(w.b, cmp2.w.B) {
							k.Fail("what was written before the refusal differs at offset %d", firstDiff(w.b, cmp2.w.B))
						}
					}
					if n, err := byteCount(e, iface(k, v)); err == nil {
						k.Fail("a marshaler refused, and counting gave %d", n)
					} else if !errors.Is(err, st.Fault) {
						k.Fail("the marshaler's error is not the cause of the counter's: %v", err)
					}
					k.Count("encode_errors_propagated", 1)
				}
			}
			c.Run("generated", c.Scaled(5000), func(k *core.Case) {
				cf := boosted("log")(k)
				cf.BigLens, cf.BigMax = k.P(6), 2100
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(g.Top())
				for j := 0; j < 3; j++ {
					one(k, t, cf.Enc, g, g.Value(t))
				}
			})
			var logs []reflect.Type
			for _, l := range tm.LibList {
				if l.Log {
					if l.PtrOnly {
						logs = append(logs, reflect.PtrTo(l.RT))
					} else {
						logs = append(logs, l.RT)
					}
				}
			}
			c.Run("places", c.Scaled(4000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				cf.BigLens, cf.BigMax = k.P(6), 2100
				g := tm.NewGen(k.Rng, cf)
				rt := logs[k.I%len(logs)]
				h := holders(k, rt)
				if k.P(40) {
					h = holders(k, h)
				}
				if k.P(15) && rt.Kind() != reflect.Ptr && (tm.LibOf(rt).KeyOK || e != tm.Borsh && rt.Comparable()) {
					h = holders(k, reflect.MapOf(rt, logs[k.N(len(logs))]))
				}
				if h.Kind() == reflect.Ptr {
					h = reflect.SliceOf(h)
				}
				t := tm.Of(h)
				if elemMinBad(t, e) {
					return
				}
				one(k, t, e, g, g.Value(t))
			})
			c.Run("one_sided", c.Scaled(1600), func(k *core.Case) { oneSideds[k.I%len(oneSideds)](k) })
			c.Run("entry_points", c.Scaled(2400), entryCalls)
			tags := []string{"", "big", "little", "optional", "coption", "optional big", "coption big", "binary_extension"}
			c.Run("tags", c.Scaled(3000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				cf.BigLens, cf.BigMax = k.P(6), 2100
				g := tm.NewGen(k.Rng, cf)
				var fs []reflect.StructField
				for i, n := 0, 1+k.N(4); i < n; i++ {
					rt := logs[k.N(len(logs))]
					if rt.Kind() != reflect.Ptr && k.P(40) {
						rt = reflect.PtrTo(rt)
					}
					tag := tags[k.N(len(tags)-1)]
					if i == n-1 {
						tag = tags[k.N(len(tags))]
					}
					if tag == "binary_extension" && tm.MinSize(tm.Of(rt), e) == 0 {
						tag = "" // an extension without bytes cannot be told from an absent one
					}
					f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt}
					if tag != "" {
						f.Tag = reflect.StructTag(fmt.Sprintf("bin:%q", tag))
					}
					fs = append(fs, f)
				}
				t := tm.Of(reflect.StructOf(fs))
				one(k, t, e, g, g.Value(t))
			})
		}})
	_ = bin.LE
}

// elemMinBad: a collection of elements without bytes is outside the model.
func elemMinBad(t *tm.T, e tm.Enc) bool {
	bad := false
	tm.Walk(t, func(x *tm.T, f *tm.Field) {
		if (x.K == tm.Slice || x.K == tm.Map) && x.Elem != nil && tm.MinSize(x.Elem, e) == 0 && (x.K != tm.Map || tm.MinSize(x.Key, e) == 0) {
			bad = true
		}
	})
	return bad
}

// callAt is the index, among all calls, of the i-th that has a marker to damage
// (LNone writes nothing at all).
func callAt(calls []tm.Call, i int) int {
	for j, c := range calls {
		if c.Key == "LNone" {
			continue
		}
		if i == 0 {
			return j
		}
		i--
	}
	return -1
}
