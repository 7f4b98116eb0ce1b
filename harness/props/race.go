package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// crowd runs the tasks on n goroutines that start together, with yields thrown
// in so that they overlap differently each time, and tells how many steps
// actually overlapped.
func crowd(k *core.Case, n int, task func(g int, r *tm.Rng, yield func())) (overlaps int64) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	var active int64
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = k.U64()
	}
	var pan atomic.Value
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := tm.NewRng(seeds[i], uint64(i))
			defer func() {
				if x := recover(); x != nil {
					buf := make([]byte, 1<<14)
					pan.Store(fmt.Sprintf("%v\n%s", x, buf[:runtime.Stack(buf, false)]))
				}
			}()
			<-start
			if atomic.AddInt64(&active, 1) > 1 {
				atomic.AddInt64(&overlaps, 1)
			}
			defer atomic.AddInt64(&active, -1)
			task(i, r, func() {
				for j := r.N(3); j > 0; j-- {
					runtime.Gosched()
				}
			})
		}(i)
	}
	close(start)
	wg.Wait()
	if x := pan.Load(); x != nil {
		k.Fail("a goroutine panicked: %.2000s", x)
	}
	return
}

// problems collects the first complaint of a crowd.
type problems struct {
	mu  sync.Mutex
	all []string
}

func (p *problems) add(f string, a ...interface{}) {
	p.mu.Lock()
	if len(p.all) < 5 {
		p.all = append(p.all, fmt.Sprintf(f, a...))
	}
	p.mu.Unlock()
}

func init() {
	reg(&core.Prop{ID: "C27", Race: true, Thor: 1500, Rule: "Built with the race detector. Crowds of goroutines start together on types no one has used yet, sharing the value being encoded, the input being decoded, variant definitions and helper values, with their own encoders and decoders; every result is compared with the sequential one. Distinct by (encoding, type, bytes).",
		Need: map[string]int64{"crowds": 500, "concurrent_encodes": 8000, "concurrent_decodes": 8000, "overlapping_starts": 800, "fresh_types": 400, "shared_definitions": 60}, Run: func(c *core.Ctx) {
			c.RunN("codec", c.Scaled(1200), 4, func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				cf := tm.Full(e)
				cf.BigLens, cf.BigMax = k.P(6), 2100
				cf.Depth = 2 + k.N(2)
				cf.Boost = []string{"", "", "log", "opt", "big", "sizeof", "enum"}[k.N(7)]
				g := tm.NewGen(k.Rng, cf)
				// a few types, wrapped so that nobody has seen them before
				nt := 1 + k.N(3)
				type subject struct {
					t     *tm.T
					v     reflect.Value
					w     *tm.W
					loose bool
					bad   []byte
				}
				var subs []subject
				for i := 0; i < nt; i++ {
					inner := g.Top()
					if inner.Kind() != reflect.Struct || k.P(70) {
						u := fmt.Sprintf("U%d_%d", k.I, i)
						inner = reflect.StructOf([]reflect.StructField{{Name: u, Type: reflect.TypeOf(uint16(0)), Tag: reflect.StructTag([]string{`bin:"big"`, ``, `bin:"optional"`}[k.N(3)])}, {Name: "In", Type: inner}})
						k.Count("fresh_types", 1)
					}
					t := tm.Of(inner)
					v := g.Value(t)
					w, err := tm.Encode(t, e, v)
					if err != nil {
						continue
					}
					bad, _ := mutate(k, w.B, w.Marks, e)
					subs = append(subs, subject{t, v, w, e != tm.Borsh && multiMap(t, v), bad})
				}
				if len(subs) == 0 {
					return
				}
				type result struct {
					sub  int
					kind int
					b    []byte
					v    reflect.Value
					err  bool
					pos  uint
				}
				n := 4 + k.N(9)
				results := make([][]result, n)
				k.Detail(map[string]interface{}{"encoding": e.String(), "goroutines": n, "type": typeStr(subs[0].t)})
				ov := crowd(k, n, func(gi int, r *tm.Rng, yield func()) {
					for j := 0; j < 6; j++ {
						si := r.N(len(subs))
						s := &subs[si]
						switch kind := r.N(5); kind {
						case 0, 1:
							b, err := marshal(e, s.v.Addr().Interface())
							results[gi] = append(results[gi], result{sub: si, kind: 0, b: b, err: err != nil})
						case 2:
							w := &sink{}
							enc := newEncoder(e, w)
							yield()
							err := enc.Encode(s.v.Interface())
							results[gi] = append(results[gi], result{sub: si, kind: 0, b: w.b, err: err != nil})
						case 3, 4:
							data := s.w.B
							if kind == 4 {
								data = s.bad
							}
							p := reflect.New(s.t.RT)
							d := newDecoder(e, data)
							yield()
							err := d.Decode(p.Interface())
							results[gi] = append(results[gi], result{sub: si, kind: kind, v: p.Elem(), err: err != nil, pos: d.Position()})
						}
						yield()
					}
				})
				k.Count("crowds", 1)
				k.Count("overlapping_starts", ov)
				for si := range subs {
					s := &subs[si]
					k.Detail(info(e, s.t, s.v, s.w.B, "concurrent use"))
					note(k, e, s.t, s.v, s.w.B)
					seq, serr := marshal(e, s.v.Addr().Interface())
					gp, bp := reflect.New(s.t.RT), reflect.New(s.t.RT)
					gd, bd := newDecoder(e, s.w.B), newDecoder(e, s.bad)
					gerr := gd.Decode(gp.Interface())
					berr := bd.Decode(bp.Interface())
					for _, rs := range results {
						for _, r := range rs {
							if r.sub != si {
								continue
							}
							k.Eval(1)
							switch r.kind {
							case 0:
								k.Count("concurrent_encodes", 1)
								if r.err != (serr != nil) {
									k.Fail("encoding concurrently: error %v, sequentially: %v", r.err, serr)
								}
								if serr == nil && !bytes.Equal(r.b, seq) && !(s.loose && len(r.b) == len(seq)) {
									k.Fail("encoding concurrently gives other bytes than sequentially (offset %d)", firstDiff(r.b, seq))
								}
							default:
								k.Count("concurrent_decodes", 1)
								wp, wd, werr := gp, gd, gerr
								if r.kind == 4 {
									wp, wd, werr = bp, bd, berr
								}
								if r.err != (werr != nil) || r.pos != wd.Position() {
									k.Fail("decoding concurrently: error %v at %d, sequentially: %v at %d", r.err, r.pos, werr, wd.Position())
								}
								if werr == nil {
									if d := tm.Diff(s.t, e, wp.Elem(), r.v); d != "" {
										k.Fail("decoding concurrently gives another value than sequentially: %s", d)
									}
								}
							}
						}
					}
				}
			})
			// a shared definition, its names and ids
			c.RunN("variants", c.Scaled(200), 4, func(k *core.Case) {
				idEnc := k.N(5)
				n := 1 + k.N(6)
				if idEnc == 4 {
					n = 1
				}
				var defs []bin.VariantType
				for i := 0; i < n; i++ {
					rt := variantImpls[k.N(len(variantImpls)-1)]
					z := reflect.New(rt)
					if k.P(50) {
						defs = append(defs, bin.VariantType{Name: fmt.Sprintf("v_%d_%d", k.I, i), Type: z.Interface()})
					} else {
						defs = append(defs, bin.VariantType{Name: fmt.Sprintf("v_%d_%d", k.I, i), Type: z.Elem().Interface()})
					}
				}
				def := bin.NewVariantDefinition(idEncodings[idEnc], defs)
				data := append(append([]byte(nil), wireID(idEnc, n-1, defs[n-1].Name)...), k.Bytes(60)...)
				pr := &problems{}
				type out struct{ s string }
				var outs [8]string
				run := func() string {
					var bv bin.BaseVariant
					err := bv.UnmarshalBinaryVariant(bin.NewBorshDecoder(data), def)
					if err != nil {
						return "error"
					}
					id, name, impl := bv.Obtain(def)
					return fmt.Sprint(id, name, reflect.TypeOf(impl), content(reflect.ValueOf(impl), false))
				}
				ov := crowd(k, 8, func(gi int, r *tm.Rng, yield func()) {
					outs[gi] = run()
					yield()
					for i := range defs {
						if got, want := def.TypeID(defs[i].Name), pad8(wireID(idEnc, i, defs[i].Name)); got != want {
							pr.add("id of entry %d is %x, want %x", i, got[:], want[:])
						}
					}
					yield()
					d2 := bin.NewVariantDefinition(idEncodings[idEnc], defs)
					if d2.TypeID(defs[0].Name) != def.TypeID(defs[0].Name) {
						pr.add("two definitions of the same variants disagree")
					}
				})
				k.Count("shared_definitions", 1)
				k.Count("overlapping_starts", ov)
				k.Count("crowds", 1)
				k.Eval(16)
				want := run()
				for _, o := range outs {
					if o != want {
						k.Fail("a variant decoded concurrently is %.200s, sequentially %.200s", o, want)
					}
				}
				if len(pr.all) > 0 {
					k.Fail("%s", pr.all[0])
				}
			})
			// helpers with no encoder of their own
			c.RunN("helpers", c.Scaled(300), 4, func(k *core.Case) {
				const crew = 8
				type input struct {
					name string
					u    bin.Uint128
					n    uint64
					raw  []byte
					doc  []byte
				}
				var ins [crew]input
				draw := func() input {
					in := input{name: randName(k), u: bin.Uint128{Lo: k.Edge(), Hi: k.Edge()}, n: k.Edge(), raw: k.Bytes(8 + k.N(30))}
					in.doc = []byte(fmt.Sprintf(`{"a":"%d","b":"%s","c":%d,"d":"%x","e":"%d","f":%d,"g":"%s","h":"%s"}`, int64(k.Edge()), in.u.DecimalString(), k.N(1000), k.Bytes(5), k.Edge(), k.N(2), bin.Int128(in.u).DecimalString(), in.u.HexString()))
					return in
				}
				shared := k.P(40)
				for i := range ins {
					if i > 0 && shared {
						ins[i] = ins[0]
					} else {
						ins[i] = draw()
					}
				}
				type rec struct {
					A bin.Int64       `json:"a"`
					B bin.Uint128     `json:"b"`
					C bin.JSONFloat64 `json:"c"`
					D bin.HexBytes    `json:"d"`
					E bin.Uint64      `json:"e"`
					F bin.Bool        `json:"f"`
					G bin.Int128      `json:"g"`
					H bin.Float128    `json:"h"`
				}
				magic := st.CMagic{X: 7}
				run := func(in *input) string {
					var sb bytes.Buffer
					out := func(a ...interface{}) { fmt.Fprintln(&sb, a...) }
					var r rec
					err := json.Unmarshal(in.doc, &r)
					js, err2 := json.Marshal(r)
					out(err, string(js), err2)
					for _, x := range []interface{}{bin.Int64(in.n), bin.Int64(-int64(in.n >> 1)), bin.Uint64(in.n), bin.HexBytes(in.raw), in.u, bin.Int128(in.u), bin.Float128(in.u), bin.Bool(in.n&1 == 1), bin.JSONFloat64(float64(in.n) / 3), bin.SafeString(in.raw)} {
						b, err := json.Marshal(x)
						out(string(b), err)
						for _, e := range tm.Encs {
							w, err := marshal(e, x)
							n, err2 := byteCount(e, x)
							p := reflect.New(reflect.TypeOf(x))
							err3 := unmarshal(e, p.Interface(), w)
							out(w, err, n, err2, err3, p.Elem().Interface())
						}
					}
					mb, _ := bin.MarshalBorsh(&magic)
					var c16 []byte
					bin.EncodeCompactU16Length(&c16, int(in.u.Lo%65536))
					a, b, err := bin.DecodeCompactU16(in.raw)
					c, err2 := bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader(in.raw))
					out(mb, c16, a, b, err, c, err2)
					out(bin.ToPascalCase(in.name), bin.ToSnakeForSighash(in.name), bin.ToRustSnakeCase(in.name), bin.SighashAccount(in.name), bin.SighashInstruction(in.name), bin.Sighash("global", in.name), bin.SighashTypeID("account", in.name))
					out(in.u.String(), in.u.DecimalString(), in.u.HexString(), in.u.BigInt(), in.u.Bytes(), bin.Int128(in.u).BigInt(), bin.Int128(in.u).String(), bin.HexBytes(in.raw).String())
					out(bin.FormatByteSlice(in.raw), bin.FormatDiscriminator(pad8(in.raw[:8])), bin.IsByteSlice(in.raw))
					id := bin.TypeIDFromBytes(in.raw[:8])
					out(id, id.Uint8(), id.Uint32(), id.Uvarint32(), id.Equal(in.raw[:8]), bin.TypeIDFromUvarint32(uint32(in.n)), bin.TypeIDFromUint32(uint32(in.n), bin.BE), bin.TypeIDFromUint8(uint8(in.n)), bin.TypeIDFromSighash(in.raw[:8]))
					rv := append([]byte(nil), in.raw...)
					bin.ReverseBytes(rv)
					wb := bin.NewWriteByWrite(in.name)
					wb.Write(in.raw)
					wb.Write(rv)
					out(wb.Bytes(), wb.String())
					// refusals
					var z struct{ A struct{ B []uint64 } }
					for _, e := range tm.Encs {
						out(unmarshal(e, &z, in.raw[:3]), unmarshal(e, z, in.raw), unmarshal(e, nil, in.raw))
						_, err := marshal(e, struct{ C chan int }{make(chan int)})
						out(err)
					}
					out(bin.EncodingBin, bin.EncodingBorsh, bin.EncodingCompactU16)
					return sb.String()
				}
				var outs [crew]string
				ov := crowd(k, crew, func(gi int, r *tm.Rng, yield func()) { yield(); outs[gi] = run(&ins[gi]) })
				k.Count("crowds", 1)
				k.Count("helper_crowds", 1)
				k.Count("overlapping_starts", ov)
				k.Eval(8)
				for i := range outs {
					if want := run(&ins[i]); outs[i] != want {
						k.Detail(map[string]interface{}{"concurrent": outs[i], "sequential": want})
						k.Fail("a helper gives another result concurrently than sequentially: %s", diffAt(want, outs[i]))
					}
				}
			})
			// primitive calls, each goroutine on its own encoder and decoder
			c.RunN("primitives", c.Scaled(250), 4, func(k *core.Case) {
				const crew = 6
				var lists [crew][]wop
				var encs [crew]tm.Enc
				for i := range lists {
					encs[i] = tm.Encs[k.N(3)]
					for j := 0; j < 25; j++ {
						lists[i] = append(lists[i], drawWrite(k, encs[i]))
					}
				}
				pr := &problems{}
				ov := crowd(k, crew, func(gi int, r *tm.Rng, yield func()) {
					w := &sink{}
					enc := newEncoder(encs[gi], w)
					var done []wop
					var want []byte
					for _, op := range lists[gi] {
						err := op.call(enc)
						if op.refuse != (err != nil) {
							pr.add("%s concurrently: %v", op.name, err)
							return
						}
						if err != nil {
							continue
						}
						done = append(done, op)
						want = append(want, op.want...)
						yield()
					}
					if !bytes.Equal(w.b, want) {
						pr.add("primitive writes gave other bytes concurrently (offset %d)", firstDiff(w.b, want))
						return
					}
					d := newDecoder(encs[gi], append(append([]byte(nil), w.b...), make([]byte, 100001)...))
					for _, op := range done {
						x, err := op.read(d)
						if err != nil || !reflect.DeepEqual(x, op.val) {
							pr.add("reading what %s wrote gave %v, %v concurrently, want %v", op.name, x, err, op.val)
							return
						}
						yield()
					}
				})
				k.Count("crowds", 1)
				k.Count("primitive_crowds", 1)
				k.Count("overlapping_starts", ov)
				k.Eval(crew)
				if len(pr.all) > 0 {
					k.Fail("%s", pr.all[0])
				}
			})
		}})
}
