package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"time"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// faulty fails at a chosen byte or call, and watches what happens afterwards.
type faulty struct {
	mode  int // 0 partial, 1 all-or-nothing, 2 the i-th call fails once, 3 the i-th call is cut short, 4 the i-th call takes all and fails
	left  int
	err   error
	out   []byte
	calls int
	fired bool
	after int // calls with data after the failure
}

func (f *faulty) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.fired {
		f.after++
		if f.mode >= 2 { // a swallowed error would go unnoticed by the writer
			f.out = append(f.out, p...)
			return len(p), nil
		}
		return 0, f.err
	}
	n := len(p)
	switch f.mode {
	case 0:
		if n > f.left {
			n = f.left
			f.fired = true
		}
		f.left -= n
	case 1:
		if n > f.left {
			n = 0
			f.fired = true
		}
		f.left -= n
	case 2, 3, 4:
		if f.calls == f.left {
			f.fired = true
			n = []int{0, len(p) - 1, len(p)}[f.mode-2]
		}
	}
	f.calls++
	f.out = append(f.out, p[:n]...)
	if f.fired {
		return n, f.err
	}
	return n, nil
}

// rich also offers the other ways to write, which must not lose errors either.
type rich struct{ *faulty }

func (r rich) WriteByte(b byte) error {
	_, err := r.Write([]byte{b})
	return err
}

func (r rich) WriteString(s string) (int, error) { return r.Write([]byte(s)) }

func (r rich) ReadFrom(src io.Reader) (n int64, err error) {
	var b [7]byte
	for {
		m, rerr := src.Read(b[:])
		if m > 0 {
			w, err := r.Write(b[:m])
			n += int64(w)
			if err != nil {
				return n, err
			}
		}
		if rerr != nil {
			if rerr == io.EOF {
				rerr = nil
			}
			return n, rerr
		}
	}
}

func (f *faulty) writer(k *core.Case) io.Writer {
	if k.P(35) {
		return rich{f}
	}
	return f
}

type typedErr struct{ n int }

func (t *typedErr) Error() string { return fmt.Sprint("device full ", t.n) }

// callCounter counts the writes an encoding takes.
type callCounter struct{ calls, n int }

func (c *callCounter) Write(p []byte) (int, error) {
	if len(p) > 0 {
		c.calls++
	}
	c.n += len(p)
	return len(p), nil
}

func faultRun(k *core.Case, what func() string, canon []byte, fixedOrder bool, run func(enc *bin.Encoder) error, e tm.Enc) {
	cc := &callCounter{}
	run(newEncoder(e, cc))
	try := func(mode, at int, mustFail bool) {
		ferr := error(&typedErr{at})
		if k.P(40) {
			ferr = drawError(k)
		}
		f := &faulty{mode: mode, left: at, err: ferr}
		enc := newEncoder(e, f.writer(k))
		var err error
		pan, stack := core.Try(func() { err = run(enc) })
		k.Eval(1)
		k.Count("faults_injected", 1)
		k.Count(fmt.Sprintf("faults_mode_%d", mode), 1)
		fail := func(format string, a ...interface{}) {
			k.Detail(map[string]interface{}{"case": what(), "mode": []string{"partial write", "all or nothing", "one failing call", "one short call", "one call that takes all and fails"}[mode], "at": at, "canonical": core.Hex(canon), "accepted": core.Hex(f.out)})
			k.Fail(format, a...)
		}
		if pan != nil {
			fail("encoding into a failing writer panics: %v\n%s", pan, stack)
		}
		if f.fired && err == nil {
			fail("the writer failed at %d, and the encoder reported success", at)
		}
		if mustFail && err == nil {
			fail("only %d of %d bytes fit, and the encoder reported success", at, len(canon))
		}
		if f.fired && !errors.Is(err, ferr) {
			fail("the writer's error is not the cause of the encoder's: %v", err)
		}
		if !f.fired && err != nil {
			fail("the writer did not fail, but the encoder did: %v", err)
		}
		if f.after > 0 {
			fail("%d further writes after the writer had failed", f.after)
		}
		if enc.Written() != len(f.out) {
			fail("Written is %d, but the writer accepted %d bytes", enc.Written(), len(f.out))
		}
		if fixedOrder && !bytes.HasPrefix(canon, f.out) {
			fail("what was written before the failure is not a prefix of the encoding (offset %d)", firstDiff(canon, f.out))
		}
		if mode == 0 && f.fired && len(f.out) != at {
			fail("the writer could take %d bytes, it was given %d", at, len(f.out))
		}
	}
	n := len(canon)
	offs := make([]int, 0, 70)
	if n <= 56 {
		for i := 0; i <= n; i++ {
			offs = append(offs, i)
		}
	} else {
		for i := 0; i < 48; i++ {
			offs = append(offs, k.N(n))
		}
		offs = append(offs, 0, 1, n-1, n)
	}
	for _, at := range offs {
		try(k.N(2), at, at < n)
		if at == n {
			try(0, at, false)
			try(1, at, false)
		}
	}
	calls := make([]int, 0, 40)
	if cc.calls <= 30 {
		for i := 0; i < cc.calls; i++ {
			calls = append(calls, i)
		}
	} else {
		for i := 0; i < 28; i++ {
			calls = append(calls, k.N(cc.calls))
		}
		calls = append(calls, cc.calls-1)
	}
	for _, i := range calls {
		try(2+k.N(3), i, true)
	}
}

// shuffled rebuilds a value so that every map is filled in another order.
func shuffled(k *core.Case, v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return tm.KeyLess(keys[i], keys[j]) })
		for i := len(keys) - 1; i > 0; i-- {
			j := k.N(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
		var m reflect.Value
		if k.P(50) {
			m = reflect.MakeMapWithSize(v.Type(), len(keys)*(1+k.N(5)))
		} else {
			m = reflect.MakeMap(v.Type())
		}
		for _, x := range keys {
			m.SetMapIndex(x, shuffled(k, v.MapIndex(x)))
		}
		out.Set(m)
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(shuffled(k, v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+k.N(4))
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(shuffled(k, v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(shuffled(k, v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && out.Field(i).CanSet() {
				out.Field(i).Set(shuffled(k, v.Field(i)))
			}
		}
	}
	return out
}

var fMap = &feature{name: "map", has: func(t *tm.T, f *tm.Field) bool { return t.K == tm.Map }}

func init() {
	reg(&core.Prop{ID: "C12", Level: "fault_enumeration", Rule: genRule + " The writer fails at every byte offset (partial and all-or-nothing) and at every call (once, cut short, or after taking everything) of short encodings, and at sampled ones of long encodings.",
		Need: map[string]int64{"faults_injected": 100000, "values": 3000, "sequences": 500}, Run: func(c *core.Ctx) {
			conf := func(k *core.Case) tm.Conf {
				cf := anyEnc(k)
				cf.BigLens = k.P(5)
				return cf
			}
			one := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				x := iface(k, v)
				k.Detail(info(e, t, v, nil, ""))
				canon, err := marshal(e, x)
				if err != nil {
					return
				}
				k.Count("values", 1)
				note(k, e, t, v, canon)
				faultRun(k, func() string { return fmt.Sprintf("%+v", info(e, t, v, nil, "")) }, canon, e == tm.Borsh || !multiMap(t, v), func(enc *bin.Encoder) error { return enc.Encode(x) }, e)
			}
			forValues(c, "generated", c.Scaled(2600), 2, conf, one)
			sts := tm.StaticTypes()
			c.Run("static", c.Scaled(1000), func(k *core.Case) {
				cf := conf(k)
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(sts[k.I%len(sts)])
				one(k, t, cf.Enc, g, g.Value(t))
			})
			c.Run("packed", c.Scaled(300), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				el := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(st.NU16(0)), reflect.TypeOf(bin.Varuint32(0))}[k.I%6]
				rt := reflect.SliceOf(el)
				if k.P(40) {
					rt = reflect.ArrayOf(1+k.N(12), el)
				}
				t := tm.Of(holders(k, rt))
				cf := tm.Full(e)
				cf.BigLens, cf.BigMax = k.P(6), 5000
				g := tm.NewGen(k.Rng, cf)
				one(k, t, e, g, g.Value(t))
			})
			// long runs of bytes, which somebody might hand over in pieces
			c.Run("bulk", c.Scaled(120), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				n := []int{1000, 4096, 8192, 20000, 33000, 40000, 65535, 65536, 70000, 140000, 300000}[k.I/6%11]
				if e == tm.Compact && n > 65535 {
					n = 65535 - k.N(3)
				}
				var x interface{}
				switch k.I % 6 {
				case 0:
					x = k.Bytes(n)
				case 1:
					x = string(k.Bytes(n))
				case 2:
					x = make([]uint16, n)
				case 3:
					x = make([]uint64, n/4)
				case 4:
					x = struct {
						A uint8
						B []byte
						C uint32
					}{1, k.Bytes(n), 2}
				case 5:
					x = st.NamedBytes(k.Bytes(n))
				}
				k.Detail(map[string]interface{}{"encoding": e.String(), "type": fmt.Sprintf("%T", x), "elements": n})
				canon, err := marshal(e, x)
				if err != nil {
					k.Fail("encoding failed: %v", err)
				}
				k.Seen("bulk", int(e), k.I%6, n)
				k.Count("bulk", 1)
				faultRun(k, func() string { return fmt.Sprintf("%s, %T of %d", e, x, n) }, canon, true, func(enc *bin.Encoder) error { return enc.Encode(x) }, e)
			})
			c.Run("calls", c.Scaled(1200), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				var ops []wop
				var canon []byte
				for i, n := 0, 1+k.N(10); i < n; i++ {
					w := drawWrite(k, e)
					if w.refuse || len(w.want) > 200 {
						continue
					}
					ops = append(ops, w)
					canon = append(canon, w.want...)
				}
				if good, err := runOps(e, ops); err != nil || !bytes.Equal(good, canon) {
					k.Count("skipped_foreign_defect", 1)
					return
				}
				k.Count("sequences", 1)
				k.Seen("calls", int(e), canon)
				faultRun(k, func() string {
					s := e.String()
					for _, w := range ops {
						s += fmt.Sprintf(" %s(%.40v)", w.name, w.val)
					}
					return s
				}, canon, true, func(enc *bin.Encoder) error {
					for _, w := range ops {
						if err := w.call(enc); err != nil {
							return err
						}
					}
					return nil
				}, e)
			})
		}})

	reg(&core.Prop{ID: "C13", Rule: genRule + " Values without an encoding are included: counting and encoding must fail together.",
		Need: map[string]int64{"counted": 10000, "refused_together": 200, "swept": 10000, "failing_writers": 20000, "nested_writes": 1000, "volume_steps": 1000}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				k.Detail(info(e, t, v, nil, ""))
				agreeCount(k, e, iface(k, v), func(b []byte) { note(k, e, t, v, b) })
			}
			forValues(c, "generated", c.Scaled(7000), 3, func(k *core.Case) tm.Conf {
				cf := anyEnc(k)
				cf.NilPtrs = k.P(15)
				return cf
			}, func(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
				one(k, t, e, g, v)
				if k.P(15) {
					g.NaN = true
					one(k, t, e, g, g.Value(t))
					g.NaN = false
				}
			})
			sts := tm.StaticTypes()
			c.Run("static", c.Scaled(3000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				t := tm.Of(sts[k.I%len(sts)])
				one(k, t, e, g, g.Value(t))
			})
			c.Run("libtypes", c.Scaled(1500), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				g := tm.NewGen(k.Rng, tm.Full(e))
				t := tm.Of(tm.LibList[k.I%len(tm.LibList)].RT)
				one(k, t, e, g, g.Value(t))
			})
			sweeps(c, anyOf, one)
			c.Run("lengths", len(bigLens)*4*3, func(k *core.Case) {
				n := bigLens[k.I%len(bigLens)]
				e := tm.Encs[k.I/len(bigLens)%3]
				if n > 1<<21 && k.I/len(bigLens)/3%2 == 1 {
					return
				}
				k.Detail(map[string]interface{}{"encoding": e.String(), "elements": n})
				var x interface{}
				switch k.I / len(bigLens) / 3 {
				case 0:
					x = make([]byte, n)
				case 1:
					x = make([]uint32, n)
				case 2:
					x = string(make([]byte, n))
				case 3:
					x = make([]bool, n)
				}
				agreeCount(k, e, x, func(b []byte) { k.Seen("len", int(e), k.I) })
			})
			// a long life: far more than 32 bits can count
			c.Run("volume", 12, func(k *core.Case) {
				e := tm.Encs[k.I%3]
				bulk := make([]byte, []int{1 << 16, 1 << 20, 1 << 24, 1 << 26}[k.I/3])
				w := &meter{}
				enc := newEncoder(e, w)
				for w.n < int64(len(bulk))*64+5<<20 {
					if _, err := enc.Write(bulk[:len(bulk)-k.N(3)]); err != nil {
						k.Fail("writing %d bytes failed: %v", len(bulk), err)
					}
					for i := 0; i < 6; i++ {
						op := drawWrite(k, e)
						op.call(enc)
						k.Eval(1)
						k.Count("volume_steps", 1)
						if int64(enc.Written()) != w.n {
							k.Detail(map[string]interface{}{"encoding": e.String(), "bulk": len(bulk), "last": op.name})
							k.Fail("Written is %d although the writer was given %d bytes", enc.Written(), w.n)
						}
					}
				}
				k.Seen("volume", int(e), len(bulk))
			})
			// values that take more than 32 bits can count: many references to one string
			c.Run("huge", 6, func(k *core.Case) {
				e := []tm.Enc{tm.Bin, tm.Borsh}[k.I%2]
				s := string(make([]byte, 64<<20))
				n := []int{31, 33, 65}[k.I/2] + k.N(3)
				per, head := len(s)+4, 4
				if e == tm.Bin { // strings with a length of eight bytes, a varint for the list
					per, head = len(s)+8, 1
				}
				want := uint64(head + n*per)
				x := make([]string, n)
				for i := range x {
					x[i] = s
				}
				k.Detail(map[string]interface{}{"encoding": e.String(), "strings": n, "of bytes": len(s)})
				got, err := byteCount(e, x)
				k.Eval(1)
				k.Count("huge", 1)
				if err != nil {
					k.Fail("counting failed: %v", err)
				}
				w := &meter{}
				enc := newEncoder(e, w)
				if err := enc.Encode(x); err != nil {
					k.Fail("encoding failed: %v", err)
				}
				if got != want || uint64(w.n) != want || uint64(enc.Written()) != want {
					k.Fail("counted %d and written %d although the writer was given %d bytes of %d", got, enc.Written(), w.n, want)
				}
				k.Seen("huge", int(e), n)
			})
			// a writer that itself writes through the encoder
			c.Run("nested", c.Scaled(2000), func(k *core.Case) {
				e := tm.Encs[k.N(3)]
				w := &nestingSink{every: 1 + k.N(5), with: func(enc *bin.Encoder) { drawWrite(k, e).call(enc) }}
				w.enc = newEncoder(e, w)
				for i, n := 0, 1+k.N(8); i < n; i++ {
					op := drawWrite(k, e)
					k.Detail(map[string]interface{}{"encoding": e.String(), "last": op.name, "nested writes": w.nested})
					op.call(w.enc)
					k.Eval(1)
					if w.enc.Written() != w.n {
						k.Fail("Written is %d although the writer, which itself wrote through the encoder, was given %d bytes", w.enc.Written(), w.n)
					}
				}
				k.Count("nested_writes", int64(w.nested))
			})
			c.Run("failing", c.Scaled(6000), func(k *core.Case) {
				// a writer that takes part of what it is given: the account is what it took
				e := tm.Encs[k.N(3)]
				var run func(enc *bin.Encoder) error
				var n int
				if k.P(50) {
					cf := tm.Full(e)
					cf.BigLens, cf.Depth = k.P(10), 1+k.N(3)
					g := tm.NewGen(k.Rng, cf)
					t := tm.Of(g.Top())
					v := g.Value(t)
					x := iface(k, v)
					k.Detail(info(e, t, v, nil, "into a failing writer"))
					b, err := marshal(e, x)
					if err != nil {
						return
					}
					n = len(b)
					run = func(enc *bin.Encoder) error { return enc.Encode(x) }
				} else {
					var ops []wop
					var names []string
					for i, m := 0, 1+k.N(6); i < m; i++ {
						w := drawWrite(k, e)
						if !w.refuse {
							ops, names = append(ops, w), append(names, w.name)
							n += len(w.want)
						}
					}
					k.Detail(map[string]interface{}{"encoding": e.String(), "calls": names})
					run = func(enc *bin.Encoder) error {
						for _, w := range ops {
							if err := w.call(enc); err != nil && k.P(50) {
								return err
							}
						}
						return nil
					}
				}
				for i := 0; i < 6; i++ {
					f := &faulty{mode: k.N(5), left: k.N(n + 1), err: drawError(k)}
					if f.mode >= 2 {
						f.left = k.N(6)
					}
					enc := newEncoder(e, f.writer(k))
					run(enc)
					k.Eval(1)
					k.Count("failing_writers", 1)
					if enc.Written() != len(f.out) {
						k.Fail("Written is %d, but the writer (mode %d) took %d bytes", enc.Written(), f.mode, len(f.out))
					}
				}
				k.Seen("failing", int(e), k.I)
			})
			c.Run("refused", 600, func(k *core.Case) {
				e := tm.Encs[k.I%3]
				xs := []interface{}{int(5), uint(6), struct{ A chan int }{}, struct {
					A uint8
					B func()
				}{}, st.CMagic{X: st.FaultID}, []st.CMagic{{X: 1}, {X: st.FaultID}}, struct {
					A uint32
					B st.CMagic
				}{7, st.CMagic{X: st.FaultID}}, map[uint8]st.CMagic{1: {X: st.FaultID}}, []int{1, 2}, complex(1, 2),
					struct {
						N uint8 `bin:"sizeof=S"`
						S []uint16
					}{5, []uint16{1}}}
				k.Detail(map[string]interface{}{"encoding": e.String(), "value": fmt.Sprintf("%T", xs[k.I/3%len(xs)])})
				agreeCount(k, e, xs[k.I/3%len(xs)], func([]byte) {})
			})
		}})

	reg(&core.Prop{ID: "C14", Rule: "Types with maps (as fields, elements, values of maps, behind pointers and options) are drawn and filled. Equal values are rebuilt with other insertion orders and map sizes and encoded again and again; the layout around the maps is composed from the library's own encodings of the entries. Distinct by (type, bytes).",
		Need: map[string]int64{"rebuilt_and_compared": 20000, "maps_with_several_entries": 5000, "judged": 5000, "interface_keyed": 500}, Run: func(c *core.Ctx) {
			one := func(k *core.Case, t *tm.T, v reflect.Value) {
				if focus(k, fMap, t, tm.Borsh, v) == nil {
					return
				}
				if multiMap(t, v) {
					k.Count("maps_with_several_entries", 1)
				}
				first, err := marshal(tm.Borsh, iface(k, v))
				if err != nil {
					k.Fail("encoding failed: %v", err)
				}
				for j := 0; j < 4; j++ {
					w := v
					if j > 0 {
						w = shuffled(k, v)
					}
					k.Detail(info(tm.Borsh, t, w, first, "rebuilt"))
					again, err := encodeVia(k, tm.Borsh, iface(k, w))
					k.Eval(1)
					k.Count("rebuilt_and_compared", 1)
					if err != nil || !bytes.Equal(first, again) {
						k.Fail("equal values have different encodings: %s, then %s (%v)", core.Hex(first), core.Hex(again), err)
					}
				}
			}
			c.Run("maps", c.Scaled(4500), func(k *core.Case) {
				cf := full(tm.Borsh)(k)
				cf.BigLens, cf.BigMax = k.P(6), 5000
				cf.Ext = false
				g := tm.NewGen(k.Rng, cf)
				mt := reflect.MapOf(g.KeyType(), g.Type(k.N(3)))
				t := tm.Of(holders(k, mt))
				for j := 0; j < 2; j++ {
					g.Left = 300
					one(k, t, g.Value(t))
				}
			})
			c.Run("generated", c.Scaled(2500), func(k *core.Case) {
				cf := full(tm.Borsh)(k)
				cf.BigLens, cf.BigMax = k.P(6), 5000
				g := tm.NewGen(k.Rng, cf)
				t := tm.Of(g.Top())
				if !tm.HasMap(t) {
					return
				}
				one(k, t, g.Value(t))
			})
			// wide key ranges: signs, widths, prefixes, upper and lower case, non-ASCII
			kts := []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(""), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(st.NI64(0)), reflect.TypeOf(st.NU32(0)), reflect.TypeOf(st.NStr("")), reflect.TypeOf(bin.Int64(0)), reflect.TypeOf(bin.Uint64(0)), reflect.TypeOf(bin.Varint32(0)), reflect.TypeOf(bin.SafeString("")), reflect.TypeOf(st.CStr("")), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(st.LoudI64(0)), reflect.TypeOf(st.LoudU64(0)), reflect.TypeOf(st.LoudStr("")), reflect.TypeOf(st.RevI16(0)), reflect.TypeOf(st.RevStr("")), reflect.TypeOf(st.LoudU16(0))}
			c.Run("keys", c.Scaled(1900), func(k *core.Case) {
				kt := kts[k.I%len(kts)]
				mt := reflect.MapOf(kt, reflect.TypeOf(uint16(0)))
				v := reflect.New(mt).Elem()
				v.Set(reflect.MakeMap(mt))
				for i, n := 0, 2+k.N(40); i < n; i++ {
					key := reflect.New(kt).Elem()
					switch kt.Kind() {
					case reflect.String:
						if k.P(50) {
							key.SetString([]string{"", "a", "aa", "ab", "B", "b", "Z", "aé", "é", "\x00", "\xff", "a\x00", "10", "9", "~", "日本", "ab\xff"}[k.N(17)])
						} else {
							key.SetString(string(k.Bytes(k.N(5))))
						}
						if kt == reflect.TypeOf(bin.SafeString("")) {
							key.SetString(st.SafeUTF8([]byte(key.String())))
						}
					case reflect.Float32, reflect.Float64:
						f := float64(k.N(2000)-1000) / 8
						if f == 0 {
							f = 0 // no negative zero next to zero
						}
						if k.P(30) {
							x := k.Edge()
							if f = math.Float64frombits(x); kt.Kind() == reflect.Float32 {
								f = float64(math.Float32frombits(uint32(x >> 32)))
							}
							if f != f || f == 0 {
								f = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32}[k.N(6)]
							}
						}
						key.SetFloat(f)
					case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
						key.SetInt(int64(k.Edge()) >> uint(64-8*kt.Size()))
					default:
						key.SetUint(k.Edge() >> uint(64-8*kt.Size()))
					}
					v.SetMapIndex(key, reflect.ValueOf(uint16(k.N(65536))))
				}
				one(k, tm.Of(mt), v)
				if k.P(30) { // the same keys in an interface-keyed map
					iv := reflect.MakeMap(reflect.MapOf(reflect.TypeOf((*interface{})(nil)).Elem(), mt.Elem()))
					for _, key := range v.MapKeys() {
						iv.SetMapIndex(key, v.MapIndex(key))
					}
					want, werr := bin.MarshalBorsh(v.Interface())
					for j := 0; j < 3; j++ {
						got, err := encodeVia(k, tm.Borsh, iv.Interface())
						k.Eval(1)
						k.Count("interface_keyed", 1)
						if err != nil || werr != nil || !bytes.Equal(got, want) {
							k.Fail("an interface-keyed map with keys of type %s is %s (%v), the typed one %s (%v)", kt, core.Hex(got), err, core.Hex(want), werr)
						}
					}
				}
			})
		}})
}

func runOps(e tm.Enc, ops []wop) ([]byte, error) {
	var buf bytes.Buffer
	enc := newEncoder(e, &buf)
	for _, w := range ops {
		if err := w.call(enc); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

// agreeCount compares counting, encoding and the encoder's own account.
func agreeCount(k *core.Case, e tm.Enc, x interface{}, ok func([]byte)) {
	b, err := marshal(e, x)
	n, cerr := byteCount(e, x)
	k.Eval(1)
	if (err == nil) != (cerr == nil) {
		k.Fail("encoding says %v, counting says %v", err, cerr)
	}
	w, got := anyWriter(k)
	enc := newEncoder(e, w)
	eerr := enc.Encode(x)
	if n := len(got()); enc.Written() != n {
		k.Fail("Written is %d, but %d bytes reached the writer, a %T (%v)", enc.Written(), n, w, eerr)
	}
	var must uint64
	pan, _ := core.Try(func() { must = mustByteCount(e, x) })
	if (pan != nil) != (cerr != nil) {
		k.Fail("the panicking count panics with %v although counting says %v", pan, cerr)
	}
	if err != nil {
		k.Count("refused_together", 1)
		return
	}
	k.Count("counted", 1)
	if n != uint64(len(b)) {
		k.Fail("counted %d bytes, the encoding has %d", n, len(b))
	}
	if must != n {
		k.Fail("the panicking count gives %d, the other one %d", must, n)
	}
	if n := len(got()); n != len(b) {
		k.Fail("one encoding has %d bytes, another %d", len(b), n)
	}
	// a second value on the same encoder: the account goes on
	if err := enc.Encode(x); err != nil || enc.Written() != 2*len(b) {
		k.Fail("after encoding twice Written is %d, want %d (%v)", enc.Written(), 2*len(b), err)
	}
	ok(b)
}

// meter only counts.
type meter struct{ n int64 }

func (s *meter) Write(b []byte) (int, error) { s.n += int64(len(b)); return len(b), nil }

// nestingSink writes something of its own before every so many writes.
type nestingSink struct {
	enc       *bin.Encoder
	with      func(enc *bin.Encoder)
	every     int
	calls, in int
	n, nested int
}

func (s *nestingSink) Write(b []byte) (int, error) {
	if s.calls++; s.calls%s.every == 0 && s.in == 0 {
		s.in++
		s.nested++
		s.with(s.enc)
		s.in--
	}
	s.n += len(b)
	return len(b), nil
}
