package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/tm"
)

// feature is the part of a type a focused property is about. Everything that
// does not contain the feature is encoded by the library on its own, so that
// only the structure around the feature is judged.
type feature struct {
	name  string
	has   func(t *tm.T, f *tm.Field) bool
	big   bool // byte order is the feature: never delegate a big-endian field
	cache sync.Map
}

func (f *feature) in(t *tm.T) bool {
	if x, ok := f.cache.Load(t); ok {
		return x.(bool)
	}
	found := false
	tm.Walk(t, func(x *tm.T, fl *tm.Field) {
		if f.has(x, fl) {
			found = true
		}
	})
	f.cache.Store(t, found)
	return found
}

type composer struct {
	w        tm.W
	polluted string // a part misbehaves on its own: not this property's business
	leaves   int
}

func wrapBig(v reflect.Value) reflect.Value {
	st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: v.Type(), Tag: `bin:"big"`}})
	out := reflect.New(st).Elem()
	out.Field(0).Set(v)
	return out
}

// compose encodes v from parts: the feature by the model, the rest by the library.
func compose(f *feature, t *tm.T, e tm.Enc, v reflect.Value) (*composer, error) {
	c := &composer{}
	c.w.Len = func(e tm.Enc, n int) ([]byte, bool) {
		var buf bytes.Buffer
		if newEncoder(e, &buf).WriteLength(n) != nil {
			return nil, false
		}
		return buf.Bytes(), true
	}
	c.w.Leaf = func(t *tm.T, e tm.Enc, v reflect.Value, big bool) ([]byte, bool) {
		if f.in(t) || f.big && big {
			return nil, false
		}
		if t.K == tm.Struct && tm.HasExt(t) || t.K == tm.Iface {
			return nil, false
		}
		x := v
		if big {
			x = wrapBig(v)
		} else if !x.CanAddr() {
			x = reflect.New(v.Type()).Elem()
			x.Set(v)
		}
		var arg interface{} = x.Interface()
		if l := tm.LibOf(t.RT); l != nil && l.PtrOnly {
			arg = x.Addr().Interface()
		}
		c.leaves++
		var b []byte
		var err error
		if pan, _ := core.Try(func() {
			b, err = marshal(e, arg)
			if err != nil {
				c.pollute("part of type %s cannot be encoded: %v", t.RT, err)
				return
			}
			back := reflect.New(x.Type())
			if err = unmarshal(e, back.Interface(), b); err != nil {
				c.pollute("part of type %s cannot be decoded: %v", t.RT, err)
				return
			}
			if big {
				back = back.Elem().Field(0).Addr()
			}
			if d := tm.Diff(t, e, v, back.Elem()); d != "" {
				c.pollute("part of type %s does not round-trip: %s", t.RT, d)
			}
		}); pan != nil {
			c.pollute("part of type %s panics: %v", t.RT, pan)
		}
		return b, true
	}
	err := c.w.Run(t, e, v)
	return c, err
}

func (c *composer) pollute(f string, a ...interface{}) {
	if c.polluted == "" {
		c.polluted = fmt.Sprintf(f, a...)
	}
}

// focus judges the encoding and decoding of one value around a feature. It
// returns the expected bytes, or nil when the case says nothing.
func focus(k *core.Case, f *feature, t *tm.T, e tm.Enc, v reflect.Value) *composer {
	if !f.in(t) {
		k.Count("without_feature", 1)
		return nil
	}
	c, werr := compose(f, t, e, v)
	if c.polluted != "" {
		k.Count("skipped_foreign_defect", 1)
		return nil
	}
	k.Detail(info(e, t, v, nil, ""))
	got, gerr := encodeVia(k, e, iface(k, v))
	k.Eval(1)
	if werr != nil {
		k.Count("refusals", 1)
		if gerr == nil {
			k.Detail(info(e, t, v, got, ""))
			k.Fail("encoding succeeded although the value has no encoding (%v)", werr)
		}
		return nil
	}
	if gerr != nil {
		k.Fail("encoding failed: %v", gerr)
	}
	if !bytes.Equal(got, c.w.B) {
		if e == tm.Borsh || !multiMap(t, v) {
			k.Detail(map[string]interface{}{"case": info(e, t, v, nil, ""), "got": core.Hex(got), "want": core.Hex(c.w.B)})
			k.Fail("encoded bytes differ at offset %d (got %d bytes, want %d)", firstDiff(got, c.w.B), len(got), len(c.w.B))
		}
		if len(got) != len(c.w.B) {
			k.Fail("encoding has %d bytes, want %d", len(got), len(c.w.B))
		}
	}
	k.Count("judged", 1)
	note(k, e, t, v, c.w.B)
	ptr := reflect.New(t.RT)
	k.Detail(info(e, t, v, c.w.B, "decode"))
	n, err := decodeVia(k, e, c.w.B, ptr.Interface())
	k.Eval(1)
	if err != nil {
		k.Fail("decoding failed: %v", err)
	}
	if d := tm.Diff(t, e, v, ptr.Elem()); d != "" {
		k.Fail("decoded value differs: %s", d)
	}
	if n >= 0 && n != len(c.w.B) {
		k.Fail("decoding consumed %d bytes, the value has %d", n, len(c.w.B))
	}
	return c
}

// focusGroup runs focus over generated types boosted towards the feature and
// over the static types that have it.
func focusGroup(c *core.Ctx, f *feature, n int, conf func(k *core.Case) tm.Conf, extra func(k *core.Case, t *tm.T, e tm.Enc, v reflect.Value, w *composer)) {
	c.Run("generated", c.Scaled(n), func(k *core.Case) {
		cf := conf(k)
		var t *tm.T
		for try := 0; try < 8; try++ {
			g := tm.NewGen(k.Rng, cf)
			if t = tm.Of(g.Top()); f.in(t) {
				break
			}
		}
		g := tm.NewGen(k.Rng, cf)
		for j := 0; j < 4; j++ {
			v := g.Value(t)
			if w := focus(k, f, t, cf.Enc, v); w != nil && extra != nil {
				extra(k, t, cf.Enc, v, w)
			}
		}
	})
	var sts []reflect.Type
	for _, s := range tm.StaticTypes() {
		if f.in(tm.Of(s)) {
			sts = append(sts, s)
		}
	}
	if len(sts) > 0 {
		c.Run("static", c.Scaled(n/4), func(k *core.Case) {
			cf := conf(k)
			g := tm.NewGen(k.Rng, cf)
			t := tm.Of(sts[k.I%len(sts)])
			v := g.Value(t)
			if w := focus(k, f, t, cf.Enc, v); w != nil && extra != nil {
				extra(k, t, cf.Enc, v, w)
			}
		})
	}
}

func boosted(what string) func(k *core.Case) tm.Conf {
	return func(k *core.Case) tm.Conf {
		c := anyEnc(k)
		c.Boost = what
		c.Depth = 1 + k.N(4)
		c.BigLens = k.P(10)
		return c
	}
}

var _ = bin.LE
