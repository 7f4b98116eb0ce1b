package props

import (
	"bytes"
	"fmt"

	bin "github.com/gagliardetto/binary"
	"vmon/core"
	"vmon/tm"
)

type (
	cycOpt struct {
		A    uint8
		Next *cycOpt `bin:"optional"`
	}
	cycCOpt struct {
		Next *cycCOpt `bin:"coption"`
		A    uint16
	}
	cycReq struct {
		Next *cycReq
		A    uint32
	}
	cycKids struct {
		A    string
		Kids []*cycKids
	}
	cycSlice []cycSlice
	cycMap   map[uint8]cycMap
	cycArr   struct{ A [2]*cycArr }
	cycEnum  struct {
		Tag bin.BorshEnum `borsh_enum:"true"`
		A   uint8
		B   *cycEnum
	}
	cycA struct {
		B *cycB
		X uint8
	}
	cycB struct {
		L []*cycC `bin:"optional"`
	}
	cycC struct{ M map[string]*cycA }
	// cycOwn hands itself to the encoder.
	cycOwn struct{ Next *cycOwn }
	// a required nil pointer in Borsh is a zero value, which here has another
	cycNil  struct{ L, R *cycNil }
	cycNil2 struct {
		A uint8
		P **cycNil3
	}
	cycNil3 struct {
		S string
		Q [1]*cycNil2
	}
)

func (c *cycOwn) MarshalWithEncoder(e *bin.Encoder) error { return e.Encode(c.Next) }

type cyc struct {
	name string
	encs []tm.Enc
	make func(n int) interface{}
}

// cycs: values that contain themselves after n steps.
var cycs = []cyc{
	{"optional", tm.Encs, func(n int) interface{} {
		first := &cycOpt{A: 1}
		x := first
		for i := 1; i < n; i++ {
			x = &cycOpt{A: uint8(i), Next: x}
		}
		first.Next = x
		return x
	}},
	{"coption", tm.Encs, func(n int) interface{} {
		first := &cycCOpt{A: 1}
		x := first
		for i := 1; i < n; i++ {
			x = &cycCOpt{A: 9, Next: x}
		}
		first.Next = x
		return x
	}},
	{"required", tm.Encs, func(n int) interface{} {
		first := &cycReq{A: 1}
		x := first
		for i := 1; i < n; i++ {
			x = &cycReq{A: 9, Next: x}
		}
		first.Next = x
		return *x
	}},
	{"elements", tm.Encs, func(n int) interface{} {
		first := &cycKids{A: "x"}
		x := first
		for i := 1; i < n; i++ {
			x = &cycKids{Kids: []*cycKids{{}, {A: "leaf"}, x}}
		}
		first.Kids = []*cycKids{x}
		return x
	}},
	{"slices", tm.Encs, func(n int) interface{} {
		first := make(cycSlice, 2)
		x := first
		for i := 1; i < n; i++ {
			x = cycSlice{nil, x}
		}
		first[1] = x
		return x
	}},
	{"maps", tm.Encs, func(n int) interface{} {
		first := cycMap{1: nil}
		x := first
		for i := 1; i < n; i++ {
			x = cycMap{2: x}
		}
		first[3] = x
		return x
	}},
	{"arrays", tm.Encs, func(n int) interface{} {
		first := &cycArr{}
		x := first
		for i := 1; i < n; i++ {
			x = &cycArr{[2]*cycArr{x, x}}
		}
		first.A = [2]*cycArr{x, x}
		return x
	}},
	{"enums", []tm.Enc{tm.Borsh}, func(n int) interface{} {
		first := &cycEnum{Tag: 1}
		x := first
		for i := 1; i < n; i++ {
			x = &cycEnum{Tag: 1, B: x}
		}
		first.B = x
		return x
	}},
	{"three types", tm.Encs, func(n int) interface{} {
		first := &cycA{X: 1}
		x := first
		for i := 1; i < n; i++ {
			x = &cycA{X: 1, B: &cycB{L: []*cycC{{M: map[string]*cycA{"k": x}}}}}
		}
		first.B = &cycB{L: []*cycC{{M: map[string]*cycA{"k": x}}}}
		return x
	}},
	{"own marshaler", tm.Encs, func(n int) interface{} {
		first := &cycOwn{}
		x := first
		for i := 1; i < n; i++ {
			x = &cycOwn{x}
		}
		first.Next = x
		return x
	}},
	{"zero values without end", []tm.Enc{tm.Borsh}, func(n int) interface{} {
		x := &cycNil{}
		for i := 1; i < n; i++ {
			x = &cycNil{x, x}
		}
		return x
	}},
	{"zero values of two types without end", []tm.Enc{tm.Borsh}, func(n int) interface{} {
		return &cycNil2{}
	}},
}

// cycles encodes values that contain themselves: they have no encoding.
func cycles(c *core.Ctx) {
	c.Run("cycles", len(cycs)*3, func(k *core.Case) {
		y := cycs[k.I/3]
		e := tm.Encs[k.I%3]
		ok := false
		for _, x := range y.encs {
			ok = ok || x == e
		}
		if !ok {
			return
		}
		n := 1 + k.N(4)
		k.Detail(map[string]interface{}{"encoding": e.String(), "value": fmt.Sprintf("contains itself through %s, after %d steps", y.name, n)})
		k.Seen("cycle", int(e), y.name, n)
		x := y.make(n)
		var err error
		w := &bytes.Buffer{}
		enc := newEncoder(e, w)
		if k.P(30) {
			_, err = byteCount(e, x)
		} else {
			err = enc.Encode(x)
		}
		k.Eval(1)
		k.Count("endless_values", 1)
		if err == nil {
			k.Fail("a value that contains itself was encoded")
		}
		w.Reset()
		if err := enc.Encode(uint8(7)); err != nil || !bytes.Equal(w.Bytes(), []byte{7}) {
			k.Fail("the encoder is of no use afterwards: %x, %v", w.Bytes(), err)
		}
	})
}
