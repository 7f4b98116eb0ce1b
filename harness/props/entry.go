package props

import (
	"fmt"
	"reflect"
	"sort"

	"vmon/core"
	"vmon/st"
	"vmon/tm"
)

// probeShapes build values holding the given probes in wire order.
var probeShapes = []struct {
	name string
	mk   func(k *core.Case, ps []st.Probe) interface{}
}{
	{"slice", func(k *core.Case, ps []st.Probe) interface{} { return ps }},
	{"slice of pointers", func(k *core.Case, ps []st.Probe) interface{} { return ptrs(ps) }},
	{"array", func(k *core.Case, ps []st.Probe) interface{} { return arrayOf(ps) }},
	{"struct with slice", func(k *core.Case, ps []st.Probe) interface{} {
		return struct {
			A uint16
			S []st.Probe
			Z string
		}{7, ps, "z"}
	}},
	{"struct with array", func(k *core.Case, ps []st.Probe) interface{} {
		a := reflect.ValueOf(arrayOf(ps))
		v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: a.Type()}, {Name: "B", Type: reflect.TypeOf(uint8(0))}})).Elem()
		v.Field(0).Set(a)
		return v.Interface()
	}},
	{"slice of slices", func(k *core.Case, ps []st.Probe) interface{} {
		var out [][]st.Probe
		for len(ps) > 0 {
			n := 1 + k.N(len(ps))
			out, ps = append(out, ps[:n]), ps[n:]
		}
		return out
	}},
	{"slice of structs", func(k *core.Case, ps []st.Probe) interface{} {
		type pair struct {
			N uint8
			P st.Probe
		}
		var out []pair
		for _, p := range ps {
			out = append(out, pair{1, p})
		}
		return out
	}},
	{"map values", func(k *core.Case, ps []st.Probe) interface{} {
		m := map[uint32]st.Probe{}
		for i, p := range ps {
			m[uint32(i)] = p
		}
		return m
	}},
	{"map of slices", func(k *core.Case, ps []st.Probe) interface{} {
		m := map[string][]st.Probe{}
		for i, p := range ps {
			key := fmt.Sprintf("%02d", i/7)
			m[key] = append(m[key], p)
		}
		return m
	}},
	{"optional slice", func(k *core.Case, ps []st.Probe) interface{} {
		return struct {
			S []st.Probe  `bin:"optional"`
			P *[]st.Probe `bin:"optional"`
		}{ps, nil}
	}},
	{"counted slice", func(k *core.Case, ps []st.Probe) interface{} {
		return struct {
			N uint16 `bin:"sizeof=S"`
			S []st.Probe
		}{uint16(len(ps)), ps}
	}},
	{"extension", func(k *core.Case, ps []st.Probe) interface{} {
		return struct {
			A uint8
			S []st.Probe `bin:"binary_extension"`
		}{3, ps}
	}},
	{"many fields", func(k *core.Case, ps []st.Probe) interface{} {
		var fs []reflect.StructField
		for i := range ps {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(st.Probe{})}
			if k.P(30) {
				f.Tag = `bin:"optional"`
			}
			fs = append(fs, f)
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i, p := range ps {
			v.Field(i).Set(reflect.ValueOf(p))
		}
		return v.Interface()
	}},
	{"single", func(k *core.Case, ps []st.Probe) interface{} {
		if len(ps) == 0 {
			return struct{ A uint8 }{}
		}
		return struct {
			P st.Probe
			S []st.Probe
		}{ps[0], ps[1:]}
	}},
}

func ptrs(ps []st.Probe) []*st.Probe {
	out := make([]*st.Probe, len(ps))
	for i := range ps {
		out[i] = &ps[i]
	}
	return out
}

func arrayOf(ps []st.Probe) interface{} {
	a := reflect.New(reflect.ArrayOf(len(ps), reflect.TypeOf(st.Probe{}))).Elem()
	reflect.Copy(a, reflect.ValueOf(ps))
	return a.Interface()
}

// entryCalls: one call per value and operation, whatever the way into the library.
func entryCalls(k *core.Case) {
	e := tm.Encs[k.I%3]
	sh := probeShapes[k.I/3%len(probeShapes)]
	n := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 130}[k.N(16)]
	if sh.name == "many fields" && n > 40 {
		n = 40
	}
	log := st.NewProbeLog()
	defer log.Close()
	ps := make([]st.Probe, n)
	for i := range ps {
		ps[i] = st.Probe{Token: log.Token, Seq: uint32(i)}
	}
	v := sh.mk(k, ps)
	k.Detail(map[string]interface{}{"encoding": e.String(), "shape": sh.name, "values": n})
	judge := func(what string, got []uint32) {
		k.Eval(1)
		k.Count("calls_logged", int64(len(got)))
		k.Count("entry_points_counted", 1)
		g := append([]uint32(nil), got...)
		if e != tm.Borsh { // map entries in any order
			sort.Slice(g, func(a, b int) bool { return g[a] < g[b] })
		}
		for i := range g {
			if g[i] != uint32(i) {
				k.Fail("%s %s of %d values: the calls were %v", what, sh.name, n, got)
			}
		}
		if len(g) != n {
			k.Fail("%s %s made %d calls for %d values", what, sh.name, len(g), n)
		}
	}
	for j := 0; j < 3; j++ {
		arg := v
		if k.P(40) {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			arg = p.Interface()
		}
		log.Enc, log.Dec = nil, nil
		var b []byte
		var err error
		if j == 0 {
			b, err = marshal(e, arg)
		} else {
			b, err = encodeVia(k, e, arg)
		}
		if err != nil {
			k.Fail("encoding a %s of %d values failed: %v", sh.name, n, err)
		}
		if len(log.Dec) != 0 {
			k.Fail("encoding a %s called unmarshalers", sh.name)
		}
		judge("encoding a", log.Enc)
		log.Enc, log.Dec = nil, nil
		ptr := reflect.New(reflect.TypeOf(v))
		if j == 0 {
			err = unmarshal(e, ptr.Interface(), b)
		} else {
			_, err = decodeInPlace(k, e, b, ptr.Interface())
		}
		if err != nil {
			k.Fail("decoding a %s of %d values failed: %v", sh.name, n, err)
		}
		if len(log.Enc) != 0 {
			k.Fail("decoding a %s called marshalers", sh.name)
		}
		judge("decoding a", log.Dec)
		k.Seen("entry", int(e), sh.name, n, j)
	}
}
