// Package tm is the reference model of the three wire formats: a description of
// Go types derived by reflection with an independent tag parser, a reference
// encoder, a reference decoder and a value comparator. It shares no code with
// the library under test.
package tm

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
)

type Enc int

const (
	Bin Enc = iota
	Compact
	Borsh
)

func (e Enc) String() string { return [...]string{"Bin", "CompactU16", "Borsh"}[e] }

var Encs = []Enc{Bin, Compact, Borsh}

type Kind int

const (
	Bool Kind = iota
	U8
	U16
	U32
	U64
	I8
	I16
	I32
	I64
	F32
	F64
	Str
	Arr
	Slice
	Map
	Ptr
	Struct
	Iface
	LibK
)

var kindOf = map[reflect.Kind]Kind{
	reflect.Bool: Bool, reflect.Uint8: U8, reflect.Uint16: U16, reflect.Uint32: U32, reflect.Uint64: U64,
	reflect.Int8: I8, reflect.Int16: I16, reflect.Int32: I32, reflect.Int64: I64,
	reflect.Float32: F32, reflect.Float64: F64, reflect.String: Str,
}

func (k Kind) Width() int {
	switch k {
	case Bool, U8, I8:
		return 1
	case U16, I16:
		return 2
	case U32, I32, F32:
		return 4
	case U64, I64, F64:
		return 8
	}
	return 0
}

type Field struct {
	Idx    int
	Name   string
	T      *T
	Opt    bool
	COpt   bool
	Big    bool
	Ext    bool
	Skip   bool // skip tag
	Priv   bool // unexported
	SizeOf string
}

// Hidden reports whether the field never appears on the wire.
func (f *Field) Hidden() bool { return f.Skip || f.Priv }

type T struct {
	K    Kind
	RT   reflect.Type
	Elem *T
	Key  *T
	N    int
	F    []Field
	Enum bool // first field is a tagged borsh enum discriminator
	Lib  *Lib
}

// Lib describes a type that carries its own codec (a library helper type or one
// of the harness's custom marshalers).
type Lib struct {
	Name string
	RT   reflect.Type
	Enc  func(w *W, e Enc, big bool, v reflect.Value)
	Dec  func(r *R, e Enc, big bool) reflect.Value
	Gen  func(g *Gen) reflect.Value
	Min  int
	// KeyOK: usable as a map key under every encoding.
	KeyOK bool
	// PtrOnly: the marshaler has a pointer receiver, so the type is only used behind a pointer.
	PtrOnly bool
	// Log: the type records the calls made on it.
	Log bool
}

var (
	libs     = map[reflect.Type]*Lib{}
	LibList  []*Lib
	enumType reflect.Type
	cache    sync.Map
)

func RegisterLib(l *Lib)               { libs[l.RT] = l; LibList = append(LibList, l) }
func RegisterEnumType(rt reflect.Type) { enumType = rt }
func LibOf(rt reflect.Type) *Lib       { return libs[rt] }
func EnumTagType() reflect.Type        { return enumType }

// Of derives the description of a Go type. Only finished descriptions are ever
// published, so that concurrent users need no further synchronisation.
func Of(rt reflect.Type) *T {
	if t, ok := cache.Load(rt); ok {
		return t.(*T)
	}
	building.Lock()
	defer building.Unlock()
	pend := map[reflect.Type]*T{}
	t := of(rt, pend)
	for rt, t := range pend {
		cache.Store(rt, t)
	}
	return t
}

var building sync.Mutex

func of(rt reflect.Type, pend map[reflect.Type]*T) *T {
	if t, ok := cache.Load(rt); ok {
		return t.(*T)
	}
	if t := pend[rt]; t != nil {
		return t // recursive, or seen before
	}
	t := &T{RT: rt}
	pend[rt] = t
	fill(t, rt, pend)
	return t
}

// Warm derives a named type eagerly, so that concurrent users only see finished descriptions.
func Warm(rts ...reflect.Type) {
	for _, rt := range rts {
		Of(rt)
	}
}

func isUintKind(k reflect.Kind) bool {
	return k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64
}

func fill(t *T, rt reflect.Type, pend map[reflect.Type]*T) {
	if l := libs[rt]; l != nil {
		t.K, t.Lib = LibK, l
		return
	}
	switch rt.Kind() {
	case reflect.Array:
		t.K, t.N, t.Elem = Arr, rt.Len(), of(rt.Elem(), pend)
	case reflect.Slice:
		t.K, t.Elem = Slice, of(rt.Elem(), pend)
	case reflect.Map:
		t.K, t.Key, t.Elem = Map, of(rt.Key(), pend), of(rt.Elem(), pend)
	case reflect.Ptr:
		t.K, t.Elem = Ptr, of(rt.Elem(), pend)
	case reflect.Interface:
		t.K = Iface
	case reflect.Struct:
		t.K = Struct
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			f := Field{Idx: i, Name: sf.Name, Priv: sf.PkgPath != ""}
			enum := parse(&f, sf.Tag)
			if f.Hidden() { // what is not there counts nothing
				f.SizeOf = ""
			}
			if i == 0 && sf.Type == enumType && enum {
				t.Enum = true
			}
			if opaque[sf.Type] == nil || !f.Hidden() {
				f.T = ofLoose(sf.Type, pend)
			}
			t.F = append(t.F, f)
		}
	default:
		k, ok := kindOf[rt.Kind()]
		if !ok {
			panic("tm: unsupported type " + rt.String())
		}
		t.K = k
	}
}

// ofLoose tolerates unsupported types in hidden fields.
func ofLoose(rt reflect.Type, pend map[reflect.Type]*T) (t *T) {
	switch rt.Kind() {
	case reflect.Int, reflect.Uint, reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.Uintptr, reflect.UnsafePointer:
		return nil
	}
	return of(rt, pend)
}

func parse(f *Field, tag reflect.StructTag) (enum bool) {
	for _, w := range strings.Fields(tag.Get("bin")) {
		switch {
		case strings.HasPrefix(w, "sizeof="):
			f.SizeOf = w[len("sizeof="):]
		case w == "big":
			f.Big = true
		case w == "little":
			f.Big = false
		case w == "optional" || w == "option":
			f.Opt = true
		case w == "coption":
			f.COpt = true
		case w == "binary_extension":
			f.Ext = true
		case w == "-" || w == "skip":
			f.Skip = true
		case w == "enum":
			enum = true
		}
	}
	if tag.Get("borsh_skip") == "true" {
		f.Skip = true
	}
	if tag.Get("borsh_enum") == "true" {
		enum = true
	}
	return enum
}

// MinSize is a lower bound for the encoded size of a value.
func MinSize(t *T, e Enc) int { return minSize(t, e, 0) }

func minSize(t *T, e Enc, depth int) int {
	if depth > 12 {
		return 0
	}
	switch t.K {
	case LibK:
		return t.Lib.Min
	case Str:
		return lenMin(e, true)
	case Arr:
		return t.N * minSize(t.Elem, e, depth+1)
	case Slice, Map:
		return lenMin(e, false)
	case Ptr:
		return minSize(t.Elem, e, depth+1)
	case Iface:
		return 0
	case Struct:
		if t.Enum && e == Borsh {
			return 1
		}
		n := 0
		counted := map[string]bool{}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() || f.Ext {
				continue
			}
			if f.SizeOf != "" {
				counted[f.SizeOf] = true
			}
			switch {
			case f.Opt:
				n += optMin(e)
			case f.COpt && e == Borsh:
				n += 4
			case counted[f.Name]:
			default:
				n += minSize(f.T, e, depth+1)
			}
		}
		return n
	}
	return t.K.Width()
}

func lenMin(e Enc, str bool) int {
	switch {
	case e == Borsh:
		return 4
	case e == Bin && str:
		return 8
	}
	return 1
}

func optMin(e Enc) int {
	if e == Bin {
		return 4
	}
	return 1
}

// MaxGo is the largest in-memory footprint of one element that a decoder may
// legitimately allocate while consuming few input bytes.
func MaxGo(t *T, _ int) int { return maxGo(t, map[*T]bool{}) }

func maxGo(t *T, above map[*T]bool) int {
	if t == nil || above[t] {
		return 16
	}
	above[t] = true
	defer delete(above, t)
	m := int(t.RT.Size())
	up := func(x int) {
		if x > m {
			m = x
		}
	}
	switch t.K {
	case Arr, Slice, Ptr:
		up(maxGo(t.Elem, above))
	case Map:
		up(maxGo(t.Elem, above) + maxGo(t.Key, above) + 64)
	case Struct:
		s := 0
		for i := range t.F {
			if t.F[i].T != nil {
				s += maxGo(t.F[i].T, above)
			}
		}
		up(s)
	}
	return m
}

// Walk visits every type node reachable on the wire (not through cycles).
func Walk(t *T, fn func(*T, *Field)) { walk(t, nil, fn, map[*T]bool{}) }

func walk(t *T, f *Field, fn func(*T, *Field), seen map[*T]bool) {
	if t == nil {
		return
	}
	fn(t, f)
	if seen[t] {
		return
	}
	seen[t] = true
	walk2 := func(x *T) { walk(x, nil, fn, seen) }
	switch t.K {
	case Arr, Slice, Ptr:
		walk2(t.Elem)
	case Map:
		walk2(t.Key)
		walk2(t.Elem)
	case Struct:
		for i := range t.F {
			walk(t.F[i].T, &t.F[i], fn, seen)
		}
	}
	delete(seen, t)
	seen[t] = t.RT.Name() != ""
}

// HasMap reports whether the type contains a map.
func HasMap(t *T) bool {
	has := false
	Walk(t, func(x *T, _ *Field) {
		if x.K == Map {
			has = true
		}
	})
	return has
}

func HasExt(t *T) bool {
	has := false
	Walk(t, func(_ *T, f *Field) {
		if f != nil && f.Ext {
			has = true
		}
	})
	return has
}

func HasEnum(t *T) bool {
	has := false
	Walk(t, func(x *T, _ *Field) {
		if x.Enum {
			has = true
		}
	})
	return has
}

// ---- comparison -----------------------------------------------------------

// Diff compares the wire-visible parts of two values of type t under encoding e,
// modulo nil/empty slices and maps. It returns "" when equal.
func Diff(t *T, e Enc, a, b reflect.Value) string { return diff(t, e, a, b, "") }

func diff(t *T, e Enc, a, b reflect.Value, path string) string {
	bad := func(f string, x ...interface{}) string { return path + ": " + fmt.Sprintf(f, x...) }
	switch t.K {
	case Bool:
		if a.Bool() != b.Bool() {
			return bad("%v != %v", a.Bool(), b.Bool())
		}
	case U8, U16, U32, U64:
		if a.Uint() != b.Uint() {
			return bad("%#x != %#x", a.Uint(), b.Uint())
		}
	case I8, I16, I32, I64:
		if a.Int() != b.Int() {
			return bad("%d != %d", a.Int(), b.Int())
		}
	case F32:
		x, y := F32Bits(a), F32Bits(b)
		if x != y {
			return bad("f32 %08x != %08x", x, y)
		}
	case F64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return bad("f64 %x != %x", math.Float64bits(a.Float()), math.Float64bits(b.Float()))
		}
	case Str:
		if a.String() != b.String() {
			return bad("string(len %d) %.40q != string(len %d) %.40q", len(a.String()), a.String(), len(b.String()), b.String())
		}
	case LibK:
		if d := deepDiff(a, b); d != "" {
			return bad("%s %s", t.Lib.Name, d)
		}
	case Arr, Slice:
		if a.Len() != b.Len() {
			return bad("len %d != %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(t.Elem, e, a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case Map:
		if a.Len() != b.Len() {
			return bad("map len %d != %d", a.Len(), b.Len())
		}
		for it := a.MapRange(); it.Next(); {
			o := b.MapIndex(it.Key())
			if !o.IsValid() && it.Key().Interface() != it.Key().Interface() {
				continue // a NaN equals no key, not even itself
			}
			if !o.IsValid() {
				return bad("key %v missing", it.Key())
			}
			if d := diff(t.Elem, e, it.Value(), o, fmt.Sprintf("%s[%v]", path, it.Key())); d != "" {
				return d
			}
		}
	case Ptr:
		if a.IsNil() != b.IsNil() {
			return bad("nil %v != nil %v", a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return diff(t.Elem, e, a.Elem(), b.Elem(), path+"*")
		}
	case Iface:
		if a.IsNil() != b.IsNil() {
			return bad("interface nil %v != %v", a.IsNil(), b.IsNil())
		}
	case Struct:
		if t.Enum && e == Borsh {
			x, y := a.Field(0).Uint(), b.Field(0).Uint()
			if x != y {
				return bad("enum tag %d != %d", x, y)
			}
			if int(x)+1 < len(t.F) {
				f := &t.F[x+1]
				return diff(f.T, e, a.Field(f.Idx), b.Field(f.Idx), path+"."+f.Name)
			}
			return ""
		}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				continue
			}
			if d := diff(f.T, e, a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	}
	return ""
}

func deepDiff(a, b reflect.Value) string {
	x, y := a.Interface(), b.Interface()
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) == math.Float64bits(b.Float()) {
			return ""
		}
	case reflect.Slice, reflect.Map:
		if a.Len() == 0 && b.Len() == 0 {
			return ""
		}
		if reflect.DeepEqual(x, y) {
			return ""
		}
	default:
		if reflect.DeepEqual(x, y) {
			return ""
		}
	}
	return fmt.Sprintf("%.80v != %.80v", x, y)
}

// HiddenZero checks that no hidden part of a freshly decoded value was written.
func HiddenZero(t *T, e Enc, v reflect.Value) string { return hiddenZero(t, e, v, "") }

func hiddenZero(t *T, e Enc, v reflect.Value, path string) string {
	switch t.K {
	case Arr, Slice:
		switch t.Elem.K {
		case Struct, Ptr, Arr, Slice, Map:
			for i := 0; i < v.Len(); i++ {
				if d := hiddenZero(t.Elem, e, v.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
		}
	case Map:
		for it := v.MapRange(); it.Next(); {
			if d := hiddenZero(t.Elem, e, it.Value(), path+"[..]"); d != "" {
				return d
			}
		}
	case Ptr:
		if !v.IsNil() {
			return hiddenZero(t.Elem, e, v.Elem(), path+"*")
		}
	case Struct:
		if t.Enum && e == Borsh {
			tag := int(v.Field(0).Uint())
			for i := 1; i < len(t.F); i++ {
				if i == tag+1 {
					if d := hiddenZero(t.F[i].T, e, v.Field(i), path+"."+t.F[i].Name); d != "" {
						return d
					}
				} else if !v.Field(i).IsZero() {
					return path + "." + t.F[i].Name + ": unchosen variant was written"
				}
			}
			return ""
		}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() {
				if !v.Field(i).IsZero() {
					return path + "." + f.Name + ": skipped field was written"
				}
				continue
			}
			if d := hiddenZero(f.T, e, v.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	}
	return ""
}

var f32Type = reflect.TypeOf(float32(0))

// F32Bits returns the exact bits of a float32 value; v.Float() would turn a
// signaling NaN into a quiet one.
func F32Bits(v reflect.Value) uint32 {
	if v.CanInterface() {
		return math.Float32bits(v.Convert(f32Type).Interface().(float32))
	}
	return math.Float32bits(float32(v.Float()))
}

// SetF32Bits is the inverse of F32Bits.
func SetF32Bits(v reflect.Value, n uint32) {
	v.Set(reflect.ValueOf(math.Float32frombits(n)).Convert(v.Type()))
}
