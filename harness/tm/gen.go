package tm

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

// Conf selects what the type generator may use.
type Conf struct {
	Enc       Enc
	Depth     int
	MaxFields int
	Maps      bool
	Ptrs      bool
	Libs      bool
	Enums     bool
	Opts      bool
	Big       bool
	Sizeof    bool
	Ext       bool
	Skip      bool
	Floats    bool
	Static    bool // draw from the registered named types
	BigLens   bool // now and then a collection that crosses a prefix-size boundary
	// NonBorshKeys also draws map keys Borsh cannot order (bool, arrays, structs).
	NonBorshKeys bool
	// NilPtrs leaves required pointers nil now and then, which Borsh encodes as
	// the zero value they could point to.
	NilPtrs bool
	BigMax  int    // the largest of those collections (0: no limit of its own)
	Boost   string // feature to use at every opportunity
}

func Full(e Enc) Conf {
	return Conf{Enc: e, Depth: 4, MaxFields: 6, Maps: true, Ptrs: true, Libs: true, Enums: true, Opts: true, Big: true,
		Sizeof: true, Ext: true, Skip: true, Floats: true, Static: true, BigLens: true, NonBorshKeys: e != Borsh}
}

var staticTypes []reflect.Type
var namedScalars []reflect.Type

// RegisterStatic adds a named type for the generator to use.
func RegisterStatic(v interface{})      { staticTypes = append(staticTypes, reflect.TypeOf(v)) }
func RegisterNamedScalar(v interface{}) { namedScalars = append(namedScalars, reflect.TypeOf(v)) }
func StaticTypes() []reflect.Type       { return staticTypes }

// Gen produces types and values.
type Gen struct {
	*Rng
	C      Conf
	Left   int // element budget of the current value
	NaN    bool
	noNeg0 int
	bigOne bool
	seq    int
	last   string
	apart  bool
}

func NewGen(r *Rng, c Conf) *Gen { return &Gen{Rng: r, C: c, Left: 400} }

var builtinScalars = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

func isFloat(t reflect.Type) bool { return t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 }

func (g *Gen) Scalar() reflect.Type {
	for {
		t := builtinScalars[g.N(len(builtinScalars))]
		if len(namedScalars) > 0 && g.P(25) {
			t = namedScalars[g.N(len(namedScalars))]
		}
		if isFloat(t) && !g.C.Floats {
			continue
		}
		return t
	}
}

func (g *Gen) lib(ptr bool) *Lib {
	for {
		l := LibList[g.N(len(LibList))]
		if l.PtrOnly && !ptr || l.Log && g.C.Boost != "log" && g.P(65) || g.C.Boost == "log" && !l.Log && g.P(85) {
			continue
		}
		return l
	}
}

// KeyType draws a map key type.
func (g *Gen) KeyType() reflect.Type { return g.keyType() }

func (g *Gen) keyType() reflect.Type {
	if g.C.NonBorshKeys && g.P(20) {
		switch g.N(4) {
		case 0:
			return reflect.TypeOf(false)
		case 1:
			return reflect.ArrayOf(g.Between(1, 3), reflect.TypeOf(uint8(0)))
		case 2:
			return reflect.StructOf([]reflect.StructField{{Name: "K", Type: reflect.TypeOf(int16(0))}, {Name: "S", Type: reflect.TypeOf("")}})
		}
	}
	if g.C.Libs && g.P(15) {
		for i := 0; i < 10; i++ {
			if l := LibList[g.N(len(LibList))]; l.KeyOK {
				return l.RT
			}
		}
	}
	for {
		t := g.Scalar()
		if t.Kind() != reflect.Bool {
			return t
		}
	}
}

// Type draws a type. Collection elements never have an empty encoding.
func (g *Gen) Type(depth int) reflect.Type {
	if depth <= 0 {
		if g.C.Libs && (g.P(25) || g.C.Boost == "log" && g.P(60)) {
			return g.lib(false).RT
		}
		return g.Scalar()
	}
	switch x := g.N(100); {
	case x < 26:
		if g.C.Boost == "log" && g.C.Libs && g.P(50) {
			return g.lib(false).RT
		}
		return g.Scalar()
	case x < 36:
		if g.C.Libs {
			return g.lib(false).RT
		}
		return g.Scalar()
	case x < 41:
		if g.C.Static && len(staticTypes) > 0 {
			return staticTypes[g.N(len(staticTypes))]
		}
		return g.Scalar()
	case x < 49:
		return g.arr(depth)
	case x < 64:
		return g.sliceT(depth)
	case x < 72:
		if g.C.Maps {
			return reflect.MapOf(g.keyType(), g.Type(depth-1))
		}
		return g.Scalar()
	case x < 80:
		if g.C.Ptrs {
			return g.ptrT(depth)
		}
		return g.Scalar()
	case x < 87:
		if g.C.Enums && EnumTagType() != nil {
			return g.EnumT(depth)
		}
		return g.StructT(depth - 1)
	}
	return g.StructT(depth - 1)
}

func (g *Gen) arr(depth int) reflect.Type {
	n := g.Between(0, 5)
	if g.P(10) {
		n = 32
	}
	if g.P(40) {
		if g.P(6) {
			n = g.Between(64, 300)
			if g.P(8) {
				n = []int{1024, 4096, 65536}[g.N(3)]
			}
		}
		return reflect.ArrayOf(n, g.uintElem())
	}
	return reflect.ArrayOf(n, g.elem(depth-1))
}

func (g *Gen) uintElem() reflect.Type {
	for {
		t := g.Scalar()
		if isUintKind(t.Kind()) {
			return t
		}
		if g.P(20) {
			for _, l := range LibList {
				if isUintKind(l.RT.Kind()) && g.P(50) {
					return l.RT
				}
			}
		}
	}
}

func (g *Gen) elem(depth int) reflect.Type {
	for {
		t := g.Type(depth)
		if elemMin(t, g.C.Enc) > 0 {
			return t
		}
	}
}

func elemMin(t reflect.Type, e Enc) int { return MinSize(Of(t), e) }

func (g *Gen) sliceT(depth int) reflect.Type {
	if g.P(45) {
		return reflect.SliceOf(g.uintElem())
	}
	return reflect.SliceOf(g.elem(depth - 1))
}

func (g *Gen) ptrT(depth int) reflect.Type {
	if g.C.Libs && g.P(25) {
		return reflect.PtrTo(g.lib(true).RT)
	}
	for {
		t := g.Type(depth - 1)
		if t.Kind() == reflect.Interface {
			continue
		}
		return reflect.PtrTo(t)
	}
}

func (g *Gen) EnumT(depth int) reflect.Type {
	tag := reflect.StructTag(`borsh_enum:"true"`)
	if g.P(50) {
		tag = `bin:"enum"`
	}
	fs := []reflect.StructField{{Name: "Tag", Type: EnumTagType(), Tag: tag}}
	n := g.Between(1, 6)
	if g.P(4) {
		n = g.Between(100, 255)
	}
	for i := 0; i < n; i++ {
		d := depth - 1
		if n > 6 {
			d = 0
		}
		t := g.Type(d)
		if g.P(15) {
			t = reflect.TypeOf(struct{}{})
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: t})
	}
	return reflect.StructOf(fs)
}

var countKinds = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
}

func (g *Gen) StructT(depth int) reflect.Type {
	n := g.N(g.C.MaxFields + 1)
	if g.P(85) && n == 0 {
		n = 1 + g.N(3)
	}
	if depth >= 1 && g.N(150) == 0 { // a wide one
		n = g.Between(60, 150)
		depth = 0
	}
	var fs []reflect.StructField
	k := 0
	name := func() string {
		k++
		if g.P(8) { // names may contain anything, the words of tags included
			return fmt.Sprintf("F%d%s", k, []string{"big", "little", "optional", "coption", "skip", "enum", "binary_extension", "sizeof", "ключ", "x", "_"}[g.N(11)])
		}
		return fmt.Sprintf("F%d", k)
	}
	boost := func(what string, p int) bool { return g.C.Boost == what && g.P(55) || g.P(p) }
	ext := 0
	if g.C.Ext && boost("ext", 6) {
		ext = g.Between(1, 3)
	}
	for i := 0; i < n+ext; i++ {
		isExt := i >= n
		if g.C.Skip && boost("skip", 8) {
			f := reflect.StructField{Name: name(), Type: g.Type(depth)}
			if g.P(15) {
				// the library has no encoding for these, and must not look at them
				f.Type = opaqueList[g.N(len(opaqueList))]
			}
			skip := []string{"-", "skip", "", ""}[g.N(4)]
			words := []string{}
			if g.P(30) { // words that have nothing to say about a field that is not there
				other := []string{"big", "little", "optional", "option", "coption", "enum"}
				for i, n := 0, 1+g.N(2); i < n; i++ {
					words = append(words, other[g.N(len(other))])
				}
			}
			if skip != "" {
				at := g.N(len(words) + 1)
				words = append(words[:at:at], append([]string{skip}, words[at:]...)...)
			}
			if g.P(20) { // a count that is not there counts nothing
				at := g.N(len(words) + 1)
				words = append(words[:at:at], append([]string{fmt.Sprintf("sizeof=F%d", k+1+g.N(3))}, words[at:]...)...)
			}
			if len(words) > 0 {
				f.Tag = reflect.StructTag(fmt.Sprintf("bin:%q", strings.Join(words, " ")))
			}
			if skip == "" {
				if g.P(50) {
					f.Tag = reflect.StructTag(strings.TrimSpace(string(f.Tag) + ` borsh_skip:"true"`))
				} else {
					f.Name = strings.ToLower(f.Name)
					f.PkgPath = "vmon/tm"
				}
			}
			fs = append(fs, f)
			continue
		}
		if !isExt && g.C.Sizeof && boost("sizeof", 6) {
			ct := countKinds[g.N(len(countKinds))]
			if g.C.Libs && g.P(10) {
				for _, l := range LibList {
					if l.Name == "Varuint16" {
						ct = l.RT
					}
				}
			}
			st := g.sliceT(depth)
			if g.P(10) && g.C.Ptrs {
				st = reflect.PtrTo(st)
			}
			cn, sn := name(), name()
			ctag := "sizeof=" + sn
			if g.C.Big && g.P(25) {
				ctag += " big"
			}
			if g.C.Opts && g.P(12) {
				ctag += []string{" optional", " option", " coption"}[g.N(3)]
			}
			if g.P(8) { // a name that differs in case is another name
				sn = fmt.Sprintf("F%dItems", k)
				ctag = strings.Replace(ctag, fmt.Sprintf("sizeof=F%d", k), "sizeof="+sn+"\x00", 1)
				ctag = ctag[:strings.IndexByte(ctag, 0)] + strings.TrimLeftFunc(ctag[strings.IndexByte(ctag, 0)+1:], func(r rune) bool { return r != ' ' })
				fs = append(fs, reflect.StructField{Name: cn, Type: ct, Tag: reflect.StructTag(fmt.Sprintf("bin:%q", ctag))})
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%ditems", k), Type: reflect.SliceOf(g.Scalar())})
			} else {
				fs = append(fs, reflect.StructField{Name: cn, Type: ct, Tag: reflect.StructTag(fmt.Sprintf("bin:%q", ctag))})
			}
			if g.P(35) {
				fs = append(fs, reflect.StructField{Name: name(), Type: g.Scalar()})
			}
			stag := reflect.StructTag("")
			if g.C.Opts && g.P(10) {
				stag = `bin:"optional"`
			}
			fs = append(fs, reflect.StructField{Name: sn, Type: st, Tag: stag})
			continue
		}
		if !isExt && g.C.Enums && EnumTagType() != nil && boost("lookalike", 3) {
			// resembles the tag of an enum, and is a number like any other
			f := reflect.StructField{Name: name(), Type: EnumTagType()}
			tag := reflect.StructTag([]string{`borsh_enum:"true"`, `bin:"enum"`}[g.N(2)])
			if g.P(50) {
				f.Type = g.uintElem()
			}
			if g.P(60) && (f.Type != EnumTagType() || len(fs) > 0) {
				f.Tag = tag
			}
			fs = append(fs, f)
			continue
		}
		f := reflect.StructField{Name: name()}
		f.Type = g.Type(depth)
		if isExt { // an extension without bytes cannot be told from an absent one
			f.Type = g.elem(depth)
		}
		var words []string
		if isExt {
			words = append(words, "binary_extension")
		}
		if g.C.Opts && boost("opt", 18) {
			switch g.N(3) {
			case 0:
				words = append(words, "optional")
			case 1:
				words = append(words, "option")
			case 2:
				words = append(words, "coption")
			}
			if g.P(60) && f.Type.Kind() != reflect.Interface && g.C.Ptrs {
				f.Type = reflect.PtrTo(f.Type)
			}
		}
		if g.C.Big && boost("big", 18) {
			if g.C.Boost == "big" && g.P(60) {
				f.Type = g.orderType()
			}
			if g.P(75) {
				words = append(words, "big")
			} else {
				words = append(words, "little")
			}
		}
		if len(words) > 0 {
			if g.P(50) {
				for a, b := 0, len(words)-1; a < b; a, b = a+1, b-1 {
					words[a], words[b] = words[b], words[a]
				}
			}
			f.Tag = reflect.StructTag(fmt.Sprintf("bin:%q", strings.Join(words, " ")))
		}
		fs = append(fs, f)
		if !isExt && g.P(3) {
			fs = append(fs, reflect.StructField{Name: name(), Type: reflect.TypeOf((*interface{})(nil)).Elem()})
		}
	}
	for i := range fs {
		if !g.P(6) { // tags of other packages, and spaces between the words
			continue
		}
		other := []string{`json:"-"`, `json:"big,omitempty"`, `borsh:"skip"`, `yaml:"optional"`, `bin_x:"skip big"`, `borsh_skip:"false"`, `xbin:"-"`, `binary:"big"`}
		tag := string(fs[i].Tag)
		switch g.N(3) {
		case 0:
			if !strings.Contains(tag, "borsh_skip") {
				tag = strings.TrimSpace(tag + " " + other[g.N(len(other))])
			}
		case 1:
			if !strings.Contains(tag, "borsh_skip") {
				tag = strings.TrimSpace(other[g.N(len(other))] + " " + tag)
			}
		default:
			if a := strings.Index(tag, `bin:"`); a >= 0 {
				b := strings.IndexByte(tag[a+5:], '"') + a + 5
				tag = tag[:a+5] + strings.Repeat(" ", g.N(2)) + strings.ReplaceAll(tag[a+5:b], " ", "  ") + strings.Repeat(" ", g.N(3)) + tag[b:]
			}
		}
		fs[i].Tag = reflect.StructTag(tag)
	}
	return reflect.StructOf(fs)
}

// orderType draws a type on which the byte order is observable.
func (g *Gen) orderType() reflect.Type {
	t := g.orderOne()
	if !g.P(30) {
		return t
	}
	// inside something else, where a byte order does not reach
	for i := 1 + g.N(2); i > 0; i-- {
		switch x := g.N(6); {
		case x == 0:
			t = reflect.ArrayOf(1+g.N(3), t)
		case x == 1:
			t = reflect.SliceOf(t)
		case x == 2 && g.C.Maps:
			key := []reflect.Type{reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf("")}[g.N(4)]
			t = reflect.MapOf(key, t)
		case x == 3:
			t = reflect.StructOf([]reflect.StructField{{Name: "In", Type: t}})
		case x == 4 && g.C.Ptrs:
			t = reflect.ArrayOf(1+g.N(3), reflect.PtrTo(t))
		case x == 5 && g.C.Ptrs:
			t = reflect.SliceOf(reflect.PtrTo(t))
		}
	}
	return t
}

func (g *Gen) orderOne() reflect.Type {
	if g.C.Libs && g.P(40) {
		for i := 0; i < 20; i++ {
			l := g.lib(false)
			switch l.Name {
			case "Int64", "Uint64", "JSONFloat64", "Uint128", "Int128", "Float128":
				return l.RT
			}
		}
	}
	if g.P(15) {
		return reflect.SliceOf(g.uintElem())
	}
	for {
		t := g.Scalar()
		if t.Size() >= 2 && t.Kind() != reflect.String {
			if g.C.Ptrs && g.P(15) {
				return reflect.PtrTo(t)
			}
			return t
		}
	}
}

// Plain lists unnamed types a caller may hand over as they are.
var Plain []reflect.Type

func init() {
	for _, t := range builtinScalars {
		Plain = append(Plain, t, reflect.SliceOf(t), reflect.ArrayOf(4, t), reflect.MapOf(reflect.TypeOf(""), t), reflect.SliceOf(reflect.SliceOf(t)), reflect.SliceOf(reflect.PtrTo(t)))
	}
	b := reflect.TypeOf(uint8(0))
	for _, n := range []int{8, 16, 20, 32, 64} {
		Plain = append(Plain, reflect.ArrayOf(n, b), reflect.SliceOf(reflect.ArrayOf(n, b)))
	}
}

// Top draws a top-level type: usually a struct.
func (g *Gen) Top() reflect.Type {
	if g.P(8) {
		return Deepen(g.Rng, g.top(), g.C.Enc, g.C.Ptrs)
	}
	return g.top()
}

// Deepen puts a type many levels deep: mostly around it, seldom several of it.
func Deepen(r *Rng, rt reflect.Type, e Enc, ptrs bool) reflect.Type {
	n := 2 + r.N(7)
	if r.P(50) {
		n = 8 + r.N(18)
	}
	if rt.Size() > 1024 { // every level of a fat value costs a copy of it
		return rt
	}
	u8, u16 := reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0))
	ptrs = ptrs && r.P(50)
	tail := r.P(50)
	for i := 0; i < n; i++ {
		x := r.N(12)
		switch ext := HasExt(Of(rt)); {
		case x < 4:
			rt = reflect.ArrayOf(1, rt)
		case x < 6:
			rt = reflect.StructOf([]reflect.StructField{{Name: "In", Type: rt}})
		case x == 6:
			rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: u8}, {Name: "In", Type: rt}})
		case x == 7 && !ext && tail:
			rt = reflect.StructOf([]reflect.StructField{{Name: "In", Type: rt}, {Name: "Z", Type: u16}})
		case x == 8 && !ext && tail && elemMin(rt, e) > 0:
			rt = reflect.SliceOf(rt)
		case x > 8 && ptrs && rt.Kind() != reflect.Ptr && rt.Kind() != reflect.Map:
			rt = reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.PtrTo(rt)}})
		}
	}
	return rt
}

// Nest puts a type n levels deep without adding to its encoding; down leads
// from a value of the outer type to the inner one.
func Nest(r *Rng, rt reflect.Type, n int) (outer reflect.Type, down func(v reflect.Value) reflect.Value) {
	var how []int
	for i := 0; i < n; i++ {
		x := r.N(3)
		if x == 2 && (rt.Kind() == reflect.Ptr || rt.Kind() == reflect.Map || i == n-1) {
			x = 0
		}
		switch x {
		case 0:
			rt = reflect.ArrayOf(1, rt)
		case 1:
			rt = reflect.StructOf([]reflect.StructField{{Name: "In", Type: rt}})
		case 2:
			rt = reflect.PtrTo(rt)
		}
		how = append(how, x)
	}
	return rt, func(v reflect.Value) reflect.Value {
		for i := n - 1; i >= 0; i-- {
			switch how[i] {
			case 0:
				v = v.Index(0)
			case 1:
				v = v.Field(0)
			case 2:
				if v.IsNil() {
					v.Set(reflect.New(v.Type().Elem()))
				}
				v = v.Elem()
			}
		}
		return v
	}
}

func (g *Gen) top() reflect.Type {
	if g.C.Boost == "" && g.P(4) {
		for {
			t := Plain[g.N(len(Plain))]
			if g.P(30) { // the most usual ones
				t = []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(""), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf([][]byte{})}[g.N(5)]
			}
			if (g.C.Maps || t.Kind() != reflect.Map) && (g.C.Floats || !isFloat(t) && (t.Kind() < reflect.Array || t.Kind() == reflect.String || !isFloat(t.Elem()))) && (g.C.Ptrs || t.Kind() != reflect.Slice || t.Elem().Kind() != reflect.Ptr) {
				return t
			}
		}
	}
	if g.P(72) || g.C.Boost != "" {
		if g.P(2) { // many fields, all of them simple
			old := g.C.MaxFields
			g.C.MaxFields = []int{33, 65, 70, 129, 200, 260}[g.N(6)]
			defer func() { g.C.MaxFields = old }()
			return g.StructT(0)
		}
		return g.StructT(g.C.Depth - 1)
	}
	for {
		t := g.Type(g.C.Depth)
		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
			continue
		}
		return t
	}
}

// ---- values ---------------------------------------------------------------

func (g *Gen) Value(t *T) reflect.Value {
	v := reflect.New(t.RT).Elem()
	g.Left = 400
	g.bigOne = g.C.BigLens && g.P(6)
	g.fillV(t, v)
	return v
}

// Target draws a value in which no two pointers share a target, to decode into.
func (g *Gen) Target(t *T) reflect.Value {
	g.apart = true
	defer func() { g.apart = false }()
	return g.Value(t)
}

func (g *Gen) collLen(t *T) int {
	cheap := t.K == Str || t.Elem != nil && t.Elem.K.Width() > 0
	var n int
	if g.bigOne && cheap {
		g.bigOne = false
		opts := []int{127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 16383, 16384, 16385}
		n = opts[g.N(len(opts))]
		if g.P(8) {
			n = []int{32767, 32768, 65534, 65535}[g.N(4)]
			if g.C.Enc != Compact && g.P(60) {
				n = []int{65536, 65537, 70000}[g.N(3)]
			}
		}
		return g.capped(n)
	}
	heavy := 1
	if t.Elem != nil {
		heavy += MinSize(t.Elem, g.C.Enc)
	}
	if g.bigOne && t.Elem != nil && heavy < 300 && g.P(15) { // many elements of any type
		g.bigOne = false
		n = []int{150, 256, 257, 512, 1000, 1024, 1025, 2048, 2050, 4096, 4100}[g.N(11)]
		n = g.capped(n)
		g.Left = 3 * n
		return n
	}
	switch x := g.N(100); {
	case x < 14:
		n = 0
	case x < 30:
		n = 1
	case x < 75:
		n = g.Between(2, 5)
	case x < 93:
		n = g.Between(6, 20)
	default:
		n = g.Between(21, 140)
	}
	if t.K == Str && g.P(12) {
		n = g.Between(16, 100)
	}
	if max := 3 + 300000/heavy; n > max {
		n = max
	}
	if n > g.Left {
		n = g.Left
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (g *Gen) capped(n int) int {
	if g.C.BigMax > 0 && n > g.C.BigMax {
		n = g.C.BigMax - g.N(3)
	}
	return n
}

// Str draws a string of about n bytes; now and then one that differs from the
// last one in a byte or not at all.
func (g *Gen) Str(n int) string {
	if len(g.last) > 0 && g.P(12) {
		b := []byte(g.last)
		if g.P(75) {
			b[g.N(len(b))] ^= byte(1 + g.N(127))
		}
		return string(b)
	}
	s := g.str(n)
	if len(s) <= 200 {
		g.last = s
	}
	return s
}

func (g *Gen) str(n int) string {
	if g.P(25) {
		return string(g.Bytes(n)) // arbitrary bytes
	}
	if n > 0 && g.P(5) { // a padded field of a usual width
		w := []int{8, 16, 20, 32, 32, 64, 64, 128}[g.N(8)]
		b := g.Bytes(w)
		pad := []byte{0, 0, ' ', 0xff, '0'}[g.N(5)]
		at := g.N(w)
		if g.P(75) {
			for i := at; i < w; i++ {
				b[i] = pad
			}
		} else {
			for i := 0; i <= at; i++ {
				b[i] = pad
			}
		}
		return string(b)
	}
	var sb strings.Builder
	for sb.Len() < n {
		if g.P(85) || n-sb.Len() < 4 {
			sb.WriteByte(byte(32 + g.N(95)))
		} else {
			sb.WriteRune([]rune{'é', 'ß', '世', 'Σ', '🙂', '\u0000', '\u200b'}[g.N(7)])
		}
	}
	return sb.String()
}

func (g *Gen) F64() float64 {
	switch g.N(8) {
	case 0:
		return 0
	case 1:
		return []float64{1, -1, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64}[g.N(6)]
	case 2:
		return math.Inf(1 - 2*g.N(2))
	case 3:
		if g.noNeg0 == 0 {
			return math.Copysign(0, -1)
		}
	case 4:
		if g.C.Enc != Borsh || g.NaN {
			return math.Float64frombits(0x7ff<<52 | uint64(g.N(2))<<63 | 1 + g.U64()>>13)
		}
	}
	for {
		f := math.Float64frombits(g.U64())
		if !math.IsNaN(f) {
			return f
		}
	}
}

func (g *Gen) F32() float32 {
	switch g.N(8) {
	case 0:
		return 0
	case 1:
		return []float32{1, -1, math.Pi, math.MaxFloat32, math.SmallestNonzeroFloat32, -math.MaxFloat32}[g.N(6)]
	case 2:
		return float32(math.Inf(1 - 2*g.N(2)))
	case 3:
		if g.noNeg0 == 0 {
			return float32(math.Copysign(0, -1))
		}
	case 4:
		if g.C.Enc != Borsh || g.NaN {
			return math.Float32frombits(0x7f800000 | uint32(g.N(2))<<31 | uint32(1+g.N(0x7fffff)))
		}
	}
	for {
		f := math.Float32frombits(uint32(g.U64()))
		if f == f {
			return f
		}
	}
}

// Settable returns a settable view of a possibly unexported field.
func Settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *Gen) fillV(t *T, v reflect.Value) {
	g.Left--
	switch t.K {
	case LibK:
		v.Set(t.Lib.Gen(g))
	case Bool:
		v.SetBool(g.P(50))
	case U8, U16, U32, U64:
		v.SetUint(g.Edge() & (^uint64(0) >> uint(64-8*t.K.Width())))
	case I8:
		v.SetInt(int64(int8(g.Edge())))
	case I16:
		v.SetInt(int64(int16(g.Edge())))
	case I32:
		v.SetInt(int64(int32(g.Edge())))
	case I64:
		v.SetInt(int64(g.Edge()))
	case F32:
		SetF32Bits(v, math.Float32bits(g.F32()))
	case F64:
		v.SetFloat(g.F64())
	case Str:
		v.SetString(g.Str(g.collLen(t)))
	case Arr:
		for i := 0; i < t.N; i++ {
			if i > 0 && t.Elem.K == Ptr && !g.apart && g.P(15) {
				v.Index(i).Set(v.Index(g.N(i)))
				continue
			}
			g.fillV(t.Elem, v.Index(i))
		}
	case Slice:
		g.fillSlice(t, v, g.collLen(t))
	case Map:
		n := g.collLen(t)
		if n == 0 && g.P(50) {
			return
		}
		if n > 40 && n < 256 {
			n = g.Between(20, 40)
		}
		m := reflect.MakeMap(t.RT)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key.RT).Elem()
			g.noNeg0++
			g.fillV(t.Key, k)
			g.noNeg0--
			if (t.Key.K == F32 || t.Key.K == F64) && k.Float() != k.Float() {
				continue
			}
			x := reflect.New(t.Elem.RT).Elem()
			g.fillV(t.Elem, x)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case Ptr:
		if g.C.NilPtrs && g.C.Enc == Borsh && g.P(20) && t.Elem.K != LibK && zeroable(t.Elem) {
			v.SetZero()
			return
		}
		p := reflect.New(t.Elem.RT)
		g.fillV(t.Elem, p.Elem())
		v.Set(p)
	case Iface:
	case Struct:
		if t.Enum {
			tag := g.N(len(t.F) - 1)
			for i := range t.F {
				f := &t.F[i]
				if i == 0 {
					v.Field(0).SetUint(uint64(tag))
					continue
				}
				if g.C.Enc == Borsh && i != tag+1 && g.P(70) {
					continue // usually only the chosen variant is populated
				}
				g.fillV(f.T, v.Field(i))
			}
			// under Bin and CompactU16 every field is on the wire and must be encodable
			return
		}
		counted := map[string]int{} // slice field name -> count field
		for i := range t.F {
			if t.F[i].SizeOf != "" {
				counted[t.F[i].SizeOf] = i
			}
		}
		for i := range t.F {
			f := &t.F[i]
			fv := Settable(v.Field(i))
			if f.SizeOf != "" {
				continue // set with its slice
			}
			if ci, ok := counted[f.Name]; ok {
				cv := v.Field(ci)
				max := 127
				if cv.Kind() != reflect.Int8 && cv.Kind() != reflect.Uint8 {
					max = 300
				}
				st, sv := f.T, fv
				if st.K == Ptr {
					p := reflect.New(st.Elem.RT)
					sv.Set(p)
					st, sv = st.Elem, p.Elem()
				}
				n := g.collLen(st)
				if n > max {
					n = max
				}
				g.fillSlice(st, sv, n)
				if (f.Opt || f.COpt) && n == 0 && f.T.K == Slice && g.P(50) {
					fv.SetZero()
				}
				if cv.Kind() >= reflect.Int && cv.Kind() <= reflect.Int64 {
					cv.SetInt(int64(n))
				} else {
					cv.SetUint(uint64(n))
				}
				continue
			}
			if f.T == nil { // unsupported kind in a hidden field
				if fill := opaque[fv.Type()]; fill != nil && g.P(85) {
					fv.Set(reflect.ValueOf(fill(g)))
				}
				continue
			}
			if f.Opt || f.COpt {
				// coption is inert outside Borsh: the field is then required there
				absent := g.P(40)
				if f.COpt && !f.Opt && g.C.Enc != Borsh {
					absent = false
				}
				if absent {
					continue
				}
				g.noNeg0++
				g.fillV(f.T, fv)
				g.noNeg0--
				continue
			}
			g.fillV(f.T, fv)
		}
	}
}

func (g *Gen) fillSlice(t *T, v reflect.Value, n int) {
	if n == 0 && g.P(50) {
		return
	}
	s := reflect.MakeSlice(t.RT, n, n+g.N(3))
	if s.Cap() > n && g.Left > 0 { // spare capacity belongs to somebody else
		spare := s.Slice(0, s.Cap())
		for i := n; i < s.Cap(); i++ {
			g.fillV(t.Elem, spare.Index(i))
		}
	}
	if t.Elem.K == U8 && n > 64 {
		b := g.Bytes(n)
		for i := 0; i < n; i++ {
			s.Index(i).SetUint(uint64(b[i]))
		}
	} else {
		for i := 0; i < n; i++ {
			if i > 0 && t.Elem.K == Ptr && !g.apart && g.P(15) { // one target, two pointers
				s.Index(i).Set(s.Index(g.N(i)))
				continue
			}
			g.fillV(t.Elem, s.Index(i))
		}
	}
	v.Set(s)
}

// zeroable: the zero value of t has a Borsh encoding of modest size (further nil
// pointers in it stand for zero values too, so a type that contains itself
// through required pointers has none).
func zeroable(t *T) bool {
	n := zeroSize(t, map[*T]int{})
	return n >= 0 && n <= 400
}

func zeroSize(t *T, seen map[*T]int) int {
	if n, ok := seen[t]; ok {
		return n
	}
	seen[t] = -1 // for types that contain themselves
	n := 1
	switch t.K {
	case Ptr:
		if t.Elem.K == LibK {
			return -1
		}
		n = zeroSize(t.Elem, seen)
	case Arr:
		n = zeroSize(t.Elem, seen)
		if n > 0 {
			n *= 1 + t.N
		}
	case Struct:
		if t.Enum {
			if len(t.F) < 2 || t.F[1].Hidden() {
				return -1
			}
			n = zeroSize(t.F[1].T, seen)
			break
		}
		for i := range t.F {
			f := &t.F[i]
			if f.Hidden() || f.Opt || f.COpt {
				continue
			}
			m := zeroSize(f.T, seen)
			if m < 0 {
				return -1
			}
			n += m
		}
	}
	if n > 400 {
		n = -1
	}
	seen[t] = n
	return n
}
