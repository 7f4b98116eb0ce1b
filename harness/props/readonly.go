package props

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"
	"syscall"
	"unsafe"

	"vmon/core"
	"vmon/tm"
)

// arena is memory of the operating system's between two pages that nobody can
// touch. Once sealed it can only be read: a write into it, even one that is
// undone right afterwards, or a read beyond it is a fault.
type arena struct {
	mem  []byte // without the guards
	used int
}

const arenaSize = 1 << 18

var arenas struct {
	sync.Mutex
	free []*arena
}

func newArena() *arena {
	arenas.Lock()
	if n := len(arenas.free); n > 0 {
		a := arenas.free[n-1]
		arenas.free = arenas.free[:n-1]
		arenas.Unlock()
		return a
	}
	arenas.Unlock()
	page := syscall.Getpagesize()
	all, err := syscall.Mmap(-1, 0, arenaSize+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil
	}
	if syscall.Mprotect(all[:page], syscall.PROT_NONE) != nil || syscall.Mprotect(all[page+arenaSize:], syscall.PROT_NONE) != nil {
		return nil
	}
	return &arena{mem: all[page : page+arenaSize : page+arenaSize]}
}

func (a *arena) seal() bool { return syscall.Mprotect(a.mem, syscall.PROT_READ) == nil }

func (a *arena) release() {
	if syscall.Mprotect(a.mem, syscall.PROT_READ|syscall.PROT_WRITE) != nil {
		return
	}
	a.used = 0
	arenas.Lock()
	arenas.free = append(arenas.free, a)
	arenas.Unlock()
}

func (a *arena) take(n int) []byte {
	at := (a.used + 15) &^ 15
	if n == 0 || at+n > len(a.mem) {
		return nil
	}
	a.used = at + n
	return a.mem[at : at+n : at+n]
}

// input puts data flush with one of the guards.
func (a *arena) input(k *core.Case, data []byte) []byte {
	if len(data) > len(a.mem) {
		return nil
	}
	at := len(a.mem) - len(data)
	if k.P(25) {
		at = 0
	}
	copy(a.mem[at:], data)
	a.used = len(a.mem)
	return a.mem[at : at+len(data) : at+len(data)]
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128 && t.Kind() != reflect.Uintptr
}

// move rebuilds a value with its strings, its slices of flat elements and (if
// wanted) the flat targets of its pointers in the arena.
func (a *arena) move(v reflect.Value, ptrs bool) (moved int) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if b := a.take(v.Len()); b != nil {
			copy(b, v.String())
			v.SetString(unsafe.String(&b[0], len(b)))
			moved++
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return
		}
		et := v.Type().Elem()
		if flat(et) && et.Size() > 0 {
			n := v.Len()
			b := a.take(n * int(et.Size()))
			if b == nil {
				return
			}
			s := reflect.SliceAt(et, unsafe.Pointer(&b[0]), n)
			reflect.Copy(s, v)
			v.Set(s.Convert(v.Type()))
			return 1
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		for i := 0; i < s.Len(); i++ {
			moved += a.move(s.Index(i), ptrs)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			moved += a.move(v.Index(i), ptrs)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		et := v.Type().Elem()
		if ptrs && flat(et) && et.Size() > 0 {
			if b := a.take(int(et.Size())); b != nil {
				p := reflect.NewAt(et, unsafe.Pointer(&b[0]))
				p.Elem().Set(v.Elem())
				v.Set(p.Convert(v.Type()))
				moved++
			}
			return
		}
		p := reflect.New(et)
		p.Elem().Set(v.Elem())
		moved += a.move(p.Elem(), ptrs)
		v.Set(p.Convert(v.Type()))
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			x := reflect.New(v.Type().Elem()).Elem()
			x.Set(it.Value())
			moved += a.move(x, ptrs)
			m.SetMapIndex(it.Key(), x)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			moved += a.move(v.Field(i), ptrs)
		}
	}
	return
}

// faults runs fn and says whether it touched what it must not.
func faults(a *arena, fn func()) (what string) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	pan, stack := core.Try(fn)
	if pan == nil {
		return ""
	}
	f, ok := pan.(interface{ Addr() uintptr })
	if !ok {
		panic(pan)
	}
	base := uintptr(unsafe.Pointer(&a.mem[0]))
	switch at := f.Addr(); {
	case at >= base && at < base+uintptr(len(a.mem)):
		return fmt.Sprintf("writes at offset %d of %d\n%s", at-base, len(a.mem), stack)
	case at+4096 >= base && at < base+uintptr(len(a.mem))+4096:
		return fmt.Sprintf("reaches beyond, at offset %d of %d\n%s", int64(at)-int64(base), len(a.mem), stack)
	}
	panic(pan)
}

// readOnly lets the library work on memory that cannot be written.
func readOnly(k *core.Case, t *tm.T, e tm.Enc, g *tm.Gen, v reflect.Value) {
	a := newArena()
	if a == nil {
		k.Count("no_protected_memory", 1)
		return
	}
	defer a.release()
	k.Detail(info(e, t, v, nil, "in read-only memory"))
	if k.P(40) {
		x := reflect.New(t.RT)
		x.Elem().Set(v)
		want, werr := marshal(e, iface(k, v))
		if n := a.move(x.Elem(), true); n == 0 || !a.seal() {
			return
		}
		var got []byte
		var err error
		if f := faults(a, func() { got, err = encodeVia(k, e, iface(k, x.Elem())) }); f != "" {
			k.Fail("encoding writes into the value it is given, or reads beyond it: %s", f)
		}
		k.Eval(1)
		k.Count("encoded_read_only", 1)
		if (err == nil) != (werr == nil) || err == nil && len(got) != len(want) {
			k.Fail("a value in read-only memory is encoded otherwise: %d bytes (%v), want %d (%v)", len(got), err, len(want), werr)
		}
		k.Seen("ro-enc", int(e), typeStr(t), want)
		return
	}
	w, err := tm.Encode(t, e, v)
	if err != nil {
		return
	}
	data, how := w.B, "valid"
	if k.P(50) {
		data, how = mutate(k, w.B, w.Marks, e)
	}
	if len(data) == 0 {
		return
	}
	k.Detail(info(e, t, v, data, how+", read-only"))
	want, ptr := reflect.New(t.RT), reflect.New(t.RT)
	used := k.P(40)
	if used {
		// what the target holds is somebody else's, and read-only too
		g.Left = 60
		old := g.Target(t)
		ptr.Elem().Set(old)
		if a.move(ptr.Elem(), false) == 0 || !a.seal() {
			return
		}
		var derr error
		if f := faults(a, func() { _, derr = decodeInPlace(k, e, data, ptr.Interface()) }); f != "" {
			k.Fail("decoding writes into memory that the target held before: %s", f)
		}
		k.Count("decoded_over_read_only", 1)
		k.Eval(1)
		_ = derr
		k.Seen("ro-used", int(e), typeStr(t), data)
		return
	}
	in := a.input(k, data)
	if in == nil || !a.seal() {
		return
	}
	_, werr := decodeInPlace(k, e, append([]byte(nil), data...), want.Interface())
	var derr error
	f := faults(a, func() {
		if k.P(50) {
			derr = unmarshal(e, ptr.Interface(), in)
		} else {
			derr = newDecoder(e, in).Decode(ptr.Interface())
		}
	})
	k.Eval(1)
	k.Count("decoded_read_only", 1)
	if f != "" {
		k.Fail("decoding writes into its input, or reads beyond it: %s", f)
	}
	if (derr == nil) != (werr == nil) {
		k.Fail("input in read-only memory: %v; in other memory: %v", derr, werr)
	}
	if derr == nil {
		if d := tm.Diff(t, e, want.Elem(), ptr.Elem()); d != "" {
			k.Fail("input in read-only memory decodes otherwise: %s", d)
		}
	}
	k.Seen("ro-dec", int(e), typeStr(t), data)
}
