package tm

import (
	"errors"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"
)

// opaque are the types of hidden fields that the library has no encoding for
// (or that say nothing of what they hold): it must not look at them.
var opaque = map[reflect.Type]func(g *Gen) interface{}{}
var opaqueList []reflect.Type

func hide(p interface{}, fill func(g *Gen) interface{}) {
	rt := reflect.TypeOf(p).Elem()
	opaque[rt] = fill
	opaqueList = append(opaqueList, rt)
}

func init() {
	thing := func(g *Gen) interface{} {
		n := g.U64()
		return []interface{}{n, "s", &n, errors.New("e"), []byte{1, 2}, map[string]int{"a": 1}, func() {}, struct{ A int }{3}, net.IPv4(1, 2, 3, byte(n)), time.Second}[g.N(10)]
	}
	hide(new(int), func(g *Gen) interface{} { return int(g.U64()) })
	hide(new(chan int), func(g *Gen) interface{} { return make(chan int, 1) })
	hide(new(func()), func(g *Gen) interface{} { return func() {} })
	hide(new(complex128), func(g *Gen) interface{} { return complex(1, float64(g.N(9))) })
	hide(new(complex64), func(g *Gen) interface{} { return complex64(complex(float64(g.N(9)), 2)) })
	hide(new(uintptr), func(g *Gen) interface{} { return uintptr(g.U64()) })
	hide(new(unsafe.Pointer), func(g *Gen) interface{} { return unsafe.Pointer(new(int)) })
	hide(new(interface{}), thing)
	hide(new(interface{}), thing)
	hide(new(error), func(g *Gen) interface{} { return fmt.Errorf("error %d", g.N(99)) })
	hide(new(fmt.Stringer), func(g *Gen) interface{} { return time.Duration(g.U64()) })
	hide(new(*int), func(g *Gen) interface{} { n := g.N(99); return &n })
	hide(new([]int), func(g *Gen) interface{} { return make([]int, g.N(4), 4) })
	hide(new([]interface{}), func(g *Gen) interface{} { return []interface{}{thing(g), nil, thing(g)} })
	hide(new(map[string]interface{}), func(g *Gen) interface{} { return map[string]interface{}{"a": thing(g), "b": nil} })
	hide(new(map[int]chan int), func(g *Gen) interface{} { return map[int]chan int{g.N(9): nil} })
	hide(new([2]func()), func(g *Gen) interface{} { return [2]func(){nil, func() {}} })
	hide(new(time.Time), func(g *Gen) interface{} { return time.Unix(int64(g.N(1<<30)), 5).UTC() }) // the local zone is filled in on first use
	hide(new(*big.Int), func(g *Gen) interface{} { return big.NewInt(int64(g.U64())) })
	hide(new(*sync.Mutex), func(g *Gen) interface{} { return new(sync.Mutex) })
	hide(new(struct {
		C chan int
		e error
		I interface{}
	}), func(g *Gen) interface{} {
		return struct {
			C chan int
			e error
			I interface{}
		}{make(chan int), errors.New("x"), thing(g)}
	})
}
