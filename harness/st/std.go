package st

import (
	"reflect"

	"vmon/tm"
)

// Types with the methods other packages look for. None of them means anything
// to this library, and calling one is a defect.

func never(what string) { panic("harness: " + what + " was called") }

type StdNum uint16

func (StdNum) MarshalBinary() ([]byte, error)    { never("MarshalBinary"); return nil, nil }
func (*StdNum) UnmarshalBinary([]byte) error     { never("UnmarshalBinary"); return nil }
func (StdNum) MarshalText() ([]byte, error)      { never("MarshalText"); return nil, nil }
func (*StdNum) UnmarshalText([]byte) error       { never("UnmarshalText"); return nil }
func (StdNum) GobEncode() ([]byte, error)        { never("GobEncode"); return nil, nil }
func (*StdNum) GobDecode([]byte) error           { never("GobDecode"); return nil }
func (StdNum) MarshalBorsh() ([]byte, error)     { never("MarshalBorsh"); return nil, nil }
func (*StdNum) UnmarshalBorsh([]byte) error      { never("UnmarshalBorsh"); return nil }
func (StdNum) Len() int                          { never("Len"); return 0 }
func (StdNum) IsZero() bool                      { never("IsZero"); return true }
func (StdNum) Bytes() []byte                     { never("Bytes"); return nil }
func (StdNum) MarshalWithEncoder(x []byte) error { never("another MarshalWithEncoder"); return nil }

type StdStr string

func (StdStr) MarshalBinary() ([]byte, error) { never("MarshalBinary"); return nil, nil }
func (*StdStr) UnmarshalBinary([]byte) error  { never("UnmarshalBinary"); return nil }
func (StdStr) MarshalText() ([]byte, error)   { never("MarshalText"); return nil, nil }
func (*StdStr) UnmarshalText([]byte) error    { never("UnmarshalText"); return nil }
func (StdStr) IsZero() bool                   { never("IsZero"); return true }
func (*StdStr) UnmarshalWithDecoder() error   { never("another UnmarshalWithDecoder"); return nil }
func (*StdStr) Scan(x interface{}) error      { never("Scan"); return nil }

type StdStruct struct {
	A uint32
	B []byte
	C *int16 `bin:"optional"`
}

func (StdStruct) MarshalBinary() ([]byte, error) { never("MarshalBinary"); return nil, nil }
func (*StdStruct) UnmarshalBinary([]byte) error  { never("UnmarshalBinary"); return nil }
func (StdStruct) MarshalText() ([]byte, error)   { never("MarshalText"); return nil, nil }
func (*StdStruct) UnmarshalText([]byte) error    { never("UnmarshalText"); return nil }
func (StdStruct) IsZero() bool                   { never("IsZero"); return true }
func (StdStruct) Unwrap() error                  { never("Unwrap"); return nil }
func (*StdStruct) Reset()                        { never("Reset") }
func (StdStruct) Encode() ([]byte, error)        { never("Encode"); return nil, nil }
func (*StdStruct) Decode([]byte) error           { never("Decode"); return nil }

type StdBytes []byte

func (StdBytes) MarshalBinary() ([]byte, error) { never("MarshalBinary"); return nil, nil }
func (*StdBytes) UnmarshalBinary([]byte) error  { never("UnmarshalBinary"); return nil }
func (StdBytes) MarshalText() ([]byte, error)   { never("MarshalText"); return nil, nil }
func (*StdBytes) UnmarshalText([]byte) error    { never("UnmarshalText"); return nil }
func (StdBytes) Len() int                       { never("Len"); return 0 }
func (StdBytes) Swap(i, j int)                  { never("Swap") }
func (StdBytes) Less(i, j int) bool             { never("Less"); return false }

type StdArr [3]uint16

func (StdArr) MarshalBinary() ([]byte, error) { never("MarshalBinary"); return nil, nil }
func (*StdArr) UnmarshalBinary([]byte) error  { never("UnmarshalBinary"); return nil }
func (StdArr) MarshalText() ([]byte, error)   { never("MarshalText"); return nil, nil }

type StdMap map[StdStr]StdNum

func (StdMap) MarshalBinary() ([]byte, error) { never("MarshalBinary"); return nil, nil }
func (*StdMap) UnmarshalBinary([]byte) error  { never("UnmarshalBinary"); return nil }
func (StdMap) Len() int                       { never("Len"); return 0 }
func (StdMap) Keys() []string                 { never("Keys"); return nil }

// Box is generic.
type Box[T any] struct {
	V T
	L []T
	P *T    `bin:"optional"`
	N uint8 `bin:"sizeof=C"`
	C []T
}

type Pair[K comparable, V any] struct {
	K K `bin:"big"`
	V map[K]V
}

func initStd() {
	tm.RegisterNamedScalar(StdNum(0))
	tm.RegisterNamedScalar(StdStr(""))
	for _, x := range []interface{}{StdStruct{}, StdBytes(nil), StdArr{}, StdMap(nil), Box[uint16]{}, Box[string]{}, Box[StdStruct]{}, Box[Box[int8]]{}, Box[[2]int32]{}, Pair[uint32, string]{}, Pair[string, Box[bool]]{}} {
		tm.RegisterStatic(x)
		tm.Warm(reflect.TypeOf(x))
	}
}
