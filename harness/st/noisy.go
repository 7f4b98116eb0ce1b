package st

import (
	"errors"
	"fmt"
	"strconv"
	"time"

	"vmon/tm"
)

// Types with methods that say something about other notations. None of it
// concerns this one: the bytes follow from the kind alone.

type (
	LoudI64  int64
	LoudI32  int32
	LoudI8   int8
	LoudU64  uint64
	LoudU16  uint16
	LoudU8   uint8
	LoudF64  float64
	LoudBool bool
	LoudStr  string
	// RevI16 is ordered the other way by its own methods.
	RevI16  int16
	RevStr  string
	TextU32 uint32
)

func (x LoudI64) String() string  { return "n" + strconv.FormatInt(-int64(x), 10) }
func (x LoudI32) Error() string   { return fmt.Sprintf("%x", uint32(x)^0x55) }
func (x LoudI8) GoString() string { return "i8" }
func (x LoudU64) String() string  { return strconv.FormatUint(^uint64(x), 16) }
func (x LoudU16) MarshalText() ([]byte, error) {
	return []byte(strconv.Itoa(70000 - int(x))), nil
}
func (x *LoudU16) UnmarshalText(b []byte) error   { *x = 0xdead; return nil }
func (x LoudU8) MarshalJSON() ([]byte, error)     { return []byte(`"eight"`), nil }
func (x *LoudU8) UnmarshalJSON(b []byte) error    { return errors.New("no") }
func (x LoudF64) String() string                  { return "float" }
func (x LoudF64) MarshalBinary() ([]byte, error)  { return []byte("binary"), nil }
func (x *LoudF64) UnmarshalBinary(b []byte) error { *x = 4; return nil }
func (x LoudBool) String() string                 { return "maybe" }
func (x LoudStr) String() string                  { return "<" + string(x) + ">" }
func (x LoudStr) MarshalText() ([]byte, error)    { return nil, errors.New("no text") }
func (x LoudStr) MarshalBinary() ([]byte, error)  { return nil, errors.New("no binary") }
func (x LoudStr) Len() int                        { return 3 }
func (x RevI16) Less(o RevI16) bool               { return x > o }
func (x RevI16) Compare(o RevI16) int             { return int(o) - int(x) }
func (x RevI16) Cmp(o RevI16) int                 { return int(o) - int(x) }
func (x RevStr) Less(o RevStr) bool               { return x > o }
func (x RevStr) Compare(o RevStr) int             { return len(x) - len(o) }
func (x RevStr) Equal(o RevStr) bool              { return true }
func (x RevStr) IsZero() bool                     { return true }
func (x RevI16) IsZero() bool                     { return x != 0 }
func (x TextU32) IsZero() bool                    { return true }
func (x TextU32) Valid() bool                     { return false }
func (x TextU32) Size() int                       { return 2 }
func (x TextU32) GobEncode() ([]byte, error)      { return []byte("gob"), nil }

// LoudBytes, LoudList, LoudMap, LoudArr and LoudRec are the same for collections.
type (
	LoudBytes []byte
	LoudList  []LoudI64
	LoudMap   map[LoudI64]LoudStr
	LoudArr   [4]LoudU16
	LoudRec   struct {
		D  time.Duration
		L  LoudI64
		B  LoudBytes
		Ls LoudList
		A  LoudArr
		O  *LoudStr     `bin:"optional"`
		T  LoudF64      `bin:"big"`
		Z  RevI16       `bin:"optional"`
		W  time.Weekday `bin:"-"`
	}
	LoudKeys struct {
		D map[time.Duration]uint8
		I map[LoudI64]LoudI32
		U map[LoudU64]bool
		H map[LoudU16]LoudBool
		S map[LoudStr]RevStr
		R map[RevI16]uint16
		Q map[RevStr]LoudStr
		T map[TextU32]TextU32
		M LoudMap
	}
)

func (x LoudBytes) String() string                  { return "bytes" }
func (x LoudBytes) MarshalBinary() ([]byte, error)  { return []byte{1, 2, 3}, nil }
func (x *LoudBytes) UnmarshalBinary(b []byte) error { *x = []byte{9}; return nil }
func (x LoudBytes) MarshalText() ([]byte, error)    { return []byte("text"), nil }
func (x LoudList) Len() int                         { return 1 }
func (x LoudList) Less(i, j int) bool               { return x[i] > x[j] }
func (x LoudList) Swap(i, j int)                    { x[i], x[j] = x[j], x[i] }
func (x LoudMap) String() string                    { return "map" }
func (x LoudMap) Len() int                          { return 0 }
func (x LoudArr) String() string                    { return "array" }
func (x LoudArr) IsZero() bool                      { return true }
func (x LoudRec) String() string                    { return "record" }
func (x LoudRec) Error() string                     { return "record error" }
func (x LoudRec) MarshalBinary() ([]byte, error)    { return []byte("record"), nil }
func (x *LoudRec) UnmarshalBinary(b []byte) error   { return errors.New("no") }
func (x LoudRec) IsZero() bool                      { return true }
func (x LoudRec) Close() error                      { return errors.New("closed") }
func (x *LoudRec) Reset()                           { *x = LoudRec{} }
func (x *LoudRec) Validate() error                  { return errors.New("invalid") }

func init() {
	for _, x := range []interface{}{LoudI64(0), LoudI32(0), LoudI8(0), LoudU64(0), LoudU16(0), LoudU8(0), LoudF64(0), LoudBool(false), LoudStr(""), RevI16(0), RevStr(""), TextU32(0), time.Duration(0)} {
		tm.RegisterNamedScalar(x)
	}
	for _, x := range []interface{}{LoudBytes(nil), LoudList(nil), LoudMap(nil), LoudArr{}, LoudRec{}, LoudKeys{}} {
		tm.RegisterStatic(x)
	}
}
