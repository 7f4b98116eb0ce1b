package st

import (
	"reflect"

	bin "github.com/gagliardetto/binary"
)

// Alike returns types that print the same name and differ in tags, field types,
// order or methods of their parts.
func Alike() (out []reflect.Type) {
	add := func(x interface{}) { out = append(out, reflect.TypeOf(x)) }
	{
		type Rec struct {
			A uint32
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32 `bin:"big"`
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32
			B uint32 `bin:"big"`
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32 `bin:"optional"`
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32
			B uint32 `bin:"coption"`
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32 `bin:"sizeof=S"`
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32
			B uint32 `bin:"sizeof=S"`
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32 `bin:"-"`
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32
			B uint32
			S []uint16 `bin:"-"`
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint16
			B uint64
			S []uint8
		}
		add(Rec{})
	}
	{
		type Rec struct {
			S []uint16
			A uint32
			B uint32
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A uint32
			B uint32
			S []uint16 `bin:"binary_extension"`
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A bin.BorshEnum `borsh_enum:"true"`
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A bin.BorshEnum
			B uint32
			S []uint16
		}
		add(Rec{})
	}
	{
		type Rec struct {
			A LVal
			B uint32
			S []LInt
		}
		add(Rec{})
	}
	return
}
