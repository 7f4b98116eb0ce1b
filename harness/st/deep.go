package st

import (
	bin "github.com/gagliardetto/binary"
)

// Types that nest without bound, each through another kind.

type NestSlice []NestSlice

type NestMap map[uint8]NestMap

type NestArr [1][]NestArr

type NestStructs []struct {
	In NestStructs
}

// NestEnum nests through a variant.
type NestEnum struct {
	Tag  bin.BorshEnum `borsh_enum:"true"`
	End  struct{}
	More struct{ N *NestEnum }
}

// NestSelf nests through its own unmarshaler.
type NestSelf struct{ Next *NestSelf }

func (n *NestSelf) UnmarshalWithDecoder(d *bin.Decoder) error {
	b, err := d.ReadByte()
	if err != nil || b == 0 {
		return err
	}
	n.Next = new(NestSelf)
	return d.Decode(n.Next)
}

// NestSelfSlice nests through an unmarshaler that hands over to the library.
type NestSelfSlice struct{ In []NestSelfSlice }

func (n *NestSelfSlice) UnmarshalWithDecoder(d *bin.Decoder) error {
	return d.Decode(&n.In)
}

// NestPtrs nests through optional pointers to pointers.
type NestPtrs struct {
	P **NestPtrs `bin:"optional"`
}

// NestForever has no end at all.
type NestForever struct{ P *NestForever }
