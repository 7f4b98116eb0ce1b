package st

import (
	bin "github.com/gagliardetto/binary"
)

// Types that only marshal themselves (M) or only unmarshal themselves (U), with
// the wire form and the call log of the L type of the same kind.

type MI8 int8

func (l MI8) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI8", uint32(l)), uint32(l), 8)
}

type UI8 int8

func (l *UI8) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI8")
	*l = UI8(int32(x))
	return err
}

type MI16 int16

func (l MI16) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI16", uint32(l)), uint32(l), 16)
}

type UI16 int16

func (l *UI16) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI16")
	*l = UI16(int32(x))
	return err
}

type MI32 int32

func (l MI32) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LInt", uint32(l)), uint32(l), 32)
}

type UI32 int32

func (l *UI32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LInt")
	*l = UI32(int32(x))
	return err
}

type MI64 int64

func (l MI64) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LI64", uint32(l)), uint32(l), 32)
}

type UI64 int64

func (l *UI64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LI64")
	*l = UI64(int32(x))
	return err
}

type MU8 uint8

func (l MU8) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU8", uint32(l)), uint32(l), 8)
}

type UU8 uint8

func (l *UU8) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU8")
	*l = UU8(x)
	return err
}

type MU16 uint16

func (l MU16) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU16", uint32(l)), uint32(l), 16)
}

type UU16 uint16

func (l *UU16) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU16")
	*l = UU16(x)
	return err
}

type MU32 uint32

func (l MU32) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU32", uint32(l)), uint32(l), 32)
}

type UU32 uint32

func (l *UU32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU32")
	*l = UU32(x)
	return err
}

type MU64 uint64

func (l MU64) MarshalWithEncoder(e *bin.Encoder) error {
	return lputN(e, lkey("LU64", uint32(l)), uint32(l), 32)
}

type UU64 uint64

func (l *UU64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := lget(d, "LU64")
	*l = UU64(x)
	return err
}
