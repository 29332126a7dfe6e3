package main

// Summaries of the wire primitives, justified by C01/C02/C03/C40: decoders become functions of (buffer
// content, position), encoders append one symbolic item.

import (
	"go/types"
)

var tByte = types.Typ[types.Byte]
var tInt = types.Typ[types.Int]
var tU64 = types.Typ[types.Uint64]
var tI64 = types.Typ[types.Int64]
var tBytes = types.NewSlice(types.Typ[types.Byte])

const pbp = modPath + "/internal/pb."

// viItem is the varint encoding of v as a byte sequence.
func viItem(v *Term) *Term { return Op("vi", "", tBytes, v) }

func codecHooks(in *Interp, names ...string) {
	for _, n := range names {
		n := n
		switch n {
		case "EncodeVarInt":
			in.Hooks[pbp+n] = func(in *Interp, c *CallCtx) []*Outcome {
				return retOne(c.St, AppS(in.appBase(c.St, c.Args[0], tByte), viItem(c.Args[1])))
			}
		case "EncodeZigZag":
			in.Hooks[pbp+n] = func(in *Interp, c *CallCtx) []*Outcome {
				return retOne(c.St, zz(c.Args[0]))
			}
		case "DecodeZigZag":
			in.Hooks[pbp+n] = func(in *Interp, c *CallCtx) []*Outcome {
				return retOne(c.St, unzz(c.Args[0]))
			}
		case "DecodeVarInt":
			in.Hooks[pbp+n] = func(in *Interp, c *CallCtx) []*Outcome {
				buf, p := c.Args[0], c.Args[1]
				at := c.St.load(p, tInt)
				s := c.St.snap(buf, tByte)
				v := Op("dvi", "", tU64, s, at)
				c.St.store(p, Add(at, Op("vlen", "", tInt, s, at)), tInt)
				return retOne(c.St, v)
			}
		}
	}
}

func zz(x *Term) *Term {
	if x.isOp("unzz") {
		return x.Args[0]
	}
	return Op("zz", "", tU64, x)
}

func unzz(x *Term) *Term {
	if x.isOp("zz") {
		return x.Args[0]
	}
	return Op("unzz", "", tI64, x)
}
