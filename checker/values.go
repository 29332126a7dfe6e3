package main

// Term constructors for bit operations, sequences, memory contents and aggregates.

import (
	"fmt"
	"go/types"
	"math/bits"
)

func isPow2(v int64) bool { return v > 0 && v&(v-1) == 0 }

// bitOp builds a (canonicalised) bitwise or division operation on 64-bit views of the operands.
func bitOp(op string, a, b *Term, T types.Type) *Term {
	if a.K == KInt && b.K == KInt {
		x, y := a.I, b.I
		switch op {
		case "and":
			return Int(x & y)
		case "or":
			return Int(x | y)
		case "xor":
			return Int(x ^ y)
		case "andnot":
			return Int(x &^ y)
		case "shl":
			if uint64(y) >= 64 {
				return Int(0)
			}
			return Int(x << uint(y))
		case "shr":
			if uint64(y) >= 64 {
				return Int(0)
			}
			return Int(int64(uint64(x) >> uint(y)))
		case "sar":
			if uint64(y) >= 64 {
				y = 63
			}
			return Int(x >> uint(y))
		case "div":
			if y != 0 {
				return Int(x / y)
			}
		case "rem":
			if y != 0 {
				return Int(x % y)
			}
		case "udiv":
			if y != 0 {
				return Int(int64(uint64(x) / uint64(y)))
			}
		case "urem":
			if y != 0 {
				return Int(int64(uint64(x) % uint64(y)))
			}
		}
	}
	switch op {
	case "div":
		if nonNeg(a) && nonNeg(b) {
			op = "udiv"
		}
	case "rem":
		if nonNeg(a) && nonNeg(b) {
			op = "urem"
		}
	case "sar":
		if nonNeg(a) {
			op = "shr"
		}
	}
	if b.K == KInt {
		switch op {
		case "udiv":
			if b.I == 1 {
				return a
			}
			if isPow2(b.I) {
				return bitOp("shr", a, Int(int64(bits.TrailingZeros64(uint64(b.I)))), T)
			}
		case "urem":
			if isPow2(b.I) {
				return bitOp("and", a, Int(b.I-1), T)
			}
		case "shl":
			if uint64(b.I) < 64 {
				return Scale(a, int64(uint64(1)<<uint(b.I)))
			}
			return Int(0)
		case "shr", "sar":
			if b.I == 0 {
				return a
			}
			if a.isOp(op) && a.Args[1].K == KInt {
				return bitOp(op, a.Args[0], Int(a.Args[1].I+b.I), T)
			}
		case "andnot":
			return bitOp("and", a, Int(^b.I), T)
		}
	}
	if op == "div" && b.K == KInt && b.I == 1 {
		return a
	}
	switch op {
	case "and", "or", "xor":
		if a.K == KInt || (b.K != KInt && a.ID > b.ID) {
			a, b = b, a
		}
		if b.K == KInt {
			switch {
			case op == "and" && b.I == 0:
				return Int(0)
			case op == "and" && b.I == -1, op != "and" && b.I == 0:
				return a
			case op == "and":
				if a.isOp("and") && a.Args[1].K == KInt {
					return bitOp("and", a.Args[0], Int(a.Args[1].I&b.I), T)
				}
				lo, hi := rangeOf(a)
				if lo >= 0 && b.I == roundUpMask(b.I) && hi <= b.I {
					return a
				}
			case op == "or" && a.isOp("or") && a.Args[1].K == KInt:
				return bitOp("or", a.Args[0], Int(a.Args[1].I|b.I), T)
			}
		}
		if a == b {
			if op == "xor" {
				return Int(0)
			}
			return a
		}
	}
	return Op(op, "", T, a, b)
}

// ---- aggregates ----

func Struct(T types.Type, fs []*Term) *Term {
	// eta: struct(field0(x),field1(x),...) == x
	if len(fs) > 0 {
		var base *Term
		ok := true
		for i, f := range fs {
			if !f.isOp("field") || f.S != fmt.Sprint(i) {
				ok = false
				break
			}
			if base == nil {
				base = f.Args[0]
			} else if base != f.Args[0] {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return OpX("struct", types.TypeString(T, nil), T, nil, fs...)
}

func Field(x *Term, i int, T types.Type) *Term {
	if x.isOp("struct") && i < len(x.Args) {
		return x.Args[i]
	}
	return Op("field", fmt.Sprint(i), T, x)
}

func zeroOf(T types.Type) *Term {
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return Op("float", "0", T)
		}
		return tNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return Struct(T, fs)
	case *types.Array:
		return Op("zeroc", "", u.Elem())
	}
	return tNil
}

// ---- sequences ----
//
// slice values:  slice(arr, lo, len, cap)   window of an addressable array
//                app(s, e...)               s with elements appended
//                appS(s, t)                 s with all elements of t appended
//                seq(content, lo, len)      snapshot of a mutable window
//                anything else              opaque slice; backing array arr(s)

func Len(s *Term) *Term {
	switch {
	case s == tNil, s.isOp("empty"):
		return Int(0)
	case s.K == KStr:
		return Int(int64(len(s.S)))
	case s.isOp("slice"):
		return s.Args[2]
	case s.isOp("hdr"):
		return s.Args[1]
	case s.isOp("seq"):
		return s.Args[2]
	case s.isOp("app"):
		return Add(Len(s.Args[0]), Int(int64(len(s.Args)-1)))
	case s.isOp("appS"):
		return Add(Len(s.Args[0]), Len(s.Args[1]))
	case s.isOp("s2b"), s.isOp("b2s"):
		return Len(s.Args[0])
	case s.isOp("repeat"):
		return Mul(Len(s.Args[0]), s.Args[1])
	case s.isOp("strcat"):
		n := Int(0)
		for _, a := range s.Args {
			n = Add(n, Len(a))
		}
		return n
	}
	return Op("len", "", types.Typ[types.Int], s)
}

func App(s *Term, es ...*Term) *Term {
	if len(es) == 0 {
		return s
	}
	if s.isOp("app") {
		return Op("app", "", s.T, append(append([]*Term{}, s.Args...), es...)...)
	}
	return Op("app", "", s.T, append([]*Term{s}, es...)...)
}

func AppS(s, t *Term) *Term {
	if t == tNil || (t.K == KStr && t.S == "") {
		return s
	}
	if n := Len(t); n.K == KInt && n.I == 0 {
		return s
	}
	return Op("appS", "", s.T, s, t)
}

// arrOf is the address of the array behind a slice value, and the index of its first element.
func arrOf(s *Term) (arr, lo *Term) {
	if s.isOp("slice") {
		return s.Args[0], s.Args[1]
	}
	return Op("arr", "", nil, s), Int(0)
}

func SliceTerm(arr, lo, n, cp *Term, T types.Type) *Term {
	return Op("slice", "", T, arr, lo, n, cp)
}

// Select reads element i of an array content.
func Select(c, i *Term, T types.Type) *Term {
	for n := 0; n < 10000; n++ {
		switch {
		case c.isOp("store"):
			d := Sub(i, c.Args[1])
			if d.K == KInt {
				if d.I == 0 {
					return c.Args[2]
				}
				c = c.Args[0]
				continue
			}
		case c.isOp("zeroc"):
			return zeroOf(c.T)
		case c.isOp("struct"): // array literal (not used)
		case c.isOp("seqcont"):
			if e := elemOf(c.Args[0], i, T); e != nil {
				return e
			}
		case c.isOp("cont0"):
			// content of the array behind a value-semantics slice
			a := c.Args[0]
			if a.isOp("arr") {
				if e := elemOf(a.Args[0], i, T); e != nil {
					return e
				}
			}
		}
		break
	}
	return Op("select", "", T, c, i)
}

// elemOf resolves element i of a value-semantics sequence, or nil.
func elemOf(s, i *Term, T types.Type) *Term {
	for n := 0; n < 10000; n++ {
		switch {
		case s.isOp("app"):
			base := Len(s.Args[0])
			d := Sub(i, base)
			if d.K == KInt && d.I >= 0 && d.I < int64(len(s.Args)-1) {
				return s.Args[1+d.I]
			}
			if _, hi := rangeOf(d); hi < 0 {
				s = s.Args[0]
				continue
			}
			return nil
		case s.isOp("appS"):
			base := Len(s.Args[0])
			d := Sub(i, base)
			if lo, _ := rangeOf(d); lo >= 0 {
				return elemOf2(s.Args[1], d, T)
			}
			if _, hi := rangeOf(d); hi < 0 {
				s = s.Args[0]
				continue
			}
			return nil
		case s.isOp("seq"):
			return Select(s.Args[0], Add(s.Args[1], i), T)
		case s.isOp("slice"):
			return Select(Op("cont0", "", nil, s.Args[0]), Add(s.Args[1], i), T)
		}
		return nil
	}
	return nil
}

func elemOf2(s, i *Term, T types.Type) *Term {
	if e := elemOf(s, i, T); e != nil {
		return e
	}
	return Select(Op("cont0", "", nil, Op("arr", "", nil, s)), i, T)
}

func StoreC(c, i, v *Term) *Term {
	if c.isOp("store") && c.Args[1] == i {
		return Op("store", "", c.T, c.Args[0], i, v)
	}
	return Op("store", "", c.T, c, i, v)
}

// ---- addresses ----

func FieldAddrT(p *Term, i int, st types.Type) *Term {
	s := under(st).(*types.Struct)
	return OpX("fld", fmt.Sprint(i), s.Field(i).Type(), st, p)
}
func IndexAddrT(arr, i *Term, elem types.Type) *Term {
	return Op("idx", "", elem, arr, i)
}

func rootOf(addr *Term) *Term {
	for addr.isOp("fld") || addr.isOp("idx") {
		addr = addr.Args[0]
	}
	return addr
}
