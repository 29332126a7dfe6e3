package main

// Bit provenance: what each bit of a 64-bit term is in terms of the bits of opaque values - a constant, an
// exclusive-or of source bits, or unknown.  Facts of the path (v < 2^k, byte >= 0x80, ...) fix known bits.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type src struct {
	t *Term
	i int
}

// bv is one bit: top, or c xor (xor of srcs).
type bv struct {
	top bool
	c   bool
	s   []src
}

type bitvec [64]bv

var bTop = bv{top: true}
var b0 = bv{}
var b1 = bv{c: true}

func (b bv) isConst() bool { return !b.top && len(b.s) == 0 }

func (b bv) String() string {
	if b.top {
		return "?"
	}
	var p []string
	for _, s := range b.s {
		p = append(p, fmt.Sprintf("%v[%d]", s.t, s.i))
	}
	if b.c || len(p) == 0 {
		if b.c {
			p = append(p, "1")
		} else {
			p = append(p, "0")
		}
	}
	return strings.Join(p, "^")
}

func bvEq(a, b bv) bool {
	if a.top || b.top || a.c != b.c || len(a.s) != len(b.s) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	return true
}

func bvXor(a, b bv) bv {
	if a.top || b.top {
		return bTop
	}
	m := map[src]bool{}
	for _, s := range a.s {
		m[s] = true
	}
	for _, s := range b.s {
		if m[s] {
			delete(m, s)
		} else {
			m[s] = true
		}
	}
	r := bv{c: a.c != b.c}
	for s := range m {
		r.s = append(r.s, s)
	}
	sort.Slice(r.s, func(i, j int) bool {
		if r.s[i].t.ID != r.s[j].t.ID {
			return r.s[i].t.ID < r.s[j].t.ID
		}
		return r.s[i].i < r.s[j].i
	})
	return r
}

func bvNot(a bv) bv {
	if a.top {
		return a
	}
	a.c = !a.c
	return a
}

func bvAnd(a, b bv) bv {
	switch {
	case a.isConst() && !a.c, b.isConst() && !b.c:
		return b0
	case a.isConst():
		return b
	case b.isConst():
		return a
	case bvEq(a, b):
		return a
	case bvEq(a, bvNot(b)):
		return b0
	}
	return bTop
}

func bvOr(a, b bv) bv { return bvNot(bvAnd(bvNot(a), bvNot(b))) }

// bitFacts collects what a state says about the bits of opaque values.
type bitEval struct {
	st   *State
	memo map[*Term]bitvec
	lt   map[*Term]uint64 // v < n (unsigned), n may be 0 meaning 2^64
	ge   map[*Term]uint64 // v >= n
	bit  map[src]bool
}

func newBitEval(st *State) *bitEval {
	e := &bitEval{st: st, memo: map[*Term]bitvec{}, lt: map[*Term]uint64{}, ge: map[*Term]uint64{}, bit: map[src]bool{}}
	if st == nil {
		return e
	}
	for c, v := range st.lits {
		e.fact(c, v)
	}
	for q, v := range st.ivs {
		if q.K != KPoly {
			if v.lo >= 0 {
				e.atLeast(q, uint64(v.lo))
				if v.hi < maxI {
					e.below(q, uint64(v.hi)+1)
				}
			}
		}
	}
	return e
}

func (e *bitEval) below(t *Term, n uint64) {
	if t.isOp("shr") && t.Args[1].K == KInt {
		k := uint(t.Args[1].I)
		if bits.Len64(n)+int(k) <= 64 {
			e.below(t.Args[0], n<<k)
		}
		return
	}
	if o, ok := e.lt[t]; !ok || n < o {
		e.lt[t] = n
	}
}

func (e *bitEval) atLeast(t *Term, n uint64) {
	if t.isOp("shr") && t.Args[1].K == KInt {
		k := uint(t.Args[1].I)
		if bits.Len64(n)+int(k) <= 64 {
			e.atLeast(t.Args[0], n<<k)
		}
		return
	}
	if o, ok := e.ge[t]; !ok || n > o {
		e.ge[t] = n
	}
}

func (e *bitEval) fact(c *Term, v bool) {
	switch {
	case c.isOp("ult") && c.Args[1].K == KInt:
		if v {
			e.below(c.Args[0], uint64(c.Args[1].I))
		} else {
			e.atLeast(c.Args[0], uint64(c.Args[1].I))
		}
	case c.isOp("lt") && nonNeg(c.Args[0]) && c.Args[1].I >= 0:
		if v {
			e.below(c.Args[0], uint64(c.Args[1].I))
		} else {
			e.atLeast(c.Args[0], uint64(c.Args[1].I))
		}
	case c.isOp("eq") && c.Args[1].K == KInt && isIntTerm(c.Args[0]):
		a, n := c.Args[0], uint64(c.Args[1].I)
		if v && a.K != KPoly {
			e.atLeast(a, n)
			if n+1 != 0 {
				e.below(a, n+1)
			}
		}
		if !v && n == 0 {
			if a.isOp("and") && a.Args[1].K == KInt && isPow2(a.Args[1].I) {
				e.bit[src{a.Args[0], bits.TrailingZeros64(uint64(a.Args[1].I))}] = true
			} else if a.isOp("and") && a.Args[1].K == KInt && a.Args[1].I == minI {
				e.bit[src{a.Args[0], 63}] = true
			} else if a.K != KPoly {
				e.atLeast(a, 1)
			}
		}
		if a.isOp("and") && a.Args[1].K == KInt {
			m := uint64(a.Args[1].I)
			for i := 0; i < 64; i++ {
				if m>>uint(i)&1 == 1 && (v || m&(m-1) == 0) {
					e.bit[src{a.Args[0], i}] = (n>>uint(i)&1 == 1) == v
				}
			}
		}
	}
}

// atom gives the bits of an opaque value, using range and path facts.
func (e *bitEval) atom(t *Term) bitvec {
	var r bitvec
	lo, hi := rangeOf(t)
	var maxv uint64 = ^uint64(0)
	if lo >= 0 {
		maxv = uint64(hi)
	}
	if n, ok := e.lt[t]; ok && n != 0 && n-1 < maxv {
		maxv = n - 1
	}
	minv := e.ge[t]
	top := bits.Len64(maxv)
	for i := range r {
		if i >= top {
			r[i] = b0
		} else {
			r[i] = bv{s: []src{{t, i}}}
		}
		if v, ok := e.bit[src{t, i}]; ok {
			r[i] = bv{c: v}
		}
	}
	// common leading part of the bounds
	for i := top - 1; i >= 0; i-- {
		if maxv>>uint(i)&1 != minv>>uint(i)&1 {
			break
		}
		r[i] = bv{c: maxv>>uint(i)&1 == 1}
	}
	// sign extension of narrow signed values
	if lo < 0 && t.T != nil && isInteger(t.T) && !isUnsigned(t.T) {
		w := intWidth(t.T)
		if w < 64 {
			for i := w; i < 64; i++ {
				r[i] = r[w-1]
			}
		}
	}
	return r
}

func (e *bitEval) bits(t *Term) bitvec {
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.bits1(t)
	e.memo[t] = r
	return r
}

func constBits(v uint64) (r bitvec) {
	for i := range r {
		r[i] = bv{c: v>>uint(i)&1 == 1}
	}
	return
}

func allTop() (r bitvec) {
	for i := range r {
		r[i] = bTop
	}
	return
}

func (a bitvec) shl(n int) (r bitvec) {
	for i := range r {
		if i >= n {
			r[i] = a[i-n]
		}
	}
	return
}

func (a bitvec) isConst() (uint64, bool) {
	v := uint64(0)
	for i := range a {
		if !a[i].isConst() {
			return 0, false
		}
		if a[i].c {
			v |= 1 << uint(i)
		}
	}
	return v, true
}

// add computes a+b bitwise with carry where that stays exact.
func addBits(a, b bitvec) (r bitvec) {
	carry := b0
	for i := range r {
		x, y := a[i], b[i]
		r[i] = bvXor(bvXor(x, y), carry)
		// majority
		zx, zy, zc := x.isConst() && !x.c, y.isConst() && !y.c, carry.isConst() && !carry.c
		switch {
		case zx && zy, zx && zc, zy && zc:
			carry = b0
		case zx:
			carry = bvAnd(y, carry)
		case zy:
			carry = bvAnd(x, carry)
		case zc:
			carry = bvAnd(x, y)
		case x.isConst() && y.isConst():
			carry = b1 // both 1
		case bvEq(x, y):
			carry = x
		case bvEq(x, carry):
			carry = x
		case bvEq(y, carry):
			carry = y
		case x.isConst(): // 1
			carry = bvOr(y, carry)
		case y.isConst():
			carry = bvOr(x, carry)
		case carry.isConst():
			carry = bvOr(x, y)
		default:
			carry = bTop
		}
	}
	return
}

func negBits(a bitvec) bitvec {
	for i := range a {
		a[i] = bvNot(a[i])
	}
	return addBits(a, constBits(1))
}

func (e *bitEval) bits1(t *Term) bitvec {
	switch t.K {
	case KInt:
		return constBits(uint64(t.I))
	case KPoly:
		// split every summand into its known-constant bits and the rest, so that constants cancel first
		cst := uint64(0)
		var parts []bitvec
		for _, m := range t.P {
			if len(m.A) == 0 {
				cst += uint64(m.C)
				continue
			}
			if len(m.A) > 1 {
				// power-of-two factors only
				return allTop()
			}
			b := e.bits(m.A[0])
			k := uint64(0)
			for i := range b {
				if b[i].isConst() && b[i].c {
					k |= 1 << uint(i)
					b[i] = b0
				}
			}
			cst += k * uint64(m.C)
			c := uint64(m.C)
			neg := false
			if m.C < 0 && m.C != minI && bits.OnesCount64(uint64(-m.C)) == 1 {
				neg, c = true, uint64(-m.C)
			}
			for i := 0; i < 64; i++ {
				if c>>uint(i)&1 == 1 {
					s := b.shl(i)
					if neg {
						s = negBits(s)
					}
					parts = append(parts, s)
				}
			}
		}
		r := constBits(0)
		for _, p := range parts {
			r = addBits(r, p)
		}
		return addBits(r, constBits(cst))
	case KOp:
		switch t.Op {
		case "and", "or", "xor", "andnot":
			a, b := e.bits(t.Args[0]), e.bits(t.Args[1])
			var r bitvec
			for i := range r {
				switch t.Op {
				case "and":
					r[i] = bvAnd(a[i], b[i])
				case "or":
					r[i] = bvOr(a[i], b[i])
				case "xor":
					r[i] = bvXor(a[i], b[i])
				case "andnot":
					r[i] = bvAnd(a[i], bvNot(b[i]))
				}
				if v, ok := e.bit[src{t, i}]; ok {
					r[i] = bv{c: v}
				}
			}
			return r
		case "shl", "shr", "sar":
			if t.Args[1].K != KInt {
				break
			}
			n := int(t.Args[1].I)
			if n < 0 || n > 64 {
				n = 64
			}
			a := e.bits(t.Args[0])
			if t.Op == "shl" {
				return a.shl(n)
			}
			var r bitvec
			for i := range r {
				switch {
				case i+n < 64:
					r[i] = a[i+n]
				case t.Op == "sar":
					r[i] = a[63]
				}
			}
			return r
		case "ite":
			c := e.condBit(t.Args[0])
			x, y := e.bits(t.Args[1]), e.bits(t.Args[2])
			var r bitvec
			for i := range r {
				switch {
				case bvEq(x[i], y[i]):
					r[i] = x[i]
				case c.isConst() && c.c:
					r[i] = x[i]
				case c.isConst():
					r[i] = y[i]
				case bvEq(x[i], bvNot(y[i])):
					r[i] = bvXor(y[i], c)
				default:
					r[i] = bvOr(bvAnd(x[i], c), bvAnd(y[i], bvNot(c)))
				}
			}
			return r
		case "morton":
			a, b := e.bits(t.Args[0]), e.bits(t.Args[1])
			var r bitvec
			for i := 0; i < 32; i++ {
				r[2*i], r[2*i+1] = a[i], b[i]
			}
			return r
		case "select":
			if r, ok := e.table(t); ok {
				return r
			}
		case "conv":
			a := e.bits(t.Args[0])
			w := convWidth(t)
			for i := w; i < 64; i++ {
				if t.S[0] == 's' {
					a[i] = a[w-1]
				} else {
					a[i] = b0
				}
			}
			return a
		}
	}
	return e.atom(t)
}

// field is the expectation "bits [lo,lo+n) of t", as single source bits.
func srcBit(t *Term, i int) bv { return bv{s: []src{{t, i}}} }

// condBit is a condition as a bit.
func (e *bitEval) condBit(c *Term) bv {
	switch {
	case c == tTrue:
		return b1
	case c == tFalse:
		return b0
	case c.isOp("not"):
		return bvNot(e.condBit(c.Args[0]))
	case c.isOp("eq") && c.Args[1].K == KInt && isIntTerm(c.Args[0]):
		a := e.bits(c.Args[0])
		n := uint64(c.Args[1].I)
		r := b1
		for i := range a {
			d := bvNot(bvXor(a[i], bv{c: n>>uint(i)&1 == 1})) // bit i agrees
			r = bvAnd(r, d)
		}
		return r
	case c.isOp("lt") && c.Args[1].I == 0:
		return e.bits(c.Args[0])[63]
	}
	return bTop
}

// table evaluates a lookup in a table of constants that is linear over exclusive-or.
func (e *bitEval) table(t *Term) (bitvec, bool) {
	vals := map[int64]uint64{}
	c := t.Args[0]
	for c.isOp("store") {
		if c.Args[1].K != KInt || c.Args[2].K != KInt {
			return bitvec{}, false
		}
		if _, ok := vals[c.Args[1].I]; !ok {
			vals[c.Args[1].I] = uint64(c.Args[2].I)
		}
		c = c.Args[0]
	}
	if len(vals) == 0 {
		return bitvec{}, false
	}
	zero := c.isOp("zeroc")
	get := func(i int64) (uint64, bool) {
		v, ok := vals[i]
		return v, ok || zero
	}
	ib := e.bits(t.Args[1])
	n := 0
	for i := range ib {
		if !(ib[i].isConst() && !ib[i].c) {
			n = i + 1
		}
	}
	if n > 16 {
		return bitvec{}, false
	}
	base, ok := get(0)
	if !ok {
		return bitvec{}, false
	}
	col := make([]uint64, n)
	for k := 0; k < n; k++ {
		v, ok := get(1 << uint(k))
		if !ok {
			return bitvec{}, false
		}
		col[k] = v ^ base
	}
	for i := int64(0); i < 1<<uint(n); i++ {
		v, ok := get(i)
		if !ok {
			return bitvec{}, false
		}
		w := base
		for k := 0; k < n; k++ {
			if i>>uint(k)&1 == 1 {
				w ^= col[k]
			}
		}
		if v != w {
			return bitvec{}, false
		}
	}
	r := constBits(base)
	for k := 0; k < n; k++ {
		for i := range r {
			if col[k]>>uint(i)&1 == 1 {
				r[i] = bvXor(r[i], ib[k])
			}
		}
	}
	return r, true
}

// decideBits settles comparisons from the known bits.
func decideBits(st *State, c *Term) (bool, bool) {
	e := newBitEval(st)
	switch {
	case (c.isOp("ult") || c.isOp("lt")) && c.Args[1].K == KInt:
		b := e.bits(c.Args[0])
		var lo, hi uint64
		for i := range b {
			if b[i].isConst() {
				if b[i].c {
					lo |= 1 << uint(i)
					hi |= 1 << uint(i)
				}
			} else {
				hi |= 1 << uint(i)
			}
		}
		n := uint64(c.Args[1].I)
		if c.Op == "lt" {
			if hi>>63 == 1 && lo>>63 == 0 {
				return false, false
			}
			if int64(hi) < int64(n) && int64(lo) < int64(n) {
				return true, true
			}
			if int64(lo) >= int64(n) && lo>>63 == hi>>63 {
				return true, false
			}
			return false, false
		}
		if hi < n {
			return true, true
		}
		if lo >= n {
			return true, false
		}
	case c.isOp("eq") && c.Args[1].K == KInt && isIntTerm(c.Args[0]):
		b := e.condBit(c)
		if b.isConst() {
			return true, b.c
		}
	}
	return false, false
}
