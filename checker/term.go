package main

// Hash-consed value terms.  Integers are kept as polynomials over Z/2^64 (so that arithmetic written in
// different ways gets the same normal form); narrower results are wrapped in a conversion atom.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KInt Kind = iota
	KBool
	KStr
	KNil
	KSym
	KOp
	KPoly
)

type Mono struct {
	C int64
	A []*Term // sorted by id; empty for the constant
}

type Term struct {
	ID   int
	K    Kind
	Op   string
	Args []*Term
	I    int64
	S    string
	T    types.Type
	X    any
	P    []Mono
}

var (
	internTab = map[string]*Term{}
	termCount int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := internTab[key]; ok {
		return t
	}
	t := mk()
	termCount++
	t.ID = termCount
	internTab[key] = t
	return t
}

var (
	tTrue  = intern("T", func() *Term { return &Term{K: KBool, I: 1} })
	tFalse = intern("F", func() *Term { return &Term{K: KBool, I: 0} })
	tNil   = intern("nil", func() *Term { return &Term{K: KNil} })
)

func Int(v int64) *Term {
	return intern("i"+strconv.FormatInt(v, 10), func() *Term { return &Term{K: KInt, I: v} })
}
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Str(s string) *Term {
	return intern("s"+s, func() *Term { return &Term{K: KStr, S: s} })
}

// Sym makes a fresh symbol.
func Sym(name string, T types.Type, x any) *Term {
	termCount++
	t := &Term{ID: termCount, K: KSym, Op: name, T: T, X: x}
	return t
}

// Op makes an interned operator application.  S distinguishes operators with parameters.
func Op(op, s string, T types.Type, args ...*Term) *Term {
	return OpX(op, s, T, nil, args...)
}

func OpX(op, s string, T types.Type, x any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString("o")
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	return intern(b.String(), func() *Term {
		return &Term{K: KOp, Op: op, S: s, T: T, X: x, Args: args}
	})
}

func (t *Term) isConst() bool { return t.K == KInt }
func (t *Term) isOp(op string) bool {
	return t != nil && t.K == KOp && t.Op == op
}

// ---- polynomials ----

func monoKey(a []*Term) string {
	var b strings.Builder
	for _, x := range a {
		b.WriteString(strconv.Itoa(x.ID))
		b.WriteByte('*')
	}
	return b.String()
}

func polyOf(t *Term) []Mono {
	switch t.K {
	case KInt:
		if t.I == 0 {
			return nil
		}
		return []Mono{{C: t.I}}
	case KPoly:
		return t.P
	}
	return []Mono{{C: 1, A: []*Term{t}}}
}

func mkPoly(ms []Mono) *Term {
	acc := map[string]*Mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m.A)
		if e, ok := acc[k]; ok {
			e.C += m.C
		} else {
			mm := m
			acc[k] = &mm
			keys = append(keys, k)
		}
	}
	var out []Mono
	for _, k := range keys {
		if acc[k].C != 0 {
			out = append(out, *acc[k])
		}
	}
	sort.Slice(out, func(i, j int) bool { return monoLess(out[i].A, out[j].A) })
	if len(out) == 0 {
		return Int(0)
	}
	if len(out) == 1 {
		if len(out[0].A) == 0 {
			return Int(out[0].C)
		}
		if out[0].C == 1 && len(out[0].A) == 1 {
			return out[0].A[0]
		}
	}
	var b strings.Builder
	b.WriteString("p")
	for _, m := range out {
		b.WriteString(strconv.FormatInt(m.C, 10))
		b.WriteByte(':')
		b.WriteString(monoKey(m.A))
		b.WriteByte(';')
	}
	return intern(b.String(), func() *Term { return &Term{K: KPoly, P: out} })
}

func monoLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].ID != b[i].ID {
			return a[i].ID < b[i].ID
		}
	}
	return false
}

func Add(a, b *Term) *Term {
	return mkPoly(append(append([]Mono{}, polyOf(a)...), polyOf(b)...))
}
func Scale(a *Term, c int64) *Term {
	var ms []Mono
	for _, m := range polyOf(a) {
		ms = append(ms, Mono{m.C * c, m.A})
	}
	return mkPoly(ms)
}
func Sub(a, b *Term) *Term { return Add(a, Scale(b, -1)) }
func Mul(a, b *Term) *Term {
	var ms []Mono
	for _, x := range polyOf(a) {
		for _, y := range polyOf(b) {
			at := append(append([]*Term{}, x.A...), y.A...)
			sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
			ms = append(ms, Mono{x.C * y.C, at})
		}
	}
	return mkPoly(ms)
}

// splitConst returns the polynomial without its constant, and the constant.
func splitConst(t *Term) (*Term, int64) {
	switch t.K {
	case KInt:
		return Int(0), t.I
	case KPoly:
		if len(t.P) > 0 && len(t.P[0].A) == 0 {
			return mkPoly(t.P[1:]), t.P[0].C
		}
	}
	return t, 0
}

func leadCoef(t *Term) int64 {
	switch t.K {
	case KInt:
		return t.I
	case KPoly:
		return t.P[len(t.P)-1].C
	}
	return 1
}

// ---- types and ranges ----

func under(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	return T.Underlying()
}

func basicOf(T types.Type) *types.Basic {
	if b, ok := under(T).(*types.Basic); ok {
		return b
	}
	return nil
}

func isInteger(T types.Type) bool {
	b := basicOf(T)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isFloat(T types.Type) bool {
	b := basicOf(T)
	return b != nil && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isString(T types.Type) bool {
	b := basicOf(T)
	return b != nil && b.Info()&types.IsString != 0
}
func isUnsigned(T types.Type) bool {
	b := basicOf(T)
	return b != nil && b.Info()&types.IsUnsigned != 0
}
func intWidth(T types.Type) int {
	b := basicOf(T)
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

const (
	minI = -1 << 63
	maxI = 1<<63 - 1
)

// typeRange is the range of a term's value known from its structure alone, in the signed 64-bit view.
func rangeOf(t *Term) (lo, hi int64) {
	switch t.K {
	case KInt:
		return t.I, t.I
	case KPoly:
		// only linear, small and safe combinations
		lo, hi = 0, 0
		for _, m := range t.P {
			var l, h int64
			switch len(m.A) {
			case 0:
				l, h = 1, 1
			case 1:
				l, h = rangeOf(m.A[0])
			default:
				l, h = 1, 1
				for _, a := range m.A {
					al, ah := rangeOf(a)
					if al < 0 || ah > 1<<31 || h > 1<<31 {
						return minI, maxI
					}
					l, h = 0, h*ah
				}
			}
			if m.C < 0 {
				l, h = h, l
			}
			cl, ok1 := mulSafe(m.C, l)
			ch, ok2 := mulSafe(m.C, h)
			if !ok1 {
				cl = minI
			}
			if !ok2 {
				ch = maxI
			}
			lo, hi = satAdd(lo, cl), satAdd(hi, ch)
			if m.C == 1 && len(m.A) == 1 && m.A[0].T != nil && false {
				_ = ok1
			}
		}
		if lo == minI && hi == maxI {
			return minI, maxI
		}
		return lo, hi
	case KOp:
		switch t.Op {
		case "len", "cap", "mlen":
			return 0, 1 << 48
		case "ivar":
			return 0, 1 << 56
		case "and":
			for _, a := range t.Args {
				if a.K == KInt && a.I >= 0 {
					return 0, a.I
				}
				if l, h := rangeOf(a); l >= 0 {
					return 0, h
				}
			}
		case "or", "xor":
			l1, h1 := rangeOf(t.Args[0])
			l2, h2 := rangeOf(t.Args[1])
			if l1 >= 0 && l2 >= 0 {
				return 0, roundUpMask(h1 | h2)
			}
		case "shr":
			if t.Args[1].K == KInt && t.Args[1].I > 0 && t.Args[1].I < 64 {
				_, h := rangeOf(t.Args[0])
				l, _ := rangeOf(t.Args[0])
				if l >= 0 {
					return 0, h >> uint(t.Args[1].I)
				}
				return 0, int64(^uint64(0) >> uint(t.Args[1].I))
			}
			l, h := rangeOf(t.Args[0])
			if l >= 0 {
				return 0, h
			}
			return minI, maxI
		case "urem":
			if t.Args[1].K == KInt && t.Args[1].I > 0 {
				return 0, t.Args[1].I - 1
			}
		case "udiv":
			l, h := rangeOf(t.Args[0])
			if l >= 0 {
				return 0, h
			}
		case "rem":
			l, _ := rangeOf(t.Args[0])
			if l >= 0 {
				l2, h2 := rangeOf(t.Args[1])
				if l2 > 0 {
					return 0, h2 - 1
				}
				return 0, maxI
			}
		case "div":
			l, h := rangeOf(t.Args[0])
			l2, _ := rangeOf(t.Args[1])
			if l >= 0 && l2 > 0 {
				return 0, h
			}
		}
	}
	if t.T != nil && isInteger(t.T) {
		w := intWidth(t.T)
		if w < 64 {
			if isUnsigned(t.T) {
				return 0, 1<<uint(w) - 1
			}
			return -1 << uint(w-1), 1<<uint(w-1) - 1
		}
	}
	return minI, maxI
}

func roundUpMask(v int64) int64 {
	m := int64(1)
	for m <= v && m > 0 {
		m <<= 1
	}
	if m <= 0 {
		return maxI
	}
	return m - 1
}

func mulSafe(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == minI) || (b == -1 && a == minI) {
		return 0, false
	}
	return c, true
}
func satAdd(a, b int64) int64 {
	if a == minI || b == minI {
		return minI
	}
	if a == maxI || b == maxI {
		return maxI
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return maxI
	}
	if a < 0 && b < 0 && c >= 0 {
		return minI
	}
	return c
}

func nonNeg(t *Term) bool {
	lo, _ := rangeOf(t)
	return lo >= 0
}

// Conv converts an integer term to type T (wrapping).
func Conv(t *Term, T types.Type) *Term {
	w := intWidth(T)
	if w == 64 {
		return t
	}
	if t.K == KInt {
		return Int(wrapInt(t.I, T))
	}
	lo, hi := rangeOf(t)
	tl, th := typeBounds(T)
	if lo >= tl && hi <= th {
		return t
	}
	// drop an inner conversion at least as wide
	t = stripConv(t, w)
	lo, hi = rangeOf(t)
	if lo >= tl && hi <= th {
		return t
	}
	name := fmt.Sprintf("u%d", w)
	if !isUnsigned(T) {
		name = fmt.Sprintf("s%d", w)
	}
	return Op("conv", name, T, t)
}

func typeBounds(T types.Type) (int64, int64) {
	w := intWidth(T)
	if w == 64 {
		return minI, maxI
	}
	if isUnsigned(T) {
		return 0, 1<<uint(w) - 1
	}
	return -1 << uint(w-1), 1<<uint(w-1) - 1
}

// stripConv removes conversion atoms of at least width w from a sum (they do not matter modulo 2^w).
func stripConv(t *Term, w int) *Term {
	switch t.K {
	case KOp:
		if t.Op == "conv" && convWidth(t) >= w {
			return stripConv(t.Args[0], w)
		}
	case KPoly:
		r := Int(0)
		for _, m := range t.P {
			x := Int(m.C)
			for _, a := range m.A {
				x = Mul(x, stripConv(a, w))
			}
			r = Add(r, x)
		}
		return r
	}
	return t
}

func convWidth(t *Term) int {
	n, _ := strconv.Atoi(t.S[1:])
	return n
}

func wrapInt(v int64, T types.Type) int64 {
	w := intWidth(T)
	switch {
	case w == 64:
		return v
	case isUnsigned(T):
		return v & (1<<uint(w) - 1)
	default:
		s := uint(64 - w)
		return v << s >> s
	}
}

// ---- booleans ----

func Not(b *Term) *Term {
	switch {
	case b == tTrue:
		return tFalse
	case b == tFalse:
		return tTrue
	case b.isOp("not"):
		return b.Args[0]
	}
	return Op("not", "", nil, b)
}

func isIntTerm(t *Term) bool {
	if t.K == KInt || t.K == KPoly {
		return true
	}
	if t.T != nil {
		return isInteger(t.T)
	}
	switch t.Op {
	case "len", "cap", "mlen", "ivar", "and", "or", "xor", "shr", "sar", "shl", "div", "rem", "udiv", "urem", "conv":
		return t.K == KOp
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isIntTerm(a) && isIntTerm(b) {
		d := Sub(a, b)
		q, c := splitConst(d)
		if q.K == KInt {
			return Bool(c == 0)
		}
		if leadCoef(q) < 0 {
			q, c = Scale(q, -1), -c
		}
		lo, hi := rangeOf(q)
		if -c < lo || -c > hi {
			return tFalse
		}
		return Op("eq", "", nil, q, Int(-c))
	}
	if a.K == KBool {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return Not(a)
	}
	if a.isOp("not") && b.isOp("not") {
		return Eq(a.Args[0], b.Args[0])
	}
	if a.isOp("not") {
		return Not(Eq(a.Args[0], b))
	}
	if b.isOp("not") {
		return Not(Eq(a, b.Args[0]))
	}
	if a.K == KStr && b.K == KStr {
		return tFalse
	}
	// known non-nil values
	if (a == tNil && definitelyNonNil(b)) || (b == tNil && definitelyNonNil(a)) {
		return tFalse
	}
	if isObj(a) && isObj(b) {
		return tFalse
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return Op("eq", "", nil, a, b)
}

// boolOp: t is the result of a comparison.
func boolOp(t *Term) bool { return t.isOp("eq") || t.isOp("lt") || t.isOp("ult") || t.isOp("not") }

func isObj(t *Term) bool { return t.isOp("obj") || t.isOp("glob") }

func definitelyNonNil(t *Term) bool {
	if t.K != KOp {
		return false
	}
	switch t.Op {
	case "obj", "glob", "closure", "func", "iface", "fld", "idx":
		return true
	case "slice":
		return isObj(t.Args[0])
	case "app":
		return len(t.Args) > 1
	}
	return false
}

// Lt is the integer comparison a<b; unsigned selects the unsigned order.
func Lt(a, b *Term, unsigned bool) *Term {
	if unsigned && !(nonNeg(a) && nonNeg(b)) {
		if a.K == KInt && b.K == KInt {
			return Bool(uint64(a.I) < uint64(b.I))
		}
		if a == b {
			return tFalse
		}
		if b.K == KInt {
			if b.I == 0 {
				return tFalse
			}
			if b.I == 1 {
				return Eq(a, Int(0))
			}
			return Op("ult", "", nil, a, b)
		}
		if a.K == KInt { // c < b  ==  !(b < c+1)
			if a.I == -1 {
				return tFalse
			}
			return Not(Lt(b, Int(a.I+1), true))
		}
		return Op("ult", "", nil, a, b)
	}
	d := Sub(a, b)
	q, c := splitConst(d)
	if q.K == KInt {
		return Bool(c < 0)
	}
	neg := false
	n := -c // q < n
	if leadCoef(q) < 0 {
		q = Scale(q, -1)
		n = c + 1 // q > c  ==  !(q < c+1)
		neg = true
	}
	lo, hi := rangeOf(q)
	var r *Term
	switch {
	case hi < n:
		r = tTrue
	case lo >= n:
		r = tFalse
	case lo == n-1: // q<n  iff q==lo
		r = Eq(q, Int(lo))
	case hi == n: // q<n iff q != hi
		r = Not(Eq(q, Int(hi)))
	default:
		r = Op("lt", "", nil, q, Int(n))
	}
	if neg {
		return Not(r)
	}
	return r
}

func Le(a, b *Term, unsigned bool) *Term { return Not(Lt(b, a, unsigned)) }

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	switch t.K {
	case KInt:
		return strconv.FormatInt(t.I, 10)
	case KBool:
		if t == tTrue {
			return "true"
		}
		return "false"
	case KStr:
		return strconv.Quote(t.S)
	case KNil:
		return "nil"
	case KSym:
		return fmt.Sprintf("%s#%d", t.Op, t.ID)
	case KPoly:
		var ps []string
		for _, m := range t.P {
			s := ""
			if m.C != 1 || len(m.A) == 0 {
				s = strconv.FormatInt(m.C, 10)
			}
			for _, a := range m.A {
				if s != "" {
					s += "*"
				}
				s += a.str(d + 1)
			}
			ps = append(ps, s)
		}
		return "(" + strings.Join(ps, " + ") + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	n := t.Op
	if t.S != "" {
		n += ":" + t.S
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	return t.any(func(y *Term) bool { return y == x })
}

// any walks the term (memoised) and reports whether f holds somewhere.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		for _, m := range t.P {
			for _, a := range m.A {
				if w(a) {
					return true
				}
			}
		}
		return false
	}
	return w(t)
}

// rewrite rebuilds t bottom-up with f applied to every node (f returns nil to keep).
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var w func(*Term) *Term
	w = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.K == KPoly {
			acc := Int(0)
			for _, m := range t.P {
				x := Int(m.C)
				for _, a := range m.A {
					x = Mul(x, w(a))
				}
				acc = Add(acc, x)
			}
			r = acc
		} else if t.K == KOp && len(t.Args) > 0 {
			changed := false
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = w(a)
				if as[i] != a {
					changed = true
				}
			}
			if changed {
				r = rebuild(t, as)
			}
		}
		if n := f(r); n != nil {
			r = n
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func subst(t, from, to *Term) *Term {
	if to != from && to.contains(from) { // the result of a replacement is not replaced again
		tmp := Sym("subst", from.T, nil)
		return subst(subst(t, from, tmp), tmp, to)
	}
	return rewrite(t, func(x *Term) *Term {
		if x == from {
			return to
		}
		return nil
	})
}

// rebuild re-applies an operator to new arguments, re-normalising.
func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(as[0])
	case "eq":
		return Eq(as[0], as[1])
	case "lt":
		return Lt(as[0], as[1], false)
	case "ult":
		return Lt(as[0], as[1], true)
	case "conv":
		return Conv(as[0], t.T)
	case "len":
		return Len(as[0])
	case "and", "or", "xor", "andnot", "shl", "shr", "sar", "div", "rem", "udiv", "urem":
		return bitOp(t.Op, as[0], as[1], t.T)
	case "select":
		return Select(as[0], as[1], t.T)
	}
	return OpX(t.Op, t.S, t.T, t.X, as...)
}
