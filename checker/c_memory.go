package main

// C55: a memory target limits what a pass has to hold.

import (
	"go/types"
	"math"
	"strings"
)

func init() {
	register("C55", "normalisation of the number of passes that every command with a memory target asks of its index, on every path of its main function, to one quotient of polynomials (nested divisions and added constants included): the divisor is the target and a constant, the dividend the number of locations and a rest, in the ratio of 8 bytes to one mebibyte; the rest makes the quotient at least the exact ratio rounded up, at least one, and at most one more; without a target the number is one; no product with the option's value can exceed 64 bits unless the value is known to be small enough; and the number of locations is the length of the list that a part of the index is given to look into", checkC55,
		"the index' number of locations times 8 fits 64 bits, as the file holds them", "a part holds at most its share of the entries (C15)")
}

func checkC55(c *Ctx) {
	k := &Ctx{P: c.P, ID: "C55", Tier: c.Tier, seen: map[string]bool{}, stats: map[string]int{}}
	checkC35(k)
	for _, o := range k.Obls {
		if o.Rule == "memory" {
			c.add(o)
		}
	}
	c.Min("memory", 2)
	c.Try("count", "LocationCount", nil, func() { c.locationCount("count") })
	c.Min("count", 1)
}

// locationCount: the count is the length of the list of locations that a part of the index looks into.
func (c *Ctx) locationCount(rule string) {
	fn, sub := c.need(rule, "internal/nodeindex.(*NodeIndex).LocationCount"), c.need(rule, "internal/nodeindex.(*NodeIndex).SubIndex")
	if fn == nil || sub == nil {
		return
	}
	in := c.interp()
	args := in.SymArgs(sub)
	var list *Term
	for _, o := range c.run(in, sub, args, newState()) {
		if o.Kind != ORet || len(o.Rets) != 1 {
			continue
		}
		T := elemType(sub.Signature.Results().At(0).Type())
		if T == nil {
			continue
		}
		S, ok := under(T).(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < S.NumFields(); i++ {
			sl, ok := under(S.Field(i).Type()).(*types.Slice)
			if !ok {
				continue
			}
			if b := basicOf(sl.Elem()); b == nil || b.Kind() != types.Int64 {
				continue
			}
			v := o.St.load(FieldAddrT(o.Rets[0], i, T), S.Field(i).Type())
			if !c.Want(list == nil || list == v, rule, "part", sub, "not decided: which list holds the locations (%v, %v)", list, v) {
				return
			}
			list = v
		}
	}
	if list == nil {
		c.Bad(rule, "part", sub, "not decided: which list holds the locations")
		return
	}
	for _, o := range c.run(in, fn, []*Term{args[0]}, newState()) {
		ok := o.Kind == ORet && len(o.Rets) == 1 && stripConv(o.Rets[0], 64) == Len(list)
		c.Want(ok, rule, "LocationCount", fn, "the number of locations is %v, not the length of the list that look-ups use", rets0(o))
	}
}

// quotient writes t, all of it unsigned, as one division of polynomials.
func quotient(t *Term, depth int) (num, den *Term, divs []*Term) {
	t = stripConv(t, 64)
	var u *Term
	for _, m := range polyOf(t) {
		if len(m.A) != 1 {
			continue
		}
		a := stripConv(m.A[0], 64)
		if !(a.isOp("udiv") || a.isOp("shr")) {
			continue
		}
		if m.C != 1 || u != nil || depth > 4 {
			return nil, nil, nil
		}
		u = m.A[0]
	}
	if u == nil {
		return t, Int(1), nil
	}
	rest := Sub(t, u)
	u = stripConv(u, 64)
	d := stripConv(u.Args[1], 64)
	if u.isOp("shr") {
		if d.K != KInt || d.I < 0 || d.I > 62 {
			return nil, nil, nil
		}
		d = Int(1 << uint(d.I))
	}
	n, inner, divs := quotient(u.Args[0], depth+1)
	if n == nil {
		return nil, nil, nil
	}
	den = Mul(inner, d)
	return Add(n, Mul(rest, den)), den, append(divs, d, u.Args[0], rest)
}

// isCountOf: t is the number of locations of an index.
func isCountOf(t *Term) bool { return strings.Contains(t.String(), ".LocationCount#") }

// notNegative: no term of t is negative.
func notNegative(t *Term) bool {
	for _, m := range polyOf(t) {
		if m.C < 0 {
			return false
		}
	}
	return true
}

// enough: n passes suffice for the index' locations, 8 bytes each, to fit into m megabytes at a time, and hardly more than suffice; the answer is what is wrong.
func enough(st *State, n, m *Term) string {
	num, den, divs := quotient(n, 0)
	if num == nil || divs == nil {
		return "the number of passes is not decided"
	}
	d := polyOf(den)
	if len(d) != 1 || len(d[0].A) != 1 || !d[0].A[0].isOp("load") || d[0].A[0].Args[0] != m {
		return "the size of the index is not divided by the memory given"
	}
	mem := d[0].A[0]
	// products that may not fit
	for _, x := range divs {
		for _, p := range polyOf(x) {
			for _, a := range p.A {
				if a == mem && p.C > 1 && !sure(st, Le(mem, Int(int64(math.MaxUint64/uint64(p.C))), true)) {
					return "the memory given, in bytes, may not fit 64 bits"
				}
			}
		}
	}
	var count *Term
	var c int64
	for _, p := range polyOf(num) {
		for _, a := range p.A {
			if a != mem {
				if count != nil && a != count || len(p.A) != 1 {
					return "the number of passes is not decided"
				}
				count, c = a, p.C
			}
		}
	}
	if count == nil || !isCountOf(count) {
		return "the number of passes does not depend on the number of locations alone"
	}
	if d[0].C%131072 != 0 || c != d[0].C/131072 {
		return "a location is not 8 bytes, or the memory given not in mebibytes"
	}
	rest := Sub(num, Scale(count, c))
	switch {
	case notNegative(Sub(rest, den)):
	case notNegative(Add(Sub(rest, den), Int(1))):
		if !sure(st, Not(Eq(count, tZero))) && !sure(st, Not(Eq(n, tZero))) {
			return "there is no pass for an index without locations"
		}
	default:
		return "the last, incomplete part of the index has no pass"
	}
	if notNegative(Sub(rest, Scale(den, 2))) {
		return "more passes than are needed"
	}
	return ""
}
