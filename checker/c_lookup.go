package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "abstract interpretation of the two index searches with loop invariants found by a greatest fixpoint: every path of FindNode and FindLocations, for every position of the id relative to the entries, is shown to report absence only when no entry of the sorted part can contain the id (every entry is before a justified lower bound or at or after a justified upper bound) or the id is above the part's top, and to report a value only from the entry whose range contains the id and from the position of that id in it; no access is out of range and every iteration shrinks the interval", checkC14,
		"the entries of an index are in ascending order and disjoint (C10 to C12)", "a hint is not negative", "an int has 64 bits; no overflow of id plus count")
}

type lookupKind struct {
	name   string
	fn     *ssa.Function
	S      types.Type // the sub-index
	elem   int        // its member holding the entries
	elemT  types.Type
	uns    bool
	way    bool
	locs   int
	top    int
	first  func(e *Term) *Term
	last   func(e *Term) *Term
	offset func(e *Term) *Term
}

func checkC14(c *Ctx) {
	for _, way := range []bool{false, true} {
		k := c.lookupKind("lookup", way)
		if k == nil {
			continue
		}
		c.Try("lookup", k.name, k.fn, func() { c.lookup("lookup", k) })
		c.Try("callers", k.name, k.fn, func() { c.hints("hint", k) })
	}
	c.Min("lookup", 6)
	c.Min("absent", 2)
	c.Min("found", 3)
}

// accessor runs an exported method of an entry on a term.
func (c *Ctx) accessor(name string) func(e *Term) *Term {
	fn := c.P.Func(name)
	if fn == nil {
		return nil
	}
	memo := map[*Term]*Term{}
	return func(e *Term) *Term {
		if r := memo[e]; r != nil {
			return r
		}
		in := c.interp()
		for _, o := range c.run(in, fn, []*Term{e}, newState()) {
			if o.Kind == ORet && len(o.Rets) == 1 {
				memo[e] = stripConv(o.Rets[0], 64)
				return memo[e]
			}
		}
		panic(analysisError{"not decided: " + name})
	}
}

func (c *Ctx) lookupKind(rule string, way bool) *lookupKind {
	k := &lookupKind{way: way, elem: -1, locs: -1, top: -1}
	var sub, el string
	if way {
		k.name, sub, el = "FindLocations", "internal/wayindex.SubWayIndex", "internal/wayindex.WayIndexData"
		k.first = c.accessor(el + ".WayID")
		k.last = k.first
		k.offset = c.accessor(el + ".Offset")
	} else {
		k.name, sub, el = "FindNode", "internal/nodeindex.NodeSubIndex", "internal/nodeindex.IndexElement"
		k.uns = true
		k.first = c.accessor(el + ".FirstID")
		k.offset = c.accessor(el + ".Offset")
		if cnt := c.accessor(el + ".Count"); cnt != nil && k.first != nil {
			k.last = func(e *Term) *Term { return Add(Add(k.first(e), cnt(e)), Int(-1)) }
		}
	}
	k.fn = c.P.Func(sub + "." + k.name)
	S, E := c.P.Named(sub), c.P.Named(el)
	if k.fn == nil || S == nil || E == nil || k.first == nil || k.last == nil || k.offset == nil || len(k.fn.Params) != 3 || k.fn.Signature.Results().Len() != 3 {
		c.Bad(rule, k.name, nil, "the lookup or the accessors of its entries were not found")
		return nil
	}
	k.S, k.elemT = S, E
	s := under(S).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "Top" {
			k.top = i
		}
		if sl, ok := under(f.Type()).(*types.Slice); ok {
			switch {
			case types.Identical(sl.Elem(), E):
				k.elem = i
			case way && intWidth(sl.Elem()) == 8, !way && intWidth(sl.Elem()) == 64:
				k.locs = i
			}
		}
	}
	if k.elem < 0 || k.locs < 0 || k.top < 0 {
		c.Bad(rule, k.name, nil, "the members of the part of an index were not found")
		return nil
	}
	return k
}

// searchHook: sort.Search(n, f) returns r with 0 <= r <= n, f(r-1) false if 0 < r, f(r) true if r < n.
func searchHook(in *Interp) {
	in.Hooks["sort.Search"] = func(in *Interp, c *CallCtx) []*Outcome {
		n, f := c.Args[0], c.Args[1]
		var out []*Outcome
		if !c.St.assume(Le(tZero, n, false), true) {
			return nil
		}
		test := func(st *State, at *Term, want bool) (l []*State) {
			cc := *c
			cc.St = st
			for _, o := range in.callTerm(&cc, f, []*Term{at}) {
				if o.Kind != ORet || len(o.Rets) != 1 {
					in.fail(c.Pos, "the test of a search does not return")
				}
				if o.St.assume(o.Rets[0], want) {
					l = append(l, o.St)
				}
			}
			return l
		}
		ret := func(l []*State, r *Term) {
			for _, st := range l {
				out = append(out, &Outcome{Kind: ORet, St: st, Rets: []*Term{r}})
			}
		}
		if a := c.St.clone(); a.assume(Eq(n, tZero), true) {
			ret([]*State{a}, tZero)
		}
		if !c.St.assume(Lt(tZero, n, false), true) {
			return out
		}
		ret(test(c.St.clone(), tZero, true), tZero)
		ret(test(c.St.clone(), Add(n, Int(-1)), false), n)
		r := in.fresh("found", tInt, nil)
		if a := c.St.clone(); a.assume(Lt(tZero, r, false), true) && a.assume(Lt(r, n, false), true) {
			for _, b := range test(a, Add(r, Int(-1)), false) {
				ret(test(b, r, true), r)
			}
		}
		return out
	}
}

// search is the analysis of one path.
type search struct {
	c        *Ctx
	k        *lookupKind
	id, hint *Term
	list     *Term // the entries
	n        *Term
	lower    map[*Term]map[int64]bool // loop variable v, offset d: every entry before v+d ends before the id
	upper    map[*Term]map[int64]bool // every entry from v+d on begins after the id
	nonneg   map[*Term]bool
	most     map[*Term]map[int64]bool // v+d <= number of entries
	loops    []*LoopInfo
}

// at: the positions of the entries mentioned by a term.
func (s *search) at(t *Term, add func(x, e *Term)) {
	arr, lo := arrOf(s.list)
	t.any(func(x *Term) bool {
		if x.isOp("select") && x.Args[0] == Op("cont0", "", nil, arr) {
			add(Sub(x.Args[1], lo), x)
		}
		return false
	})
}

func (s *search) entries(st *State, more ...*Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	add := func(x, e *Term) { r[x] = e }
	for l := range st.lits {
		s.at(l, add)
	}
	for _, t := range more {
		s.at(t, add)
	}
	return r
}

func sure(st *State, c *Term) bool {
	k, v := st.decide(c)
	return k && v
}

// lt, le compare ids.
func (s *search) before(st *State, a, b *Term) bool {
	return sure(st, Lt(a, b, s.k.uns)) || sure(st, Le(a, b, s.k.uns)) && sure(st, Not(Eq(a, b)))
}
func (s *search) notAfter(st *State, a, b *Term) bool {
	return sure(st, Le(a, b, s.k.uns)) || sure(st, Lt(a, b, s.k.uns)) || sure(st, Eq(a, b))
}

// contains: the entry contains the id on this path.
func (s *search) within(st *State, e *Term) bool {
	return s.notAfter(st, s.k.first(e), s.id) && s.notAfter(st, s.id, s.k.last(e))
}

// bounds: terms below which every entry ends before the id, and from which on every entry begins after it.
func (s *search) bounds(st *State, more ...*Term) (lo, hi []*Term) {
	lo, hi = []*Term{tZero}, []*Term{s.n}
	for x, e := range s.entries(st, more...) {
		if s.notAfter(st, s.k.first(e), s.id) {
			lo = append(lo, x)
		}
		if s.before(st, s.k.last(e), s.id) {
			lo = append(lo, Add(x, Int(1)))
		}
		if s.before(st, s.id, s.k.first(e)) {
			hi = append(hi, x)
		}
		if s.notAfter(st, s.id, s.k.last(e)) {
			hi = append(hi, Add(x, Int(1)))
		}
	}
	for v, ds := range s.lower {
		for d := range ds {
			lo = append(lo, Add(v, Int(d)))
		}
	}
	for v, ds := range s.upper {
		for d := range ds {
			hi = append(hi, Add(v, Int(d)))
		}
	}
	return lo, hi
}

// mid: t lies between a and b: a <= t <= b if a <= b, and t < b if a < b.
func midOf(t *Term) (a, b *Term) {
	half := func(x *Term) *Term {
		x = stripConv(x, 64)
		switch {
		case x.isOp("shr") && x.Args[1] == Int(1):
			return stripConv(x.Args[0], 64)
		case (x.isOp("quo") || x.isOp("div")) && x.Args[1] == Int(2):
			return stripConv(x.Args[0], 64)
		}
		return nil
	}
	t = stripConv(t, 64)
	if h := half(t); h != nil {
		if ms := polyOf(h); len(ms) == 2 && ms[0].C == 1 && ms[1].C == 1 && len(ms[0].A) == 1 && len(ms[1].A) == 1 {
			return ms[0].A[0], ms[1].A[0]
		}
		if ms := polyOf(h); len(ms) == 1 && ms[0].C == 1 && len(ms[0].A) == 1 {
			return tZero, h
		}
		return nil, nil
	}
	for _, m := range polyOf(t) {
		if m.C == 1 && len(m.A) == 1 {
			if h := half(m.A[0]); h != nil { // a + (b-a)/2
				a := Sub(t, m.A[0])
				return a, Add(a, h)
			}
		}
	}
	return nil, nil
}

// split orders the two ends of the middle by what is known.
func (s *search) split(st *State, t *Term) (a, b *Term, strict bool) {
	a, b = midOf(t)
	if a == nil {
		return nil, nil, false
	}
	for i := 0; i < 2; i++ {
		if sure(st, Lt(a, b, false)) {
			return a, b, true
		}
		if sure(st, Le(a, b, false)) {
			return a, b, false
		}
		a, b = b, a
	}
	return nil, nil, false
}

func (s *search) geZero(st *State, t *Term) bool {
	if t == s.hint || s.nonneg[t] || sure(st, Le(tZero, t, false)) || sure(st, Le(s.hint, t, false)) {
		return true
	}
	if a, _, _ := s.split(st, t); a != nil {
		return s.geZero(st, a)
	}
	if b, d := splitConst(t); d > 0 && b != t {
		return s.geZero(st, b)
	}
	return false
}

// atMost: t + d <= number of entries.
func (s *search) atMost(st *State, t *Term, d int64) bool {
	if sure(st, Le(Add(t, Int(d)), s.n, false)) {
		return true
	}
	if td := Add(t, Int(d-1)); sure(st, Not(Eq(td, s.n))) && d > -3 && s.atMost(st, t, d-1) {
		return true
	}
	for e := int64(0); e <= 1; e++ {
		if h := Add(s.hint, Int(e)); sure(st, Le(Add(t, Int(d)), h, false)) && sure(st, Le(h, s.n, false)) {
			return true
		}
	}
	b, e := splitConst(t)
	for x := range s.most[b] {
		if x >= d+e {
			return true
		}
	}
	if e != 0 && b != tZero {
		return s.atMost(st, b, d+e)
	}
	if _, b, strict := s.split(st, t); b != nil {
		if strict {
			return s.atMost(st, b, d-1)
		}
		return s.atMost(st, b, d)
	}
	return false
}

func (s *search) inRange(st *State, x *Term) bool { return s.geZero(st, x) && s.atMost(st, x, 1) }

// invariants computes the greatest set of bounds that all values of the loop variables justify.
func (s *search) invariants(o *Outcome) {
	s.lower, s.upper, s.most = map[*Term]map[int64]bool{}, map[*Term]map[int64]bool{}, map[*Term]map[int64]bool{}
	s.nonneg = map[*Term]bool{}
	type cand struct {
		role int
		set  map[*Term]map[int64]bool
		v    *LoopVar
		d    int64
	}
	var cs []cand
	for _, L := range s.loops {
		for _, v := range L.Order {
			if v.Sym == nil || v.Sym.T == nil || !isInteger(v.Sym.T) {
				continue
			}
			s.nonneg[v.Sym] = true
			for role, m := range []map[*Term]map[int64]bool{s.lower, s.upper, s.most} {
				m[v.Sym] = map[int64]bool{}
				for d := int64(-1); d <= 1; d++ {
					m[v.Sym][d] = true
					cs = append(cs, cand{role, m, v, d})
				}
			}
		}
	}
	values := func(v *LoopVar, ok func(t *Term, st *State) bool) bool {
		if !ok(v.Init, o.St) {
			return false
		}
		for _, it := range v.Loop.Iters {
			t := it.Next[v.Sym]
			if t == nil || t != v.Sym && !ok(t, it.St) {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for _, L := range s.loops {
			for _, v := range L.Order {
				if s.nonneg[v.Sym] && !values(v, func(t *Term, st *State) bool { return s.geZero(st, t) }) {
					delete(s.nonneg, v.Sym)
					changed = true
				}
			}
		}
		for _, k := range cs {
			if !k.set[k.v.Sym][k.d] {
				continue
			}
			good := values(k.v, func(t *Term, st *State) bool {
				switch k.role {
				case 2:
					return s.atMost(st, t, k.d)
				case 0:
					lo, _ := s.bounds(st, t)
					for _, b := range lo {
						if sure(st, Le(Add(t, Int(k.d)), b, false)) {
							return true
						}
					}
				default:
					_, hi := s.bounds(st, t)
					for _, b := range hi {
						if sure(st, Le(b, Add(t, Int(k.d)), false)) {
							return true
						}
					}
				}
				return false
			})
			if !good {
				delete(k.set[k.v.Sym], k.d)
				changed = true
			}
		}
	}
}

// lookupPaths runs a lookup and gives every path that returns to f.
func (c *Ctx) lookupPaths(rule string, k *lookupKind, in *Interp, f func(o *Outcome, s *search, locs, top *Term)) (recv *Term) {
	in.KeepPaths = true
	searchHook(in)
	if k.way {
		if dec := c.P.Func("internal/pb.DecodeS64PackedDeltaZero"); dec != nil {
			in.Hooks[fnName(dec)] = func(in *Interp, cc *CallCtx) []*Outcome {
				return retOne(cc.St, Op("dec", "zero", cc.Sig.Results().At(0).Type(), cc.Args[0]))
			}
		}
	}
	var args []*Term
	for _, p := range k.fn.Params {
		args = append(args, symArg(in, p))
	}
	st := newState()
	member := func(i int) *Term {
		return newState().load(FieldAddrT(args[0], i, k.S), under(k.S).(*types.Struct).Field(i).Type())
	}
	list, locs, top := member(k.elem), member(k.locs), member(k.top)
	st.assume(Le(tZero, args[2], false), true)
	n := 0
	for _, o := range c.run(in, k.fn, args, st) {
		if o.Kind != ORet {
			c.Bad(rule, k.name, o.Pos, "a lookup may fail instead of reporting whether the id is present")
			continue
		}
		n++
		c.Ok(rule, k.name, o.Pos, "path %d", n)
		s := &search{c: c, k: k, id: args[1], hint: args[2], list: list, n: Len(list)}
		for _, e := range o.St.ev.list() {
			if e.Loop != nil {
				s.loops = append(s.loops, e.Loop)
			}
		}
		f(o, s, locs, top)
	}
	c.Want(n > 0, rule, k.name, k.fn, "no path returns")
	return args[0]
}

func (c *Ctx) lookup(rule string, k *lookupKind) {
	c.lookupPaths(rule, k, c.interp(), func(o *Outcome, s *search, locs, top *Term) {
		s.invariants(o)
		s.path(o, locs, top)
	})
}

func (s *search) path(o *Outcome, locs, top *Term) {
	c, k, st := s.c, s.k, o.St
	val, hint, ok := o.Rets[0], o.Rets[1], o.Rets[2]
	name := k.name
	es := s.entries(st, val)
	var here []*Term // positions of entries that contain the id
	for x, e := range es {
		c.Want(s.inRange(st, x), "range", name, o.Pos, "entry %v is looked at, which is not shown to be one of the %v entries", x, s.n)
		if s.within(st, e) {
			here = append(here, x)
		}
	}
	for _, L := range s.loops {
		for _, it := range L.Iters {
			le := s.entries(it.St)
			own := false
			for x := range le {
				own = own || x.any(func(t *Term) bool { return t == L.K || L.Vars[t] != nil })
			}
			if !own {
				continue
			}
			for x := range le {
				c.Want(s.inRange(it.St, x), "range", name, loopPosOf(L), "entry %v is looked at, which is not shown to be one of the %v entries", x, s.n)
			}
			c.Want(s.shrinks(L, it), "progress", name, loopPosOf(L), "an iteration of the search does not shrink the interval searched")
		}
	}
	c.Want(hint == s.hint || es[hint] != nil, "hint", name, o.Pos, "the hint returned (%v) is neither the hint passed nor the position of an entry looked at", hint)
	stored := func(x *Term) *Term {
		return st.elem(locs, Sub(Add(k.offset(es[x]), s.id), k.first(es[x])), tI64)
	}
	if kn, v := st.decide(ok); kn && !v {
		if s.gone(st, top) {
			c.Ok("absent", name, o.Pos, "")
			return
		}
		for _, x := range here {
			if !k.way && sure(st, Eq(stored(x), tZero)) {
				c.Ok("absent", name+" without location", o.Pos, "")
				return
			}
		}
		if os.Getenv("OSMCHECK_DEBUG") != "" {
			lo, hi := s.bounds(st)
			fmt.Fprintln(os.Stderr, "ABSENT", lo, hi)
			for l, v := range st.lits {
				fmt.Fprintln(os.Stderr, "   ", l, v)
			}
		}
		c.Bad("absent", name, o.Pos, "an id is reported as absent although an entry that was not excluded may contain it")
		return
	}
	if len(here) == 0 {
		c.Bad("found", name, o.Pos, "a value is returned although no entry is known to contain the id")
		return
	}
	if k.way {
		c.Want(sure(st, ok), "found", name, o.Pos, "a way in the index is not reported as found")
		good := false
		for _, x := range here {
			if val.isOp("dec") {
				only, any := true, false
				s.at(val, func(y, e *Term) {
					any = true
					if y != x {
						only = false
					}
				})
				_, lo := arrOf(val.Args[0])
				la, _ := arrOf(locs)
				va, _ := arrOf(val.Args[0])
				if only && any && va == la && lo.contains(stripConv(k.offset(es[x]), 64)) {
					good = true
				}
			}
		}
		c.Want(good, "found", name+" locations", o.Pos, "the locations returned (%v) are not those of the entry that was found", val)
		return
	}
	good := false
	for _, x := range here {
		want := stored(x)
		if val == want || sure(st, Eq(val, want)) {
			// found means: the stored location is not zero
			zero := Eq(want, tZero)
			a, b := st.clone(), st.clone()
			okOK := true
			if a.assume(zero, true) {
				kn, v := a.decide(ok)
				okOK = okOK && kn && !v
			}
			if b.assume(zero, false) {
				kn, v := b.decide(ok)
				okOK = okOK && kn && v
			}
			c.Want(okOK, "found", name+" zero", o.Pos, "whether the node is present (%v) is not decided by its stored location being zero", ok)
			good = true
		}
	}
	c.Want(good, "found", name+" location", o.Pos, "the location returned (%v) is not the one stored for the id by the entry that contains it", val)
}

// gone: no entry of the part contains the id.
func (s *search) gone(st *State, top *Term) bool {
	if s.before(st, top, s.id) {
		return true
	}
	lo, hi := s.bounds(st)
	if s.k.way { // an entry holds one id only
		for x, e := range s.entries(st) {
			if !sure(st, Not(Eq(s.k.first(e), s.id))) {
				continue
			}
			for _, l := range lo {
				if sure(st, Eq(l, x)) {
					lo = append(lo, Add(x, Int(1)))
					break
				}
			}
		}
	}
	for _, l := range lo {
		for _, h := range hi {
			if h == l || sure(st, Le(h, l, false)) {
				return true
			}
		}
	}
	return false
}

// shrinks: upper bound minus lower bound becomes smaller in the iteration.
func (s *search) shrinks(L *LoopInfo, it *Iter) bool {
	if L.Trip != nil {
		return true
	}
	for v, ds := range s.lower {
		for w, us := range s.upper {
			if len(ds) == 0 || len(us) == 0 || it.Next[v] == nil || it.Next[w] == nil {
				continue
			}
			st := it.St.clone()
			for x := range s.entries(it.St, it.Next[v], it.Next[w]) {
				if a, b, strict := s.split(it.St, x); a != nil {
					st.assume(Le(a, x, false), true)
					if strict {
						st.assume(Lt(x, b, false), true)
					} else {
						st.assume(Le(x, b, false), true)
					}
				}
			}
			if sure(st, Lt(Sub(it.Next[w], it.Next[v]), Sub(w, v), false)) {
				return true
			}
		}
	}
	return false
}

func loopPosOf(L *LoopInfo) any { return L.Pos }

// hints: callers pass a hint that is not negative: a constant, or what the lookup returned.
func (c *Ctx) hints(rule string, k *lookupKind) {
	n := 0
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != k.fn {
					continue
				}
				n++
				c.Want(c.goodHint(call.Common().Args[2], k.fn, map[ssa.Value]bool{}), rule, fn.Name()+" calls "+k.name, ins.Pos(), "the hint passed may be negative")
			}
		}
	}
	c.Want(n > 0, rule, k.name+" callers", k.fn, "no caller found")
}

// goodHint: the value is never negative: a constant, a result of the lookup, or made of such values by
// choices, sums, local and captured variables, fields, parameters and results of functions of the repository.
func (c *Ctx) goodHint(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Int64() >= 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.goodHint(e, fn, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return c.goodHint(v.X, fn, seen)
	case *ssa.Extract:
		call, ok := v.Tuple.(*ssa.Call)
		return ok && c.goodResult(call, v.Index, fn, seen)
	case *ssa.Call:
		if builtinName(&v.Call) == "len" || builtinName(&v.Call) == "cap" {
			return true
		}
		return c.goodResult(v, 0, fn, seen)
	case *ssa.Parameter:
		args, ok := c.arguments(v)
		for _, a := range args {
			ok = ok && c.goodHint(a, fn, seen)
		}
		return ok
	case *ssa.UnOp: // a variable
		return v.Op == token.MUL && c.goodCell(v.X, fn, seen)
	}
	return false
}

// arguments given to a parameter by all callers of its function; false when some callers are not known.
func (c *Ctx) arguments(v *ssa.Parameter) ([]ssa.Value, bool) {
	t := c.threads()
	f := v.Parent()
	if t.valued[f] || t.roots[f] != "" || len(t.callers[f]) == 0 {
		return nil, false
	}
	var r []ssa.Value
	for i, p := range f.Params {
		for _, ci := range t.callers[f] {
			if p == v {
				if i >= len(ci.Common().Args) {
					return nil, false
				}
				r = append(r, ci.Common().Args[i])
			}
		}
	}
	return r, len(r) > 0
}

func (c *Ctx) goodResult(call *ssa.Call, i int, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	g := c.P.unbound(call.Call.StaticCallee())
	if g == nil {
		if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
			g, _ = mc.Fn.(*ssa.Function)
		}
	}
	if g == fn {
		return i == 1
	}
	if g == nil || !c.P.repo(g) || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !c.goodHint(r.Results[i], fn, seen) {
			return false
		}
	}
	return true
}

// goodCell: only good values are stored in the variable at the address.
func (c *Ctx) goodCell(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if key, T := fieldRef(v.X.Type(), v.Field); T != nil && strings.HasPrefix(key, modPath) {
			for _, f := range c.P.Funcs() {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if s, ok := ins.(*ssa.Store); ok {
							if types.Identical(deref(s.Addr.Type()), T) { // the whole structure
								if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
									continue
								}
								if u, ok := s.Val.(*ssa.UnOp); !ok || u.Op != token.MUL {
									return false
								}
							}
						}
						fa, ok := ins.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						if k, _ := fieldRef(fa.X.Type(), fa.Field); k == key && !c.goodStores(fa, fn, seen) {
							return false
						}
					}
				}
			}
			return true
		}
		return false
	case *ssa.FreeVar:
		f := v.Parent()
		for i, x := range f.FreeVars {
			if x != v || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && !c.goodCell(mc.Bindings[i], fn, seen) {
						return false
					}
				}
			}
		}
		return c.goodStores(v, fn, seen)
	case *ssa.Parameter:
		args, ok := c.arguments(v)
		for _, a := range args {
			ok = ok && c.goodCell(a, fn, seen)
		}
		return ok && c.goodStores(v, fn, seen)
	case *ssa.Alloc:
		return c.goodStores(v, fn, seen)
	}
	return false
}

func (c *Ctx) goodStores(a ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	seen[a] = true
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == a || !c.goodHint(r.Val, fn, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g, ok := r.Fn.(*ssa.Function)
			for i, x := range r.Bindings {
				if x == a && (!ok || i >= len(g.FreeVars) || !seen[g.FreeVars[i]] && !c.goodStores(g.FreeVars[i], fn, seen)) {
					return false
				}
			}
		case *ssa.Call:
			g := r.Call.StaticCallee()
			for i, x := range r.Call.Args {
				if x == a && (g == nil || !c.P.repo(g) || i >= len(g.Params) || !seen[g.Params[i]] && !c.goodStores(g.Params[i], fn, seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
