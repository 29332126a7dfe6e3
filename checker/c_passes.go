package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "abstract interpretation with a first-index-reaching-the-target analysis: on every path of SubIndex and SubIndexWithScaledPass the part's start is the first entry at which a measure reaches the target of the pass, its end the first one at which the same measure reaches the target of the next pass, the target is total*pass/count, hence parts of consecutive passes meet, the first begins at the first entry and the last ends after the last one; the part's top is the id at its end; the pass loops of the commands ask for every pass once, in order; wherever a part is asked for, 0 <= its number < the number of parts is known", checkC15,
		"the number of passes is at least one", "the counts of the entries of a node index add up to the number of locations, every list of locations of a way index occupies at least one byte (C10 to C13)", "no overflow of total times passes")
}

func checkC15(c *Ctx) {
	for _, way := range []bool{false, true} {
		k := c.lookupKind("part", way)
		if k == nil {
			continue
		}
		made := 0
		for _, fn := range c.P.Funcs() {
			if !returnsPart(fn, k) {
				continue
			}
			made++
			c.Try("part", fn.Name(), fn, func() { c.part(fn, k) })
		}
		c.Want(made > 0, "part", k.name, k.fn, "no function makes a part of an index")
		// parts are made nowhere else
		for _, fn := range c.P.Funcs() {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if a, ok := ins.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), k.S) {
						c.Want(partMaker(c, fn, k), "maker", fn.Name(), ins.Pos(), "a part of an index is made outside the functions that were analysed")
					}
				}
			}
		}
	}
	loops := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("passes", k.Name, nil, "not decided: %s", k.Err)
			continue
		}
		c.Try("passes", k.Name, k.Main, func() { loops += c.passLoops(k) })
		c.eachState(k, func(e *Ev, st *State) {
			if e.Kind == "subindex" && len(e.Args) == 3 {
				n := normState(st)
				cur, cnt := stripConv(normOpts(e.Args[1]), 64), stripConv(normOpts(e.Args[2]), 64)
				uns := isUnsigned(e.Args[1].T)
				c.Want(uns || sureLe(n, tZero, cur), "asked", k.Name, e.Pos, "part %v is asked for, which may be negative", cur)
				c.Want(sureLt(n, cur, cnt) || countsUpTo(k, n, cur, cnt), "asked", k.Name, e.Pos, "part %v of %v is asked for, which may be beyond the last", cur, cnt)
			}
		})
	}
	c.Want(loops >= 2, "passes", "pass loops", nil, "%d commands with several passes found, 2 expected", loops)
	c.Min("asked", 4)
	c.Min("start", 2)
	c.Min("end", 2)
	c.Min("top", 2)
}

// countsUpTo: cur counts up from 0 in a loop that goes on only while cur is not cnt, and cnt is at least 1.
func countsUpTo(k *Command, n *State, cur, cnt *Term) bool {
	if !sureLe(n, Int(1), cnt) || !sure(n, Not(Eq(cur, cnt))) {
		return false
	}
	ok := false
	for _, o := range k.Outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Loop == nil || e.Loop.K != cur || len(e.Loop.Iters) == 0 {
				return
			}
			ok = true
			for _, it := range e.Loop.Iters {
				ok = ok && sure(normState(it.St), Not(Eq(cur, cnt)))
			}
		})
	}
	return ok
}

func returnsPart(fn *ssa.Function, k *lookupKind) bool {
	r := fn.Signature.Results()
	return fn.Parent() == nil && len(fn.Params) == 3 && r.Len() == 1 && types.Identical(r.At(0).Type(), types.NewPointer(k.S)) && fn.Signature.Recv() != nil && fn.Object() != nil && fn.Object().Exported()
}

// partMaker: fn is one of the functions analysed, or called by them only.
func partMaker(c *Ctx, fn *ssa.Function, k *lookupKind) bool {
	if returnsPart(fn, k) {
		return true
	}
	n := 0
	for _, g := range c.P.Funcs() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
					n++
					if !returnsPart(g, k) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// scan is a loop that looks for the first entry that fulfils a condition.
type scan struct {
	L    *LoopInfo
	i    *Term // the index tested
	c    *Term // the loop goes on while c == val
	val  bool
	sum  *LoopVar // a running total, if any
	note string
}

func (c *Ctx) part(fn *ssa.Function, k *lookupKind) {
	in := c.interp()
	in.KeepPaths = true
	viewHooks(in)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	cur, cnt := args[1], args[2]
	st := newState()
	st.assume(Le(tZero, cur, false), true)
	st.assume(Lt(tZero, cnt, false), true)
	n := 0
	for _, o := range c.run(in, fn, args, st) {
		if o.Kind != ORet {
			c.Bad("part", fn.Name(), o.Pos, "making a part of an index may fail")
			continue
		}
		n++
		get := func(i int) *Term {
			return o.St.load(FieldAddrT(o.Rets[0], i, k.S), under(k.S).(*types.Struct).Field(i).Type())
		}
		list, locs, top := get(k.elem), get(k.locs), get(k.top)
		c.onePart(fn.Name(), k, o, list, locs, top, cur, cnt, args[0])
	}
	c.Want(n > 0, "part", fn.Name(), fn, "no path makes a part")
}

func (c *Ctx) onePart(name string, k *lookupKind, o *Outcome, list, locs, top, cur, cnt, ix *Term) {
	st := o.St
	var scans []*scan
	arr, first := arrOf(list)
	if !arr.isOp("arr") {
		c.Bad("part", name, o.Pos, "not decided: the list that the part is taken from")
		return
	}
	all := arr.Args[0]
	total := Len(all) // number of entries
	for _, e := range st.ev.list() {
		if e.Loop != nil && len(e.Loop.Iters) > 0 {
			s := scanOf(e.Loop, total)
			if s == nil {
				c.Bad("part", name, e.Pos, "not decided: a loop that does not look for the first entry fulfilling a condition")
				return
			}
			scans = append(scans, s)
		}
	}
	if len(scans) == 0 || len(scans) > 2 {
		c.Bad("part", name, o.Pos, "not decided: %d searches for the ends of a part", len(scans))
		return
	}
	src := arr.any(func(x *Term) bool { return x == ix })
	c.Want(src, "part", name+" index", o.Pos, "the entries of the part are not those of the index")
	s1 := scans[0]
	c.Want(subst(s1.i, s1.L.K, tZero) == tZero, "start", name, o.Pos, "the search for the start begins at entry %v", subst(s1.i, s1.L.K, tZero))
	start := total
	if s1.found(st) {
		start = s1.i
	} else if !s1.exhausted(st, total) {
		c.Bad("start", name, o.Pos, "not decided: how the search for the start ends")
		return
	}
	c.Want(equal(st, first, start), "start", name, o.Pos, "the part starts at entry %v, not at the first one that reaches the target of the pass", first)
	end := total
	if len(scans) == 2 {
		s2 := scans[1]
		from := subst(s2.i, s2.L.K, tZero)
		c.Want(from == tZero || equal(st, from, start), "end", name, o.Pos, "the search for the end begins at entry %v, not at the start of the part", from)
		if s2.found(st) {
			end = s2.i
		} else if !s2.exhausted(st, total) {
			c.Bad("end", name, o.Pos, "not decided: how the search for the end ends")
			return
		}
		// the same condition, for the next pass
		if s1.sum != nil && s2.sum != nil {
			ok := s1.sum.Init == tZero && s2.sum.Init == s1.sum.Sym && from == s1.i || s1.sum.Init == tZero && s2.sum.Init == tZero && from == tZero
			c.Want(ok, "measure", name, o.Pos, "the running total does not continue from the start of the part")
		}
		same := false
		if s1.c != nil && s2.c != nil {
			t := below(s1.c, s1.val)
			t = subst(t, s1.L.K, s2.i)
			if s1.sum != nil && s2.sum != nil {
				t = subst(t, s1.sum.Sym, s2.sum.Sym)
			}
			t = subst(t, cur, Add(cur, Int(1)))
			same = t == below(s2.c, s2.val)
		}
		c.Want(same, "end", name+" target", o.Pos, "the end of a part (%v) is not determined like the start of the next one (%v)", s2.c, s1.c)
	} else {
		c.Want(s1.exhausted(st, total), "end", name, o.Pos, "no search for the end of the part")
	}
	c.Want(equal(st, Add(first, Len(list)), end), "end", name, o.Pos, "the part ends before entry %v, not before the first one that reaches the target of the next pass", Add(first, Len(list)))
	for j, s := range scans {
		c.target(name, k, s, j == 1, st, all, locs, cur, cnt, total)
	}
	// the top
	endT := Add(first, Len(list))
	switch {
	case sure(st, Eq(endT, tZero)):
		c.Want(equal(st, top, tZero), "top", name+" nothing yet", o.Pos, "the top of a part that ends before the first entry is %v: ids that later parts hold are not put off", top)
	default:
		c.Want(sureLt(st, tZero, endT), "top", name+" entry before the end", o.Pos, "the last id of the entry before the end is asked for even when the part ends before the first entry (an empty index)")
		e := st.elem(all, Add(endT, Int(-1)), k.elemT)
		c.Want(stripConv(top, 64) == stripConv(k.last(e), 64), "top", name, o.Pos, "the top of a part is %v, not the last id of the entry before its end", top)
	}
}

// scanOf: a loop over consecutive entries with one condition for going on.
func scanOf(L *LoopInfo, total *Term) *scan {
	s := &scan{L: L}
	if len(L.Iters) == 0 {
		return nil
	}
	uses := func(t *Term) bool {
		return t.any(func(x *Term) bool { return x == L.K || L.Vars[x] != nil })
	}
	for _, v := range L.Order {
		if v.Ind || v.Sym == nil {
			continue
		}
		if s.sum != nil {
			return nil
		}
		s.sum = v
	}
	common := map[*Term]bool{}
	for j, it := range L.Iters {
		for l, v := range it.St.lits {
			if !uses(l) {
				continue
			}
			if j == 0 {
				common[l] = v
			}
		}
		for l, v := range common {
			if w, ok := it.St.lits[l]; !ok || v != w {
				delete(common, l)
			}
		}
	}
	for l, v := range common {
		if i := headerIndex(l, v, L, total); i != nil && s.i == nil {
			s.i = i
			continue
		}
		if s.c != nil {
			return nil
		}
		s.c, s.val = l, v
	}
	if s.i == nil {
		return nil
	}
	return s
}

// headerIndex: l == v says index < total.
func headerIndex(l *Term, v bool, L *LoopInfo, total *Term) *Term {
	var i *Term
	switch q := below(l, v); {
	case q.isOp("ult") && stripConv(q.Args[1], 64) == total:
		i = q.Args[0]
	case isIntTerm(q):
		i = Add(q, total)
	default:
		return nil
	}
	if i.contains(total) || subst(i, L.K, Add(L.K, Int(1))) != Add(i, Int(1)) || i.any(func(x *Term) bool { return x.isOp("select") || x.isOp("shl") }) {
		return nil
	}
	return i
}

// below brings a fact into the form q < 0 (the result is q) or a < b, unsigned.
func below(l *Term, v bool) *Term {
	switch {
	case l.isOp("not"):
		return below(l.Args[0], !v)
	case l.isOp("lt") && v:
		return Sub(l.Args[0], l.Args[1])
	case l.isOp("lt"):
		return Sub(Add(l.Args[1], Int(-1)), l.Args[0])
	case l.isOp("ult") && v:
		return l
	}
	return Op("fact", "", nil, l, Bool(v))
}

func (s *scan) found(st *State) bool {
	if s.c == nil {
		return false
	}
	k, v := st.decide(s.c)
	return k && v != s.val
}

// exhausted: the search ended at the end of the list. It advances by one while it is below the end, so it is exactly there.
func (s *scan) exhausted(st *State, total *Term) bool {
	if !sure(st, Le(total, s.i, false)) {
		return false
	}
	st.assume(Eq(s.i, total), true)
	return true
}

// target: the search goes on while measure < total*pass/count.
func (c *Ctx) target(name string, k *lookupKind, s *scan, next bool, st *State, list, locs, cur, cnt, total *Term) {
	rule := "target"
	if s.c == nil {
		c.Bad(rule, name, s.L.Pos, "the search has no condition other than the end of the list")
		return
	}
	var m, t *Term
	switch q := below(s.c, s.val); {
	case q.isOp("ult"):
		m, t = q.Args[0], stripConv(q.Args[1], 64)
	case isIntTerm(q):
		for _, x := range polyOf(q) {
			if x.C == -1 && len(x.A) == 1 && x.A[0].contains(cur) {
				m, t = Add(q, x.A[0]), stripConv(x.A[0], 64)
			}
		}
	}
	if t == nil || !(t.isOp("div") || t.isOp("udiv") || t.isOp("quo")) || m.contains(cur) || m.contains(cnt) {
		c.Bad(rule, name, s.L.Pos, "the search does not stop at the first entry that reaches the target (it goes on while %v is %v)", s.c, s.val)
		return
	}
	pass := cur
	if next {
		pass = Add(cur, Int(1))
	}
	num := stripConv(t.Args[0], 64)
	whole := Sub(subst(num, cur, Int(1)), subst(num, cur, tZero))
	if !c.Want(stripConv(t.Args[1], 64) == cnt && num == Mul(whole, pass), rule, name, s.L.Pos, "the target of a pass is %v, not the total times the pass number divided by the number of passes", t) {
		return
	}
	e := st.elem(list, s.i, k.elemT)
	m = stripConv(m, 64)
	switch {
	case m == s.i && whole == total:
		c.Ok(rule, name+" entries", s.L.Pos, "")
	case s.sum != nil && !k.way:
		ok := m == s.sum.Sym && whole == Len(locs)
		for _, it := range s.L.Iters {
			ok = ok && it.Next[s.sum.Sym] == Add(s.sum.Sym, Add(Sub(k.last(e), k.first(e)), Int(1)))
		}
		c.Want(ok, rule, name+" locations", s.L.Pos, "the measure compared (%v of %v) is not the number of locations before the entry", m, whole)
	case k.way && s.sum == nil:
		off := stripConv(k.offset(e), 64)
		pos := m.isOp("shl") && stripConv(m.Args[0], 64) == off && !m.Args[1].contains(s.L.K)
		if !pos {
			if ms := polyOf(m); len(ms) == 1 && len(ms[0].A) == 2 {
				pos = ms[0].A[0] == off || ms[0].A[1] == off
			}
		}
		c.Want(pos && whole == Len(locs), rule, name+" bytes", s.L.Pos, "the measure compared (%v of %v) is not the position of the entry's locations", m, whole)
	default:
		c.Bad(rule, name, s.L.Pos, "not decided: what %v measures", m)
	}
}

// passLoops: a loop that asks for parts asks for part 0, 1, .. up to the number of passes.
func (c *Ctx) passLoops(k *Command) int {
	n := 0
	for _, o := range k.Outs {
		if o.Kind != ORet {
			continue
		}
		for _, e := range o.St.ev.list() {
			if e.Loop == nil {
				continue
			}
			asks := false
			eachEv([]*Ev{e}, func(x *Ev) { asks = asks || x.Kind == "subindex" })
			if !asks {
				continue
			}
			n = 1
			var count *Term
			L := e.Loop
			for _, it := range L.Iters {
				var l []*Ev
				for _, x := range it.St.ev.list() {
					if x.Kind == "subindex" {
						l = append(l, x)
					}
				}
				if !c.Want(len(l) == 1 && len(l[0].Args) == 3, "passes", k.Name, L.Pos, "a pass asks for %d parts", len(l)) {
					continue
				}
				x := l[0]
				c.Want(stripConv(x.Args[1], 64) == L.K, "passes", k.Name+" order", x.Pos, "the pass asks for part %v, not for the parts in order from the first", x.Args[1])
				if count == nil {
					count = x.Args[2]
				}
				c.Want(x.Args[2] == count && !x.Args[2].contains(L.K), "passes", k.Name+" count", x.Pos, "the number of passes differs between passes")
			}
			if count != nil {
				left := len(L.Exits) > 0
				for _, x := range L.Exits {
					left = left && (sure(x.St, Le(count, L.K, false)) || sure(x.St, Le(count, L.K, true)))
				}
				c.Want(left, "passes", k.Name+" all", L.Pos, "the loop over the passes may end before the last of %v passes", count)
			}
		}
	}
	return n
}
