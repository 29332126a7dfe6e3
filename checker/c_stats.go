package main

// C52: counting and timing lookups does not change them.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C52", "symbolic interpretation of the two index searches with every element access recorded, for an index that counts times and one that does not: on every path exactly one of the four counters of the index advances, by one and atomically, and it is the one that fits what is known about the id on that path; no path with or without a recorded time can fail; every element of the list of times that is used is shown to exist, and every loop that is not the search is shown to end; showing the statistics shows each counter under its name and every time that was counted", checkC52,
		"the search itself is decided in C14")
}

func checkC52(c *Ctx) {
	for _, way := range []bool{false, true} {
		k := c.lookupKind("counted", way)
		if k == nil {
			continue
		}
		c.Try("counted", k.name, k.fn, func() { c.lookupCounted(k) })
		dir := "internal/nodeindex.(*NodeIndex).PrintStats"
		if way {
			dir = "internal/wayindex.(*WayIndex).PrintStats"
		}
		if fn := c.need("shown", dir); fn != nil {
			c.Try("shown", k.name, fn, func() { c.statsShown(k, fn) })
		}
	}
	c.Min("counted", 8)
	c.Min("element", 2)
	c.Min("ends", 2)
	c.Min("made", 2)
	c.Min("shown", 10)
}

// counterFields: the members of an index that count lookups, by name.
func counterFields(s *types.Struct) map[int]string {
	r := map[int]string{}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "HitHint", "HitDefault", "MissDeferred", "MissDefault":
			r[i] = s.Field(i).Name()
		}
	}
	return r
}

func (c *Ctx) lookupCounted(k *lookupKind) {
	in := c.interp()
	in.TraceIdx = true
	var parent types.Type
	ks := under(k.S).(*types.Struct)
	pi := -1
	for i := 0; i < ks.NumFields(); i++ {
		if p, ok := under(ks.Field(i).Type()).(*types.Pointer); ok {
			if s, ok := under(p.Elem()).(*types.Struct); ok && len(counterFields(s)) == 4 {
				parent, pi = p.Elem(), i
			}
		}
	}
	if parent == nil {
		c.Bad("counted", k.name, k.fn, "the index that a part belongs to has no counters of lookups")
		return
	}
	fields := counterFields(under(parent).(*types.Struct))
	made := c.timesMade(k, parent)
	timed, untimed := 0, 0
	c.lookupPaths("lookup", k, in, func(o *Outcome, s *search, locs, top *Term) {
		st := o.St
		s.invariants(o)
		recv := s.recv(k)
		owner := newState().load(FieldAddrT(recv, pi, k.S), ks.Field(pi).Type())
		name := ""
		n := 0
		var elems []*Ev
		isTimed := false
		if made >= 0 {
			F := under(parent).(*types.Struct).Field(made)
			l := newState().load(FieldAddrT(owner, made, parent), F.Type())
			if kn, v := st.decide(Eq(l, tNil)); kn && !v {
				st.assume(Lt(tZero, Len(l), false), true)
			}
		}
		for _, e := range st.ev.list() {
			switch {
			case e.Kind == "atomic" && len(e.Args) > 1:
				a := e.Args[0]
				for i, nm := range fields {
					if a == FieldAddrT(owner, i, parent) || a.any(func(t *Term) bool { return t == FieldAddrT(owner, i, parent) }) {
						name = nm
						n++
						c.Want(strings.Contains(e.Name, "Add") && e.Args[1] == Int(1), "counted", k.name+" by one", e.Pos, "%s is not advanced by one", nm)
					}
				}
			case e.Kind == "index":
				if e.Args[0] != s.list && e.Args[0] != locs && !e.Args[0].contains(s.list) && !e.Args[0].contains(locs) {
					elems = append(elems, e)
				}
			case e.Kind == "call" && strings.Contains(e.Name, "gotsc"):
				isTimed = true
			}
			if e.Loop == nil {
				continue
			}
			for _, it := range e.Loop.Iters {
				eachEv(it.St.ev.list(), func(e2 *Ev) {
					if e2.Kind != "atomic" || len(e2.Args) == 0 {
						return
					}
					for i, nm := range fields {
						if e2.Args[0].contains(FieldAddrT(owner, i, parent)) {
							c.Bad("counted", k.name, e2.Pos, "%s is advanced in a loop", nm)
						}
					}
				})
				for _, e2 := range it.St.ev.list() {
					if e2.Kind == "index" && e2.Args[0] != s.list && e2.Args[0] != locs && !e2.Args[0].contains(s.list) && !e2.Args[0].contains(locs) {
						c.Want(inElems(it.St, e.Loop, e2), "element", k.name, e2.Pos, "element %v of a list of %v is used, which is not shown to exist", e2.Args[1], e2.Args[2])
					}
				}
			}
			own := false
			for _, it := range e.Loop.Iters {
				own = own || len(s.entries(it.St)) > 0 && s.looksAtOwn(it.St, e.Loop)
			}
			if !own && len(e.Loop.Iters) > 0 {
				c.Want(endsSurely(e.Loop), "ends", k.name, loopPosOf(e.Loop), "a loop besides the search is not shown to end, whatever times and factors it works with")
			}
		}
		if isTimed {
			timed++
		} else {
			untimed++
		}
		for _, e := range elems {
			c.Want(s.elemOK(st, e), "element", k.name, e.Pos, "element %v of a list of %v is used, which is not shown to exist", e.Args[1], e.Args[2])
		}
		if n != 1 {
			c.Bad("counted", k.name, o.Pos, "a lookup advances %d counters instead of one", n)
			return
		}
		here, atHint := false, false
		for x, e := range s.entries(st, o.Rets[0]) {
			if s.within(st, e) {
				here = true
				atHint = atHint || equal(st, x, s.hint)
			}
		}
		above := sureLt2(st, top, s.id, k.uns)
		ok := false
		switch name {
		case "HitHint":
			ok = atHint
		case "HitDefault":
			ok = here && !atHint
		case "MissDeferred":
			ok = above
		case "MissDefault":
			ok = sure(st, Not(Lt(top, s.id, k.uns))) && s.gone(st, top)
		}
		c.Want(ok, "counted", k.name+" "+name, o.Pos, "a lookup is counted as %s, which does not fit what it found", name)
	})
	c.Want(timed > 0 && untimed > 0, "counted", k.name+" timed", k.fn, "lookups are timed always or never")
}

// timesMade: an index has a list of times, which is not empty, exactly if a factor was given. The result is the
// member that holds the list, -1 if that does not hold.
func (c *Ctx) timesMade(k *lookupKind, parent types.Type) int {
	name := "internal/nodeindex.NewNodeIndex"
	if k.way {
		name = "internal/wayindex.NewWayIndex"
	}
	fn := c.need("made", name)
	if fn == nil {
		return -1
	}
	S := under(parent).(*types.Struct)
	list := -1
	for i := 0; i < S.NumFields(); i++ {
		if sl, ok := under(S.Field(i).Type()).(*types.Slice); ok && types.Identical(sl.Elem(), tU64) {
			list = i
		}
	}
	if list < 0 || len(fn.Params) != 2 {
		c.Bad("made", k.name, fn, "the times of lookups, or the factor for them, were not found")
		return -1
	}
	in := c.interp()
	as := in.SymArgs(fn)
	good, n := true, 0
	for _, o := range c.run(in, fn, as, newState()) {
		if o.Kind != ORet {
			continue
		}
		n++
		l := o.St.load(FieldAddrT(o.Rets[0], list, parent), S.Field(list).Type())
		kn, none := o.St.decide(Eq(as[1], tNil))
		ok := false
		switch {
		case kn && none:
			ok = l == tNil
		case kn:
			ok = l != tNil && sureLt(o.St, tZero, Len(l))
		}
		c.Want(ok, "made", k.name, o.Pos, "an index has times of lookups (%v) other than exactly if a factor is given, or a list without elements", l)
		good = good && ok
	}
	c.Want(n > 0, "made", k.name, fn, "no path makes an index")
	for _, f := range c.P.Funcs() {
		if f == fn || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if ok && a.Field == list && types.Identical(deref(a.X.Type()), parent) && !c.calledBy(fn, f, map[*ssa.Function]bool{}) {
					c.Bad("made", k.name, s, "the times of lookups of an index are replaced")
					good = false
				}
			}
		}
	}
	if !good || n == 0 {
		return -1
	}
	return list
}

// calledBy: f is called by fn, directly or not.
func (c *Ctx) calledBy(fn, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if cc, ok := ins.(ssa.CallInstruction); ok {
				if g := cc.Common().StaticCallee(); g != nil && c.P.repo(g) && (g == f || c.calledBy(g, f, seen)) {
					return true
				}
			}
		}
	}
	return false
}

func sureLt2(st *State, a, b *Term, uns bool) bool { return sure(st, Lt(a, b, uns)) }

// recv: the receiver of the lookup.
func (s *search) recv(k *lookupKind) *Term { return rootOf(s.list.Args[0]) }

func (s *search) looksAtOwn(st *State, L *LoopInfo) bool {
	for x := range s.entries(st) {
		if x.any(func(t *Term) bool { return t == L.K || L.Vars[t] != nil }) {
			return true
		}
	}
	return false
}

func inElems(st *State, L *LoopInfo, e *Ev) bool {
	i := e.Args[1]
	return sureLt(st, i, e.Args[2]) && (i == L.K || sureLe(st, tZero, i))
}

// elemOK: the element exists; a loop before it may have to run at least once for that.
func (s *search) elemOK(st *State, e *Ev) bool {
	i, n := e.Args[1], e.Args[2]
	var K *Term
	var L *LoopInfo
	for _, l := range s.loops {
		if i.contains(l.K) {
			K, L = l.K, l
		}
		for v := range l.Vars {
			if i.contains(v) {
				L = l
			}
		}
	}
	if L == nil {
		return sureLe(st, tZero, i) && sureLt(st, i, n)
	}
	// the state behind the loop when it has not run
	first := func(t *Term) *Term {
		if K != nil {
			t = subst(t, K, tZero)
		}
		for v, lv := range L.Vars {
			if lv.Init != nil {
				t = subst(t, v, lv.Init)
			}
		}
		return t
	}
	low := sureLe(st, tZero, i)
	if !low && K != nil {
		// i >= 0 once it has run, and it has run: not having run contradicts what is known
		st1 := st.clone()
		ran := st1.assume(Lt(tZero, K, false), true) && sureLe(st1, tZero, i)
		st0 := newState()
		not := false
		for l, v := range st.lits {
			if !st0.assume(first(l), v) {
				not = true
			}
		}
		low = ran && not
	}
	high := sureLt(st, i, n)
	if !high {
		// i < n after every iteration, and before the first
		high = true
		for _, it := range L.Iters {
			nx := i
			for v, t := range it.Next {
				nx = subst(nx, v, t)
			}
			if K != nil {
				nx = subst(nx, K, Add(K, Int(1)))
			}
			high = high && sureLt(stepped(L, it), nx, n)
		}
		st0 := st.clone()
		high = high && (sureLt(st0, first(i), n) || sureLe(st0, first(i), Int(-1)))
	}
	return low && high
}

// stepped: the facts of an iteration, and that something that starts at or below a bound, grows by one and
// never goes on at the bound is below it.
func stepped(L *LoopInfo, it *Iter) *State {
	st := it.St.clone()
	try := func(v, init *Term, grows func(it *Iter) bool) {
		for l, val := range it.St.lits {
			if !l.isOp("eq") || len(l.Args) != 2 || val {
				continue
			}
			for i := range l.Args {
				b := Add(v, Sub(l.Args[1-i], l.Args[i]))
				c := Sub(l.Args[i], v)
				if c.K != KInt {
					b = Add(v, Sub(l.Args[i], l.Args[1-i]))
				}
				if !L.stays(b) || L.Entry == nil || !sureLe(L.Entry, init, b) && !sureLe(it.St, init, b) {
					continue
				}
				ok := true
				for _, o := range L.Iters {
					kn, r := o.St.decide(l)
					ok = ok && kn && !r && grows(o)
				}
				if ok {
					st.assume(Lt(v, b, false), true)
				}
			}
		}
	}
	try(L.K, tZero, func(*Iter) bool { return true })
	for v, lv := range L.Vars {
		if lv.Init != nil {
			try(v, lv.Init, func(o *Iter) bool { return o.Next[v] == Add(v, Int(1)) })
		}
	}
	return st
}

// stays: the value does not change in the loop.
func (L *LoopInfo) stays(t *Term) bool {
	if t.contains(L.K) {
		return false
	}
	for v := range L.Vars {
		if t.contains(v) {
			return false
		}
	}
	return true
}

// endsSurely: the number of iterations is known, or every iteration that goes on moves an integer towards a
// bound that stays.
func endsSurely(L *LoopInfo) bool {
	if L.Trip != nil {
		return true
	}
	bounded := func(st *State, v *Term, up bool) bool {
		for l, val := range st.lits {
			if !l.isOp("lt") || len(l.Args) != 2 {
				continue
			}
			d := Sub(l.Args[0], l.Args[1]) // lt: d < 0; otherwise d >= 0
			for _, s := range []int64{1, -1} {
				rest := Sub(d, Mul(v, Int(s)))
				if L.stays(rest) && (s == 1) == (val == up) {
					return true
				}
			}
		}
		return false
	}
	try := func(v *Term, step func(it *Iter) (int64, bool)) bool {
		up, dn := true, true
		for _, it := range L.Iters {
			if it.Next == nil {
				continue
			}
			d, ok := step(it)
			up = up && ok && d > 0 && bounded(stepped(L, it), v, true)
			dn = dn && ok && d < 0 && bounded(it.St, v, false)
		}
		return up || dn
	}
	if try(L.K, func(*Iter) (int64, bool) { return 1, true }) {
		return true
	}
	for v, lv := range L.Vars {
		if lv.Sym != nil && try(v, func(it *Iter) (int64, bool) {
			d := Sub(it.Next[v], v)
			return d.I, d.K == KInt
		}) {
			return true
		}
	}
	return false
}

func (c *Ctx) statsShown(k *lookupKind, fn *ssa.Function) {
	in := c.interp()
	in.KeepPaths = true
	as := in.SymArgs(fn)
	T := deref(fn.Params[0].Type())
	S := under(T).(*types.Struct)
	fields := counterFields(S)
	for _, o := range c.run(in, fn, as, newState()) {
		if o.Kind != ORet {
			c.Bad("shown", k.name, o.Pos, "showing the statistics may fail")
			continue
		}
		var flat []*Ev
		times := 0
		for _, e := range o.St.ev.list() {
			if e.Loop == nil {
				flat = append(flat, e)
				continue
			}
			times += c.timesShown(k, e.Loop, as[0], T)
		}
		c.Want(times == 1, "shown", k.name+" times", o.Pos, "the times counted are gone through %d times", times)
		lines, ok := linesOf(o.St, flat)
		c.Want(ok, "shown", k.name+" lines", o.Pos, "not decided: what is printed")
		for i, nm := range fields {
			v := newState().load(FieldAddrT(as[0], i, T), S.Field(i).Type())
			n, good := 0, false
			for _, l := range lines {
				for _, x := range l.vals {
					if stripConv(x, 64) == v {
						n++
						good = len(l.vals) == 1 && strings.Contains(strings.ToLower(l.text), strings.ToLower(nm))
					}
				}
			}
			c.Want(n == 1 && good, "shown", k.name+" "+nm, o.Pos, "%s is not shown once, under its name", nm)
		}
	}
}

// timesShown: a loop that prints a line for every time counted.
func (c *Ctx) timesShown(k *lookupKind, L *LoopInfo, recv *Term, T types.Type) int {
	S := under(T).(*types.Struct)
	var list *Term
	for i := 0; i < S.NumFields(); i++ {
		if sl, ok := under(S.Field(i).Type()).(*types.Slice); ok && intWidth(sl.Elem()) == 64 {
			l := newState().load(FieldAddrT(recv, i, T), S.Field(i).Type())
			if L.Trip != nil && L.Trip == Len(l) {
				list = l
			}
		}
	}
	if list == nil {
		c.Bad("shown", k.name+" times", loopPosOf(L), "not decided: a loop that does not go through a list of the index")
		return 0
	}
	for _, it := range L.Iters {
		v := it.St.elem(list, L.K, tU64)
		lines, ok := linesOf(it.St, it.St.ev.list())
		c.Want(ok, "shown", k.name+" times", loopPosOf(L), "not decided: what is printed for a time")
		zero, val := it.St.decide(Eq(v, tZero))
		switch {
		case zero && val:
			c.Want(len(lines) == 0, "shown", k.name+" times", loopPosOf(L), "a line is printed for a time that was not counted")
		default:
			has := len(lines) == 1
			if has {
				n := 0
				for _, x := range lines[0].vals {
					if stripConv(x, 64) == v {
						n++
					}
				}
				has = n == 1
			}
			c.Want(has, "shown", k.name+" times", loopPosOf(L), "a time that was counted is not shown with its count")
		}
	}
	return 1
}
