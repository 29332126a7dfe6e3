package main

// C28: string tables built for output.  Also the key lists of C30 and C27.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type stbShape struct {
	T          *types.Named
	list       int // []string
	freq       int // the map that AddString looks in
	index      int // the map that GetIndex looks in
	freqLoaded *Term
}

func (c *Ctx) stbType(rule string) *stbShape {
	fn := c.need(rule, "internal/t.NewStringTableBuilder")
	if fn == nil {
		return nil
	}
	T := fn.Signature.Results().At(0).Type()
	if q, ok := T.(*types.Pointer); ok {
		T = q.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok {
		c.Bad(rule, "NewStringTableBuilder", fn, "not decided: the type of the builder")
		return nil
	}
	s, ok := under(n).(*types.Struct)
	if !ok {
		c.Bad(rule, "NewStringTableBuilder", fn, "not decided: the type of the builder")
		return nil
	}
	sh := &stbShape{T: n, list: -1, freq: -1, index: -1}
	for i := 0; i < s.NumFields(); i++ {
		if l, ok := under(s.Field(i).Type()).(*types.Slice); ok && isString(l.Elem()) {
			sh.list = i
		}
	}
	if sh.list < 0 {
		c.Bad(rule, "NewStringTableBuilder", fn, "not decided: the builder has no list of strings")
		return nil
	}
	return sh
}

func (sh *stbShape) field(st *State, p *Term, i int) *Term {
	return st.load(FieldAddrT(p, i, sh.T), under(sh.T).(*types.Struct).Field(i).Type())
}

func (sh *stbShape) maps() []int {
	var r []int
	s := under(sh.T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := under(s.Field(i).Type()).(*types.Map); ok {
			r = append(r, i)
		}
	}
	return r
}

func (c *Ctx) stbRun(rule, method string, f func(in *Interp, stb *Term, args []*Term, out *Outcome)) bool {
	fn := stbMethod(c.P, method)
	if fn == nil {
		c.Bad(rule, method, nil, "not decided: the builder has no method %s", method)
		return false
	}
	n := 0
	c.Try(rule, method, fn, func() {
		in := c.interp()
		in.KeepPaths = true
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, symArg(in, p))
		}
		for _, out := range c.run(in, fn, args, newState()) {
			if out.Kind == ORet {
				n++
			}
			f(in, args[0], args[1:], out)
		}
	})
	c.Want(n > 0, rule, method, fn, "never returns")
	return n > 0
}

func isStrLess(r, a, b *Term) bool {
	// strings.Compare(a, b) < 0, or a < b
	if r == Lt(a, b, false) || r.isOp("xlt") && r.Args[0] == a && r.Args[1] == b {
		return true
	}
	hit := false
	r.any(func(x *Term) bool {
		if x.isOp("pure") || x.isOp("call") || x.isOp("ext") {
			if len(x.Args) >= 2 && x.Args[0] == a && x.Args[1] == b && r == Lt(x, tZero, false) {
				hit = true
			}
		}
		return hit
	})
	return hit
}

func (c *Ctx) stringTable(rule string) {
	sh := c.stbType(rule)
	if sh == nil {
		return
	}
	newFn := c.P.Func("internal/t.NewStringTableBuilder")
	// the first string
	var freq *int
	var top *Term
	for _, out := range c.run(c.interp(), newFn, nil, newState()) {
		if out.Kind != ORet {
			continue
		}
		p := out.Rets[0]
		l := sh.field(out.St, p, sh.list)
		em, why := grow(out.St.snap(l, tString), nil, out.St.ev.list())
		ok := why == "" && len(em) == 1 && len(em[0].words) == 1 && em[0].words[0] == Str("")
		c.Want(ok, rule, "new builder", out.Pos, "a new builder does not have exactly the empty string (%v)", l)
		for _, i := range sh.maps() {
			m := sh.field(out.St, p, i)
			if !isObj(m) {
				continue
			}
			i := i
			ct := mapContentOf(out.St, m)
			if ct.isOp("mstore") && ct.Args[0].isOp("mzero") && ct.Args[1] == Str("") {
				freq, top = &i, ct.Args[2]
			}
		}
	}
	if freq == nil {
		c.Bad(rule, "new builder", newFn, "a new builder has no map in which the empty string is known")
		return
	}
	sh.freq = *freq
	vT := under(under(sh.T).(*types.Struct).Field(sh.freq).Type()).(*types.Map).Elem()
	_, max := typeBounds(vT)
	topMax := top.K == KInt && top.I == max
	keepsTop := true
	// adding
	c.stbRun(rule, "AddString", func(in *Interp, stb *Term, a []*Term, out *Outcome) {
		if out.Kind != ORet {
			return
		}
		st := out.St
		s := a[0]
		m := sh.field(newState(), stb, sh.freq)
		base := Op("mcont0", "", nil, m)
		l0 := sh.field(newState(), stb, sh.list)
		l1 := sh.field(st, stb, sh.list)
		if sh.field(st, stb, sh.freq) != m {
			c.Bad(rule, "AddString", out.Pos, "the map of strings is replaced")
			return
		}
		ct := mapContentOf(st, m)
		if k, v := st.decide(Eq(s, Str(""))); k && v && l1 == l0 && ct == base {
			c.Ok(rule, "AddString empty", out.Pos, "")
			return
		}
		k, known := st.decide(Op("mhas", "", types.Typ[types.Bool], base, s))
		if !k {
			c.Bad(rule, "AddString", out.Pos, "a string is added without finding out whether it is known")
			return
		}
		set := ct.isOp("mstore") && ct.Args[0] == base && ct.Args[1] == s
		if !known {
			if k, v := st.decide(Eq(Op("mget", "", vT, base, s), tZero)); k && !v {
				return // what is not in the map has the count zero
			}
			x, ok := appendedTo(st.snap(l1, tString), l0)
			c.Want(ok && len(x) == 1 && x[0] == s, rule, "AddString new", out.Pos, "a new string is not put at the end of the list (%v)", l1)
			c.Want(set, rule, "AddString new", out.Pos, "a new string is not recorded as known")
			return
		}
		c.Want(l1 == l0, rule, "AddString known", out.Pos, "a known string changes the list (%v)", l1)
		if ct == base {
			c.Ok(rule, "AddString known", out.Pos, "")
			return
		}
		if !set {
			c.Bad(rule, "AddString known", out.Pos, "a known string changes something else than its own count")
			return
		}
		old := Op("mget", "", vT, base, s)
		k1, v1 := st.decide(Eq(old, top))
		k2, v2 := st.decide(Eq(s, Str("")))
		if !(ct.Args[2] == old || k1 && !v1 || k2 && !v2) {
			keepsTop = false
		}
	})
	// the order, and the indexes
	whole := false
	tail := false
	c.stbRun(rule, "Finalize", func(in *Interp, stb *Term, a []*Term, out *Outcome) {
		if out.Kind != ORet {
			return
		}
		st := out.St
		l0 := sh.field(newState(), stb, sh.list)
		l1 := sh.field(st, stb, sh.list)
		if l1 != l0 {
			c.Bad(rule, "Finalize", out.Pos, "not decided: the list of strings is replaced (%v)", l1)
			return
		}
		for _, e := range st.ev.list() {
			if e.Kind != "sort" {
				continue
			}
			s := e.Args[0]
			arr0, lo0 := arrOf(l0)
			arr, lo := arrOf(s)
			if arr != arr0 {
				continue
			}
			switch {
			case lo == lo0 && Len(s) == Len(l0):
				whole = true
				c.stbOrder(rule, in, sh, stb, e)
			case lo == Add(lo0, Int(1)) && Len(s) == Sub(Len(l0), Int(1)):
				tail = true
			default:
				c.Bad(rule, "Finalize", e.Pos, "not decided: a part of the list is sorted")
			}
		}
		// the map from which indexes are taken
		var L *LoopInfo
		ok := false
		for _, i := range sh.maps() {
			m := sh.field(st, stb, i)
			lv := loopVarOf(mapContentOf(st, m))
			if lv == nil {
				continue
			}
			L = findLoop(st.ev.list(), lv)
			if L == nil || L.Trip != Len(l1) {
				continue
			}
			own := m == sh.field(newState(), stb, sh.freq)
			if !(lv.Init.isOp("mzero") || lv.Init.isOp("cont0") && isObj(m) || own) {
				c.Bad(rule, "Finalize", L.Pos, "the map of indexes has other entries (%v)", lv.Init)
			}
			good := true
			for _, it := range L.Iters {
				n := it.Next[lv.Sym]
				good = good && n.isOp("mstore") && n.Args[0] == lv.Sym && n.Args[1] == it.St.elem(l1, L.K, tString) && stripConv(n.Args[2], 32) == L.K
			}
			if good {
				ok = true
				sh.index = i
			}
		}
		c.Want(ok, rule, "Finalize indexes", out.Pos, "not every string gets the number of its own entry in the sorted list")
	})
	c.Want(tail || whole && topMax && keepsTop, rule, "first entry", newFn, "nothing keeps the empty string at the start: it must be left out of the sort, or keep the highest count whatever is added (sorted with the others: %v, starts at the highest count: %v, keeps it: %v)", whole, topMax, keepsTop)
	// looking up
	c.stbRun(rule, "GetIndex", func(in *Interp, stb *Term, a []*Term, out *Outcome) {
		if out.Kind != ORet || sh.index < 0 {
			return
		}
		m := sh.field(newState(), stb, sh.index)
		base := Op("mcont0", "", nil, m)
		r := stripConv(out.Rets[0], 32)
		k, v := out.St.decide(Op("mhas", "", types.Typ[types.Bool], base, a[0]))
		c.Want(k && v, rule, "GetIndex", out.Pos, "an index is returned for a string that may not have been added")
		c.Want(r.isOp("mget") && r.Args[0] == base && r.Args[1] == a[0], rule, "GetIndex", out.Pos, "the index returned is %v", out.Rets[0])
	})
	c.stbRun(rule, "ToStringTable", func(in *Interp, stb *Term, a []*Term, out *Outcome) {
		if out.Kind != ORet {
			return
		}
		n := c.P.Named("internal/t.StringTable")
		i := FieldIndex(n, "S")
		l := out.St.load(FieldAddrT(out.Rets[0], i, n), under(n).(*types.Struct).Field(i).Type())
		why := mapped(out.St, l, sh.field(newState(), stb, sh.list), func(st *State, g, e *Term) bool { return g == e })
		c.Want(why == "", rule, "ToStringTable", out.Pos, "the table is not the list of strings: %s", why)
	})
	// adding all strings of a map
	fn := stbMethod(c.P, "AddMap")
	if fn == nil {
		return
	}
	c.Try(rule, "AddMap", fn, func() {
		in := c.interp()
		stbHooks(in, "AddString")
		stb, m := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
		for _, out := range c.run(in, fn, []*Term{stb, m}, newState()) {
			if out.Kind != ORet {
				continue
			}
			got := map[string]bool{}
			if k, v := out.St.decide(Eq(mapLen(mapContentOf(out.St, m)), tZero)); k && v {
				continue
			}
			for _, e := range out.St.ev.list() {
				if e.Loop == nil {
					continue
				}
				all := map[string]bool{"key": true, "value": true}
				for _, it := range e.Loop.Iters {
					here := map[string]bool{}
					key, why, _ := c.currentKey(out.St, it, e.Loop, stb, m)
					for _, x := range it.St.ev.list() {
						if why == "" && x.Kind == "stb" && x.Name == "AddString" && x.Args[0] == stb {
							switch y := x.Args[1]; {
							case y == key:
								here["key"] = true
							case isRangeOf(y, "rval", m, e.Loop) || y.isOp("mget") && y.Args[0] == mapContentOf(it.St, m) && y.Args[1] == key:
								here["value"] = true
							}
						}
					}
					for w := range all {
						all[w] = all[w] && here[w]
					}
				}
				for w := range all {
					got[w] = got[w] || all[w] && len(e.Loop.Iters) > 0
				}
			}
			c.Want(got["key"] && got["value"], rule, "AddMap", out.Pos, "not every key and value of the map is added (keys: %v, values: %v)", got["key"], got["value"])
		}
	})
}

// isRangeOf: the key (or value) of the current entry of a loop over the map.
func isRangeOf(t *Term, what string, m *Term, L *LoopInfo) bool {
	return t.isOp(what) && t.Args[0].isOp("range") && t.Args[0].Args[0] == m && t.Args[1] == L.K
}

// rangeComplete: after the loop, every entry of the map has been visited.
func rangeComplete(st *State, L *LoopInfo, m *Term) bool {
	for _, it := range L.Iters {
		for _, f := range it.St.ev.list() {
			_ = f
		}
		r := rangeTerm(it, L, m)
		if r == nil {
			return false
		}
		if k, v := st.decide(Op("rok", "", types.Typ[types.Bool], r, L.K)); !k || v {
			return false
		}
	}
	return len(L.Iters) > 0
}

func rangeTerm(it *Iter, L *LoopInfo, m *Term) *Term {
	for _, v := range it.Env {
		var r *Term
		if v != nil {
			v.any(func(x *Term) bool {
				if x.isOp("range") && len(x.Args) == 2 && x.Args[0] == m {
					r = x
				}
				return r != nil
			})
		}
		if r != nil {
			return r
		}
	}
	return nil
}

// stbOrder: the comparison sorts by falling count, then by the strings.
func (c *Ctx) stbOrder(rule string, in *Interp, sh *stbShape, stb *Term, e *Ev) {
	if len(e.Args) < 2 || !e.Args[1].isOp("closure") {
		c.Bad(rule, "Finalize order", e.Pos, "the order of the strings is not by their counts")
		return
	}
	cl := e.Args[1]
	fn, _ := cl.X.(*ssa.Function)
	if fn == nil || len(fn.Params) != 2 {
		c.Bad(rule, "Finalize order", e.Pos, "not decided: the comparison")
		return
	}
	i, j := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
	list := sh.field(e.Snap, stb, sh.list)
	a, b := e.Snap.elem(list, i, tString), e.Snap.elem(list, j, tString)
	m := sh.field(newState(), stb, sh.freq)
	vT := under(under(sh.T).(*types.Struct).Field(sh.freq).Type()).(*types.Map).Elem()
	base := mapContentOf(e.Snap, m)
	fa, fb := Op("mget", "", vT, base, a), Op("mget", "", vT, base, b)
	st := e.Snap.clone()
	st.ev = nil
	outs := in.Run(fn, []*Term{i, j}, cl.Args, st)
	type cas struct {
		n    string
		cond *Term
		v    bool
		want func(st *State, r *Term) bool
	}
	isTrue := func(st *State, r *Term) bool { k, v := st.decide(r); return k && v }
	isFalse := func(st *State, r *Term) bool { k, v := st.decide(r); return k && !v }
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad(rule, "Finalize order", o.Pos, "the comparison can fail")
			continue
		}
		for _, x := range []cas{
			{"a higher count", Lt(fb, fa, true), true, isTrue},
			{"a lower count", Lt(fa, fb, true), true, isFalse},
			{"the same count", Eq(fa, fb), true, func(st *State, r *Term) bool { return isStrLess(r, a, b) }},
		} {
			s := o.St.clone()
			if !s.assume(x.cond, x.v) {
				continue
			}
			if k, v := s.decide(Lt(fb, fa, true)); x.n == "the same count" && k && v {
				continue
			}
			c.Want(x.want(s, o.Rets[0]), rule, "Finalize order", o.Pos, "with %s, whether a string comes first is %v", x.n, o.Rets[0])
		}
	}
}

// keyLists checks the methods that turn a map of tags into indexes; order: also that the order is fixed.
func (c *Ctx) keyLists(rule, order string) {
	for _, name := range []string{"ToKeyVals", "ToKeyValLinear"} {
		name := name
		fn := stbMethod(c.P, name)
		if fn == nil {
			c.Bad(either(rule, order), name, nil, "not decided: the builder has no method %s", name)
			continue
		}
		c.Try(either(rule, order), name, fn, func() {
			in := c.interp()
			stbHooks(in, "GetIndex")
			if name != "ToKeyVals" {
				stbHooks(in, "GetIndex", "ToKeyVals")
			}
			stb, m := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
			n := 0
			for _, out := range c.run(in, fn, []*Term{stb, m}, newState()) {
				if out.Kind != ORet {
					continue
				}
				n++
				c.keyList(rule, order, name, stb, m, out)
			}
			c.Want(n > 0, either(rule, order), name, fn, "never returns")
		})
	}
}

func (c *Ctx) keyList(rule, order, name string, stb, m *Term, out *Outcome) {
	st := out.St
	bad := func(f string, a ...any) { c.Bad(either(rule, order), name, out.Pos, f, a...) }
	empty := false
	if k, v := st.decide(Eq(mapLen(mapContentOf(st, m)), tZero)); k && v {
		empty = true
	}
	var Ls []*LoopInfo
	var words [][][]*Term // result, path
	for _, r := range out.Rets {
		em, why := grow(c.perKey(st, st.snap(r, elemType(r.T)), m), nil, st.ev.list())
		if why != "" {
			bad("%s", why)
			return
		}
		if len(em) == 0 && empty {
			continue
		}
		if len(em) != 1 || em[0].L == nil {
			bad("a list is not made in one loop over the keys")
			return
		}
		var w [][]*Term
		for _, p := range em[0].per {
			x, ok := wordsOfEmits(p)
			if !ok {
				bad("not decided: what a tag adds")
				return
			}
			w = append(w, x)
		}
		Ls, words = append(Ls, em[0].L), append(words, w)
	}
	if len(Ls) == 0 {
		return
	}
	var L *LoopInfo
	idx := func(t *Term) *Term {
		t = stripConv(t, 32)
		if t.isOp("select") && L != nil && t.Args[1] == L.K {
			// an entry of the lists of ToKeyVals
			if l := entryOf(t); l != nil && len(l.Args) == 2 && l.Args[0] == stb && l.Args[1] == m {
				switch {
				case l.isOp("mkeys"):
					return Op("keyOf", "", tString, l, L.K)
				case l.isOp("mvals"):
					return Op("valOf", "", tString, l, L.K)
				}
			}
		}
		if t.isOp("strix") && t.Args[0] == stb {
			return t.Args[1]
		}
		return nil
	}
	for ri := range Ls {
		L = Ls[ri]
		for pi, it := range L.Iters {
			key, why, sorted := c.currentKey(st, it, L, stb, m)
			if why != "" {
				bad("%s", why)
				return
			}
			c.Want(sorted, order, name, L.Pos, "the order of the tags depends on the order in which the map is walked")
			isKey := func(t *Term) bool { return t != nil && t == key }
			isVal := func(t *Term) bool {
				if t == nil {
					return false
				}
				if t.isOp("mget") && t.Args[0] == mapContentOf(it.St, m) && t.Args[1] == key {
					return true
				}
				return isRangeOf(t, "rval", m, L) || t.isOp("valOf") && key.isOp("keyOf")
			}
			w := words[ri][pi]
			good := false
			switch {
			case len(out.Rets) == 1 && len(w) == 2:
				good = isKey(idx(w[0])) && isVal(idx(w[1]))
			case len(out.Rets) == 2 && len(w) == 1 && ri == 0:
				good = isKey(idx(w[0]))
			case len(out.Rets) == 2 && len(w) == 1:
				good = isVal(idx(w[0]))
			}
			c.Want(good, rule, fmt.Sprintf("%s result %d", name, ri), L.Pos, "a tag adds %v", w)
		}
	}
}

func wordsOfEmits(l []emit) ([]*Term, bool) {
	var r []*Term
	for _, e := range l {
		if len(e.words) == 0 {
			return nil, false
		}
		r = append(r, e.words...)
	}
	return r, true
}

// perKey: a list as long as the map has as many entries as there are keys.
func (c *Ctx) perKey(st *State, t, m *Term) *Term {
	n := mapLen(mapContentOf(st, m))
	if !t.isOp("seq") || t.Args[2] != n || loopVarOf(t.Args[0]) == nil {
		return t
	}
	L := findLoop(st.ev.list(), loopVarOf(t.Args[0]))
	if L == nil || L.Trip == nil || !L.Trip.isOp("len") {
		return t
	}
	em, why := grow(L.Trip.Args[0], nil, st.ev.list())
	if why != "" || len(em) != 1 || em[0].L == nil || !rangeComplete(st, em[0].L, m) {
		return t
	}
	for _, p := range em[0].per {
		if w, ok := wordsOfEmits(p); !ok || len(w) != 1 {
			return t
		}
	}
	return Op("seq", t.S, t.T, t.Args[0], t.Args[1], L.Trip)
}

// entryOf: the list of which t is an entry.
func entryOf(t *Term) *Term {
	if t.isOp("select") && t.Args[0].isOp("cont0") && t.Args[0].Args[0].isOp("arr") {
		return t.Args[0].Args[0].Args[0]
	}
	return nil
}

// currentKey: the loop visits every key of the map once; the key of this iteration.
func (c *Ctx) currentKey(st *State, it *Iter, L *LoopInfo, stb, m *Term) (key *Term, why string, sorted bool) {
	if r := rangeTerm(it, L, m); r != nil && L.Trip == nil {
		if !rangeComplete(st, L, m) {
			return nil, "the loop over the map can end early", false
		}
		return Op("rkey", "", tString, r, L.K), "", false
	}
	if L.Trip != nil && L.Trip == mapLen(mapContentOf(st, m)) {
		if sk := filledKeys(st, L, m); sk != nil {
			return it.St.elem(sk, L.K, tString), "", true
		}
	}
	if L.Trip == nil || !L.Trip.isOp("len") {
		return nil, "the loop does not visit every key exactly once", false
	}
	sk := L.Trip.Args[0]
	if (sk.isOp("mkeys") || sk.isOp("mvals")) && sk.Args[0] == stb && sk.Args[1] == m {
		// ToKeyVals gives every key once, in a fixed order
		return Op("keyOf", "", tString, Op("mkeys", "", sk.T, stb, m), L.K), "", true
	}
	evs := st.ev.list()
	em, why := grow(sk, nil, evs)
	if why != "" {
		return nil, why, false
	}
	if len(em) != 1 || em[0].L == nil {
		return nil, "the loop is not over the keys of the map", false
	}
	L0 := em[0].L
	if !rangeComplete(st, L0, m) {
		return nil, "the loop that collects the keys can end early", false
	}
	for i, p := range em[0].per {
		w, ok := wordsOfEmits(p)
		if !ok || len(w) != 1 || !isRangeOf(w[0], "rkey", m, L0) {
			return nil, fmt.Sprintf("collecting the keys adds %v", w), false
		}
		_ = i
	}
	seen0 := false
	for _, e := range evs {
		if e.Loop == L0 {
			seen0 = true
		}
		if e.Loop == L {
			break
		}
		if e.Kind == "sort" && e.Args[0] == sk && seen0 {
			sorted = e.Name == "sort.Strings" || e.Name == "sort.Sort" || e.Name == "sort.Stable" || e.Name == "slices.Sort"
		}
	}
	return it.St.elem(sk, L.K, tString), "", sorted
}

// filledKeys: a list as long as the map, of which a loop over the whole map fills one place after the other with
// the keys, and which is sorted before the loop L runs.
func filledKeys(st *State, L *LoopInfo, m *Term) *Term {
	n := mapLen(mapContentOf(st, m))
	var cell *Term
	for _, e := range st.ev.list() {
		switch {
		case e.Loop == L:
			return nil
		case e.Loop != nil:
			if e.Loop.Trip != nil || !rangeComplete(st, e.Loop, m) {
				continue
			}
			for _, lv := range e.Loop.Order {
				if lv.Cell == nil {
					continue
				}
				ok := true
				for _, it := range e.Loop.Iters {
					x := it.Next[lv.Sym]
					ok = ok && x != nil && x.isOp("store") && x.Args[0] == lv.Sym && x.Args[1] == e.Loop.K && isRangeOf(x.Args[2], "rkey", m, e.Loop)
				}
				if ok {
					cell = lv.Cell
				}
			}
		case e.Kind == "sort" && cell != nil:
			s := e.Args[0]
			if arr, lo := arrOf(s); arr == cell && lo == tZero && Len(s) == n {
				switch e.Name {
				case "sort.Strings", "sort.Sort", "sort.Stable", "slices.Sort":
					return s
				}
			}
		}
	}
	return nil
}

// stbProtocol: wherever a table is built, every string used has been added before the table was finished.
func (c *Ctx) stbProtocol(rule string) {
	newFn := c.P.Func("internal/t.NewStringTableBuilder")
	n := 0
	// a function that makes a builder and returns it is analysed as a part of its callers
	makers := map[*ssa.Function]bool{newFn: true}
	isStb := func(T types.Type) bool {
		return newFn != nil && types.Identical(T, newFn.Signature.Results().At(0).Type())
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs() {
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if isStb(rs.At(i).Type()) && !makers[fn] {
					makers[fn] = true
					again = true
				}
			}
		}
	}
	for _, fn := range c.P.Funcs() {
		calls := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc, ok := i.(ssa.CallInstruction); ok && makers[cc.Common().StaticCallee()] {
					calls = true
				}
			}
		}
		if !calls || makers[fn] {
			continue
		}
		n++
		fn := fn
		c.Try(rule, fn.Name(), fn, func() { c.stbUse(rule, fn) })
	}
	c.Want(n > 0, rule, "builders", newFn, "no function builds a string table")
}

func (c *Ctx) stbUse(rule string, fn *ssa.Function) {
	in := c.interp()
	stbHooks(in)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	for _, out := range c.run(in, fn, args, newState()) {
		if out.Kind != ORet {
			continue
		}
		phase := 0 // adding, finished
		adds := map[string]bool{}
		finals := 0
		// canonical names for the counters of the surrounding loops
		canon := func(t *Term, loops []*LoopInfo) *Term {
			for i, L := range loops {
				if t.contains(L.K) {
					t = subst(t, L.K, Op("counter", fmt.Sprint(i), tInt))
				}
			}
			return t
		}
		trips := func(loops []*LoopInfo) string {
			r := ""
			for i, L := range loops {
				if L.Trip == nil {
					return "?"
				}
				r += fmt.Sprintf("×%d", canon(L.Trip, loops[:i]).ID)
			}
			return r
		}
		var walk func(evs []*Ev, loops []*LoopInfo, collect func(k string))
		walk = func(evs []*Ev, loops []*LoopInfo, collect func(k string)) {
			for _, e := range evs {
				if e.Loop != nil {
					var common map[string]bool
					covers := e.Loop.Trip != nil
					for i, it := range e.Loop.Iters {
						here := map[string]bool{}
						walk(it.St.ev.list(), append(append([]*LoopInfo{}, loops...), e.Loop), func(k string) { here[k] = true })
						if i == 0 {
							common = here
						} else {
							for k := range common {
								if !here[k] {
									delete(common, k)
								}
							}
						}
					}
					if covers {
						for k := range common {
							collect(k)
						}
					}
					continue
				}
				if e.Kind != "stb" {
					continue
				}
				var kind string
				var what *Term
				use := false
				switch e.Name {
				case "AddString":
					kind, what = "string", e.Args[1]
				case "AddMap":
					kind, what = "map", e.Args[1]
				case "GetIndex":
					kind, what, use = "string", e.Args[1], true
				case "ToKeyVals", "ToKeyValLinear":
					kind, what, use = "map", e.Args[1], true
				case "Finalize":
					finals++
					phase = 1
					if len(loops) > 0 {
						c.Bad(rule, fn.Name(), e.Pos, "the table is finished in a loop")
					}
					continue
				case "ToStringTable":
					c.Want(phase == 1, rule, fn.Name()+" table", e.Pos, "the table is taken before it is finished")
					continue
				}
				k := fmt.Sprintf("%s %d", kind, canon(what, loops).ID) + trips(loops)
				if !use {
					if phase > 0 {
						c.Bad(rule, fn.Name()+" order", e.Pos, "a string is added after the table was finished")
					}
					collect(k)
					continue
				}
				if phase == 0 {
					c.Bad(rule, fn.Name()+" order", e.Pos, "an index is taken before the table is finished")
					continue
				}
				c.Want(adds[k], rule, fn.Name()+" added", e.Pos, "the strings used here (%v) need not have been added", what)
			}
		}
		walk(out.St.ev.list(), nil, func(k string) { adds[k] = true })
		c.Want(finals == 1, rule, fn.Name()+" order", out.Pos, "the table is finished %d times", finals)
	}
}

func init() {
	register("C28", "abstract interpretation of the string table builder as an abstract data type, and typestate of its users: every method is interpreted for an arbitrary builder state (a new builder holds the empty string with the highest count; adding a string appends it only if unknown and never lowers or wraps the empty string's count; finishing sorts by falling count, ties by the strings, and stores for each string the number of its own entry; looking up returns that number or aborts; the table is that list); in every function that uses a builder, all additions precede the single Finalize, which precedes all uses, and every string used was added (the same expression over the same loops)",
		func(c *Ctx) {
			c.Try("builder", "string table builder", nil, func() { c.stringTable("builder") })
			c.stbProtocol("use")
			c.Min("builder", 8)
			c.Min("use", 3)
		})
}
