package main

// C08 (object model), C28, C30: converting blocks to objects and back.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var tU32 = types.Typ[types.Uint32]

// ---- list comprehension ----

// grow describes how t extends base (nil: from nothing): elements, runs and loops that append.
func grow(t, base *Term, evs []*Ev) ([]emit, string) {
	switch {
	case t == base && base != nil:
		return nil, ""
	case t == nil:
		return nil, "a value is not known"
	case t == tNil || t.isOp("empty") || Len(t) == tZero && !t.isOp("app") && !t.isOp("appS"):
		if base != nil {
			return nil, "what was collected before is dropped"
		}
		return nil, ""
	case t.isOp("app"):
		l, why := grow(t.Args[0], base, evs)
		for _, x := range t.Args[1:] {
			l = append(l, emit{words: []*Term{x}})
		}
		return l, why
	case t.isOp("appS"):
		l, why := grow(t.Args[0], base, evs)
		m, why2 := grow(t.Args[1], nil, evs)
		return append(l, m...), why + why2
	}
	if lv := loopVarOf(t); lv != nil {
		if L := findLoop(evs, lv); L != nil && lv.Init != nil {
			l, why := grow(lv.Init, base, evs)
			if why != "" {
				return nil, why
			}
			e := emit{L: L, Pos: L.Pos}
			for _, it := range L.Iters {
				m, why := grow(it.Next[lv.Sym], lv.Sym, it.St.ev.list())
				if why != "" {
					return nil, why
				}
				e.per = append(e.per, m)
			}
			return append(l, e), ""
		}
	}
	if base != nil {
		return nil, fmt.Sprintf("not decided: how the list grows (%v)", t)
	}
	if e := filledBy(t, evs, nil); e != nil {
		return []emit{*e}, ""
	}
	if t.isOp("seq") {
		c, lo, n := t.Args[0], t.Args[1], t.Args[2]
		if c.isOp("copyin") && c.Args[1] == lo && c.Args[3] == n && n == Len(c.Args[2]) {
			return grow(c.Args[2], nil, evs)
		}
		if n.K == KInt {
			if ps, ok := flatten(t); ok {
				var l []emit
				for _, p := range ps {
					if p.b != nil {
						l = append(l, emit{words: []*Term{p.b}})
					} else {
						l = append(l, emit{run: p.run})
					}
				}
				return l, ""
			}
		}
	}
	return []emit{{run: t}}, ""
}

// mapped: the list t is src with f applied to each element, in order.
func mapped(st *State, t, src *Term, f func(st *State, got, elem *Term) bool) string {
	if t == nil || src == nil {
		return "a list is not known"
	}
	el := elemType(t.T)
	if el == nil {
		el = elemType(src.T)
	}
	em, why := grow(st.snap(t, el), nil, st.ev.list())
	if why != "" {
		return why
	}
	switch {
	case len(em) == 0:
		if !knownEmpty(st, src) {
			return fmt.Sprintf("it is empty although %v may not be", src)
		}
		return ""
	case len(em) == 1 && em[0].run != nil:
		if em[0].run != src && em[0].run != st.snap(src, elemType(src.T)) {
			return fmt.Sprintf("it is %v", em[0].run)
		}
		k := Sym("k", tInt, nil)
		e := newState().elem(src, k, elemType(src.T))
		if !f(st, e, e) {
			return "its elements are copied without the conversion they need"
		}
		return ""
	case len(em) == 1 && em[0].L != nil:
		L := em[0].L
		if L.Trip != Len(src) {
			return fmt.Sprintf("the loop that makes it runs %v times, not once per element", L.Trip)
		}
		for i, p := range em[0].per {
			if len(p) != 1 || len(p[0].words) != 1 {
				return "an element does not give exactly one element"
			}
			it := L.Iters[i]
			if !f(it.St, p[0].words[0], it.St.elem(src, L.K, elemType(src.T))) {
				return fmt.Sprintf("an element is %v", p[0].words[0])
			}
		}
		return ""
	}
	return "it is made of several parts"
}

func same(w int) func(st *State, got, elem *Term) bool {
	return func(st *State, got, elem *Term) bool { return stripConv(got, w) == stripConv(elem, w) }
}

// ---- the string table builder as an abstract object ----

// stbMethods: the methods of the type that NewStringTableBuilder returns.
func stbMethod(p *Program, name string) *ssa.Function {
	fn := p.Func("internal/t.NewStringTableBuilder")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	T := fn.Signature.Results().At(0).Type()
	if q, ok := T.(*types.Pointer); ok {
		T = q.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok {
		return nil
	}
	return p.Func("internal/t." + n.Obj().Name() + "." + name)
}

func stbHooks(in *Interp, names ...string) {
	tU32s := types.NewSlice(tU32)
	hook := func(name string, f func(c *CallCtx, e *Ev) []*Term) {
		want := len(names) == 0 || len(names) > 0 && func() bool {
			for _, n := range names {
				if n == name {
					return true
				}
			}
			return false
		}()
		fn := stbMethod(in.P, name)
		if fn == nil || !want {
			return
		}
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "stb", Name: name, Args: c.Args, Pos: c.Pos, In: c.In}
			rs := f(c, e)
			if len(rs) > 0 {
				e.Ret = rs[0]
			}
			c.St.emit(e)
			return retOne(c.St, rs...)
		}
	}
	none := func(c *CallCtx, e *Ev) []*Term { return nil }
	hook("AddString", none)
	hook("AddMap", none)
	hook("Finalize", none)
	hook("GetIndex", func(c *CallCtx, e *Ev) []*Term { return []*Term{Op("strix", "", tU32, c.Args[0], c.Args[1])} })
	hook("ToStringTable", func(c *CallCtx, e *Ev) []*Term {
		var T types.Type
		if n := in.P.Named("internal/t.StringTable"); n != nil {
			T = types.NewPointer(n)
		}
		return []*Term{Op("strtab", "", T, c.Args[0])}
	})
	hook("ToKeyVals", func(c *CallCtx, e *Ev) []*Term {
		return []*Term{Op("mkeys", "", tU32s, c.Args[0], c.Args[1]), Op("mvals", "", tU32s, c.Args[0], c.Args[1])}
	})
	hook("ToKeyValLinear", func(c *CallCtx, e *Ev) []*Term {
		return []*Term{Op("mlin", "", types.NewSlice(types.Typ[types.Int32]), c.Args[0], c.Args[1])}
	})
}

func objHooks(in *Interp) {
	tU32s := types.NewSlice(tU32)
	if fn := in.P.Func("internal/t.PrimitiveBlock.GetString"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			return retOne(c.St, Op("pbstr", "", tString, c.Args[0], c.Args[1]))
		}
	}
	if fn := in.P.Func("internal/t.DenseNodes.GetKeyVals"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			return retOne(c.St, Op("dkeys", "", tU32s, c.Args[0], c.Args[1]), Op("dvals", "", tU32s, c.Args[0], c.Args[1]))
		}
	}
}

// ---- blocks to objects ----

type objCheck struct {
	c           *Ctx
	rule, coord string
	pblk        *Term
	pbT         types.Type
	st0         *State
}

func (o *objCheck) member(st *State, p *Term, T string, name string) *Term {
	n := o.c.P.Named("internal/t." + T)
	if n == nil {
		panic(analysisError{"type " + T + " not found"})
	}
	i := FieldIndex(n, name)
	if i < 0 {
		panic(analysisError{"member " + T + "." + name + " not found"})
	}
	return st.load(FieldAddrT(p, i, n), under(n).(*types.Struct).Field(i).Type())
}

// toObjects checks one of ToNodes, ToWays, ToRelations.
func (o *objCheck) toObjects(kind string) {
	c := o.c
	name := "PrimitiveBlock.To" + kind
	fn := c.need(either(o.rule, o.coord), "internal/t."+name)
	if fn == nil {
		return
	}
	in := c.interp()
	objHooks(in)
	o.pblk = symArg(in, fn.Params[0])
	n := 0
	for _, out := range c.run(in, fn, []*Term{o.pblk}, newState()) {
		if out.Kind != ORet {
			continue
		}
		n++
		bad := func(pos any, f string, a ...any) { c.Bad(either(o.rule, o.coord), name, pos, f, a...) }
		evs := out.St.ev.list()
		groups := o.member(newState(), o.pblk, "PrimitiveBlock", "PrimitiveGroup")
		em, why := grow(out.St.snap(out.Rets[0], elemType(out.Rets[0].T)), nil, evs)
		if why != "" {
			bad(out.Pos, "%s", why)
			continue
		}
		if len(em) == 0 && knownEmpty(out.St, groups) {
			continue
		}
		if len(em) != 1 || em[0].L == nil || em[0].L.Trip != Len(groups) {
			bad(out.Pos, "the objects are not collected in one loop over every group of the block")
			continue
		}
		L1 := em[0].L
		for i, per := range em[0].per {
			it := L1.Iters[i]
			pg := it.St.elem(groups, L1.K, elemType(groups.T))
			var src, dense *Term
			none := false
			if kind == "Nodes" {
				dense = o.member(it.St, pg, "PrimitiveGroup", "Dense")
				src = o.member(it.St, dense, "DenseNodes", "Id")
				k, v := it.St.decide(Eq(dense, tNil))
				none = k && v
			} else {
				src = o.member(it.St, pg, "PrimitiveGroup", kind)
			}
			none = none || knownEmpty(it.St, src)
			if len(per) == 0 {
				if !none {
					bad(L1.Pos, "the %s of a group can be left out", kind)
				}
				continue
			}
			if len(per) != 1 || per[0].L == nil || per[0].L.Trip != Len(src) {
				bad(L1.Pos, "the objects of a group are not collected in one loop over every one of its %s", kind)
				continue
			}
			L2 := per[0].L
			for j, p := range per[0].per {
				it := L2.Iters[j]
				if len(p) != 1 || len(p[0].words) != 1 {
					bad(L2.Pos, "an entity does not give exactly one object")
					continue
				}
				o.object(kind, name, L2, it, p[0].words[0], src, dense)
			}
		}
	}
	c.Want(n > 0, either(o.rule, o.coord), name, fn, "never returns")
}

func either(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (o *objCheck) object(kind, name string, L *LoopInfo, it *Iter, x, src, dense *Term) {
	c, st := o.c, it.St
	want := func(ok bool, what string, got *Term) {
		c.Want(ok, o.rule, name+" "+what, L.Pos, "the %s of an object is %v", what, got)
	}
	wantList := func(why, what string) {
		c.Want(why == "", o.rule, name+" "+what, L.Pos, "the %s of an object are not those of the entity: %s", what, why)
	}
	switch kind {
	case "Nodes":
		id := o.member(st, x, "HLNode", "Id")
		want(stripConv(id, 64) == stripConv(st.elem(src, L.K, elemType(src.T)), 64), "id", id)
		for _, ax := range []string{"Lat", "Lon"} {
			l := o.member(st, dense, "DenseNodes", ax)
			g := Conv(o.member(st, o.pblk, "PrimitiveBlock", "Granularity"), tI64)
			w := Add(o.member(st, o.pblk, "PrimitiveBlock", ax+"Offset"), Mul(g, st.elem(l, L.K, elemType(l.T))))
			got := o.member(st, x, "HLNode", ax)
			c.Want(equal(st, got, w), either(o.coord, o.rule), name+" "+ax, L.Pos, "the %s of a node is %v, not offset + granularity * value of that axis", ax, got)
		}
		keys := Op("dkeys", "", types.NewSlice(tU32), dense, L.K)
		vals := Op("dvals", "", types.NewSlice(tU32), dense, L.K)
		wantList(o.tags(st, o.member(st, x, "HLNode", "Tags"), keys, vals), "tags")
	case "Ways":
		w := st.elem(src, L.K, elemType(src.T))
		id := o.member(st, x, "HLWay", "Id")
		want(stripConv(id, 64) == stripConv(o.member(st, w, "Way", "ID"), 64), "id", id)
		wantList(o.tags(st, o.member(st, x, "HLWay", "Tags"), o.member(st, w, "Way", "Keys"), o.member(st, w, "Way", "Vals")), "tags")
		wantList(mapped(st, o.member(st, x, "HLWay", "Nodes"), o.member(st, w, "Way", "Refs"), same(64)), "nodes")
	case "Relations":
		r := st.elem(src, L.K, elemType(src.T))
		id := o.member(st, x, "HLRelation", "Id")
		want(stripConv(id, 64) == stripConv(o.member(st, r, "Relation", "ID"), 64), "id", id)
		wantList(o.tags(st, o.member(st, x, "HLRelation", "Tags"), o.member(st, r, "Relation", "Keys"), o.member(st, r, "Relation", "Vals")), "tags")
		wantList(mapped(st, o.member(st, x, "HLRelation", "Roles"), o.member(st, r, "Relation", "RolesSID"), func(st *State, got, e *Term) bool {
			return o.isString(st, got, e)
		}), "roles")
		wantList(mapped(st, o.member(st, x, "HLRelation", "Members"), o.member(st, r, "Relation", "MemIDs"), same(64)), "members")
		wantList(mapped(st, o.member(st, x, "HLRelation", "MemberType"), o.member(st, r, "Relation", "MemberType"), same(64)), "member types")
	}
}

// isString: got is string number id of the block.
func (o *objCheck) isString(st *State, got, id *Term) bool {
	if got.isOp("pbstr") {
		return got.Args[0] == o.pblk && stripConv(got.Args[1], 32) == stripConv(id, 32)
	}
	tab := o.member(newState(), o.pblk, "PrimitiveBlock", "StringTable")
	s := o.member(newState(), tab, "StringTable", "S")
	e := newState()
	for _, x := range []*Term{id, Conv(id, tU32), stripConv(id, 32)} {
		if got == e.elem(s, x, tString) {
			return true
		}
	}
	return false
}

// tags: the map is made of the strings of keys and vals, pairwise.
func (o *objCheck) tags(st *State, m, keys, vals *Term) string {
	if m == tNil {
		if knownEmpty(st, keys) {
			return ""
		}
		return "there is no map"
	}
	c := st.heap[mapCell(m)]
	if c == nil || !isObj(m) {
		return fmt.Sprintf("the map (%v) is not made for the object", m)
	}
	if c.isOp("mzero") {
		if knownEmpty(st, keys) {
			return ""
		}
		return "the map stays empty"
	}
	lv := loopVarOf(c)
	if lv == nil {
		return fmt.Sprintf("not decided: how the map (%v) is filled", c)
	}
	L := findLoop(st.ev.list(), lv)
	if L == nil {
		return "the map is shared with other objects"
	}
	if !(lv.Init.isOp("cont0") || lv.Init.isOp("mzero")) {
		return fmt.Sprintf("the map does not start empty (%v)", lv.Init)
	}
	if L.Trip != Len(keys) {
		return fmt.Sprintf("the loop over the tags runs %v times, not once per key", L.Trip)
	}
	for _, it := range L.Iters {
		n := it.Next[lv.Sym]
		if !n.isOp("mstore") || n.Args[0] != lv.Sym {
			return fmt.Sprintf("a tag does not set exactly one entry (%v)", n)
		}
		if !o.isString(it.St, n.Args[1], it.St.elem(keys, L.K, elemType(keys.T))) {
			return fmt.Sprintf("the key of a tag is %v", n.Args[1])
		}
		if !o.isString(it.St, n.Args[2], it.St.elem(vals, L.K, elemType(vals.T))) {
			return fmt.Sprintf("the value of a tag is %v", n.Args[2])
		}
	}
	return ""
}

// ---- objects to blocks ----

func (o *objCheck) makeBlock() {
	c := o.c
	rule := either(o.rule, o.coord)
	name := "MakePrimitiveBlock"
	fn := c.need(rule, "internal/t."+name)
	if fn == nil {
		return
	}
	in := c.interp()
	stbHooks(in)
	var args []*Term
	param := map[string]*Term{}
	for _, p := range fn.Params {
		a := symArg(in, p)
		args = append(args, a)
		if n, ok := p.Type().(*types.Named); ok {
			param[n.Obj().Name()] = a
		}
	}
	if len(args) != 3 || len(param) != 3 || param["Nodes"] == nil || param["Ways"] == nil || param["Relations"] == nil {
		c.Bad(rule, name, fn, "not decided: the parameters are not nodes, ways and relations")
		return
	}
	n := 0
	for _, out := range c.run(in, fn, args, newState()) {
		if out.Kind != ORet {
			continue
		}
		n++
		st := out.St
		bad := func(f string, a ...any) { c.Bad(rule, name, out.Pos, f, a...) }
		p := out.Rets[0]
		if !isObj(p) {
			bad("not decided: the block returned (%v)", p)
			continue
		}
		o.pblk = p
		tab := o.member(st, p, "PrimitiveBlock", "StringTable")
		c.Want(tab.isOp("strtab"), o.rule, name+" string table", out.Pos, "the string table of the block is %v", tab)
		var stb *Term
		if tab.isOp("strtab") {
			stb = tab.Args[0]
		}
		pgs := o.member(st, p, "PrimitiveBlock", "PrimitiveGroup")
		em, why := grow(st.snap(pgs, elemType(pgs.T)), nil, st.ev.list())
		if why != "" {
			bad("%s", why)
			continue
		}
		cnt := map[string]int{}
		ok := true
		for _, e := range em {
			if len(e.words) != 1 || !isObj(e.words[0]) {
				bad("not decided: the groups of the block (%s)", emitStr(em))
				ok = false
				break
			}
			pg := e.words[0]
			if d := o.member(st, pg, "PrimitiveGroup", "Dense"); d != tNil {
				cnt["Nodes"]++
				o.denseGroup(name, out, d, param["Nodes"], stb)
			}
			for _, kind := range []string{"Ways", "Relations"} {
				l := o.member(st, pg, "PrimitiveGroup", kind)
				if !knownEmpty(st, l) {
					cnt[kind]++
					if o.rule != "" {
						o.entityGroup(name, kind, out, l, param[kind], stb)
					}
				}
			}
		}
		if !ok {
			continue
		}
		for _, kind := range []string{"Nodes", "Ways", "Relations"} {
			if knownEmpty(st, param[kind]) && cnt[kind] <= 1 {
				continue
			}
			c.Want(cnt[kind] == 1, o.rule, name+" "+kind, out.Pos, "the %s are put into the block %d times", kind, cnt[kind])
		}
	}
	c.Want(n > 0, rule, name, fn, "never returns")
}

func (o *objCheck) denseGroup(name string, out *Outcome, d, ns, stb *Term) {
	c, st := o.c, out.St
	name += " Nodes"
	list := func(rule, member string, f func(st *State, got, e *Term) bool) {
		why := mapped(st, o.member(st, d, "DenseNodes", member), ns, f)
		c.Want(why == "", rule, name+" "+member, out.Pos, "%s of the nodes: %s", member, why)
	}
	list(o.rule, "Id", func(st *State, got, e *Term) bool {
		return stripConv(got, 64) == stripConv(o.member(st, e, "HLNode", "Id"), 64)
	})
	g := stripConv(o.member(st, o.pblk, "PrimitiveBlock", "Granularity"), 64)
	for _, ax := range []string{"Lat", "Lon"} {
		off := o.member(st, o.pblk, "PrimitiveBlock", ax+"Offset")
		list(either(o.coord, o.rule), ax, func(st *State, got, e *Term) bool {
			w := Sub(o.member(st, e, "HLNode", ax), off)
			return equal(st, got, bitOp("div", w, g, tI64)) || g == Int(1) && equal(st, got, w)
		})
	}
	if o.rule == "" {
		return
	}
	kv := o.member(st, d, "DenseNodes", "KeyVals")
	note := o.keyVals(out, d, kv, ns, stb)
	c.Want(note == "", o.rule, name+" tags", out.Pos, "the tags of the nodes: %s", note)
}

func isTagsOf(st *State, o *objCheck, m, x *Term, T string) bool {
	return m == o.member(st, x, T, "Tags")
}

func (o *objCheck) keyVals(out *Outcome, d, kv, ns, stb *Term) string {
	st := out.St
	evs := st.ev.list()
	check := func(kv *Term) string {
		em, why := grow(st.snap(kv, types.Typ[types.Int32]), nil, evs)
		if why != "" {
			return why
		}
		if len(em) == 0 && knownEmpty(st, ns) {
			return ""
		}
		if len(em) != 1 || em[0].L == nil || em[0].L.Trip != Len(ns) {
			return "they are not collected in one loop over every node"
		}
		L := em[0].L
		for i, p := range em[0].per {
			it := L.Iters[i]
			n := it.St.elem(ns, L.K, elemType(ns.T))
			tags := o.member(it.St, n, "HLNode", "Tags")
			if len(p) == 0 || len(p[len(p)-1].words) != 1 || stripConv(p[len(p)-1].words[0], 32) != tZero {
				return "the tags of a node do not end with zero"
			}
			p = p[:len(p)-1]
			if len(p) == 0 {
				if k, v := it.St.decide(Eq(mapLen(mapContentOf(it.St, tags)), tZero)); k && v {
					continue
				}
				return "the tags of a node can be left out"
			}
			if len(p) != 1 || p[0].run == nil || !p[0].run.isOp("mlin") || p[0].run.Args[0] != stb || p[0].run.Args[1] != tags {
				return "the list for a node is not made of its own tags"
			}
		}
		return ""
	}
	if !knownEmpty(st, kv) {
		return check(kv)
	}
	if knownEmpty(st, ns) {
		return ""
	}
	// dropped: only if it is known that no node has tags
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, lv := range e.Loop.Order {
			if k, v := st.decide(Eq(Len(lv.Sym), Len(ns))); k && v && check(lv.Sym) == "" {
				return ""
			}
			for _, l2 := range e.Loop.Order {
				if k, v := st.decide(Eq(Len(lv.Sym), Len(l2.Sym))); lv != l2 && k && v && check(lv.Sym) == "" && mapped(st, l2.Sym, ns, func(*State, *Term, *Term) bool { return true }) == "" {
					return ""
				}
			}
			// a flag that is set by every node with tags
			if k, v := st.decide(lv.Sym); lv.Init == tFalse && k && !v && e.Loop.Trip == Len(ns) {
				ok := true
				for _, it := range e.Loop.Iters {
					tags := o.member(it.St, it.St.elem(ns, e.Loop.K, elemType(ns.T)), "HLNode", "Tags")
					k, v := it.St.decide(Eq(mapLen(mapContentOf(it.St, tags)), tZero))
					ok = ok && (it.Next[lv.Sym] == tTrue || k && v && it.Next[lv.Sym] == lv.Sym)
				}
				if ok {
					return ""
				}
			}
		}
	}
	return "they can be dropped although a node may have tags"
}

func (o *objCheck) entityGroup(name, kind string, out *Outcome, l, src, stb *Term) {
	c := o.c
	st := out.St
	name += " " + kind
	HL, T, idN := "HLWay", "Way", "ID"
	if kind == "Relations" {
		HL, T = "HLRelation", "Relation"
	}
	why := mapped(st, l, src, func(st *State, x, e *Term) bool {
		if !isObj(x) {
			return false
		}
		want := func(why, what string) {
			c.Want(why == "", o.rule, name+" "+what, out.Pos, "the %s of an entity are not those of its object: %s", what, why)
		}
		id := o.member(st, x, T, idN)
		c.Want(stripConv(id, 64) == stripConv(o.member(st, e, HL, "Id"), 64), o.rule, name+" id", out.Pos, "the id of an entity is %v", id)
		tags := o.member(st, e, HL, "Tags")
		ks, vs := o.member(st, x, T, "Keys"), o.member(st, x, T, "Vals")
		t := ""
		if !(ks.isOp("mkeys") && vs.isOp("mvals") && ks.Args[0] == stb && vs.Args[0] == stb && ks.Args[1] == tags && vs.Args[1] == tags) {
			t = fmt.Sprintf("keys %v and values %v", ks, vs)
		}
		want(t, "tags")
		if kind == "Ways" {
			want(mapped(st, o.member(st, x, T, "Refs"), o.member(st, e, HL, "Nodes"), same(64)), "references")
			return true
		}
		want(mapped(st, o.member(st, x, T, "MemIDs"), o.member(st, e, HL, "Members"), same(64)), "members")
		want(mapped(st, o.member(st, x, T, "MemberType"), o.member(st, e, HL, "MemberType"), same(64)), "member types")
		want(mapped(st, o.member(st, x, T, "RolesSID"), o.member(st, e, HL, "Roles"), func(st *State, got, e *Term) bool {
			g := stripConv(got, 32)
			return g.isOp("strix") && g.Args[0] == stb && g.Args[1] == e
		}), "roles")
		return true
	})
	c.Want(why == "", o.rule, name, out.Pos, "the %s of the block are not those given: %s", kind, why)
}

// mapContentOf is the content of a map that the code was given.
func mapContentOf(st *State, m *Term) *Term {
	if v, ok := st.heap[mapCell(m)]; ok {
		return v
	}
	return Op("mcont0", "", nil, m)
}

// denseTags checks the accessor that splits the key/value list of dense nodes.
func (o *objCheck) denseTags() {
	c := o.c
	name := "DenseNodes.GetKeyVals"
	fn := c.need(o.rule, "internal/t."+name)
	if fn == nil || len(fn.Params) != 2 || fn.Signature.Results().Len() != 2 {
		c.Bad(o.rule, name, fn, "not decided: unexpected signature")
		return
	}
	in := c.interp()
	dn, idx := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
	kv := o.member(newState(), dn, "DenseNodes", "KeyVals")
	n := 0
	fields := map[int]bool{}
	dT := c.P.Named("internal/t.DenseNodes")
	fieldOf := func(t *Term) int {
		for i := 0; i < under(dT).(*types.Struct).NumFields(); i++ {
			if t == newState().load(FieldAddrT(dn, i, dT), under(dT).(*types.Struct).Field(i).Type()) {
				return i
			}
		}
		return -1
	}
	for _, out := range c.run(in, fn, []*Term{dn, idx}, newState()) {
		if out.Kind != ORet {
			continue
		}
		n++
		st := out.St
		bad := func(pos any, f string, a ...any) { c.Bad(o.rule, name, pos, f, a...) }
		if knownEmpty(st, kv) {
			for i, r := range out.Rets {
				c.Want(r == tNil || knownEmpty(st, r), o.rule, name, out.Pos, "result %d without any tags is %v", i, r)
			}
			continue
		}
		var L *LoopInfo
		for _, e := range st.ev.list() {
			if e.Loop != nil {
				if L != nil {
					bad(e.Pos, "not decided: two loops over the list")
				}
				L = e.Loop
			}
		}
		if L == nil {
			// split before
			for i, r := range out.Rets {
				f := -1
				for j := 0; j < under(dT).(*types.Struct).NumFields(); j++ {
					l := newState().load(FieldAddrT(dn, j, dT), under(dT).(*types.Struct).Field(j).Type())
					if s, ok := under(l.T).(*types.Slice); ok && r == newState().elem(l, idx, s.Elem()) {
						f = j
					}
				}
				if f < 0 {
					bad(out.Pos, "not decided: result %d is %v", i, r)
					continue
				}
				fields[f] = true
				fields[100*(i+1)+f] = true
				l := newState().load(FieldAddrT(dn, f, dT), under(dT).(*types.Struct).Field(f).Type())
				k, v := st.decide(Eq(Len(l), tZero))
				if i == 0 {
					c.Want(k && !v, o.rule, name, out.Pos, "the lists kept are used although they may not have been made")
				}
			}
			continue
		}
		var pos, ck, cv, lk, lv *LoopVar
		for _, v := range L.Order {
			switch {
			case v.Init == tZero && isInteger(v.Sym.T):
				pos = v
			case out.Rets[0] == st.elem(v.Sym, idx, elemType(out.Rets[0].T)) || selectsFrom(st, out.Rets[0], v.Sym, idx):
				lk = v
			case selectsFrom(st, out.Rets[1], v.Sym, idx):
				lv = v
			}
		}
		if pos == nil || lk == nil || lv == nil {
			bad(L.Pos, "not decided: the position and the lists made")
			continue
		}
		if k, v := st.decide(Eq(Len(kv), tZero)); !k || v {
			bad(out.Pos, "without any tags, the lists made are empty, and there is nothing to return from them")
		}
		if k, v := st.decide(Lt(pos.Sym, Len(kv), false)); !k || v {
			bad(L.Pos, "the loop can end before the end of the list")
		}
		for i, l := range []*LoopVar{lk, lv} {
			if f := fieldOf(l.Init); f >= 0 {
				fields[f] = true
				fields[100*(i+1)+f] = true
			} else if !(l.Init == tNil || Len(l.Init) == tZero) {
				bad(L.Pos, "the lists made do not start empty (%v)", l.Init)
			}
		}
		cur := func(it *Iter, l *LoopVar) *LoopVar {
			a, ok := appendedTo(it.Next[l.Sym], l.Sym)
			if !ok || len(a) != 1 {
				return nil
			}
			x := loopVarOf(a[0])
			if x == nil || L.Vars[x.Sym] == nil {
				return nil
			}
			return x
		}
		for _, it := range L.Iters {
			if it.Next[lk.Sym] != lk.Sym {
				ck, cv = cur(it, lk), cur(it, lv)
			}
		}
		if ck == nil || cv == nil || ck == cv {
			bad(L.Pos, "the tags of a node are not finished together")
			continue
		}
		fresh := func(t *Term) bool {
			if t == tNil {
				return true
			}
			if t == nil || Len(t) != tZero || !t.isOp("slice") {
				return false
			}
			return isObj(t.Args[0]) && t.Args[3] == tZero || isObj(t.Args[0]) && objNum(t.Args[0]) > L.ObjMark
		}
		empty := func(t *Term) bool { return t == tNil || t != nil && Len(t) == tZero }
		if !empty(ck.Init) || !empty(cv.Init) {
			bad(L.Pos, "the tags of the first node do not start empty")
		}
		for _, it := range L.Iters {
			e := newState().elem(kv, pos.Sym, types.Typ[types.Int32])
			k, zero := it.St.decide(Eq(e, tZero))
			if !k {
				bad(L.Pos, "whether a value ends the tags of a node does not depend on its being zero")
				continue
			}
			step := Sub(it.Next[pos.Sym], pos.Sym)
			if zero {
				c.Want(step == Int(1), o.rule, name+" end", L.Pos, "after the end of a node's tags, the position advances by %v", step)
				c.Want(cur(it, lk) == ck && cur(it, lv) == cv, o.rule, name+" end", L.Pos, "the tags of a node are not put into the lists at its end")
				c.Want(fresh(it.Next[ck.Sym]) && fresh(it.Next[cv.Sym]), o.rule, name+" end", L.Pos, "the tags of the next node do not start with new lists (%v, %v)", it.Next[ck.Sym], it.Next[cv.Sym])
				continue
			}
			c.Want(step == Int(2), o.rule, name+" tag", L.Pos, "after a tag, the position advances by %v", step)
			c.Want(it.Next[lk.Sym] == lk.Sym && it.Next[lv.Sym] == lv.Sym, o.rule, name+" tag", L.Pos, "a tag ends a node")
			for i, v := range []*LoopVar{ck, cv} {
				a, ok := appendedTo(it.Next[v.Sym], v.Sym)
				w := newState().elem(kv, Add(pos.Sym, Int(int64(i))), types.Typ[types.Int32])
				c.Want(ok && len(a) == 1 && stripConv(a[0], 32) == w, o.rule, name+" tag", L.Pos, "the %s of a tag is %v", []string{"key", "value"}[i], it.Next[v.Sym])
			}
		}
		// what was made is kept under the members that later calls use
		for i, l := range []*LoopVar{lk, lv} {
			if l.Cell == nil {
				for f := range fields {
					if f < 100 && fields[100*(i+1)+f] {
						got := st.load(FieldAddrT(dn, f, dT), under(dT).(*types.Struct).Field(f).Type())
						c.Want(got == l.Sym, o.rule, name+" kept", out.Pos, "what was made is not what is kept (%v)", got)
					}
				}
			}
		}
	}
	for f := range fields {
		if f < 100 && fields[100+f] && fields[200+f] {
			c.Bad(o.rule, name, fn, "keys and values come from the same list")
		}
	}
	// nobody else writes the lists kept
	for _, g := range c.P.Funcs() {
		if in.Visited[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !fields[fa.Field] || !types.Identical(under(fa.X.Type()).(*types.Pointer).Elem(), dT) {
					continue
				}
				for _, r := range *fa.Referrers() {
					if _, w := r.(*ssa.Store); w {
						c.Bad(o.rule, name+" kept", r.Pos(), "the lists kept are also written here")
					}
				}
			}
		}
	}
	c.Want(n > 0, o.rule, name, fn, "never returns")
}

// selectsFrom: r is element i of the list.
func selectsFrom(st *State, r, list, i *Term) bool {
	s, ok := under(list.T).(*types.Slice)
	return ok && r == st.elem(list, i, s.Elem())
}

// getString checks the accessor of the string table.
func (o *objCheck) getString() {
	c := o.c
	name := "PrimitiveBlock.GetString"
	fn := c.P.Func("internal/t." + name)
	if fn == nil {
		return
	}
	in := c.interp()
	p, id := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
	o.pblk = p
	for _, out := range c.run(in, fn, []*Term{p, id}, newState()) {
		if out.Kind == ORet {
			c.Want(o.isString(out.St, out.Rets[0], id), o.rule, name, out.Pos, "the string returned is %v", out.Rets[0])
		}
	}
}

func init() {
	register("C30", "symbolic list comprehension: each conversion is interpreted for an arbitrary block; nested loops are read as list comprehensions over groups and entities and must produce exactly one object per entity, in order, with no early exit, skipped group or list started anew; each member of an object must be the prescribed function of the same entity's member at the same position (tags: key and value strings at one index of the two lists; dense tags: the pairs between the terminators belonging to that node); building a block is checked in the same way in the other direction, including the index lists that the string table builder derives from a tag map",
		func(c *Ctx) {
			o := &objCheck{c: c, rule: "objects"}
			for _, k := range []string{"Nodes", "Ways", "Relations"} {
				k := k
				c.Try("objects", "To"+k, nil, func() { o.toObjects(k) })
			}
			c.Try("objects", "GetString", nil, func() { o.getString() })
			c.Try("objects", "GetKeyVals", nil, func() { o.denseTags() })
			c.keyLists("objects", "")
			c.Try("objects", "MakePrimitiveBlock", nil, func() { o.makeBlock() })
			c.Min("objects", 20)
		}, "tag keys of nodes are not empty (a dense key/value list cannot represent an empty key)", "at most 2^31 strings in a block")
}
