package main

// C29: what tag filtering removes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// objectHooks makes the conversions between blocks and objects (C30) abstract operations.
func objectHooks(in *Interp) {
	for _, k := range []string{"Nodes", "Ways", "Relations"} {
		k := k
		fn := in.P.Func("internal/t.PrimitiveBlock.To" + k)
		if fn == nil {
			continue
		}
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			r := Op("objs", k, c.Sig.Results().At(0).Type(), c.Args[0])
			c.St.emit(&Ev{Kind: "toobjs", Name: k, Args: c.Args, Ret: r, Pos: c.Pos, In: c.In})
			return retOne(c.St, r)
		}
	}
	if fn := in.P.Func("internal/t.MakePrimitiveBlock"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			var l []*Term
			for _, a := range c.Args {
				l = append(l, c.St.snap(a, elemType(a.T)))
			}
			r := Op("mkblock", "", c.Sig.Results().At(0).Type(), l...)
			c.St.emit(&Ev{Kind: "mkblock", Args: c.Args, Ret: r, Pos: c.Pos, In: c.In, Snap: c.St.clone()})
			return retOne(c.St, r)
		}
	}
}

func init() {
	register("C29", "abstract interpretation with symbolic lists and maps: the tag filtering worker is interpreted for an arbitrary block; its loop over the nodes is summarised: every node is visited once, a loop over all tags of the node deletes a tag on exactly the paths where its key equals an entry of the list of keys or starts with an entry of the list of prefixes (a path that keeps the tag must have compared the key with every entry of both lists), the node is put at the next position of the output exactly if its number of tags is then not zero, and each path counts the node once, as kept or dropped; ways and relations reach the new block as they were decoded, nothing else of the objects is stored to, and a block is answered with an empty one only if nothing is left of it",
		func(c *Ctx) {
			const rule = "filter"
			n := 0
			for _, f := range c.flowsPrep(rule, false, func(in *Interp) {
				objectHooks(in)
				in.TraceMem = true
				in.KeepPaths = true
			}) {
				filters := false
				for _, g := range f.work.segs {
					eachEv(g.evs, func(e *Ev) { filters = filters || e.Kind == "mkblock" })
				}
				if !filters {
					continue
				}
				n++
				f := f
				c.Try(rule, f.workS.name(), f.workS.Fn, func() { c.tagFilter(rule, f) })
			}
			c.Want(n > 0, rule, "tag filter", nil, "no worker builds blocks from objects")
			c.Min(rule, 6)
		}, "the objects are as C30 decides", "entries of the key and prefix lists are not changed through other references")
}

type tagFilter struct {
	c      *Ctx
	rule   string
	name   string
	hlT    *types.Named
	reason map[string]bool // ways in which a key can be unwanted
	keeps  []func()        // run when all reasons are known
	lookup func(t *Term) string
}

func (c *Ctx) tagFilter(rule string, f *flow) {
	a := &tagFilter{c: c, rule: rule, name: f.workS.name(), hlT: c.P.Named("internal/t.HLNode"), reason: map[string]bool{}}
	if a.hlT == nil {
		c.Bad(rule, a.name, nil, "type HLNode not found")
		return
	}
	answered := 0
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		data := false
		for _, p := range c.inputKinds(rule) {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				data = true
			}
		}
		if !data {
			continue
		}
		var read, mk, send *Ev
		objs := map[string]*Ev{}
		for _, e := range g.evs {
			switch {
			case e.Kind == "readinto" && e.Name == "PrimitiveBlock":
				read = e
			case e.Kind == "toobjs":
				if objs[e.Name] != nil {
					c.Bad(rule, a.name, e.Pos, "not decided: the block is converted twice")
				}
				objs[e.Name] = e
			case e.Kind == "mkblock":
				if mk != nil {
					c.Bad(rule, a.name, e.Pos, "two blocks are made for one")
				}
				mk = e
			case e.Kind == "send":
				send = e
			}
		}
		if read == nil || send == nil {
			c.Bad(rule, a.name, g.Pos, "map data are answered without having been decoded")
			continue
		}
		answered++
		c.wantDecoded(rule, a.name, read, g, "SkipStringTable", "SkipDenseNodes", "SkipWays", "SkipRelations")
		ok := true
		for _, k := range []string{"Nodes", "Ways", "Relations"} {
			if e := objs[k]; e == nil || e.Args[0] != read.Args[0] {
				c.Bad(rule, a.name, send.Pos, "the %s of the block are not taken from it", strings.ToLower(k))
				ok = false
			}
		}
		if !ok {
			continue
		}
		L, kept := a.nodeLoop(g, objs["Nodes"].Ret, send)
		if L == nil {
			continue
		}
		a.effects(g, L, objs)
		a.counters(g, L, kept)
		if mk == nil {
			c.Want(a.leftEmpty(g, L, kept), rule, a.name+" empty answer", send.Pos, "a block is answered without its nodes although some may be left")
			for _, k := range []string{"Ways", "Relations"} {
				c.Want(knownEmpty(g.St, objs[k].Ret), rule, a.name+" empty answer", send.Pos, "a block is answered without its %s although there may be some", strings.ToLower(k))
			}
			continue
		}
		// what the block is made of
		good := len(mk.Args) == 3
		if good {
			good = a.isKept(g, mk.Ret.Args[0], L, kept, mk)
			for i, k := range []string{"Ways", "Relations"} {
				t := mk.Ret.Args[i+1]
				src := objs[k].Ret
				c.Want(t == src || t == newState().snap(src, elemType(src.T)), rule, a.name+" "+strings.ToLower(k), mk.Pos, "the %s of the new block are %v, not those of the block", strings.ToLower(k), t)
			}
		}
		// and that it is what is sent
		sent := false
		for _, e := range g.evs {
			if e.Kind == "writemsg" && e.Name == "Blob" && len(e.Args) > 1 && e.Args[1].contains(mk.Ret) && dataOf(send.Args[1]).contains(e.Ret) {
				sent = true
			}
			if e.Kind == "writemsg" && e.Name == "PrimitiveBlock" && e.Args[0] == mk.Ret && send.Args[1].contains(e.Ret) {
				sent = true
			}
		}
		c.Want(sent && Field(send.Args[1], 2, tString) == Str("OSMData"), rule, a.name+" answer", send.Pos, "the answer is not the new block")
		if good {
			c.Ok(rule, a.name+" block", mk.Pos, "")
		}
	}
	c.Want(answered > 0, rule, a.name, f.workS.Fn, "no path answers map data")
	for _, k := range a.keeps {
		k()
	}
	exact, prefix := "", ""
	for r := range a.reason {
		if strings.HasPrefix(r, "prefix ") {
			prefix = r
		} else {
			exact = r
		}
	}
	c.Want(exact != "", rule, a.name+" keys", f.workS.Fn, "no path removes a tag because its key is listed")
	c.Want(prefix != "", rule, a.name+" prefixes", f.workS.Fn, "no path removes a tag because its key starts with a listed prefix")
	for r := range a.reason {
		for s := range a.reason {
			x, y := strings.SplitN(r, " ", 2), strings.SplitN(s, " ", 2)
			c.Want(!(x[0] != "prefix" && y[0] == "prefix" && x[1] == y[1]), rule, a.name+" lists", f.workS.Fn, "the same list is used for whole keys and for prefixes")
		}
	}
	a.lists(f)
}

// keptList: how the loop over the nodes collects those that are kept.
type keptList struct {
	cont, idx *LoopVar // compaction in a list, up to the index
	app       *LoopVar // appending
}

// nodeLoop finds the loop in which the nodes are filtered and checks it.
func (a *tagFilter) nodeLoop(g *segment, nodes *Term, send *Ev) (*LoopInfo, *keptList) {
	c := a.c
	var L *LoopInfo
	for _, e := range g.evs {
		if e.Loop == nil || e.Loop.Trip != Len(nodes) {
			continue
		}
		del := false
		for _, it := range e.Loop.Iters {
			eachEv(it.St.ev.list(), func(x *Ev) {
				if (x.Kind == "mapdelete" || x.Kind == "mapupdate") && x.Args[0].any(func(y *Term) bool { return y.isOp("fld") || y.isOp("obj") }) {
					del = true
				}
			})
		}
		if del {
			if L != nil {
				c.Bad(a.rule, a.name, e.Pos, "not decided: two loops change the tags of nodes")
				return nil, nil
			}
			L = e.Loop
		}
	}
	if L == nil {
		c.Bad(a.rule, a.name, send.Pos, "no loop visits every node exactly once and removes its tags")
		return nil, nil
	}
	k := &keptList{}
	arr, _ := arrOf(nodes)
	for _, lv := range L.Order {
		appends := false
		for _, it := range L.Iters {
			n := it.Next[lv.Sym]
			if n == nil || n == lv.Sym {
				continue
			}
			switch {
			case n.isOp("store") && n.Args[0] == lv.Sym && (lv.Init == Op("cont0", "", nil, arr) || lv.Cell != nil && n.Args[2] != nil && a.isNode(n.Args[2], nodes, L)):
				k.cont = lv
			case n.isOp("app") && n.Args[0] == lv.Sym:
				appends = true
			}
		}
		if appends && (lv.Init == tNil || Len(lv.Init) == tZero) {
			k.app = lv
		}
	}
	if k.cont != nil {
		for _, it := range L.Iters {
			n := it.Next[k.cont.Sym]
			if n.isOp("store") {
				lv := loopVarOf(n.Args[1])
				if lv == nil || L.Vars[lv.Sym] == nil || lv.Init != tZero || k.idx != nil && k.idx != lv {
					c.Bad(a.rule, a.name, L.Pos, "the nodes kept are not put one after the other (%v)", n.Args[1])
					return nil, nil
				}
				k.idx = lv
			}
		}
	}
	if k.idx == nil {
		k.cont = nil
	}
	if k.cont == nil && k.app == nil {
		c.Bad(a.rule, a.name, L.Pos, "not decided: how the nodes kept are collected")
		return nil, nil
	}
	for pi, it := range L.Iters {
		pn := fmt.Sprintf("%s node path %d", a.name, pi)
		node := a.node(it.St, nodes, L, k)
		// the list
		kept := false
		switch {
		case k.app != nil:
			l, ok := appendedTo(it.Next[k.app.Sym], k.app.Sym)
			if !ok || len(l) > 1 || len(l) == 1 && !a.isNode(l[0], nodes, L) {
				c.Bad(a.rule, pn, L.Pos, "a node is kept as something else (%v)", it.Next[k.app.Sym])
				continue
			}
			kept = len(l) == 1
		default:
			nc, ni := it.Next[k.cont.Sym], it.Next[k.idx.Sym]
			switch {
			case ni == k.idx.Sym && nc == k.cont.Sym:
			case ni == Add(k.idx.Sym, Int(1)) && nc.isOp("store") && nc.Args[0] == k.cont.Sym && nc.Args[1] == k.idx.Sym && a.isNode(nc.Args[2], nodes, L):
				kept = true
			default:
				c.Bad(a.rule, pn, L.Pos, "a node is not kept at the end of the list (%v, next position %v)", nc, ni)
				continue
			}
		}
		after, why := a.tags(it, node)
		if why != "" {
			c.Bad(a.rule, pn, L.Pos, "%s", why)
			continue
		}
		n := mapLen(after)
		has, v := it.St.decide(Eq(n, tZero))
		if after.isOp("mzero") {
			has, v = true, true
		}
		if !has {
			c.Bad(a.rule, pn, L.Pos, "whether a node is kept does not depend on whether tags are left")
			continue
		}
		if kept == v {
			if v {
				c.Bad(a.rule, pn, L.Pos, "a node without tags is kept")
			} else {
				c.Bad(a.rule, pn, L.Pos, "a node that has tags is dropped")
			}
			continue
		}
		c.Ok(a.rule, pn, L.Pos, "")
	}
	return L, k
}

// isNode: t is the node of this iteration.  In a list that is compacted in place the positions from the
// current one on are still as they were, because the next free position is never beyond it.
func (a *tagFilter) isNode(t, nodes *Term, L *LoopInfo) bool {
	arr, _ := arrOf(nodes)
	if t == newState().elem(nodes, L.K, elemType(nodes.T)) {
		return true
	}
	if !t.isOp("select") || t.Args[1] != L.K {
		return false
	}
	lv := loopVarOf(t.Args[0])
	return lv != nil && L.Vars[lv.Sym] != nil && lv.Init == Op("cont0", "", nil, arr)
}

func (a *tagFilter) node(st *State, nodes *Term, L *LoopInfo, k *keptList) *Term {
	if k.cont != nil {
		arr, _ := arrOf(nodes)
		if k.cont.Init == Op("cont0", "", nil, arr) {
			return Select(k.cont.Sym, L.K, elemType(nodes.T))
		}
	}
	return newState().elem(nodes, L.K, elemType(nodes.T))
}

// tags is the content of the node's tags at the end of the iteration; every change is checked.
func (a *tagFilter) tags(it *Iter, node *Term) (*Term, string) {
	i := FieldIndex(a.hlT, "Tags")
	if i < 0 {
		return nil, "not decided: the tags of a node"
	}
	T := under(a.hlT).(*types.Struct).Field(i).Type()
	addr := FieldAddrT(node, i, a.hlT)
	m0 := newState().load(addr, T)
	m1 := it.St.load(addr, T)
	ct := mapContentOf(it.St, m1)
	same := m1 == m0
	if !same && !isObj(m1) {
		return nil, fmt.Sprintf("the tags of a node are replaced by %v", m1)
	}
	lv := loopVarOf(ct)
	if lv == nil {
		if same && it.St.heap[mapCell(m0)] == nil {
			// not changed: no tags at all
			if k, v := it.St.decide(Eq(mapLen(ct), tZero)); k && v {
				return Op("mzero", "", nil), ""
			}
			return nil, "the tags of a node are left without having been looked at"
		}
		return nil, fmt.Sprintf("not decided: the tags of a node (%v)", ct)
	}
	M := findLoop(it.St.ev.list(), lv)
	if M == nil {
		return nil, "not decided: the loop over the tags of a node"
	}
	fresh := lv.Init.isOp("mzero") || !same && lv.Init.isOp("cont0") && isObj(m1)
	if same == fresh {
		return nil, fmt.Sprintf("the tags of a node start as %v", lv.Init)
	}
	if !rangeComplete(it.St, M, m0) {
		return nil, "the loop over the tags of a node can leave some out"
	}
	for pi, p := range M.Iters {
		r := rangeTerm(p, M, m0)
		key := Op("rkey", "", tString, r, M.K)
		n := p.Next[lv.Sym]
		removed := false
		switch {
		case same && n == lv.Sym:
		case same && n.isOp("mdel") && n.Args[0] == lv.Sym && n.Args[1] == key:
			removed = true
		case !same && n == lv.Sym:
			removed = true
		case !same && n.isOp("mstore") && n.Args[0] == lv.Sym && n.Args[1] == key && (isRangeOf(n.Args[2], "rval", m0, M) || n.Args[2].isOp("mget") && n.Args[2].Args[1] == key && n.Args[2].Args[0] == Op("mcont0", "", nil, m0)):
		default:
			return nil, fmt.Sprintf("a tag makes the tags of its node %v", n)
		}
		pn := fmt.Sprintf("%s tag path %d", a.name, pi)
		if removed {
			rs := a.unwanted(p, key, true)
			if len(rs) == 0 {
				a.c.Bad(a.rule, pn, M.Pos, "a tag is removed although its key is not known to be listed or to start with a listed prefix")
				continue
			}
			for _, s := range rs {
				a.reason[s] = true
			}
			a.c.Ok(a.rule, pn, M.Pos, "")
			continue
		}
		p := p
		a.keeps = append(a.keeps, func() {
			neg := map[string]bool{}
			for _, s := range a.unwanted(p, key, false) {
				neg[s] = true
			}
			all := true
			for s := range a.reason {
				if !neg[s] {
					all = false
					a.c.Bad(a.rule, pn, M.Pos, "a tag is kept on a path that has not established that its key is wanted (%s)", s)
				}
			}
			if all {
				a.c.Ok(a.rule, pn, M.Pos, "")
			}
		})
	}
	return ct, ""
}

// testOf recognises a condition on the key: it equals, or starts with, something.
func testOf(t, key *Term) (kind string, x *Term) {
	switch {
	case t.isOp("eq") && t.Args[1] == tZero && isIntTerm(key):
		// numbers: the difference is zero
		for _, x := range []*Term{Add(t.Args[0], key), Sub(key, t.Args[0])} {
			if x.isOp("select") {
				return "is", x
			}
		}
		return "", nil
	case t.isOp("eq") && t.Args[0] == key:
		return "is", t.Args[1]
	case t.isOp("eq") && t.Args[1] == key:
		return "is", t.Args[0]
	case t.isOp("pure") && t.S == "strings.HasPrefix" && t.Args[0] == key:
		return "prefix", t.Args[1]
	case t.isOp("eq"):
		for i := 0; i < 2; i++ {
			if s := t.Args[i]; s.isOp("substr") && s.Args[0] == key && s.Args[1] == tZero && s.Args[2] == Len(t.Args[1-i]) {
				return "prefix", t.Args[1-i]
			}
		}
	case t.isOp("mhas") && t.Args[1] == key, t.isOp("mget") && t.Args[1] == key:
		if t.Args[0].isOp("mcont0") {
			return "in", t.Args[0].Args[0]
		}
		if loopVarOf(t.Args[0]) != nil {
			return "in", t // a map built by a loop
		}
	}
	return "", nil
}

// unwanted lists the reasons for removing the key that hold (or are excluded) on a path.
func (a *tagFilter) unwanted(p *Iter, key *Term, holds bool) []string {
	var r []string
	list := func(kind string, x *Term, k *Term) string {
		// an entry of a global list
		if x.isOp("select") && (k == nil || x.Args[1] == k) && x.Args[0].isOp("cont0") {
			if l := entryOf(x); l != nil && a.named(l) != "" {
				return kind + " " + a.named(l)
			}
		}
		return ""
	}
	done := func(k *Term, g string) bool { // the loop went through the whole list
		for c, v := range p.St.lits {
			if v || !c.isOp("lt") || c.Args[1] != tZero {
				continue
			}
			n := Sub(k, c.Args[0])
			if n.isOp("len") && a.named(n.Args[0]) == g {
				return true
			}
		}
		return false
	}
	for c, v := range p.St.lits {
		kind, x := testOf(c, key)
		if kind == "" {
			continue
		}
		switch {
		case kind == "in":
			if v == holds && a.named(x) != "" {
				r = append(r, "is "+a.named(x))
			}
		case x.K == KStr:
			if v == holds {
				r = append(r, kind+" "+x.String())
			}
		case holds && v:
			if s := list(kind, x, nil); s != "" {
				r = append(r, s)
			}
		}
	}
	for _, e := range p.St.ev.list() {
		if e.Loop == nil {
			continue
		}
		M := e.Loop
		// the test made in every iteration in which the search goes on
		common := map[string]bool{}
		for i, it := range M.Iters {
			here := map[string]bool{}
			for c, v := range it.St.lits {
				if kind, x := testOf(c, key); kind != "" && !v && x.isOp("select") {
					if s := list(kind, x, M.K); s != "" {
						here[s] = true
					}
				}
				if c.isOp("lt") {
					// the key is shorter than the entry: it does not start with it
					less := Sub(c.Args[0], c.Args[1])
					if !v {
						less = Sub(Int(-1), less)
					}
					if n := Sub(Len(key), less); n.isOp("len") {
						if s := list("prefix", n.Args[0], M.K); s != "" {
							here[s] = true
						}
					}
				}
			}
			for s := range common {
				if !here[s] {
					delete(common, s)
				}
			}
			if i == 0 {
				common = here
			}
		}
		if !holds {
			for s := range common {
				g := strings.SplitN(s, " ", 2)[1]
				if M.Trip != nil && M.Trip.isOp("len") && a.named(M.Trip.Args[0]) == g || done(M.K, g) {
					r = append(r, s)
				}
			}
		}
		// a flag that is set when a test succeeds
		for _, lv := range M.Order {
			if lv.Init != tFalse {
				continue
			}
			k, v := p.St.decide(lv.Sym)
			if !k {
				continue
			}
			g := ""
			if M.Trip != nil && M.Trip.isOp("len") {
				if g = a.named(M.Trip.Args[0]); g == "" {
					continue
				}
			}
			var s string
			ok := true
			for _, it := range M.Iters {
				n := it.Next[lv.Sym]
				if n == nil {
					ok = false
					continue
				}
				if n.isOp("or") || n.K == KOp && n != lv.Sym && n != tTrue {
					if kind, x := testOf(n, key); kind != "" {
						s = list(kind, x, M.K)
						if kk, vv := it.St.decide(lv.Sym); s != "" && kk && !vv {
							continue
						}
					}
					ok = false
					continue
				}
				test, found := "", false
				for c, v := range it.St.lits {
					if kind, x := testOf(c, key); kind != "" {
						if t := list(kind, x, M.K); t != "" {
							test, found = t, v
						}
					}
				}
				was, wv := it.St.decide(lv.Sym)
				switch {
				case n == tTrue && (test != "" && found || was && wv):
				case n == lv.Sym && (test != "" && !found || was && wv):
				default:
					ok = false
				}
				if test != "" {
					s = test
				}
			}
			if ok && s != "" && g == "" && !v { // a search that may end early: here it did not
				ok = done(M.K, strings.SplitN(s, " ", 2)[1])
			}
			if ok && s != "" && v == holds {
				r = append(r, s)
			}
		}
	}
	return r
}

// globalOf: the name of the global variable whose value t is.
// named is the name of a list keys are looked up in.
func (a *tagFilter) named(t *Term) string {
	if a.lookup != nil {
		return a.lookup(t)
	}
	return globalOf(t)
}

func globalOf(t *Term) string {
	if t.isOp("load") && t.Args[0].isOp("glob") {
		return t.Args[0].S
	}
	return ""
}

// isKept: t is the list of the nodes kept, whole.
func (a *tagFilter) isKept(g *segment, t *Term, L *LoopInfo, k *keptList, mk *Ev) bool {
	ok := false
	switch {
	case k.app != nil:
		ok = t == k.app.Sym
	default:
		ok = t.isOp("seq") && t.Args[0] == k.cont.Sym && t.Args[1] == tZero && t.Args[2] == k.idx.Sym
	}
	a.c.Want(ok, a.rule, a.name+" nodes", mk.Pos, "the nodes of the new block are %v, not those that were kept", t)
	return ok
}

func (a *tagFilter) leftEmpty(g *segment, L *LoopInfo, k *keptList) bool {
	if k.app != nil {
		return knownEmpty(g.St, k.app.Sym) || notPositive(g.St, Len(k.app.Sym))
	}
	return notPositive(g.St, k.idx.Sym)
}

// notPositive: x <= 0, possibly because x plus something that is not negative is not positive.
func notPositive(st *State, x *Term) bool {
	if _, hi := st.bounds(x); hi <= 0 {
		return true
	}
	if k, v := st.decide(Eq(x, tZero)); k && v {
		return true
	}
	for q, b := range st.ivs {
		for _, s := range []int64{1, -1} {
			if s == 1 && b.hi > 0 || s == -1 && b.lo < 0 {
				continue
			}
			if lo, _ := st.bounds(Sub(Scale(q, s), x)); lo >= 0 {
				return true
			}
		}
	}
	return false
}

// effects: nothing else of the objects is changed.
func (a *tagFilter) effects(g *segment, L *LoopInfo, objs map[string]*Ev) {
	c := a.c
	from := func(t *Term) string {
		r := ""
		t.any(func(x *Term) bool {
			for k, e := range objs {
				if x == e.Ret {
					r = k
				}
			}
			if lv := loopVarOf(x); lv != nil && lv.Init != nil && r == "" {
				lv.Init.any(func(y *Term) bool {
					for k, e := range objs {
						if y == e.Ret {
							r = k
						}
					}
					return r != ""
				})
			}
			return r != ""
		})
		return r
	}
	inL := map[*Ev]bool{}
	for _, it := range L.Iters {
		eachEv(it.St.ev.list(), func(e *Ev) { inL[e] = true })
	}
	i := FieldIndex(a.hlT, "Tags")
	eachEv(g.evs, func(e *Ev) {
		switch e.Kind {
		case "store":
			k := from(e.Args[0])
			if k == "" {
				return
			}
			if k == "Nodes" && inL[e] && (e.Args[0].isOp("idx") || e.Args[0].isOp("fld") && e.Args[0].S == fmt.Sprint(i)) {
				return // judged with the loop
			}
			c.Bad(a.rule, a.name+" effects", e.Pos, "%s is changed", e.Args[0])
		case "mapdelete", "mapupdate":
			k := from(e.Args[0])
			if k == "" || k == "Nodes" && inL[e] {
				return
			}
			c.Bad(a.rule, a.name+" effects", e.Pos, "the tags of %s are changed", strings.ToLower(k))
		case "call", "dynamic", "copy", "sort":
			if e.Kind == "call" && pureCall(e.Name) {
				return
			}
			for j, x := range e.Args {
				if e.Kind == "copy" && j > 0 {
					break
				}
				if x.T != nil && isReference(x.T) && from(x) != "" {
					c.Bad(a.rule, a.name+" effects", e.Pos, "the %s are handed to %s%s", strings.ToLower(from(x)), e.Kind, e.Name)
				}
			}
		}
	})
	c.Ok(a.rule, a.name+" effects", L.Pos, "")
}

// counters: every node is counted once, as kept or as dropped.
func (a *tagFilter) counters(g *segment, L *LoopInfo, k *keptList) {
	c := a.c
	var adds []*Ev
	inLoop := map[*Ev]*Iter{}
	for _, e := range g.evs {
		if e.Kind == "atomic" && strings.Contains(e.Name, "Add") && len(e.Args) == 2 {
			adds = append(adds, e)
		}
		if e.Loop == L {
			for _, it := range L.Iters {
				eachEv(it.St.ev.list(), func(x *Ev) {
					if x.Kind == "atomic" && strings.Contains(x.Name, "Add") {
						inLoop[x] = it
					}
				})
			}
		}
	}
	// by address: the amount that each kind of node adds
	type tally struct{ kept, dropped, bad bool }
	addrs := map[*Term]bool{}
	for _, e := range adds {
		addrs[e.Args[0]] = true
	}
	for e := range inLoop {
		addrs[e.Args[0]] = true
	}
	nk, nd := 0, 0
	for addr := range addrs {
		r := &tally{}
		sawK, sawD := int64(0), int64(0)
		first := true
		for _, it := range L.Iters {
			isK := a.keptPath(it, k)
			d := Int(0)
			for e, i := range inLoop {
				if i == it && e.Args[0] == addr {
					d = Add(d, stripConv(e.Args[1], 64))
				}
			}
			for _, e := range adds {
				if e.Args[0] != addr {
					continue
				}
				// before the loop L.Trip stands for what the loop counts up to
				v := stripConv(e.Args[1], 64)
				if L.Trip != nil && L.Trip.isOp("len") {
					v = subst(v, L.Trip, L.K)
				}
				v0, v1 := v, v
				for _, lv := range L.Order {
					if !v.contains(lv.Sym) {
						continue
					}
					v1 = subst(v1, lv.Sym, it.Next[lv.Sym])
					v0 = subst(v0, lv.Sym, lv.Init)
				}
				v1 = subst(v1, L.K, Add(L.K, Int(1)))
				v0 = subst(v0, L.K, tZero)
				if v0 != tZero {
					r.bad = true
				}
				d = Add(d, Sub(stripAll(v1), stripAll(v)))
			}
			if d.K != KInt {
				r.bad = true
				continue
			}
			if isK {
				if !first && sawK != 0 && sawK != d.I {
					r.bad = true
				}
				sawK = d.I
			} else {
				sawD = d.I
			}
			first = false
		}
		fn := addr.String()
		switch {
		case r.bad:
			c.Bad(a.rule, a.name+" counters", L.Pos, "not decided: what is added to %s", fn)
		case sawK == 1 && sawD == 0:
			nk++
			a.label(addr, "kept", L)
		case sawK == 0 && sawD == 1:
			nd++
			a.label(addr, "dropped", L)
		case sawK == 0 && sawD == 0:
		default:
			c.Bad(a.rule, a.name+" counters", L.Pos, "a node kept adds %d to %s, one dropped %d", sawK, fn, sawD)
		}
	}
	c.Want(nk == 1 && nd == 1, a.rule, a.name+" counters", L.Pos, "the nodes are not counted once each, as kept (%d counters) or dropped (%d counters)", nk, nd)
}

func stripAll(t *Term) *Term { return stripConv(t, 64) }

func (a *tagFilter) keptPath(it *Iter, k *keptList) bool {
	if k.app != nil {
		return it.Next[k.app.Sym] != k.app.Sym
	}
	return it.Next[k.idx.Sym] != k.idx.Sym
}

// label: the counter is shown under its own name.
func (a *tagFilter) label(addr *Term, want string, L *LoopInfo) {
	c := a.c
	if !addr.isOp("fld") {
		return
	}
	for _, fn := range c.P.Funcs() {
		if !formats(fn, "%d "+want) || len(fn.Params) == 0 {
			continue
		}
		fn := fn
		c.Try(a.rule, fn.Name(), fn, func() {
			in := c.interp()
			var args []*Term
			for _, p := range fn.Params {
				args = append(args, symArg(in, p))
			}
			for _, o := range c.run(in, fn, args, newState()) {
				src := map[*Term]*Term{}
				eachEv(o.St.ev.list(), func(e *Ev) {
					if e.Kind == "atomic" && len(e.Args) == 1 && e.Ret != nil {
						src[e.Ret] = e.Args[0]
					}
				})
				eachEv(o.St.ev.list(), func(e *Ev) {
					for _, t := range e.Args {
						t.any(func(x *Term) bool {
							for _, v := range verbs(x) {
								w := stripIface(v.arg)
								if src[w] != nil {
									w = src[w]
								}
								if strings.HasPrefix(v.after, " "+want) {
									c.Want(w.isOp("fld") && w.S == addr.S, a.rule, a.name+" counter shown as "+want, e.Pos, "%v is shown as the number of nodes %s", w, want)
								}
							}
							return false
						})
					}
				})
			}
		})
	}
}

type verb struct {
	before, after string
	arg           *Term
}

// verbs: the verbs of a formatted string with their values and the text around them.
func verbs(t *Term) []verb {
	if !t.isOp("pure") || t.S != "fmt.Sprintf" || len(t.Args) != 2 || t.Args[0].K != KStr || !t.Args[1].isOp("list") {
		return nil
	}
	return verbsOf(t.Args[0].S, t.Args[1].Args)
}

func verbsOf(f string, args []*Term) []verb {
	var r []verb
	last := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if len(r) > 0 {
			r[len(r)-1].after = f[last:i]
		}
		if len(r) >= len(args) {
			return nil
		}
		r = append(r, verb{before: f[last:i], arg: args[len(r)]})
		last = j + 1
		i = j
	}
	if len(r) > 0 && last <= len(f) {
		r[len(r)-1].after = f[last:]
	}
	return r
}

func stripIface(t *Term) *Term {
	for t.isOp("iface") {
		t = t.Args[0]
	}
	return t
}

// formats: the function has a string constant that contains s.
func formats(fn *ssa.Function, s string) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), s) {
					return true
				}
			}
		}
	}
	return false
}

// lists: the lists of keys and prefixes are only set when the program starts.
func (a *tagFilter) lists(f *flow) {
	for r := range a.reason {
		g := strings.SplitN(r, " ", 2)[1]
		for _, fn := range a.c.P.Funcs() {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok || gl.String() != g {
							continue
						}
						if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						a.c.Bad(a.rule, a.name+" lists", i.Pos(), "the list %s may be changed", gl.Name())
					}
				}
			}
		}
	}
}
