package main

// C11 and C13: how the way index is built and where its reader looks.

import (
	"fmt"
	"go/types"
)

func init() {
	way := func(c *Ctx, layout, dedup string) {
		fl := c.indexFlows("pipeline", "wayentry")
		for _, f := range fl {
			c.Try(layout+dedup, f.workS.name(), f.workS.Fn, func() {
				b := c.wayWriter(layout, f)
				if b == nil {
					if layout == "" {
						c.Bad(dedup, f.workS.name(), f.workS.Fn, "not decided: what the writer does with the payload")
					}
					return
				}
				c.wayWorker(layout, dedup, f, b)
			})
		}
		c.Want(len(fl) > 0, "coverage", "way index builder", nil, "no command that builds a way index was found")
	}
	register("C11", "symbolic write/read layout with congruence tracking: the way index writer, worker and reader are interpreted for arbitrary batches, ways and alignments; entries carry the id of their own way and the position of its location list divided by the alignment; after each way the length of the locations is a multiple of the alignment (reduction of the length polynomial modulo the alignment); the writer rebases by the total written in the same unit; header words, order and offsets of the parts agree with the reader, whose lookup decodes from the entry's offset times the alignment in the header, relative to the locations of the whole index",
		func(c *Ctx) {
			way(c, "layout", "")
			c.wayLayout("reader")
			c.wayLookups("lookup")
			c.Min("layout", 4)
			c.Min("reader", 4)
			c.Min("lookup", 2)
		})
	register("C13", "loop-invariant abstract interpretation: the loop that makes the list stored for a way is summarised for an arbitrary reference; it visits every reference once, in order; on every path whether the reference is kept is decided by comparing it with the reference before it (zero before the first), it is kept exactly if they differ, and what is kept is the reference itself at the end of the list; exactly this list is encoded, with a terminating zero",
		func(c *Ctx) {
			way(c, "", "stored list")
			c.Min("stored list", 1)
		})
}

// wayBatch: what the writer does with the payload.
type wayBatch struct {
	*batch
	shift *Term
}

// shiftOf: t is n divided by two to the power of the result.
func shiftOf(t, n *Term) *Term {
	t = stripConv(t, 64)
	if (t.isOp("shr") || t.isOp("sar")) && stripConv(t.Args[0], 64) == n {
		return t.Args[1]
	}
	if (t.isOp("div") || t.isOp("udiv")) && stripConv(t.Args[0], 64) == n {
		if d := stripConv(t.Args[1], 64); d.isOp("shl") && d.Args[0] == Int(1) {
			return d.Args[1]
		}
	}
	return nil
}

func (c *Ctx) wayWriter(rule string, f *flow) *wayBatch {
	name := f.writS.name()
	b := c.indexBatch(rule, f)
	if b == nil {
		c.Bad(rule, name, f.workS.Fn, "no index data are sent to the writer")
		return nil
	}
	w := &wayBatch{batch: b}
	setShift := func(s *Term, pos any) {
		if w.shift != nil && w.shift != s {
			c.Bad(rule, name+" alignment", pos, "the writer uses two different alignments (%v and %v)", w.shift, s)
		}
		w.shift = s
	}
	for pi, p := range c.ixWriter(rule, f) {
		if p.skip {
			continue
		}
		pn := fmt.Sprintf("%s path %d", name, pi)
		head, why := emission(p.pre, p.idx)
		hw, ok := words(head)
		if why != "" || !ok {
			c.Bad(rule, pn, p.recv.Pos, "not decided: what is written before the first entry %s", why)
			continue
		}
		c.Want(len(hw) == 2, rule, pn+" reserved header", p.recv.Pos, "before the entries, %d words are written; the header has two", len(hw))
		if l, why := emission(p.pre, p.loc); why != "" || len(l) > 0 {
			c.Bad(rule, pn, p.recv.Pos, "something is written to the location file before the first block")
		}
		its := p.blockIters(f.writS, b.pay)
		if len(its) == 0 {
			c.Bad(rule, pn, p.recv.Pos, "no path of the receiving loop accepts index data")
		}
		var base *Term
		inWords := true // base is counted in words of the alignment, not in bytes
		for _, it := range its {
			g := iterSegment(it, f.writS)
			pay := payloadTerm(g)
			if pay == nil {
				c.Bad(rule, pn, p.recv.Pos, "not decided: the payload of the block")
				continue
			}
			em, why := emission(g.evs, p.idx)
			lm, why2 := emission(g.evs, p.loc)
			if why+why2 != "" {
				c.Bad(rule, pn, p.recv.Pos, "%s", why+why2)
				continue
			}
			for _, e := range g.evs {
				if op, a := ioOf(e); op == "seek" && len(a) > 0 && (a[0] == p.idx || a[0] == p.loc) {
					c.Bad(rule, pn, e.Pos, "the position in the file is moved between blocks")
				}
			}
			if len(em) == 0 && nothingToWrite(g) {
				continue
			}
			if len(lm) != 1 || lm[0].run == nil || memberOf(lm[0].run, pay, b.T) < 0 {
				c.Bad(rule, pn+" locations", p.recv.Pos, "the locations of a block are not written exactly once, whole (%v)", lm)
				continue
			}
			b.locs = memberOf(lm[0].run, pay, b.T)
			if len(em) != 1 || em[0].L == nil {
				c.Bad(rule, pn+" entries", p.recv.Pos, "the entries of a block are not written exactly once (%v)", emitStr(em))
				continue
			}
			L := em[0].L
			var list *Term
			s := under(b.T).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				x := Field(pay, i, s.Field(i).Type())
				if _, sl := under(s.Field(i).Type()).(*types.Slice); sl && i != b.locs && L.Trip == Len(x) {
					list, b.ranges = x, i
				}
			}
			if list == nil {
				c.Bad(rule, pn+" entries", L.Pos, "the loop that writes entries does not visit every entry exactly once (it runs %v times)", L.Trip)
				continue
			}
			good := true
			for k, ws := range em[0].per {
				in := L.Iters[k]
				wd, ok := words(ws)
				if !ok || len(wd) != 1 || !stripConv(wd[0], 64).isOp("wayentry") {
					c.Bad(rule, pn+" entries", em[0].Pos, "an entry is not one packed id and offset (%v)", ws)
					good = false
					continue
				}
				e := in.St.elem(list, L.K, elemType(list.T))
				we := stripConv(wd[0], 64)
				if stripConv(we.Args[0], 64) != Op("wayid", "", tI64, e) {
					c.Bad(rule, pn+" entries", em[0].Pos, "the id of an entry (%v) is not the one of the way", we.Args[0])
					good = false
				}
				d := Sub(stripConv(we.Args[1], 64), Op("wayoff", "", tI64, e))
				lv := loopVarOf(d)
				if lv == nil && d.isOp("shr") || d.isOp("sar") {
					inWords = false
					setShift(d.Args[1], em[0].Pos)
					d = stripConv(d.Args[0], 64)
					lv = loopVarOf(d)
				}
				if lv != nil && L.Vars[lv.Sym] != nil && lv.Init != nil && in.Next[lv.Sym] == lv.Sym {
					d = lv.Init
					lv = loopVarOf(d)
				}
				if lv == nil || p.recv.Vars[lv.Sym] == nil || lv.Init != tZero {
					c.Bad(rule, pn+" offsets", em[0].Pos, "the offset of an entry is not its offset in the block plus what was written before the block (%v)", we.Args[1])
					good = false
					continue
				}
				base = lv.Sym
			}
			if base == nil {
				continue
			}
			diff := Sub(it.Next[base], base)
			n := Len(lm[0].run)
			if inWords {
				sh := shiftOf(diff, n)
				if sh == nil {
					c.Bad(rule, pn+" offsets", em[0].Pos, "after a block, the offset advances by %v, not by the number of aligned units of its locations", diff)
					good = false
				} else {
					setShift(sh, em[0].Pos)
				}
			} else if !equal(it.St, diff, n) {
				c.Bad(rule, pn+" offsets", em[0].Pos, "after a block, the offset advances by %v, not by the length of its locations", diff)
				good = false
			}
			if good {
				c.Ok(rule, pn+" entries", em[0].Pos, "")
			}
		}
		t := c.ixTail(rule, pn, p)
		if t == nil {
			continue
		}
		c.Want(t.complete || !t.checked, rule, pn+" locations", p.recv.Pos, "the run was not cancelled, and the copying of the locations to the index file may end before all of them are copied")
		var cnt *Term
		if len(t.header) > 0 {
			if len(t.header) != 2 {
				c.Bad(rule, pn+" header", t.hpos, "the header has %d words, not two", len(t.header))
				continue
			}
			lv := loopVarOf(stripConv(t.header[0], 64))
			if lv == nil || p.recv.Vars[lv.Sym] == nil || lv.Init != tZero {
				c.Bad(rule, pn+" entry count", t.hpos, "the number of entries in the header (%v) is not counted from zero over the blocks", t.header[0])
				continue
			}
			cnt = lv.Sym
			if w.shift != nil {
				c.Want(stripConv(t.header[1], 64) == stripConv(w.shift, 64), rule, pn+" alignment", t.hpos, "the alignment in the header (%v) is not the one that the offsets were counted in (%v)", t.header[1], w.shift)
			}
			w.shift = stripConv(t.header[1], 64)
		} else {
			c.Want(!(t.complete && t.checked), rule, pn+" header", p.recv.Pos, "the header is not written although the file is complete")
		}
		for _, it := range p.recv.Iters {
			g := iterSegment(it, f.writS)
			if g == nil {
				continue
			}
			em, why := emission(g.evs, p.idx)
			if why != "" {
				continue
			}
			n := Int(0)
			for _, e := range em {
				if e.L != nil && e.L.Trip != nil {
					n = Add(n, e.L.Trip)
				}
			}
			if cnt != nil {
				c.Want(equal(it.St, entryLens(Sub(it.Next[cnt], cnt), em), n), rule, pn+" entry count", p.recv.Pos, "a block adds %v to the number of entries but writes %v", Sub(it.Next[cnt], cnt), n)
			}
			lm, _ := emission(g.evs, p.loc)
			if base != nil && len(em) == 0 {
				c.Want(it.Next[base] == base && len(lm) == 0, rule, pn+" offsets", p.recv.Pos, "a block without entries changes the offset or the locations")
			}
		}
	}
	if b.ranges < 0 || b.locs < 0 || w.shift == nil {
		return nil
	}
	return w
}

// multiple: t is a multiple of two to the power of sh on this path, given that the terms in zero are.
func multiple(st *State, t, sh *Term, zero ...*Term) bool {
	A := bitOp("shl", Int(1), sh, tInt)
	isA := func(x *Term) bool {
		x = stripConv(x, 64)
		return x.isOp("shl") && x.Args[0] == Int(1) && stripConv(x.Args[1], 64) == sh
	}
	_ = A
	var red func(t *Term, d int) *Term
	atom := func(a *Term, d int) *Term {
		x := stripConv(a, 64)
		switch {
		case has(zero, x):
			return tZero
		case (x.isOp("rem") || x.isOp("urem")) && isA(x.Args[1]):
			return red(x.Args[0], d+1)
		case x.isOp("shl") && stripConv(x.Args[1], 64) == sh:
			return tZero
		case x.isOp("and"):
			for i := 0; i < 2; i++ {
				if m := stripConv(x.Args[i], 64); isA(Add(m, Int(1))) {
					return red(x.Args[1-i], d+1)
				}
			}
		case x.isOp("andnot"):
			if isA(Add(stripConv(x.Args[1], 64), Int(1))) {
				return tZero
			}
		}
		return a
	}
	red = func(t *Term, d int) *Term {
		if d > 20 {
			return t
		}
		if t.K != KPoly {
			return atom(t, d)
		}
		r := Int(0)
		for _, m := range t.P {
			x := Int(m.C)
			for _, a := range m.A {
				x = Mul(x, atom(a, d))
			}
			r = Add(r, x)
		}
		return r
	}
	x := t
	for i := 0; i < 5; i++ {
		y := red(x, 0)
		if y == tZero {
			return true
		}
		if y == x {
			break
		}
		x = y
	}
	// known from the path
	for _, op := range []string{"rem", "urem"} {
		for _, d := range []*Term{A} {
			if k, v := st.decide(Eq(bitOp(op, t, d, tInt), tZero)); k && v {
				return true
			}
		}
	}
	if k, v := st.decide(Eq(bitOp("and", t, Sub(A, Int(1)), tInt), tZero)); k && v {
		return true
	}
	return false
}

func (c *Ctx) wayWorker(rule, dedup string, f *flow, b *wayBatch) {
	name := f.workS.name()
	bad := false
	fail := func(pos any, s string, a ...any) {
		bad = true
		c.Bad(rule, name, pos, s, a...)
	}
	either := rule
	if either == "" {
		either = dedup
	}
	pbT, pgT, wT := c.P.Named("internal/t.PrimitiveBlock"), c.P.Named("internal/t.PrimitiveGroup"), c.P.Named("internal/t.Way")
	if pbT == nil || pgT == nil || wT == nil {
		c.Bad(either, name, nil, "message types not found")
		return
	}
	iPG, iW, iID, iR := FieldIndex(pbT, "PrimitiveGroup"), FieldIndex(pgT, "Ways"), FieldIndex(wT, "ID"), FieldIndex(wT, "Refs")
	if iPG < 0 || iW < 0 || iID < 0 || iR < 0 {
		c.Bad(either, name, nil, "message members not found")
		return
	}
	bs := under(b.T).(*types.Struct)
	n := 0
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		data := false
		for _, p := range c.inputKinds(rule) {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				data = true
			}
		}
		if !data {
			continue
		}
		var read, send *Ev
		for _, e := range g.evs {
			if e.Kind == "readinto" && e.Name == "PrimitiveBlock" {
				read = e
			}
			if e.Kind == "send" {
				send = e
			}
		}
		if read == nil || send == nil {
			c.Bad(either, name, g.Pos, "map data are answered without having been decoded")
			continue
		}
		c.wantDecoded(either, name, read, g, "SkipWays")
		x := &reencode{seg: g, read: read}
		groups := x.msgVal(pbT, "PrimitiveBlock", iPG)
		d := dataOf(send.Args[1])
		if d == nil || !d.isOp("iface") || !types.Identical(d.Args[0].T, b.T) {
			fail(send.Pos, "map data are answered with something else than index data")
			continue
		}
		n++
		E, O := Field(d.Args[0], b.ranges, bs.Field(b.ranges).Type()), Field(d.Args[0], b.locs, bs.Field(b.locs).Type())
		if k := Field(send.Args[1], 2, tString); k != Str(b.pay.kind) {
			c.Want(knownEmpty(g.St, E), either, fmt.Sprintf("%s kind %v", name, k), send.Pos, "entries may be sent in a block of kind %v, which is not written", k)
		}
		var L1 *LoopInfo
		for _, e := range g.evs {
			if e.Loop != nil && e.Loop.Vars[E] != nil {
				L1 = e.Loop
			}
		}
		if L1 == nil {
			if !knownEmpty(g.St, groups) {
				c.Bad(either, name, send.Pos, "the entries sent are not collected in a loop over the block")
			}
			continue
		}
		if L1.Trip != Len(groups) {
			c.Bad(either, name, L1.Pos, "the loop does not visit every group exactly once (it runs %v times)", L1.Trip)
			continue
		}
		empty := func(t *Term) bool {
			lv := loopVarOf(t)
			return lv != nil && L1.Vars[t] != nil && (lv.Init == tNil || Len(lv.Init) == tZero)
		}
		if !empty(E) || !empty(O) {
			fail(send.Pos, "what is sent is not what was collected")
			continue
		}
		for _, it := range L1.Iters {
			pg := it.St.elem(groups, L1.K, elemType(groups.T))
			ways := it.St.load(FieldAddrT(pg, iW, pgT), under(pgT).(*types.Struct).Field(iW).Type())
			var L2 *LoopInfo
			for _, e := range it.St.ev.list() {
				if e.Loop != nil && down(it, e.Loop, E) != nil {
					L2 = e.Loop
				}
			}
			if L2 == nil {
				if !knownEmpty(it.St, ways) {
					c.Bad(either, name, L1.Pos, "the ways of a group can be left out")
				} else if it.Next[E] != E || it.Next[O] != O {
					fail(L1.Pos, "a group without ways changes what is collected")
				}
				continue
			}
			if L2.Trip != Len(ways) {
				c.Bad(either, name, L2.Pos, "the loop does not visit every way exactly once (it runs %v times)", L2.Trip)
				continue
			}
			e2, o2 := down(it, L2, E), down(it, L2, O)
			if o2 == nil {
				fail(L2.Pos, "the locations collected are not carried from group to group")
				continue
			}
			for _, p := range L2.Iters {
				w := p.St.elem(ways, L2.K, elemType(ways.T))
				id := stripConv(p.St.load(FieldAddrT(w, iID, wT), under(wT).(*types.Struct).Field(iID).Type()), 64)
				refs := p.St.load(FieldAddrT(w, iR, wT), under(wT).(*types.Struct).Field(iR).Type())
				l, ok := appendedTo(p.Next[e2], e2)
				if !ok || len(l) != 1 || !stripConv(l[0], 64).isOp("wayentry") {
					fail(L2.Pos, "a way does not add exactly one entry")
					continue
				}
				we := stripConv(l[0], 64)
				if stripConv(we.Args[0], 64) != id {
					fail(L2.Pos, "the id of the entry (%v) is not the id of the way", we.Args[0])
				}
				at := Len(o2)
				sh := shiftOf(we.Args[1], at)
				if sh == nil || stripConv(sh, 64) != stripConv(b.shift, 64) {
					fail(L2.Pos, "the offset of the entry (%v) is not the position at which the locations of the way are put, in units of the alignment in the header", we.Args[1])
				}
				ps, ok := flatten(beforePadding(p.St.ev.list(), p.Next[o2]))
				if !ok || len(ps) < 2 || ps[0].run != o2 || ps[1].run == nil || !ps[1].run.isOp("enc") {
					fail(L2.Pos, "the locations of a way do not start where its entry says (%v)", p.Next[o2])
					if dedup != "" {
						c.Bad(dedup, name, L2.Pos, "not decided: the list stored for a way")
					}
					continue
				}
				encs := 0
				for _, q := range ps[1:] {
					if q.run != nil && q.run.isOp("enc") {
						encs++
					}
				}
				if encs != 1 || ps[1].run.S != "EncodeS64PackedDeltaZero" {
					fail(L2.Pos, "a way does not have exactly one list of locations, in the form that ends with zero")
				}
				if !multiple(p.St, Len(p.Next[o2]), stripConv(b.shift, 64), at) {
					fail(L2.Pos, "after a way, the length of the locations (%v) need not be a multiple of the alignment", Len(p.Next[o2]))
				}
				if dedup != "" {
					c.storedList(dedup, name, p, ps[1].run.Args[0], refs, L2)
				}
			}
		}
		if !bad {
			c.Ok(rule, name, send.Pos, "")
		}
	}
	c.Want(n > 0, either, name, f.workS.Fn, "no path answers map data with index data")
}

// beforePadding: a list without the zeros that a loop appended to it.
func beforePadding(evs []*Ev, t *Term) *Term {
	lv := loopVarOf(t)
	if lv == nil || lv.Init == nil {
		return t
	}
	L := findLoop(evs, lv)
	if L == nil {
		return t
	}
	for _, it := range L.Iters {
		l, ok := appendedTo(it.Next[lv.Sym], lv.Sym)
		if !ok {
			return t
		}
		for _, x := range l {
			if x != tZero {
				return t
			}
		}
	}
	return lv.Init
}

// storedList: the list is the way's references without consecutive repeats and leading zeros.
func (c *Ctx) storedList(rule, name string, p *Iter, list, refs *Term, L2 *LoopInfo) {
	bad := false
	fail := func(pos any, s string, a ...any) {
		bad = true
		c.Bad(rule, name, pos, s, a...)
	}
	// the loop that makes the list
	var L *LoopInfo
	var cont, idx, app *LoopVar
	for _, e := range p.St.ev.list() {
		if e.Loop == nil {
			continue
		}
		for _, lv := range e.Loop.Order {
			switch {
			case list == lv.Sym:
				L, app = e.Loop, lv
			case list.isOp("seq") && list.Args[0] == lv.Sym:
				L, cont = e.Loop, lv
			}
		}
	}
	if L != nil && cont != nil {
		for _, lv := range L.Order {
			if list.Args[1] == tZero && list.Args[2] == lv.Sym {
				idx = lv
			}
		}
	}
	switch {
	case L == nil && knownEmpty(p.St, refs) && (list == tNil || Len(list) == tZero):
		c.Ok(rule, name+" empty way", L2.Pos, "")
		return
	case L == nil:
		fail(L2.Pos, "not decided: how the list stored for a way (%v) is made", list)
		return
	case cont != nil && (idx == nil || idx.Init != tZero):
		fail(L.Pos, "the length of the list stored (%v) is not the number of references kept", list)
		return
	case app != nil && !(app.Init == tNil || Len(app.Init) == tZero):
		fail(L.Pos, "the list stored for a way does not start empty (%v)", app.Init)
		return
	case L.Trip != Len(refs):
		fail(L.Pos, "the loop does not visit every reference exactly once (it runs %v times)", L.Trip)
		return
	}
	el := elemType(refs.T)
	ref := func(st *State, k *Term) *Term { return newState().elem(refs, k, el) }
	// variables that hold the reference before
	var prev []*Term
	for _, lv := range L.Order {
		if lv.Init != tZero || lv == idx || lv.Cell != nil {
			continue
		}
		ok := true
		for _, it := range L.Iters {
			r := ref(it.St, L.K)
			nx := it.Next[lv.Sym]
			k, v := it.St.decide(Eq(r, lv.Sym))
			ok = ok && (nx == r || nx == lv.Sym && k && v)
		}
		if ok {
			prev = append(prev, lv.Sym)
		}
	}
	for _, it := range L.Iters {
		r := ref(it.St, L.K)
		cand := append([]*Term{}, prev...)
		if lo, _ := it.St.bounds(L.K); lo >= 1 {
			cand = append(cand, ref(it.St, Sub(L.K, Int(1))))
		}
		if k, v := it.St.decide(Eq(L.K, tZero)); k && v {
			cand = append(cand, tZero)
			for _, lv := range L.Order {
				if lv.Init == tZero {
					cand = append(cand, lv.Sym)
				}
			}
		}
		known, same := false, false
		for _, x := range cand {
			if k, v := it.St.decide(Eq(r, x)); k {
				known, same = true, v
			}
		}
		if !known {
			fail(L.Pos, "whether a reference is kept does not depend on comparing it with the one before")
			continue
		}
		kept := false
		switch {
		case app != nil:
			l, ok := appendedTo(it.Next[app.Sym], app.Sym)
			if !ok || len(l) > 1 || len(l) == 1 && stripConv(l[0], 64) != r {
				fail(L.Pos, "a reference is kept as something else (%v)", it.Next[app.Sym])
				continue
			}
			kept = len(l) == 1
		default:
			nc, ni := it.Next[cont.Sym], it.Next[idx.Sym]
			switch {
			case ni == idx.Sym && nc == cont.Sym:
			case ni == idx.Sym && nc.isOp("store") && nc.Args[0] == cont.Sym && nc.Args[1] == idx.Sym: // beyond the list
			case ni == Add(idx.Sym, Int(1)) && nc == StoreC(cont.Sym, idx.Sym, r):
				kept = true
			default:
				fail(L.Pos, "a reference is not kept at the end of the list")
				continue
			}
		}
		if kept == same {
			if same {
				fail(L.Pos, "a reference that repeats the one before is kept, which makes a delta of zero")
			} else {
				fail(L.Pos, "a reference that differs from the one before is dropped")
			}
		}
	}
	if !bad {
		c.Ok(rule, name, L.Pos, "")
	}
}

// ---- reading a way index ----

// leWord: t is the little-endian word i of the memory.
func leWord(st *State, t, mem *Term, i int64) bool {
	if t == nil {
		return false
	}
	t = stripConv(t, 64)
	if t.isOp("select") && t.Args[1] == Int(i) && t.any(func(x *Term) bool { return x.isOp("view") }) {
		return t.contains(mem)
	}
	e := newBitEval(st)
	got := e.bits(t)
	for j := int64(0); j < 8; j++ {
		by := e.bits(st.elem(mem, Int(8*i+j), tByte))
		for k := int64(0); k < 8; k++ {
			if !bvEq(got[8*j+k], by[k]) {
				return false
			}
		}
	}
	return true
}

type wayParts struct {
	ids, loc, shift int // members of WayIndex
}

// wayLayout checks where the reader of way indexes looks for the parts of the file.
func (c *Ctx) wayLayout(rule string) *wayParts {
	fn := c.P.Func("internal/wayindex.NewWayIndex")
	T := c.P.Named("internal/wayindex.WayIndex")
	E := c.P.Named("internal/wayindex.WayIndexData")
	if fn == nil || T == nil || E == nil {
		c.Bad(rule, "wayindex.NewWayIndex", nil, "function not found")
		return nil
	}
	in := c.interp()
	ioHooks(in)
	viewHooks(in)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	parts := &wayParts{-1, -1, -1}
	rets := 0
	for _, o := range c.run(in, fn, args, newState()) {
		if o.Kind != ORet {
			continue
		}
		rets++
		var mem *Term
		for _, e := range o.St.ev.list() {
			if op, _ := ioOf(e); op == "map" {
				mem = e.Ret
			}
		}
		if mem == nil || len(o.Rets) != 1 {
			c.Bad(rule, fn.Name(), o.Pos, "not decided: the file mapped")
			continue
		}
		s := under(T).(*types.Struct)
		arr, _ := arrOf(mem)
		var ids, loc *Term
		shift := false
		for i := 0; i < s.NumFields(); i++ {
			v := o.St.load(FieldAddrT(o.Rets[0], i, T), s.Field(i).Type())
			if sl, ok := under(s.Field(i).Type()).(*types.Slice); ok {
				switch {
				case types.Identical(sl.Elem(), E):
					ids, parts.ids = v, i
				case v != mem && intWidth(sl.Elem()) == 8:
					if a, _ := arrOf(v); a == arr {
						loc, parts.loc = v, i
					}
				}
			} else if isInteger(s.Field(i).Type()) && leWord(o.St, v, mem, 1) {
				shift, parts.shift = true, i
			}
		}
		c.Want(shift, rule, "reader alignment", o.Pos, "the alignment is not taken from the second word of the header")
		if ids == nil || loc == nil {
			c.Bad(rule, fn.Name(), o.Pos, "not decided: the entries and locations of the index")
			continue
		}
		src := ids
		if src.isOp("view") {
			src = src.Args[0]
		}
		a, lo, n := (*Term)(nil), (*Term)(nil), (*Term)(nil)
		if src.isOp("seq") && src.Args[0].isOp("cont0") {
			a, lo, n = src.Args[0].Args[0], src.Args[1], src.Args[2]
		} else {
			a, lo = arrOf(src)
			n = Len(src)
		}
		if a != arr || !ids.isOp("view") {
			c.Bad(rule, fn.Name(), o.Pos, "not decided: where the entries are (%v)", ids)
			continue
		}
		// n = 8 * count
		cnt := exactDiv(n, 8)
		c.Want(lo == Int(16) && cnt != nil && leWord(o.St, cnt, mem, 0), rule, "reader entries", o.Pos, "the entries are expected at byte %v (%v bytes), not at byte 16 (8 bytes for each of the number of entries in the first word)", lo, n)
		_, ll := arrOf(loc)
		c.Want(ll == Add(lo, n), rule, "reader locations", o.Pos, "the locations are expected at byte %v, not after the entries", ll)
		c.Want(Add(ll, Len(loc)) == Len(mem), rule, "reader end", o.Pos, "the locations do not extend to the end of the file")
	}
	c.Want(rets > 0, rule, fn.Name(), fn, "no path opens an index")
	if parts.ids < 0 || parts.loc < 0 || parts.shift < 0 {
		return nil
	}
	return parts
}

// exactDiv divides a polynomial whose coefficients are all multiples of k.
func exactDiv(t *Term, k int64) *Term {
	if t.K == KInt {
		if t.I%k == 0 {
			return Int(t.I / k)
		}
		return nil
	}
	if t.K != KPoly {
		return nil
	}
	r := Int(0)
	for _, m := range t.P {
		if m.C%k != 0 {
			return nil
		}
		x := Int(m.C / k)
		for _, a := range m.A {
			x = Mul(x, a)
		}
		r = Add(r, x)
	}
	return r
}

// wayLookups: locations are decoded where the entry says, in units of the alignment.
func (c *Ctx) wayLookups(rule string) {
	parts := c.wayLayout("")
	T, S := c.P.Named("internal/wayindex.WayIndex"), c.P.Named("internal/wayindex.SubWayIndex")
	fn := c.P.Func("internal/wayindex.SubWayIndex.FindLocations")
	if parts == nil || T == nil || S == nil || fn == nil {
		c.Bad(rule, "wayindex.FindLocations", nil, "not decided: the parts of the index")
		return
	}
	ts, ss := under(T).(*types.Struct), under(S).(*types.Struct)
	// the members of the sub-index that are parts of the index
	sub := map[int]int{} // member of SubWayIndex -> member of WayIndex, -1: the index itself
	for i := 0; i < ss.NumFields(); i++ {
		ft := ss.Field(i).Type()
		switch {
		case types.Identical(ft, ts.Field(parts.loc).Type()):
			sub[i] = parts.loc
		case types.Identical(ft, ts.Field(parts.ids).Type()):
			sub[i] = parts.ids
		case types.Identical(ft, types.NewPointer(T)):
			sub[i] = -1
		}
	}
	// every place that makes a sub-index
	made := 0
	for _, fn := range c.P.Funcs() {
		if fn.Parent() != nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), types.NewPointer(S)) {
			continue
		}
		in := c.interp()
		indexHooks(in)
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, symArg(in, p))
		}
		for _, o := range c.run(in, fn, args, newState()) {
			if o.Kind != ORet {
				continue
			}
			for i, from := range sub {
				v := o.St.load(FieldAddrT(o.Rets[0], i, S), ss.Field(i).Type())
				made++
				switch from {
				case -1:
					c.Want(v == args[0], rule, fn.Name()+" index", o.Pos, "the part refers to another index (%v)", v)
				case parts.loc:
					want := newState().load(FieldAddrT(args[0], parts.loc, T), ts.Field(parts.loc).Type())
					c.Want(v == want, rule, fn.Name()+" locations", o.Pos, "the locations of the part (%v) are not those of the index, to which offsets refer", v)
				}
			}
		}
	}
	c.Want(made > 0, rule, "sub-index", nil, "no function makes a part of an index")
	in := c.interp()
	indexHooks(in)
	dec := c.P.Func("internal/pb.DecodeS64PackedDeltaZero")
	if dec == nil {
		c.Bad(rule, "pb.DecodeS64PackedDeltaZero", nil, "function not found")
		return
	}
	in.Hooks[fnName(dec)] = func(in *Interp, cc *CallCtx) []*Outcome {
		r := Op("dec", "zero", cc.Sig.Results().At(0).Type(), cc.Args[0])
		cc.St.emit(&Ev{Kind: "decodelocs", Args: cc.Args, Ret: r, Pos: cc.Pos, In: cc.In})
		return retOne(cc.St, r)
	}
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	si := args[0]
	load := func(p *Term, i int, T types.Type) *Term {
		return newState().load(FieldAddrT(p, i, T), under(T).(*types.Struct).Field(i).Type())
	}
	var ixs []*Term
	isLoc, isIds := map[*Term]bool{}, map[*Term]bool{}
	for i, from := range sub {
		v := load(si, i, S)
		switch from {
		case -1:
			ixs = append(ixs, v)
			isLoc[load(v, parts.loc, T)] = true
			isIds[load(v, parts.ids, T)] = true
		case parts.loc:
			isLoc[v] = true
		case parts.ids:
			isIds[v] = true
		}
	}
	n := 0
	for _, o := range c.run(in, fn, args, newState()) {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Kind != "decodelocs" {
				return
			}
			n++
			a := e.Args[0]
			good := false
			var at *Term
			for l := range isLoc {
				la, _ := arrOf(l)
				arr, lo := arrOf(a)
				if arr != la || Add(lo, Len(a)) != Len(l) {
					continue
				}
				at = lo
				for _, ix := range ixs {
					sh := stripConv(load(ix, parts.shift, T), 64)
					off := stripConv(lo, 64)
					if off.isOp("shl") && stripConv(off.Args[1], 64) == sh {
						off = stripConv(off.Args[0], 64)
					} else if q := mulOf(off, bitOp("shl", Int(1), sh, tInt)); q != nil {
						off = q
					} else {
						continue
					}
					if off.isOp("wayoff") {
						x := off.Args[0]
						for ids := range isIds {
							if ia, _ := arrOf(ids); x.isOp("select") && x.Args[0] == Op("cont0", "", nil, ia) || x.contains(ids) {
								good = true
							}
						}
					}
				}
			}
			c.Want(good, rule, fn.Name(), e.Pos, "the locations are decoded from position %v, not from the offset in the entry times the alignment", at)
		})
	}
	c.Want(n > 0, rule, fn.Name()+" decodes", fn, "no path decodes locations")
}

// mulOf: t = q * f.
func mulOf(t, f *Term) *Term {
	if t.K != KPoly || len(t.P) != 1 || t.P[0].C != 1 || len(t.P[0].A) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		if t.P[0].A[i] == f {
			return stripConv(t.P[0].A[1-i], 64)
		}
	}
	return nil
}
