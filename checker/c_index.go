package main

// C08 (node index part), C10, C11, C12, C13 and the stored-location part of C07: how the index files are built.

import (
	"fmt"
	"go/types"
)

// indexHooks: the packing functions of the indexes (C09) and the location code (C07) as single operations.
func indexHooks(in *Interp) {
	op := func(name, kind string, f func(c *CallCtx) *Term, ev bool) {
		fn := in.P.Func(name)
		if fn == nil {
			return
		}
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			r := f(c)
			if ev {
				c.St.emit(&Ev{Kind: kind, Name: name, Args: c.Args, Ret: r, Pos: c.Pos, In: c.In})
			}
			return retOne(c.St, r)
		}
	}
	in.Hooks["bytes.Repeat"] = func(in *Interp, c *CallCtx) []*Outcome {
		return retOne(c.St, Op("repeat", "", tBytes, c.St.snap(c.Args[0], tByte), c.Args[1]))
	}
	op("internal/nodeindex.NewCountOffset", "countoffset", func(c *CallCtx) *Term {
		return Op("countoffset", "", tU64, c.Args[0], c.Args[1])
	}, true)
	op("internal/wayindex.MakeIndexData", "wayentry", func(c *CallCtx) *Term {
		return Op("wayentry", "", tU64, c.Args[0], c.Args[1])
	}, true)
	part := func(i int, what string) func(c *CallCtx) *Term {
		return func(c *CallCtx) *Term {
			if x := stripConv(c.Args[0], 64); x.isOp("wayentry") {
				return x.Args[i]
			}
			return Op(what, "", tI64, c.Args[0])
		}
	}
	op("internal/wayindex.WayIndexData.WayID", "wayid", part(0, "wayid"), false)
	op("internal/wayindex.WayIndexData.Offset", "wayoff", part(1, "wayoff"), false)
	op("internal/morton.Encode", "morton", func(c *CallCtx) *Term {
		return Op("morton", "", tU64, c.Args[0], c.Args[1])
	}, false)
}

// ---- what a writer puts into a file ----

// emit is a part of what is written: words, a list, or a repetition over a list.
type emit struct {
	words []*Term
	run   *Term
	L     *LoopInfo
	per   [][]emit // per path of an iteration
	Pos   any
}

func (e *emit) String() string {
	switch {
	case e.L != nil:
		return fmt.Sprintf("loop×%v%v", e.L.Trip, e.per)
	case e.run != nil:
		return "run(" + e.run.String() + ")"
	}
	return fmt.Sprint(e.words)
}

// listEmit describes the value of a list that is written.
func listEmit(t *Term, evs []*Ev, pos any) ([]emit, string) {
	if t == tNil || t.isOp("empty") || Len(t) == tZero {
		return nil, ""
	}
	l, ok := flatten(t)
	if !ok {
		return nil, "the list written is not known"
	}
	var r []emit
	for _, p := range l {
		switch {
		case p.b != nil:
			r = append(r, emit{words: []*Term{p.b}, Pos: pos})
		case loopVarOf(p.run) != nil && findLoop(evs, loopVarOf(p.run)) != nil:
			lv := loopVarOf(p.run)
			L := findLoop(evs, lv)
			pre, why := listEmit(lv.Init, nil, pos)
			if why != "" {
				return nil, why
			}
			r = append(r, pre...)
			e := emit{L: L, Pos: pos}
			for _, it := range L.Iters {
				n := it.Next[lv.Sym]
				ws, ok := appendedTo(n, lv.Sym)
				if !ok {
					return nil, fmt.Sprintf("not decided: how the list written grows (%v)", n)
				}
				var one []emit
				for _, w := range ws {
					one = append(one, emit{words: []*Term{w}, Pos: pos})
				}
				e.per = append(e.per, one)
			}
			r = append(r, e)
		default:
			if e := filledBy(p.run, evs, pos); e != nil {
				r = append(r, *e)
				continue
			}
			r = append(r, emit{run: p.run, Pos: pos})
		}
	}
	return r, ""
}

// filledBy: a list of which a loop sets one element after the other, from the first to the last.
func filledBy(t *Term, evs []*Ev, pos any) *emit {
	if !t.isOp("seq") || t.Args[1] != tZero || loopVarOf(t.Args[0]) == nil {
		return nil
	}
	lv := loopVarOf(t.Args[0])
	L := findLoop(evs, lv)
	if L == nil || L.Trip == nil || t.Args[2] != L.Trip {
		return nil
	}
	e := &emit{L: L, Pos: pos}
	for _, it := range L.Iters {
		n := it.Next[lv.Sym]
		if n == nil || !n.isOp("store") || n.Args[0] != lv.Sym || n.Args[1] != L.K {
			return nil
		}
		e.per = append(e.per, []emit{{words: []*Term{n.Args[2]}, Pos: pos}})
	}
	return e
}

// appendedTo lists the elements that were appended to base.
func appendedTo(t, base *Term) ([]*Term, bool) {
	if t == base {
		return nil, true
	}
	if t != nil && t.isOp("app") {
		l, ok := appendedTo(t.Args[0], base)
		return append(append([]*Term{}, l...), t.Args[1:]...), ok
	}
	if t != nil && t.isOp("appS") {
		l, ok := appendedTo(t.Args[0], base)
		if !ok {
			return nil, false
		}
		ps, ok := flatten(t.Args[1])
		if !ok || !allBytes(ps) {
			return nil, false
		}
		l = append([]*Term{}, l...)
		for _, p := range ps {
			l = append(l, p.b)
		}
		return l, true
	}
	return nil, false
}

func findLoop(evs []*Ev, lv *LoopVar) *LoopInfo {
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, v := range e.Loop.Order {
			if v == lv {
				return e.Loop
			}
		}
	}
	return nil
}

// emission: all that the events write to a file, in order.
func emission(evs []*Ev, file *Term) ([]emit, string) {
	var r []emit
	for i, e := range evs {
		if e.Loop != nil {
			x := emit{L: e.Loop, Pos: e.Pos}
			any := false
			for _, it := range e.Loop.Iters {
				p, why := emission(it.St.ev.list(), file)
				if why != "" {
					return nil, why
				}
				any = any || len(p) > 0
				x.per = append(x.per, p)
			}
			if any {
				r = append(r, x)
			}
			continue
		}
		op, args := ioOf(e)
		if op == "" || len(args) == 0 || args[0] != file {
			continue
		}
		switch op {
		case "write":
			l, why := listEmit(args[1], evs[:i], e.Pos)
			if why != "" {
				return nil, why
			}
			r = append(r, l...)
		case "copy", "iocopy", "mapwrite", "truncate":
			return nil, "data are written by " + op
		}
	}
	return r, ""
}

// entryLens replaces the length of a list that a loop of the emission built by the number of its iterations,
// when each of them appends one element to a list that was empty.
func entryLens(t *Term, em []emit) *Term {
	for _, e := range em {
		if e.L == nil || e.L.Trip == nil {
			continue
		}
		for _, lv := range e.L.Order {
			if l := lv.Init; l == nil || l != tNil && !l.isOp("empty") && Len(l) != tZero {
				continue
			}
			one := len(e.L.Iters) > 0
			for _, it := range e.L.Iters {
				ws, ok := appendedTo(it.Next[lv.Sym], lv.Sym)
				one = one && ok && len(ws) == 1
			}
			if one {
				t = subst(t, Len(lv.Sym), e.L.Trip)
			}
		}
	}
	return t
}

// words: an emission that consists of single words only.
func words(l []emit) ([]*Term, bool) {
	var r []*Term
	for _, e := range l {
		if e.L != nil || e.run != nil {
			return nil, false
		}
		r = append(r, e.words...)
	}
	return r, true
}

// ---- structure of an index writer ----

type ixPath struct {
	o         *Outcome
	pre, post []*Ev
	recv      *LoopInfo
	idx, loc  *Term // files
	locName   *Term
	skip      bool // impossible
}

// ixWriter splits the paths of a writer that builds a two-part index file.
func (c *Ctx) ixWriter(rule string, f *flow) []*ixPath {
	var r []*ixPath
	for _, o := range f.writS.Outs {
		if o.Kind != ORet {
			continue
		}
		p := &ixPath{o: o}
		evs := o.St.ev.list()
		for i, e := range evs {
			if e.Loop == nil {
				continue
			}
			gets := false
			for _, it := range e.Loop.Iters {
				for _, x := range it.St.ev.list() {
					gets = gets || x.Kind == "recv" && x.Args[0] == f.writS.ChIn
				}
			}
			if gets {
				if p.recv != nil {
					c.Bad(rule, f.writS.name(), e.Pos, "not decided: blocks are received in two loops")
				}
				p.recv, p.pre, p.post = e.Loop, evs[:i], evs[i+1:]
			}
		}
		if p.recv == nil {
			c.Bad(rule, f.writS.name(), o.Pos, "not decided: there is no loop that receives the blocks")
			continue
		}
		for _, e := range p.pre {
			if op, a := ioOf(e); op == "create" && len(a) == 1 {
				switch {
				case p.idx == nil:
					p.idx = e.Ret
				case p.loc == nil:
					p.loc, p.locName = e.Ret, a[0]
				default:
					c.Bad(rule, f.writS.name(), e.Pos, "not decided: more than two files are created")
				}
			}
		}
		if p.idx == nil || p.loc == nil {
			c.Bad(rule, f.writS.name(), o.Pos, "not decided: the files written are not created before the first block is received")
			continue
		}
		// the temporary file is the one that is removed
		removed := func(name *Term) bool {
			for _, e := range p.post {
				if op, a := ioOf(e); (op == "remove" || op == "removetry") && len(a) > 0 && a[0] == name {
					return true
				}
			}
			return false
		}
		var names []*Term
		for _, e := range p.pre {
			if op, a := ioOf(e); op == "create" {
				names = append(names, a[0])
			}
		}
		if removed(names[0]) && !removed(names[1]) {
			p.idx, p.loc, p.locName = p.loc, p.idx, names[0]
		}
		// cancellation is for good
		done := false
		for _, e := range evs {
			if e.Kind != "select" || len(e.Args) == 0 || !isDone(e.Args[0]) {
				continue
			}
			if e.Name == "-1" && done {
				p.skip = true
			}
			done = done || e.Name != "-1"
		}
		r = append(r, p)
	}
	return r
}

// blockIters: the iterations of the receiving loop that a block of one payload can take.
func (p *ixPath) blockIters(s *Stage, q *payload) []*Iter {
	var r []*Iter
	for _, it := range p.recv.Iters {
		if g := iterSegment(it, s); g != nil {
			if ok, _ := g.feasible(*q); ok {
				r = append(r, it)
			}
		}
	}
	return r
}

func iterSegment(it *Iter, s *Stage) *segment {
	for i, e := range it.St.ev.list() {
		if e.Kind == "recv" && e.Args[0] == s.ChIn {
			return &segment{blk: e.Ret, evs: it.St.ev.list()[i:], St: it.St, Kind: ORet}
		}
	}
	return nil
}

// copyTail: what happens after the last block: the location file is rewound and copied whole to the end of
// the index file, then the header is written at its beginning.
type ixTail struct {
	header   []*Term // words
	hpos     any
	complete bool // on this path the copy ended because nothing was left
	checked  bool // not cancelled
}

func (c *Ctx) ixTail(rule, name string, p *ixPath) *ixTail {
	t := &ixTail{checked: true}
	bad := func(pos any, f string, a ...any) *ixTail {
		c.Bad(rule, name, pos, f, a...)
		return nil
	}
	rewound, copied, seeked := false, false, false
	copies := map[*Term]bool{}
	for _, e := range p.post {
		if e.Kind == "select" && len(e.Args) > 0 && isDone(e.Args[0]) && e.Name != "-1" {
			t.checked = false
		}
		if e.Loop != nil {
			// a copying loop
			n := 0
			for _, it := range e.Loop.Iters {
				var cp *Ev
				for _, x := range it.St.ev.list() {
					op, a := ioOf(x)
					switch {
					case op == "copy" && a[0] == p.idx && a[1] == p.loc:
						if cp != nil {
							return bad(x.Pos, "not decided: data are copied twice in one step")
						}
						cp = x
					case op != "" && len(a) > 0 && (a[0] == p.idx || a[0] == p.loc):
						return bad(x.Pos, "not decided: %s in the copying loop", op)
					}
					if x.Kind == "select" && len(x.Args) > 0 && isDone(x.Args[0]) && x.Name != "-1" {
						return bad(x.Pos, "copying goes on after cancellation")
					}
				}
				if cp != nil {
					n++
					if len(cp.Args) > 2 && Len(cp.Args[2]).K == KInt && Len(cp.Args[2]).I == 0 {
						return bad(cp.Pos, "data are copied through an empty buffer")
					}
				}
			}
			if n == 0 {
				continue
			}
			if !rewound || seeked {
				return bad(e.Pos, "locations are copied before the location file was rewound, or to the wrong place")
			}
			copied = true
			// the amount copied last, carried around the loop
			for _, lv := range e.Loop.Order {
				last := copies[lv.Init]
				for _, it := range e.Loop.Iters {
					last = last && copyIn(it, p, it.Next[lv.Sym])
				}
				if k, v := p.o.St.decide(Eq(lv.Sym, tZero)); last && k && v {
					t.complete = true
				}
			}
			continue
		}
		op, a := ioOf(e)
		if op == "" || len(a) == 0 {
			continue
		}
		switch {
		case op == "seek" && a[0] == p.loc:
			if len(a) != 3 || a[1] != tZero || a[2] != tZero {
				return bad(e.Pos, "the location file is not rewound to its beginning")
			}
			rewound = true
		case op == "seek" && a[0] == p.idx:
			if len(a) != 3 || a[1] != tZero || a[2] != tZero {
				return bad(e.Pos, "the header is not written at the beginning of the file")
			}
			seeked = true
		case op == "copy" && a[0] == p.idx && a[1] == p.loc:
			// the last step of the copying loop
			if !rewound || seeked {
				return bad(e.Pos, "locations are copied before the location file was rewound, or to the wrong place")
			}
			copied = true
			copies[e.Ret] = true
			if k, v := p.o.St.decide(Eq(e.Ret, tZero)); k && v {
				t.complete = true
			}
		case op == "iocopy" && a[0] == p.idx && a[1] == p.loc:
			if !rewound || seeked {
				return bad(e.Pos, "locations are copied before the location file was rewound, or to the wrong place")
			}
			copied, t.complete = true, true
		case op == "write" && a[0] == p.idx:
			if !seeked {
				return bad(e.Pos, "something is written after the last block, not at the beginning of the file")
			}
			l, why := listEmit(a[1], p.post, e.Pos)
			if why != "" {
				return bad(e.Pos, "%s", why)
			}
			w, ok := words(l)
			if !ok {
				return bad(e.Pos, "not decided: the header written")
			}
			t.header = append(t.header, w...)
			t.hpos = e.Pos
		case op == "write" && a[0] == p.loc:
			return bad(e.Pos, "something is added to the locations after the last block")
		case op == "mapwrite" || op == "truncate":
			return bad(e.Pos, "not decided: %s", op)
		}
	}
	if !copied {
		// nothing was copied: possible only if cancelled at once
		t.complete = false
	}
	return t
}

// copyIn: v is the amount copied in this iteration.
func copyIn(it *Iter, p *ixPath, v *Term) bool {
	for _, x := range it.St.ev.list() {
		if op, a := ioOf(x); op == "copy" && a[0] == p.idx && a[1] == p.loc && x.Ret == v {
			return true
		}
	}
	return false
}

// equal decides an equation of integers on a path.
func equal(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	k, v := st.decide(Eq(a, b))
	return k && v
}

// ---- nests of loops over the block ----

// down maps a variable of an outer loop to the variable of the loop inside one of its iterations.
func down(it *Iter, inner *LoopInfo, v *Term) *Term {
	n := it.Next[v]
	if n == nil {
		return nil
	}
	for _, lv := range inner.Order {
		if lv.Sym == n && lv.Init == v {
			return n
		}
	}
	return nil
}

// loopVarsIn lists the variables of a loop that occur in a term.
func loopVarsIn(L *LoopInfo, ts ...*Term) []*Term {
	var r []*Term
	for _, lv := range L.Order {
		for _, t := range ts {
			if t != nil && t.contains(lv.Sym) {
				r = append(r, lv.Sym)
				break
			}
		}
	}
	return r
}

func usesIndexOp(f *flow, kind string) bool {
	hit := false
	look := func(s *Stage) {
		if s == nil {
			return
		}
		for _, o := range s.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) { hit = hit || e.Kind == kind })
		}
	}
	look(f.workS)
	look(f.writS)
	return hit
}

func (c *Ctx) indexFlows(rule, kind string) []*flow {
	var r []*flow
	for _, f := range c.flowsPrep(rule, false, func(in *Interp) { in.TraceMem = true; indexHooks(in) }) {
		if f.write != nil && usesIndexOp(f, kind) {
			r = append(r, f)
		}
	}
	return r
}

// batch: the payload of the blocks that carry index data.
type batch struct {
	T             types.Type
	ranges, locs  int // member positions
	first, second int // members of a range
	isCount       bool
	pay           *payload
}

// member finds which member of the payload a term is.
func memberOf(t, data *Term, T types.Type) int {
	s, ok := under(T).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if t == Field(data, i, s.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// indexBatch finds the payload that the writer of an index writes.
func (c *Ctx) indexBatch(rule string, f *flow) *batch {
	var b *batch
	paths := c.ixWriter("", f)
	for _, q := range f.out {
		if q.T == nil || q.pass || f.empty(q) {
			continue
		}
		written := false
		for _, p := range paths {
			for _, it := range p.blockIters(f.writS, q) {
				l, _ := emission(it.St.ev.list(), p.idx)
				written = written || len(l) > 0
			}
		}
		if !written {
			continue
		}
		if b != nil && (b.pay.T != q.T || b.pay.kind != q.kind) {
			c.Bad(rule, f.writS.name(), q.Ev.Pos, "not decided: index data are sent in two forms")
			return nil
		}
		b = &batch{T: q.T, ranges: -1, locs: -1, first: -1, second: -1, pay: q}
	}
	return b
}

// nodeWriter checks entries, offsets, counts and layout of a node index; it returns the roles of the payload.
func (c *Ctx) nodeWriter(rule, layout string, f *flow) *batch {
	name := f.writS.name()
	b := c.indexBatch(rule, f)
	if b == nil {
		c.Bad(rule, name, f.workS.Fn, "no index data are sent to the writer")
		return nil
	}
	for pi, p := range c.ixWriter(rule, f) {
		if p.skip {
			continue
		}
		pn := fmt.Sprintf("%s path %d", name, pi)
		// reserved header
		head, why := emission(p.pre, p.idx)
		hw, ok := words(head)
		if why != "" || !ok {
			c.Bad(layout, pn, p.recv.Pos, "not decided: what is written before the first entry %s", why)
			continue
		}
		c.Want(len(hw) == 2 && hw[0] == tZero, layout, pn+" reserved header", p.recv.Pos, "before the entries, %d words are written, the first being %v; the header has two words, and the version has to stay zero until the file is complete", len(hw), first(hw))
		if l, why := emission(p.pre, p.loc); why != "" || len(l) > 0 {
			c.Bad(layout, pn, p.recv.Pos, "something is written to the location file before the first block")
		}
		var offVar, cntVar *Term
		its := p.blockIters(f.writS, b.pay)
		if len(its) == 0 {
			c.Bad(rule, pn, p.recv.Pos, "no path of the receiving loop accepts index data")
		}
		for _, it := range its {
			g := iterSegment(it, f.writS)
			data := g.evs
			pay := payloadTerm(g)
			if pay == nil {
				c.Bad(rule, pn, p.recv.Pos, "not decided: the payload of the block")
				continue
			}
			em, why := emission(data, p.idx)
			if why != "" {
				c.Bad(rule, pn, p.recv.Pos, "%s", why)
				continue
			}
			lm, why := emission(data, p.loc)
			if why != "" {
				c.Bad(rule, pn, p.recv.Pos, "%s", why)
				continue
			}
			for _, e := range data {
				if op, a := ioOf(e); op == "seek" && len(a) > 0 && (a[0] == p.idx || a[0] == p.loc) {
					c.Bad(layout, pn, e.Pos, "the position in the file is moved between blocks")
				}
			}
			if len(em) == 0 && nothingToWrite(g) {
				// no entries: no locations either (C12, worker side)
				continue
			}
			// locations: one member, whole
			if len(lm) != 1 || lm[0].run == nil || memberOf(lm[0].run, pay, b.T) < 0 {
				c.Bad(rule, pn+" locations", p.recv.Pos, "the locations of a block are not written exactly once, whole (%v)", lm)
				continue
			}
			b.locs = memberOf(lm[0].run, pay, b.T)
			if len(em) != 1 || em[0].L == nil {
				c.Bad(rule, pn+" entries", p.recv.Pos, "the entries of a block are not written exactly once (%v)", em)
				continue
			}
			L := em[0].L
			var list *Term
			s := under(b.T).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				x := Field(pay, i, s.Field(i).Type())
				if _, sl := under(s.Field(i).Type()).(*types.Slice); sl && L.Trip == Len(x) {
					list, b.ranges = x, i
				}
			}
			if list == nil {
				c.Bad(rule, pn+" entries", L.Pos, "the loop that writes entries does not visit every range exactly once (it runs %v times)", L.Trip)
				continue
			}
			el := elemType(list.T)
			good := true
			for k, ws := range em[0].per {
				in := L.Iters[k]
				w, ok := words(ws)
				if !ok || len(w) != 2 || !stripConv(w[1], 64).isOp("countoffset") {
					c.Bad(rule, pn+" entries", em[0].Pos, "an entry is not the first id followed by one packed count and offset (%v)", ws)
					good = false
					continue
				}
				e := in.St.elem(list, L.K, el)
				co := stripConv(w[1], 64)
				cnt, off := stripConv(co.Args[0], 64), stripConv(co.Args[1], 64)
				es, _ := under(el).(*types.Struct)
				if es == nil {
					c.Bad(rule, pn+" entries", em[0].Pos, "not decided: the form of a range")
					good = false
					continue
				}
				fi, se, isC := -1, -1, false
				for i := 0; i < es.NumFields(); i++ {
					x := Field(e, i, es.Field(i).Type())
					if w[0] == x {
						fi = i
					}
				}
				for i := 0; i < es.NumFields() && fi >= 0; i++ {
					x := Field(e, i, es.Field(i).Type())
					if i != fi && equal(in.St, cnt, Add(Sub(x, Field(e, fi, es.Field(fi).Type())), Int(1))) {
						se, isC = i, false
					} else if i != fi && cnt == x {
						se, isC = i, true
					}
				}
				if fi < 0 || se < 0 {
					c.Bad(rule, pn+" entries", em[0].Pos, "an entry is not made of the first id and the number of ids of its range (%v)", w)
					good = false
					continue
				}
				if b.first >= 0 && (b.first != fi || b.second != se) {
					c.Bad(rule, pn+" entries", em[0].Pos, "entries are made from different members of the range")
					good = false
				}
				b.first, b.second, b.isCount = fi, se, isC
				// the offset: the sum of the counts so far
				lv := loopVarOf(off)
				if lv == nil || L.Vars[lv.Sym] == nil {
					c.Bad(rule, pn+" offsets", em[0].Pos, "the offset of an entry (%v) is not counted over the ranges", off)
					good = false
					continue
				}
				if !equal(in.St, Sub(in.Next[lv.Sym], lv.Sym), cnt) {
					c.Bad(rule, pn+" offsets", em[0].Pos, "after an entry, the offset advances by %v, not by the number of its ids", Sub(in.Next[lv.Sym], lv.Sym))
					good = false
				}
				// carried from block to block
				up := loopVarOf(lv.Init)
				if up == nil || p.recv.Vars[up.Sym] == nil || up.Init != tZero {
					c.Bad(rule, pn+" offsets", em[0].Pos, "the offset does not start at zero and continue from block to block (%v)", lv.Init)
					good = false
					continue
				}
				offVar = up.Sym
				if it.Next[up.Sym] != lv.Sym {
					c.Bad(rule, pn+" offsets", em[0].Pos, "the offset after a block is %v, not the one after its last range", it.Next[up.Sym])
					good = false
				}
			}
			if good {
				c.Ok(rule, pn+" entries", em[0].Pos, "")
			}
		}
		// other iterations
		t := c.ixTail(layout, pn, p)
		if t == nil {
			continue
		}
		if len(t.header) > 0 {
			if len(t.header) != 2 {
				c.Bad(layout, pn+" header", t.hpos, "the header has %d words, not two", len(t.header))
				continue
			}
			ver := t.header[0]
			if ver != tZero {
				c.Want(t.complete && t.checked, layout, pn+" version last", t.hpos, "the version is written although the run may have been cancelled before all entries and locations were in the file: the truncated index would be accepted")
				c.Want(ver.K == KInt && c.nodeVersion() == ver, layout, pn+" version", t.hpos, "the version word (%v) is not the one that the reader expects", ver)
			}
			lv := loopVarOf(t.header[1])
			if lv == nil || p.recv.Vars[lv.Sym] == nil || lv.Init != tZero {
				c.Bad(layout, pn+" entry count", t.hpos, "the number of entries in the header (%v) is not counted from zero over the blocks", t.header[1])
				continue
			}
			cntVar = lv.Sym
		} else {
			c.Want(!(t.complete && t.checked), layout, pn+" header", p.recv.Pos, "the header is not written although the file is complete")
		}
		for _, it := range p.recv.Iters {
			g := iterSegment(it, f.writS)
			if g == nil {
				continue
			}
			em, why := emission(g.evs, p.idx)
			if why != "" {
				continue
			}
			n := Int(0)
			for _, e := range em {
				if e.L != nil && e.L.Trip != nil {
					n = Add(n, e.L.Trip)
				}
			}
			if cntVar != nil {
				c.Want(equal(it.St, entryLens(Sub(it.Next[cntVar], cntVar), em), n), layout, pn+" entry count", p.recv.Pos, "a block adds %v to the number of entries but writes %v", Sub(it.Next[cntVar], cntVar), n)
			}
			if offVar != nil && len(em) == 0 {
				c.Want(it.Next[offVar] == offVar, rule, pn+" offsets", p.recv.Pos, "a block without entries changes the offset")
			}
			if lm, _ := emission(g.evs, p.loc); len(em) == 0 && len(lm) > 0 {
				c.Bad(rule, pn, p.recv.Pos, "locations are written without entries")
			}
		}
	}
	if b.ranges < 0 || b.locs < 0 || b.first < 0 {
		return nil
	}
	return b
}

func first(l []*Term) any {
	if len(l) == 0 {
		return "none"
	}
	return l[0]
}

// payloadTerm: the payload as the segment uses it.
func payloadTerm(g *segment) *Term {
	var r *Term
	d := dataOf(g.blk)
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.isOp("tassert") && x.Args[0] == d {
				r = x
			}
			return false
		})
	}
	for _, e := range g.evs {
		for _, a := range e.Args {
			if a != nil {
				look(a)
			}
		}
	}
	return r
}

// nodeVersion: the version that the reader of node indexes accepts.
func (c *Ctx) nodeVersion() *Term {
	if l := c.nodeLayout("", true); l != nil {
		return l.version
	}
	return nil
}

// ---- C12/C08: the node worker ----

func (c *Ctx) nodeWorker(rule, coord, flag string, f *flow, b *batch) {
	name := f.workS.name()
	fail := func(pos any, s string, a ...any) { c.Bad(rule, name, pos, s, a...) }
	pbT, pgT, dnT := c.P.Named("internal/t.PrimitiveBlock"), c.P.Named("internal/t.PrimitiveGroup"), c.P.Named("internal/t.DenseNodes")
	if pbT == nil || pgT == nil || dnT == nil {
		fail(nil, "message types not found")
		return
	}
	iPG, iD, iId := FieldIndex(pbT, "PrimitiveGroup"), FieldIndex(pgT, "Dense"), FieldIndex(dnT, "Id")
	iLat, iLon := FieldIndex(dnT, "Lat"), FieldIndex(dnT, "Lon")
	if iPG < 0 || iD < 0 || iId < 0 || iLat < 0 || iLon < 0 {
		fail(nil, "message members not found")
		return
	}
	bs := under(b.T).(*types.Struct)
	rT := elemType(bs.Field(b.ranges).Type())
	rs := under(rT).(*types.Struct)
	n := 0
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		data := false
		for _, p := range c.inputKinds(rule) {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				data = true
			}
		}
		if !data {
			continue
		}
		var read, send *Ev
		for _, e := range g.evs {
			if e.Kind == "readinto" && e.Name == "PrimitiveBlock" {
				read = e
			}
			if e.Kind == "send" {
				send = e
			}
		}
		if read == nil || send == nil {
			fail(g.Pos, "map data are answered without having been decoded")
			continue
		}
		c.wantDecoded(rule, name, read, g, "SkipDenseNodes")
		x := &reencode{seg: g, read: read}
		groups := x.msgVal(pbT, "PrimitiveBlock", iPG)
		d := dataOf(send.Args[1])
		if d == nil || !d.isOp("iface") || !types.Identical(d.Args[0].T, b.T) {
			fail(send.Pos, "map data are answered with something else than index data")
			continue
		}
		n++
		if k := Field(send.Args[1], 2, tString); k != Str(b.pay.kind) {
			c.Want(knownEmpty(g.St, Field(d.Args[0], b.ranges, bs.Field(b.ranges).Type())), rule, fmt.Sprintf("%s kind %v", name, k), send.Pos, "ranges may be sent in a block of kind %v, which is not written", k)
		}
		R, O := Field(d.Args[0], b.ranges, bs.Field(b.ranges).Type()), Field(d.Args[0], b.locs, bs.Field(b.locs).Type())
		// the loop over groups
		var L1 *LoopInfo
		for _, e := range g.evs {
			if e.Loop != nil && O.any(func(t *Term) bool { return e.Loop.Vars[t] != nil }) {
				L1 = e.Loop
			}
		}
		if L1 == nil {
			if !knownEmpty(g.St, groups) {
				fail(send.Pos, "the locations sent are not collected in a loop over the block")
			}
			continue
		}
		if L1.Trip != Len(groups) {
			fail(L1.Pos, "the loop does not visit every group exactly once (it runs %v times)", L1.Trip)
			continue
		}
		oSym := loopVarOf(O)
		if oSym == nil || oSym.Init == nil || !(oSym.Init == tNil || Len(oSym.Init) == tZero) {
			fail(send.Pos, "the locations sent (%v) are not those collected", O)
			continue
		}
		// ranges: collected, and perhaps the open one
		rSym := R
		var flushed *Term
		if R.isOp("app") && len(R.Args) == 2 {
			rSym, flushed = R.Args[0], R.Args[1]
		}
		rv := loopVarOf(rSym)
		if rv == nil || L1.Vars[rSym] == nil || !(rv.Init == tNil || Len(rv.Init) == tZero) {
			fail(send.Pos, "the ranges sent (%v) are not those collected", R)
			continue
		}
		w := &nodeWalk{c: c, rule: rule, coord: coord, flag: flag, name: name, L1: L1, R: rSym, O: O, b: b, rs: rs, rT: rT}
		// the loops over nodes
		for _, it := range L1.Iters {
			pg := it.St.elem(groups, L1.K, elemType(groups.T))
			dense := it.St.load(FieldAddrT(pg, iD, pgT), under(pgT).(*types.Struct).Field(iD).Type())
			dm := func(i int) *Term {
				return it.St.load(FieldAddrT(dense, i, dnT), under(dnT).(*types.Struct).Field(i).Type())
			}
			ids := dm(iId)
			var L2 *LoopInfo
			for _, e := range it.St.ev.list() {
				if e.Loop != nil && down(it, e.Loop, O) != nil {
					L2 = e.Loop
				}
			}
			if L2 == nil {
				isNil, v := it.St.decide(Eq(dense, tNil))
				if !(isNil && v) && !knownEmpty(it.St, ids) {
					fail(L1.Pos, "the nodes of a group can be left out")
				}
				for _, lv := range L1.Order {
					if (lv.Sym == O || lv.Sym == rSym || w.scalar(lv)) && it.Next[lv.Sym] != lv.Sym {
						fail(L1.Pos, "a group without nodes changes what is collected")
					}
				}
				continue
			}
			if L2.Trip != Len(ids) {
				fail(L2.Pos, "the loop does not visit every node exactly once (it runs %v times)", L2.Trip)
				continue
			}
			w.nodes(it, L2, ids, dm(iLat), dm(iLon), x, pbT)
		}
		w.final(g, flushed, send)
		if !w.bad {
			c.Ok(rule, name, send.Pos, "")
		}
	}
	c.Want(n > 0, rule, name, f.workS.Fn, "no path answers map data with index data")
}

type nodeWalk struct {
	c                       *Ctx
	rule, coord, flag, name string
	L1                      *LoopInfo
	R, O                    *Term // outer
	b                       *batch
	rs                      *types.Struct
	rT                      types.Type
	bad                     bool
	first, count            *Term // of the open range, over the variables of the outer loop
	marks                   []mark
}

// mark: a condition that holds exactly while no node has been seen: v == init.
type mark struct {
	outer, init *Term
	list        bool
}

func (w *nodeWalk) fail(pos any, f string, a ...any) {
	w.bad = true
	w.c.Bad(w.rule, w.name, pos, f, a...)
}

func (w *nodeWalk) scalar(lv *LoopVar) bool {
	return lv.Sym.T != nil && func() bool { _, ok := under(lv.Sym.T).(*types.Basic); return ok }() && lv.Init != nil && lv.Init.K == KInt
}

func (w *nodeWalk) rangeOf(e *Term) (first, count *Term) {
	first = Field(e, w.b.first, w.rs.Field(w.b.first).Type())
	x := Field(e, w.b.second, w.rs.Field(w.b.second).Type())
	if w.b.isCount {
		return first, x
	}
	return first, Add(Sub(x, first), Int(1))
}

// open: whether a path knows that a range is open (or that none is).
func (w *nodeWalk) open(st *State, at func(outer *Term) *Term) (known, open bool) {
	for _, m := range w.marks {
		v := at(m.outer)
		if v == nil {
			continue
		}
		cond := Eq(v, m.init)
		if m.list {
			cond = Eq(Len(v), tZero)
		}
		if k, x := st.decide(cond); k {
			return true, !x
		}
	}
	return false, false
}

func (w *nodeWalk) nodes(it *Iter, L *LoopInfo, ids, lats, lons *Term, x *reencode, pbT types.Type) {
	in := func(outer *Term) *Term { return down(it, L, outer) }
	r, o := in(w.R), in(w.O)
	if r == nil || o == nil {
		w.fail(L.Pos, "what is collected is not carried from group to group")
		return
	}
	// the range that is open
	var fi, co *Term
	for _, p := range L.Iters {
		if n := p.Next[r]; n != nil && n != r && n.isOp("app") && len(n.Args) == 2 && n.Args[0] == r {
			a, b := w.rangeOf(n.Args[1])
			if fi != nil && (fi != a || co != b) {
				w.fail(L.Pos, "ranges are made in two different ways")
				return
			}
			fi, co = a, b
		}
	}
	if fi == nil {
		w.fail(L.Pos, "no range is ever recorded before the end of the block")
		return
	}
	vars := loopVarsIn(L, fi, co)
	toOuter := func(t *Term) *Term {
		for _, lv := range L.Order {
			if has(vars, lv.Sym) {
				t = subst(t, lv.Sym, lv.Init)
			}
		}
		return t
	}
	for _, v := range vars {
		up := loopVarOf(L.Vars[v].Init)
		if up == nil || w.L1.Vars[up.Sym] == nil || in(up.Sym) != v {
			w.fail(L.Pos, "the open range is not carried from group to group")
			return
		}
	}
	w.first, w.count = toOuter(fi), toOuter(co)
	id := func(p *Iter) *Term { return stripConv(p.St.elem(ids, L.K, elemType(ids.T)), 64) }
	// what tells whether a range is open
	w.marks = nil
	for _, lv := range L.Order {
		up := loopVarOf(lv.Init)
		if up == nil || w.L1.Vars[up.Sym] == nil || in(up.Sym) != lv.Sym {
			continue
		}
		m := mark{outer: up.Sym, init: up.Init}
		ok := true
		if lv.Sym == o {
			m.list = true
			for _, p := range L.Iters {
				l, g := appendedTo(p.Next[o], o)
				ok = ok && g && len(l) > 0
			}
		} else if up.Init != nil && (up.Init.K == KInt || up.Init == tTrue || up.Init == tFalse) {
			for _, p := range L.Iters {
				nx := p.Next[lv.Sym]
				k, v := p.St.decide(Eq(nx, up.Init))
				differs := k && !v
				if up.Init.K == KInt && up.Init.I < 0 && stripConv(nx, 64) == id(p) {
					differs = true // ids are not negative
				}
				ok = ok && differs
			}
		} else {
			ok = false
		}
		if ok {
			w.marks = append(w.marks, m)
		}
	}
	for i, p := range L.Iters {
		next := func(t *Term) *Term {
			for _, lv := range L.Order {
				if t.contains(lv.Sym) {
					// simultaneous substitution through placeholders
					t = subst(t, lv.Sym, Op("nx", "", lv.Sym.T, lv.Sym))
				}
			}
			return rewrite(t, func(y *Term) *Term {
				if y.isOp("nx") {
					return p.Next[y.Args[0]]
				}
				return nil
			})
		}
		f2, c2 := next(fi), next(co)
		l, ok := appendedTo(p.Next[o], o)
		if !ok || len(l) == 0 {
			w.fail(L.Pos, "a node does not add its location (%v)", p.Next[o])
			continue
		}
		for _, z := range l[:len(l)-1] {
			if z != tZero {
				w.fail(L.Pos, "an id that is absent gets a location (%v)", z)
			}
		}
		u := id(p)
		known, isOpen := w.open(p.St, in)
		n := p.Next[r]
		// the location just added belongs to the last id of the open range
		if !equal(p.St, Add(stripConv(f2, 64), Sub(c2, Int(1))), u) {
			w.fail(L.Pos, "after a node, the open range (%v ids from %v) does not end with its id", c2, f2)
		}
		switch {
		case n == r && f2 == fi: // extended
			if !known || !isOpen {
				w.fail(L.Pos, "a range is extended although none may be open")
			}
			if !equal(p.St, Sub(c2, co), Int(int64(len(l)))) {
				w.fail(L.Pos, "the range grows by %v ids but %d locations are stored", Sub(c2, co), len(l))
			}
		case n == r: // first
			if !known || isOpen {
				w.fail(L.Pos, "a new range is started without recording the one that may be open")
			}
			if !equal(p.St, c2, Int(int64(len(l)))) {
				w.fail(L.Pos, "a new range has %v ids but %d locations are stored", c2, len(l))
			}
		default: // recorded, new one
			if !known || !isOpen {
				w.fail(L.Pos, "a range is recorded although none may be open")
			}
			if !equal(p.St, c2, Int(int64(len(l)))) {
				w.fail(L.Pos, "a new range has %v ids but %d locations are stored", c2, len(l))
			}
		}
		if w.coord != "" || w.flag != "" {
			w.location(p, L, l[len(l)-1], lats, lons, x, pbT, i)
		}
	}
}

// location: the code stored is that of the coordinates of the node.
func (w *nodeWalk) location(p *Iter, L *LoopInfo, v, lats, lons *Term, x *reencode, pbT types.Type, i int) {
	e := newBitEval(p.St)
	got := e.bits(v)
	w.c.Want(bvEq(got[63], b1), w.flag, w.name+" flag", L.Pos, "the location stored for a node (%v) need not have its top bit set, so it can be mistaken for an id", v)
	m := func(name string) *Term {
		j := FieldIndex(pbT, name)
		if j < 0 {
			return Op("missing", name, tI64)
		}
		return x.msgVal(pbT, "PrimitiveBlock", j)
	}
	axis := func(off string, l *Term) bitvec {
		g := Conv(m("Granularity"), tI64)
		t := Add(m(off), Mul(g, p.St.elem(l, L.K, elemType(l.T))))
		return e.bits(bitOp("div", t, Int(100), tI64))
	}
	lon, lat := axis("LonOffset", lons), axis("LatOffset", lats)
	for k, ax := range []struct {
		n string
		b bitvec
	}{{"longitude", lon}, {"latitude", lat}} {
		good := true
		for j := 0; j < 32; j++ {
			want := ax.b[j]
			if k == 1 && j == 31 {
				want = b1
			}
			good = good && bvEq(got[2*j+k], want)
		}
		w.c.Want(good, w.coord, fmt.Sprintf("%s %s", w.name, ax.n), L.Pos, "the %s bits stored for a node are not those of (offset + granularity * value)/100 of that axis", ax.n)
	}
}

// final: after the last node, the open range is recorded.
func (w *nodeWalk) final(g *segment, flushed *Term, send *Ev) {
	if w.bad || w.first == nil {
		if w.first == nil && !w.bad {
			w.fail(send.Pos, "not decided: no nodes are visited")
		}
		return
	}
	known, isOpen := w.open(g.St, func(o *Term) *Term { return o })
	if flushed == nil {
		if !known || isOpen {
			w.fail(send.Pos, "the last range of a block may be lost")
		}
		return
	}
	if !known || !isOpen {
		w.fail(send.Pos, "a range is recorded at the end although none may be open")
	}
	a, b := w.rangeOf(flushed)
	if a != w.first || b != w.count {
		w.fail(send.Pos, "the range recorded at the end (%v ids from %v) is not the open one", b, a)
	}
}

// ---- reading a node index ----

type nodeLay struct {
	version *Term
}

// nodeLayout checks where the reader of node indexes looks for the parts of the file.
func (c *Ctx) nodeLayout(rule string, quiet bool) *nodeLay {
	fn := c.P.Func("internal/nodeindex.NewNodeIndex")
	if fn == nil {
		if !quiet {
			c.Bad(rule, "nodeindex.NewNodeIndex", nil, "function not found")
		}
		return nil
	}
	in := c.interp()
	ioHooks(in)
	viewHooks(in)
	st := newState()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	var lay *nodeLay
	rets := 0
	for _, o := range c.run(in, fn, args, st) {
		if o.Kind != ORet {
			continue
		}
		rets++
		var mem *Term
		for _, e := range o.St.ev.list() {
			if op, _ := ioOf(e); op == "map" {
				mem = e.Ret
			}
		}
		T := c.P.Named("internal/nodeindex.NodeIndex")
		if mem == nil || T == nil || len(o.Rets) != 1 {
			if !quiet {
				c.Bad(rule, fn.Name(), o.Pos, "not decided: the file mapped")
			}
			continue
		}
		s := under(T).(*types.Struct)
		var lists []*Term
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := under(s.Field(i).Type()).(*types.Slice); ok && intWidth(sl.Elem()) == 64 {
				v := o.St.load(FieldAddrT(o.Rets[0], i, T), s.Field(i).Type())
				if v.contains(mem) || v.any(func(x *Term) bool { return x.isOp("view") }) {
					lists = append(lists, v)
				}
			}
		}
		if len(lists) != 2 {
			if !quiet {
				c.Bad(rule, fn.Name(), o.Pos, "not decided: the index has %d parts", len(lists))
			}
			continue
		}
		// the version: an equation known on this path about word 0
		a0, lo0 := arrOf(lists[0])
		a1, lo1 := arrOf(lists[1])
		word := func(i int64) *Term { return o.St.elem(SliceTerm(a0, tZero, Int(8), Int(8), lists[0].T), Int(i), tI64) }
		var ver *Term
		for k := int64(0); k < 1<<16 && ver == nil; k++ {
			if kn, v := o.St.decide(Eq(word(0), Int(k))); kn && v {
				ver = Int(k)
			}
			if k > 64 {
				break
			}
		}
		lay = &nodeLay{version: ver}
		if quiet {
			return lay
		}
		c.Want(ver != nil && ver != tZero, rule, "reader version", o.Pos, "an index is opened without its version having been checked")
		c.Want(a0 == a1, rule, "reader parts", o.Pos, "the parts of the index are not taken from the same memory")
		n := word(1)
		c.Want(lo0 == Int(2) && Len(lists[0]) == Scale(n, 2), rule, "reader entries", o.Pos, "the entries are expected at word %v (%v words), not at word 2 (two words for each of the number of entries in word 1)", lo0, Len(lists[0]))
		c.Want(lo1 == Add(Int(2), Scale(n, 2)), rule, "reader locations", o.Pos, "the locations are expected at word %v, not after the entries", lo1)
		total := wordsOf(a0)
		c.Want(total != nil && Add(lo1, Len(lists[1])) == total, rule, "reader end", o.Pos, "the locations do not extend to the end of the file")
	}
	if !quiet {
		c.Want(rets > 0, rule, fn.Name(), fn, "no path opens an index")
	}
	return lay
}

// wordsOf: the number of words of a view.
func wordsOf(arr *Term) *Term {
	if arr.isOp("arr") {
		return Len(arr.Args[0])
	}
	return nil
}

func init() {
	node := func(c *Ctx, rule, layout, coord, flag string) {
		fl := c.indexFlows("pipeline", "countoffset")
		for _, f := range fl {
			c.Try(rule+layout+coord+flag, f.workS.name(), f.workS.Fn, func() {
				b := c.nodeWriter(rule, layout, f)
				if rule+coord+flag == "" {
					return
				}
				if b == nil {
					c.Bad(rule+coord+flag, f.workS.name(), f.workS.Fn, "not decided: what the writer does with the payload")
					return
				}
				c.nodeWorker(rule, coord, flag, f, b)
			})
		}
		c.Want(len(fl) > 0, "coverage", "node index builder", nil, "no command that builds a node index was found")
	}
	nodeLocations = func(c *Ctx, flag string) { node(c, "", "", "", flag) }
	register("C08", "symbolic linear expressions per axis: the node indexing worker, the conversion to node objects and the building of blocks from objects are interpreted for an arbitrary block; in normal form (polynomials over Z/2^64) every latitude must be latitude offset + granularity * latitude value and every longitude the same with the longitude terms, exactly divided by 100 where it is stored, the longitude being the first and the latitude the second argument of the location encoder; building a block divides by the granularity that the block then declares, with zero offsets",
		func(c *Ctx) {
			node(c, "", "", "axis", "")
			o := &objCheck{c: c, coord: "object axis"}
			c.Try("object axis", "ToNodes", nil, func() { o.toObjects("Nodes") })
			c.Try("object axis", "MakePrimitiveBlock", nil, func() { o.makeBlock() })
			c.Min("axis", 2)
			c.Min("object axis", 4)
		})
	register("C10", "symbolic write/read layout: the node index writer is interpreted over an arbitrary sequence of batches; the order, offsets and lengths of everything written (two reserved words, all entries of all batches, then all locations) are compared with the positions from which the reader takes each part of the mapping; the entry count in the header is the length of the list written; the only write of a version other than zero comes after all other writes, on no path after a skipped part; the reader rejects any other version",
		func(c *Ctx) {
			node(c, "", "layout", "", "")
			c.nodeLayout("reader", false)
			c.entryWords("reader")
			c.Min("layout", 3)
			c.Min("reader", 8)
		})
	register("C12", "loop-invariant abstract interpretation: the worker's loop over nodes is summarised by its recurrence and a relational invariant (length of the locations = sum of the range lengths, next expected id = first id + length of the current range) is checked on every path of an arbitrary iteration: a node appends exactly its own location, a gap of g ids appends g zeros and extends the range by g+1, otherwise a new range starts with count 1 and the previous one is emitted; the writer adds the running total of locations to each range's offset and the lengths of the batches to the total",
		func(c *Ctx) {
			node(c, "lockstep", "", "", "")
			c.Min("lockstep", 2)
		}, "node ids are not negative")
}

// nodeLocations checks the flag of the locations stored (C07).
var nodeLocations func(c *Ctx, flag string)

func emitStr(l []emit) string {
	s := ""
	for i := range l {
		s += " " + l[i].String()
	}
	return s
}
