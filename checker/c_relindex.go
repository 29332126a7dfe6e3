package main

// C34: the grammar of relation index records.

import (
	"fmt"
	"go/types"
)

func init() {
	register("C34", "abstract interpretation with a grammar check on every path: the lists of numbers sent, written and rewritten are decomposed into single numbers, runs and repetitions; the initial record of a relation is its id, the number of its way members and as many negated ids; a pass reads record after record to the end of its input with one cursor, and writes for each the id, the count and for as many members what the grammar allows, nothing else, nothing twice", checkC34,
		"the members of a relation and their types are equally many; ids are positive", "no overflow of lengths")
}

func checkC34(c *Ctx) {
	passes := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("pass", k.Name, nil, "not decided: %s", k.Err)
			continue
		}
		n := 0
		c.Try("pass", k.Name, k.Main, func() {
			for _, o := range k.Outs {
				if o.Kind == ORet {
					n += c.recordPasses(k, o.St)
				}
			}
		})
		passes += n
		if n == 0 {
			continue
		}
		fl := map[tokenPos]bool{}
		for _, f := range c.flowsPrep("initial", false, func(in *Interp) { in.TraceMem = false }) {
			if f.p.Cmd != k && f.p.Cmd.Name != k.Name {
				continue
			}
			fl[f.p.Ev.Pos] = true
			if f.write == nil {
				c.Bad("initial", f.p.name(), f.p.Ev.Pos, "the first records are not written")
				continue
			}
			c.Try("initial", f.p.name(), f.workS.Fn, func() { c.firstRecords(f) })
			c.Try("written", f.p.name(), f.writS.Fn, func() { c.recordWriter(f) })
		}
		c.Want(len(fl) == 1, "initial", k.Name, k.Main, "%d pipelines make the first records, 1 expected", len(fl))
	}
	c.Want(passes > 0, "pass", "rewriting pass", nil, "no command rewrites relation records")
	c.Min("initial", 1)
	c.Min("written", 1)
	c.Min("record", 1)
	c.Min("member", 4)
	c.Min("member-count", 1)
	c.Min("way-member", 1)
}

// pc is a part of a list of numbers: one number, a run, or a repetition.
type pc struct {
	w, run *Term
	L      *LoopInfo
	lv     *LoopVar
	per    [][]pc // per path of an iteration
	direct bool   // the repetition writes itself
}

func (p pc) String() string {
	switch {
	case p.w != nil:
		return p.w.String()
	case p.run != nil:
		return "list " + p.run.String()
	}
	return fmt.Sprintf("loop%v", p.per)
}

// pieces: what a list consists of after base (nil: from the beginning).
func pieces(st *State, t, base *Term, evs []*Ev) ([]pc, string) {
	switch {
	case t == nil:
		return nil, "a list is not known"
	case base != nil && t == base:
		return nil, ""
	case base == nil && (t == tNil || Len(t) == tZero || knownEmpty(st, t)):
		return nil, ""
	case t.isOp("app"):
		l, why := pieces(st, t.Args[0], base, evs)
		for _, e := range t.Args[1:] {
			l = append(l, pc{w: e})
		}
		return l, why
	case t.isOp("appS"):
		l, why := pieces(st, t.Args[0], base, evs)
		if why != "" {
			return nil, why
		}
		r, why := sub(st, t.Args[1], evs)
		return append(l, r...), why
	}
	if lv := loopVarOf(t); lv != nil {
		if L := findLoop(evs, lv); L != nil {
			l, why := pieces(st, lv.Init, base, evs)
			if why != "" {
				return nil, why
			}
			p := pc{L: L, lv: lv}
			for _, it := range L.Iters {
				x, why := pieces(it.St, it.Next[lv.Sym], lv.Sym, it.St.ev.list())
				if why != "" {
					return nil, why
				}
				p.per = append(p.per, x)
			}
			return append(l, p), ""
		}
	}
	if base != nil {
		return nil, fmt.Sprintf("%v does not continue %v", t, base)
	}
	return sub(st, t, evs)
}

// sub: the parts of a list that is appended.
func sub(st *State, t *Term, evs []*Ev) ([]pc, string) {
	if lv := loopVarOf(t); lv != nil && findLoop(evs, lv) != nil {
		return pieces(st, t, nil, evs)
	}
	if t.isOp("app") || t.isOp("appS") {
		return pieces(st, t, nil, evs)
	}
	l, ok := flatten(t)
	if !ok {
		return nil, fmt.Sprintf("not decided: the list %v", t)
	}
	var r []pc
	for _, p := range l {
		if p.b != nil {
			r = append(r, pc{w: p.b})
		} else {
			r = append(r, pc{run: p.run})
		}
	}
	return r, ""
}

func writesTo(e *Ev, file *Term) bool {
	r := false
	eachEv([]*Ev{e}, func(x *Ev) {
		op, a := ioOf(x)
		r = r || len(a) > 0 && a[0] == file && (op == "write" || op == "iocopy" || op == "copy" || op == "mapwrite" || op == "truncate" || op == "seek" || op == "writeat")
	})
	return r
}

// stream: what is written to a file, together with what is collected for it, in order.
func stream(st *State, evs []*Ev, file, start, end *Term) ([]pc, string) {
	var out []pc
	cur := start
	for i, e := range evs {
		if !writesTo(e, file) {
			continue
		}
		if e.Loop == nil {
			op, a := ioOf(e)
			if op != "write" {
				return nil, "the file is changed by " + op
			}
			l, why := pieces(st, a[1], cur, evs[:i])
			if why != "" {
				return nil, why
			}
			out = append(out, l...)
			cur = nil
			continue
		}
		// a repetition that writes: one of its variables holds what is collected
		done := false
		for _, lv := range append([]*LoopVar{}, e.Loop.Order...) {
			if _, sl := under(lv.Sym.T).(*types.Slice); !sl {
				continue
			}
			pre, why := pieces(st, lv.Init, cur, evs[:i])
			if why != "" {
				continue
			}
			p := pc{L: e.Loop, lv: lv, direct: true}
			ok := true
			for _, it := range e.Loop.Iters {
				x, why := stream(it.St, it.St.ev.list(), file, lv.Sym, it.Next[lv.Sym])
				if why != "" {
					ok = false
					if len(e.Loop.Order) == 1 {
						return nil, why
					}
					break
				}
				p.per = append(p.per, x)
			}
			if ok {
				out = append(append(out, pre...), p)
				cur, done = lv.Sym, true
				break
			}
		}
		if !done && (cur == nil || knownEmpty(st, cur)) {
			p := pc{L: e.Loop, direct: true}
			ok := true
			for _, it := range e.Loop.Iters {
				x, why := stream(it.St, it.St.ev.list(), file, nil, tNil)
				if why != "" {
					ok = false
				}
				p.per = append(p.per, x)
			}
			if ok {
				out = append(out, p)
				cur, done = nil, true
			}
		}
		if !done {
			return nil, "not decided: what a loop writes"
		}
	}
	if end == tNil {
		if cur == nil || knownEmpty(st, cur) {
			return out, ""
		}
		l, why := pieces(st, cur, start, evs)
		if why == "" && len(l) == 0 {
			return out, ""
		}
		return nil, fmt.Sprintf("what was collected (%v) may be left unwritten", cur)
	}
	l, why := pieces(st, end, cur, evs)
	return append(out, l...), why
}

// recordPasses finds the passes over relation records (a part of an index, an input that is mapped and an output).
func (c *Ctx) recordPasses(k *Command, st *State) int {
	n := 0
	var visit func(st *State)
	visit = func(st *State) {
		evs := st.ev.list()
		var part *Ev
		finds, makes := false, false
		for _, e := range evs {
			if op, _ := ioOf(e); op == "create" {
				makes = true
			}
			if e.Kind == "subindex" {
				part = e
			}
			if e.Loop != nil {
				f := false
				eachEv([]*Ev{e}, func(x *Ev) { f = f || x.Kind == "find" })
				finds = finds || f && part != nil
			}
		}
		if part != nil && finds && makes {
			n++
			c.recordPass(k, st, part)
			return
		}
		for _, e := range evs {
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					visit(it.St)
				}
			}
		}
	}
	visit(st)
	return n
}

type recPass struct {
	c     *Ctx
	name  string
	part  *Ev
	words *Term // the numbers of the input
	V     *Term
	last  *Term // condition: not the last pass
}

func (c *Ctx) recordPass(k *Command, st *State, part *Ev) {
	evs := st.ev.list()
	var file *Term
	maps := map[*Term]bool{}
	opened := map[*Term]bool{}
	for _, e := range evs {
		op, a := ioOf(e)
		switch op {
		case "create":
			if file != nil {
				c.Bad("pass", k.Name, e.Pos, "not decided: a pass makes several files")
				return
			}
			file = e.Ret
		case "open":
			opened[e.Ret] = true
		case "map":
			if len(a) > 0 && opened[a[0]] {
				maps[e.Ret] = true
			}
		}
	}
	if file == nil {
		c.Bad("pass", k.Name, part.Pos, "a pass writes no file")
		return
	}
	l, why := stream(st, evs, file, nil, tNil)
	if why != "" {
		c.Bad("pass", k.Name, part.Pos, "%s", why)
		return
	}
	c.Ok("pass", k.Name+" written", part.Pos, "")
	if len(l) != 1 || l[0].L == nil {
		c.Bad("pass", k.Name, part.Pos, "a pass does not write the records of one loop over its input and nothing else")
		return
	}
	p := &recPass{c: c, name: k.Name, part: part}
	if len(part.Args) != 3 {
		c.Bad("pass", k.Name, part.Pos, "not decided: which part of the index is used")
		return
	}
	p.last = Lt(Add(stripConv(part.Args[1], 64), Int(1)), stripConv(part.Args[2], 64), false)
	L := l[0].L
	if len(L.Iters) == 0 {
		c.Bad("record", k.Name, L.Pos, "no record is read")
		return
	}
	c.Want(len(L.Aborts) == 0, "record", k.Name+" stops", L.Pos, "a record may stop the run")
	var cur *LoopVar
	for i, it := range L.Iters {
		per := l[0].per[i]
		if len(per) == 0 || per[0].w == nil || !per[0].w.isOp("select") {
			c.Bad("record", k.Name, L.Pos, "what is written for a record does not begin with the relation's id")
			return
		}
		w := per[0].w
		V := w.Args[0]
		ok := V.isOp("cont0") && V.Args[0].isOp("arr") && V.Args[0].Args[0].isOp("view") && maps[V.Args[0].Args[0].Args[0]]
		if !c.Want(ok, "record", k.Name+" input", L.Pos, "the record's id (%v) is not read from the mapped input of the pass", w) {
			return
		}
		p.words, p.V = V.Args[0].Args[0], V
		lv := L.Vars[w.Args[1]]
		if lv == nil || lv.Init != tZero || cur != nil && cur != lv {
			c.Bad("record", k.Name, L.Pos, "the cursor (%v) does not start at the first record", w.Args[1])
			return
		}
		cur = lv
		c.Want(sure(it.St, Lt(cur.Sym, Len(p.words), false)), "record", k.Name+" bound", L.Pos, "a record may be read beyond the end")
		c.Want(p.record(it, per, cur), "record", fmt.Sprintf("%s path %d", k.Name, i), L.Pos, "not a record")
	}
	for _, x := range L.Exits {
		c.Want(sure(x.St, Le(Len(p.words), cur.Sym, false)), "record", k.Name+" all", L.Pos, "the loop may end before the last record")
	}
}

func (p *recPass) at(i *Term) *Term { return Select(p.V, i, elemType(p.words.T)) }

// record checks what one record of the input becomes.
func (p *recPass) record(it *Iter, per []pc, cur *LoopVar) bool {
	c := p.c
	var l []pc
	for _, x := range per { // short runs of the input are single numbers
		if x.run != nil {
			if n := stripConv(Len(x.run), 64); n.K == KInt && n.I <= 2 {
				_, lo := arrOf(x.run)
				if p.slice(x.run, lo, n) {
					for k := int64(0); k < n.I; k++ {
						l = append(l, pc{w: p.at(Add(lo, Int(k)))})
					}
					continue
				}
			}
		}
		l = append(l, x)
	}
	per = l
	bad := func(pos any, f string, a ...any) bool {
		c.Bad("record", p.name, pos, f, a...)
		return true // reported
	}
	i := cur.Sym
	if len(per) < 2 || per[1].w == nil || stripConv(per[1].w, 64) != p.at(Add(i, Int(1))) {
		return bad(nil, "a record's second number is not the count that was read")
	}
	count := p.at(Add(i, Int(1)))
	if len(per) == 2 {
		none := sure(it.St, Le(count, tZero, false)) || equal(it.St, count, tZero)
		if !none {
			return bad(nil, "the members of a record are not written")
		}
		if it.Next[cur.Sym] != Add(i, Int(2)) {
			return bad(nil, "the cursor is not put behind an empty record")
		}
		return true
	}
	if len(per) != 3 || per[2].L == nil {
		return bad(nil, "a record consists of more than id, count and members: %v", per)
	}
	L := per[2].L
	if len(L.Aborts) > 0 {
		return bad(L.Pos, "a member may stop the run")
	}
	in := loopVarOf(it.Next[cur.Sym])
	if in == nil || findLoop(it.St.ev.list(), in) != L {
		return bad(L.Pos, "the next record is read from %v, not from where the members end", it.Next[cur.Sym])
	}
	if in.Init != Add(i, Int(2)) {
		return bad(L.Pos, "the first member is read from %v", in.Init)
	}
	for _, x := range L.Exits {
		if !sure(x.St, Le(count, L.K, false)) {
			return bad(L.Pos, "the loop over the members may end before as many as announced")
		}
	}
	for _, m := range L.Iters {
		if !sure(m.St, Lt(L.K, count, false)) {
			return bad(L.Pos, "more members may be written than announced")
		}
	}
	for j, m := range L.Iters {
		what, why := p.member(m, per[2].per[j], in)
		c.Want(why == "", "member", p.name+" "+what, L.Pos, "%s", why)
	}
	return true
}

func (p *recPass) member(m *Iter, per []pc, in *LoopVar) (what, why string) {
	st := m.St
	i := in.Sym
	w := p.at(i)
	neg := Scale(w, -1)
	var find *Ev
	finds := 0
	for _, e := range st.ev.list() {
		if e.Kind == "find" {
			find = e
			finds++
		}
	}
	next := m.Next[i]
	word := func(k int, t *Term) bool { return k < len(per) && per[k].w != nil && stripConv(per[k].w, 64) == t }
	open := sure(st, Lt(w, tZero, false)) || sure(st, Le(w, tZero, false))
	done := sure(st, Le(tZero, w, false)) || sure(st, Lt(tZero, w, false))
	switch {
	case open && done:
		return "impossible", ""
	case done:
		what = "resolved"
		n := p.at(Add(i, Int(1)))
		if !p.span(per, i, Add(n, Int(2))) {
			return what, fmt.Sprintf("a member that already has its locations is not copied as it is, but written as %v", per)
		}
		if next != Add(Add(i, Int(2)), n) {
			return what, fmt.Sprintf("after a member with n locations the cursor is put to %v", next)
		}
		if finds > 0 {
			return what, "a member that already has its locations is looked up again"
		}
		return what, ""
	case !open:
		return "member", "not decided: whether a member is resolved is not told by its sign"
	}
	if next != Add(i, Int(1)) {
		return "unresolved", fmt.Sprintf("after an unresolved member the cursor is put to %v", next)
	}
	if finds != 1 || len(find.Args) < 2 || !p.ofPart(find.Args[0]) || stripConv(find.Args[1], 64) != neg {
		return "unresolved", "an unresolved member is not looked up, once, by its id in the pass's part of the index"
	}
	var locs, found *Term
	if find.Ret != nil && find.Ret.isOp("tuple") {
		for _, a := range find.Ret.Args {
			if b, isB := under(a.T).(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
				found = a
			}
			if _, sl := under(a.T).(*types.Slice); sl {
				locs = a
			}
		}
	}
	if locs == nil || found == nil {
		return "unresolved", "not decided: the result of the lookup"
	}
	known, hit := st.decide(found)
	if !known {
		return "unresolved", "not decided: whether the way was found does not decide what is written"
	}
	if hit {
		if len(per) == 2 && knownEmpty(st, locs) && word(0, neg) && word(1, tZero) {
			return "found", ""
		}
		if len(per) != 3 || !word(0, neg) || !word(1, Len(locs)) || per[2].run == nil || !p.sameList(per[2].run, locs) {
			return "found", fmt.Sprintf("a member that is found is not written as its id, the number of locations and the locations, but as %v", per)
		}
		return "found", ""
	}
	lk, more := st.decide(p.last)
	switch {
	case !lk:
		return "missing", "not decided: what is written for a way that is not found does not depend on whether the pass is the last one"
	case more:
		if len(per) != 1 || !word(0, w) {
			return "kept", fmt.Sprintf("a member that is not found before the last pass is not kept, but written as %v", per)
		}
		return "kept", ""
	}
	if len(per) != 2 || !word(0, neg) || !word(1, tZero) {
		return "given up", fmt.Sprintf("a member that is not found in the last pass is not written as its id and no locations, but as %v", per)
	}
	return "given up", ""
}

func (p *recPass) ofPart(t *Term) bool { return t == p.part.Ret }

func (p *recPass) sameList(t, l *Term) bool {
	if t == l {
		return true
	}
	a, lo := arrOf(t)
	b, lo2 := arrOf(l)
	if Len(t) == Len(l) && a == b && lo == lo2 {
		return true
	}
	return t.isOp("seq") && t.Args[1] == lo2 && t.Args[2] == Len(l) && t.Args[0].isOp("cont0") && t.Args[0].Args[0] == b
}

// span: the parts are n numbers of the input from i, one after the other.
func (p *recPass) span(per []pc, i, n *Term) bool {
	at, end := i, Add(i, n)
	for _, x := range per {
		switch {
		case x.w != nil && stripConv(x.w, 64) == p.at(at):
			at = Add(at, Int(1))
		case x.run != nil && p.slice(x.run, at, stripConv(Len(x.run), 64)):
			at = Add(at, stripConv(Len(x.run), 64))
		default:
			return false
		}
	}
	return at == end
}

// slice: n numbers of the input from i.
func (p *recPass) slice(t, i, n *Term) bool {
	if t == nil {
		return false
	}
	if t.isOp("seq") {
		return t.Args[0] == p.V && t.Args[1] == i && stripConv(t.Args[2], 64) == n
	}
	a, lo := arrOf(t)
	return a == p.V.Args[0] && lo == i && stripConv(Len(t), 64) == n
}

// ---- the first records ----

// recordKinds: the payloads of a pipeline that are written.
func (c *Ctx) recordPayload(f *flow) *payload {
	var r *payload
	for _, q := range f.out {
		if q.T == nil || q.pass || f.empty(q) {
			continue
		}
		if r != nil && (r.T != q.T || r.kind != q.kind) {
			return nil
		}
		r = q
	}
	return r
}

func (c *Ctx) recordWriter(f *flow) {
	name := f.writS.name()
	q := c.recordPayload(f)
	if q == nil {
		c.Bad("written", name, f.writS.Fn, "not decided: what the workers send")
		return
	}
	files := map[*Term]bool{}
	ok, n := true, 0
	for _, g := range f.write.segs {
		if g.blk == nil || g.Kind != ORet {
			continue
		}
		if yes, _ := g.feasible(*q); !yes {
			if ws := writesIn(g.evs); len(ws) > 0 {
				ok = c.Want(false, "written", name+" other", ws[0].Pos, "something is written for a block without records")
			}
			continue
		}
		ws := writesIn(g.evs)
		if len(ws) == 0 && nothingToWrite(g) {
			continue
		}
		if len(ws) != 1 {
			ok = c.Want(false, "written", name, g.Pos, "the records of a block are written in %d pieces, one expected", len(ws))
			continue
		}
		op, a := ioOf(ws[0])
		pay := payloadTerm(g)
		l, why := sub(g.St, a[1], g.evs)
		if op != "write" || why != "" || len(l) != 1 || l[0].run == nil || pay == nil || !(l[0].run == pay || samePayload(l[0].run, pay)) {
			ok = c.Want(false, "written", name, ws[0].Pos, "not all records of a block are written as they came (%v)", a[1])
			continue
		}
		files[a[0]] = true
		n++
	}
	if ok && c.Want(n > 0 && len(files) == 1, "written", name, f.writS.Fn, "the records are not all written to one file") {
		// nothing else goes to that file
		for _, o := range f.writS.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				op, a := ioOf(e)
				if len(a) > 0 && files[a[0]] && (op == "seek" || op == "truncate" || op == "mapwrite" || op == "copy" || op == "iocopy") {
					c.Bad("written", name, e.Pos, "the file with the records is also changed by %s", op)
				}
				if len(a) > 0 && files[a[0]] && op == "write" && !f.inSegment(e) {
					c.Bad("written", name, e.Pos, "something else is written between the records")
				}
			})
		}
	}
}

func samePayload(t, pay *Term) bool {
	a, lo := arrOf(pay)
	return t.isOp("seq") && t.Args[0].isOp("cont0") && t.Args[0].Args[0] == a && t.Args[1] == lo && t.Args[2] == Len(pay)
}

func (f *flow) inSegment(x *Ev) bool {
	for _, g := range f.write.segs {
		if g.blk == nil {
			continue
		}
		hit := false
		eachEv(g.evs, func(e *Ev) { hit = hit || e == x })
		if hit {
			return true
		}
	}
	return false
}

// firstRecords: what the workers send for map data.
func (c *Ctx) firstRecords(f *flow) {
	name := f.workS.name()
	pbT, pgT, rT := c.P.Named("internal/t.PrimitiveBlock"), c.P.Named("internal/t.PrimitiveGroup"), c.P.Named("internal/t.Relation")
	if pbT == nil || pgT == nil || rT == nil {
		c.Bad("initial", name, nil, "message types not found")
		return
	}
	iPG, iR := FieldIndex(pbT, "PrimitiveGroup"), FieldIndex(pgT, "Relations")
	iID, iM, iT := FieldIndex(rT, "ID"), FieldIndex(rT, "MemIDs"), FieldIndex(rT, "MemberType")
	if iPG < 0 || iR < 0 || iID < 0 || iM < 0 || iT < 0 {
		c.Bad("initial", name, nil, "message members not found")
		return
	}
	q := c.recordPayload(f)
	if q == nil {
		c.Bad("initial", name, f.workS.Fn, "not decided: what the workers send")
		return
	}
	n := 0
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		data := false
		for _, p := range c.inputKinds("initial") {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				data = true
			}
		}
		if !data {
			continue
		}
		var read, send *Ev
		for _, e := range g.evs {
			if e.Kind == "readinto" && e.Name == "PrimitiveBlock" {
				read = e
			}
			if e.Kind == "send" {
				send = e
			}
		}
		if read == nil || send == nil {
			c.Bad("initial", name, g.Pos, "map data are answered without having been decoded")
			continue
		}
		c.wantDecoded("initial", name, read, g, "SkipRelations", "SkipStringTable")
		x := &reencode{seg: g, read: read}
		groups := x.msgVal(pbT, "PrimitiveBlock", iPG)
		d := dataOf(send.Args[1])
		if d == nil || !d.isOp("iface") || !types.Identical(d.Args[0].T, q.T) {
			if knownEmpty(g.St, groups) {
				continue
			}
			c.Bad("initial", name, send.Pos, "map data are answered with something else than records")
			continue
		}
		if k := Field(send.Args[1], 2, tString); k != Str(q.kind) {
			c.Bad("initial", name, send.Pos, "records may be sent in a block of kind %v, which is not written", k)
			continue
		}
		l, why := pieces(g.St, d.Args[0], nil, g.evs)
		if why != "" {
			c.Bad("initial", name, send.Pos, "%s", why)
			continue
		}
		n++
		if len(l) == 0 && knownEmpty(g.St, groups) {
			continue
		}
		if len(l) != 1 || l[0].L == nil || l[0].L.Trip != Len(groups) {
			c.Bad("initial", name, send.Pos, "what is sent is not collected in one loop over all groups")
			continue
		}
		L0 := l[0].L
		ok := true
		for i, it := range L0.Iters {
			pg := it.St.elem(groups, L0.K, elemType(groups.T))
			rels := it.St.load(FieldAddrT(pg, iR, pgT), under(pgT).(*types.Struct).Field(iR).Type())
			per := l[0].per[i]
			if len(per) == 0 && knownEmpty(it.St, rels) {
				continue
			}
			if len(per) != 1 || per[0].L == nil || per[0].L.Trip != Len(rels) {
				c.Bad("initial", name, L0.Pos, "what is collected for a group is not collected in one loop over all relations")
				ok = false
				continue
			}
			L1 := per[0].L
			for j, rt := range L1.Iters {
				rel := rt.St.elem(rels, L1.K, elemType(rels.T))
				m := func(i int) *Term {
					return rt.St.load(FieldAddrT(rel, i, rT), under(rT).(*types.Struct).Field(i).Type())
				}
				why := c.firstRecord(name, rt, per[0].per[j], m(iID), m(iM), m(iT))
				ok = ok && why == ""
				if why != "" {
					c.Bad("initial", name, L1.Pos, "%s", why)
				}
			}
		}
		if ok {
			c.Ok("initial", name, send.Pos, "")
		}
	}
	c.Want(n > 0, "initial", name, f.workS.Fn, "no path answers map data with records")
}

func (c *Ctx) firstRecord(name string, rt *Iter, per []pc, id, mem, typ *Term) string {
	if len(per) < 2 || per[0].w == nil || stripConv(per[0].w, 64) != stripConv(id, 64) {
		return "a record does not begin with the relation's id"
	}
	if per[1].w == nil {
		return "a record's second number is not a count"
	}
	evs := rt.St.ev.list()
	over := func(L *LoopInfo) bool { return L.Trip == Len(mem) || L.Trip == Len(typ) }
	isWay := func(it *Iter, k *Term) (bool, bool) {
		return it.St.decide(Eq(it.St.elem(typ, k, elemType(typ.T)), Int(1)))
	}
	if len(per) == 2 {
		if (knownEmpty(rt.St, mem) || knownEmpty(rt.St, typ)) && stripConv(per[1].w, 64) == tZero {
			return ""
		}
		return "the members of a relation are left out"
	}
	if len(per) != 3 || per[2].L == nil {
		return fmt.Sprintf("a record consists of more than id, count and members: %v", per)
	}
	L := per[2].L
	if !over(L) {
		return fmt.Sprintf("the loop over the members runs %v times, not once per member", L.Trip)
	}
	for i, it := range L.Iters {
		k, way := isWay(it, L.K)
		m := it.St.elem(mem, L.K, elemType(mem.T))
		one := per[2].per[i]
		switch {
		case !k:
			return "not decided: whether a member is written does not depend on its being a way"
		case way && !(len(one) == 1 && one[0].w != nil && stripConv(one[0].w, 64) == Scale(m, -1)):
			return fmt.Sprintf("a way member is written as %v, not as its negated id", one)
		case !way && len(one) != 0:
			return fmt.Sprintf("a member that is no way is written (%v)", one)
		}
	}
	c.Ok("way-member", name, L.Pos, "")
	// the count
	n := stripConv(per[1].w, 64)
	if per[2].lv != nil && n == Len(per[2].lv.Sym) && (per[2].lv.Init == tNil || Len(per[2].lv.Init) == tZero) {
		c.Ok("member-count", name, L.Pos, "")
		return ""
	}
	lv := loopVarOf(n)
	var CL *LoopInfo
	if lv != nil {
		CL = findLoop(evs, lv)
	}
	if CL == nil || lv.Init != tZero || !over(CL) {
		return fmt.Sprintf("the count of a record (%v) does not count all members", n)
	}
	for _, it := range CL.Iters {
		k, way := isWay(it, CL.K)
		nx := it.Next[lv.Sym]
		switch {
		case !k && nx == lv.Sym, !k:
			return "not decided: whether a member is counted does not depend on its being a way"
		case way && nx != Add(lv.Sym, Int(1)):
			return fmt.Sprintf("a way member changes the count to %v", nx)
		case !way && nx != lv.Sym:
			return fmt.Sprintf("a member that is no way changes the count to %v", nx)
		}
	}
	c.Ok("member-count", name, CL.Pos, "")
	return ""
}
