package main

// C06 and C16: what a stage that re-encodes a decoded block may change.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reencode: a block that was decoded and is written again by the same stage.
type reencode struct {
	seg  *segment
	evs  []*Ev // events between reading and writing
	read *Ev   // readinto PrimitiveBlock
	out  *Ev   // writemsg
	ptr  *Term
	snap *State
}

// reencoded finds the messages that were decoded and are written again.
func (c *Ctx) reencoded(g *segment) []*reencode {
	var r []*reencode
	reads := map[*Term]int{}
	for i, e := range g.evs {
		switch e.Kind {
		case "readinto":
			if e.Name == "PrimitiveBlock" {
				reads[e.Args[0]] = i
			}
		case "writemsg":
			var ptrs []*Term
			if e.Name == "PrimitiveBlock" {
				ptrs = append(ptrs, e.Args[0])
			}
			if e.Name == "Blob" {
				e.Args[1].any(func(x *Term) bool {
					if x.isOp("closure") {
						ptrs = append(ptrs, x.Args...)
					}
					return false
				})
			}
			for _, p := range ptrs {
				if j, ok := reads[p]; ok {
					r = append(r, &reencode{seg: g, evs: g.evs[j+1 : i], read: g.evs[j], out: e, ptr: p, snap: e.Snap})
				}
			}
		}
	}
	return r
}

// msgVal is what a reader put into member i of the message.
func (x *reencode) msgVal(T types.Type, name string, i int) *Term {
	s := under(T).(*types.Struct)
	return Op("msgf", name+"."+s.Field(i).Name(), s.Field(i).Type(), x.read.Args[1], x.read.Args[2])
}

// decodedRoot reports whether an address lies in memory that the reader of the message created.
func (x *reencode) decodedRoot(addr *Term) bool {
	base := x.read.Args[1]
	found := false
	var visit func(t *Term, d int)
	seen := map[*Term]bool{}
	visit = func(t *Term, d int) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t.isOp("msgf") && t.Args[0] == base {
			found = true
			return
		}
		switch {
		case t.isOp("fld"), t.isOp("idx"), t.isOp("select"), t.isOp("load"), t.isOp("loadx"), t.isOp("arr"), t.isOp("slice"), t.isOp("cont0"), t.isOp("store"):
			visit(t.Args[0], d+1)
		}
		if lv := loopVarOf(t); lv != nil {
			if lv.Init != nil {
				visit(lv.Init, d+1)
			}
			if lv.Cell != nil {
				visit(lv.Cell, d+1)
			}
		}
	}
	visit(addr, 0)
	return found || addr == x.ptr || rootOf(addr) == x.ptr
}

// fieldOf names the struct field that an address selects last.
func fieldOf(addr *Term) (T types.Type, name string) {
	if addr.isOp("fld") {
		st := elemTypeOfPtr(addr.Args[0])
		if st != nil {
			var i int
			if _, err := fmt.Sscan(addr.S, &i); err == nil {
				if s, ok := under(st).(*types.Struct); ok && i < s.NumFields() {
					return st, s.Field(i).Name()
				}
			}
		}
	}
	return nil, ""
}

func elemTypeOfPtr(t *Term) types.Type {
	if t == nil || t.T == nil {
		return nil
	}
	if p, ok := under(t.T).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// verbatimRaw: the members that hold undecoded sections reach the writer as the reader set them.
func (c *Ctx) verbatimRaw(rule, name string, x *reencode) {
	pbT := c.P.Named("internal/t.PrimitiveBlock")
	if pbT == nil {
		c.Bad(rule, name, x.out.Pos, "type PrimitiveBlock not found")
		return
	}
	s := under(pbT).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := x.snap.load(FieldAddrT(x.ptr, i, pbT), f.Type())
		c.Want(v == x.msgVal(pbT, "PrimitiveBlock", i), rule, name+" block member "+f.Name(), x.out.Pos, "the member %s of the block is changed before the block is written again (%v)", f.Name(), v)
	}
}

// decodedStores lists all stores into decoded memory.
func (x *reencode) decodedStores() []*Ev {
	var r []*Ev
	eachEv(x.evs, func(e *Ev) {
		if e.Kind == "store" && x.decodedRoot(e.Args[0]) {
			r = append(r, e)
		}
	})
	return r
}

// effectsOnDecoded lists calls that may change decoded memory.
func (x *reencode) unknownEffects() []*Ev {
	var r []*Ev
	eachEv(x.evs, func(e *Ev) {
		switch e.Kind {
		case "call", "dynamic", "copy", "readinto":
			if e.Kind == "call" && pureCall(e.Name) {
				return
			}
			for i, a := range e.Args {
				if e.Kind == "copy" && i > 0 {
					break
				}
				if a.T != nil && isReference(a.T) && x.decodedRoot(a) {
					r = append(r, e)
					return
				}
			}
		}
	})
	return r
}

func pureCall(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "math.", "strconv.", "errors.", "sort.Search", "sort.SliceIsSorted", "time."} {
		if len(name) >= len(p) && name[:len(p)] == p {
			return true
		}
	}
	return false
}

func isReference(T types.Type) bool {
	switch under(T).(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// ---- C06 ----

func init() {
	register("C06", "abstract interpretation of the message readers, writers and of the stages that re-encode blocks: for every section that has an undecoded form (a byte-slice member beside the decoded one), the reader keeps exactly the bytes of the field and the writer emits exactly these bytes under the same field number unless the decoded form is present; between decoding and re-encoding no path of a worker stores to a block or group member (all stores into decoded memory on all paths are enumerated); blobs other than map data, and data passed on without re-encoding, reach the writer as the very block received and are written unmodified; decompression rewrites a blob with exactly its data as content.",
		func(c *Ctx) {
			c.rawSections()
			const pass = "passed through unchanged"
			flows := c.flowsPrep("pipeline", false, func(in *Interp) { in.TraceMem = true })
			for _, f := range flows {
				if f.write == nil || !f.isPBFOutput() {
					continue
				}
				c.frameWriterOf(f, "passed data are written verbatim", true)
				for _, g := range f.work.segs {
					if g.Kind != ORet || g.blk == nil {
						continue
					}
					for _, x := range c.reencoded(g) {
						name := f.workS.name()
						c.verbatimRaw("sections survive re-encoding", name, x)
						good := true
						for _, e := range x.decodedStores() {
							T, fn := fieldOf(e.Args[0])
							if T == nil || fn == "" {
								continue
							}
							for _, m := range []string{"PrimitiveGroup", "PrimitiveBlock"} {
								if n := c.P.Named("internal/t." + m); n != nil && types.Identical(T, n) {
									good = false
									c.Bad("sections survive re-encoding", name+" "+m+"."+fn, e.Pos, "a section of the decoded block is replaced before the block is written again")
								}
							}
						}
						for _, e := range x.unknownEffects() {
							good = false
							c.Bad("sections survive re-encoding", name, e.Pos, "not decided: decoded memory is handed to %s %s", e.Kind, e.Name)
						}
						if good {
							c.Ok("sections survive re-encoding", name, x.out.Pos, "")
						}
					}
				}
				c.rawBlobs(f)
				// blobs that are not map data
				for _, p := range c.inputKinds(pass) {
					if p.kind == "OSMData" {
						continue
					}
					n := 0
					for _, q := range c.produced(pass, f.work, []payload{p}) {
						n++
						name := f.workS.name() + " on " + p.String()
						if q.pass {
							c.Ok(pass, name, q.Ev.Pos, "")
							continue
						}
						// decompressing: the same content in a new blob
						okAll := len(q.send) > 0
						for _, s := range q.send {
							okAll = okAll && sameContent(s)
						}
						c.Want(okAll && q.kind == p.kind, pass, name, q.Ev.Pos, "a blob that is not map data is not passed on unchanged")
					}
					c.Want(n > 0, pass, f.workS.name()+" on "+p.String(), f.workS.Fn, "blobs of this kind are not sent on")
				}
			}
			c.Min(pass, 3)
			c.Min("undecoded section", 4)
			c.Min("sections survive re-encoding", 2)
			c.Min("passed data are written verbatim", 2)
			c.Min("blob content", 1)
		})
}

// sameContent reports whether what is sent contains a blob whose data are those of the blob received.
func sameContent(s *sendRec) bool {
	ok := false
	s.Ev.Args[1].any(func(x *Term) bool {
		if e := msgOf(x, "Blob"); e != nil {
			ok = true
		}
		return false
	})
	return ok
}

// rawBlobs: a blob that is written without re-encoding its block has exactly the data of the blob received.
func (c *Ctx) rawBlobs(f *flow) {
	const rule = "blob content"
	bt := c.P.Named("internal/t.Blob")
	if bt == nil {
		return
	}
	raw, fn := FieldIndex(bt, "Raw"), FieldIndex(bt, "RawFunc")
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		for _, e := range g.evs {
			if e.Kind != "writemsg" || e.Name != "Blob" || raw < 0 || fn < 0 {
				continue
			}
			if v := Field(e.Args[1], fn, nil); v != tNil {
				continue
			}
			v := Field(e.Args[1], raw, tBytes)
			if msgOf(v, "PrimitiveBlock") != nil {
				continue
			}
			src, _ := v.X.(*Ev)
			good := false
			if v.K == KSym && src != nil && src.Kind == "rawdata" {
				// decoded from the blob received
				bv := src.Args[1]
				good = bv.any(func(x *Term) bool {
					return x.isOp("msgf") && x.Args[0].isOp("tassert") && x.Args[0].Args[0] == dataOf(g.blk)
				})
			}
			c.Want(good, rule, f.workS.name(), e.Pos, "the blob written does not hold the data of the blob received, but %v", v)
			for i := 0; i < under(bt).(*types.Struct).NumFields(); i++ {
				if i == raw || i == fn {
					continue
				}
				n := under(bt).(*types.Struct).Field(i).Name()
				x := Field(e.Args[1], i, under(bt).(*types.Struct).Field(i).Type())
				c.Want(x == tNil || Len(x) == tZero || n == "RawSize", rule, f.workS.name()+" member "+n, e.Pos, "the uncompressed blob also has a %s", n)
			}
		}
	}
}

// rawSections: message members with an undecoded form.
func (c *Ctx) rawSections() {
	const rule = "undecoded section"
	ms := c.P.messages()
	for _, name := range schemaNames {
		m := ms[name]
		if m == nil || m.Read == nil || m.Write == nil {
			continue
		}
		for _, f := range pbfSchema[name] {
			if f.Kind != "msg" {
				continue
			}
			cons := fmt.Sprintf("t.%s field %d", name, f.Num)
			r := readerOf(c, rule, m)
			if r == nil {
				continue
			}
			raws := map[string]bool{}
			for _, p := range r.Paths {
				if p.Field != f {
					continue
				}
				ms := p.members()
				if len(ms) != 1 {
					c.Bad(rule, cons+" reader", r.L.Pos, "the section is stored in %d members", len(ms))
					continue
				}
				kind, _, rep, _, next := r.classify(p, ms[0])
				switch kind {
				case "bytes":
					raws[r.member(ms[0])] = true
					c.Want(p.Next == next && rep == f.Rep, rule, cons+" reader", r.L.Pos, "the bytes kept are not exactly those of the section")
				case "msg":
				default:
					if T := r.S.Field(ms[0]).Type(); isBytes(T) || isBytes(elemType(T)) {
						c.Bad(rule, cons+" reader", r.L.Pos, "the undecoded section becomes %s", kind)
					}
				}
			}
			for n := range raws {
				sub := &Ctx{P: c.P, ID: c.ID, Tier: c.Tier, seen: map[string]bool{}, stats: map[string]int{}}
				sub.Try(rule, cons, m.Write, func() {
					reads := map[int64]map[string]bool{f.key(): {n: true}}
					c04Writer(sub, m, reads)
				})
				hit := false
				for _, o := range sub.Obls {
					// what concerns this field
					if len(o.Construct) < len("t."+name+" writer, field ") {
						continue
					}
					if pre := fmt.Sprintf("t.%s writer, field %d", name, f.Num); len(o.Construct) >= len(pre) && o.Construct[:len(pre)] == pre && (len(o.Construct) == len(pre) || o.Construct[len(pre)] == ' ') {
						hit = true
						o.Rule = rule
						c.add(o)
					} else if !o.OK && len(o.Construct) > 7 && (o.Construct[:len("t."+name+" writer, path")] == "t."+name+" writer, path") {
						o.Rule = rule
						c.add(o)
					}
				}
				c.Want(hit, rule, cons+" writer", m.Write, "the writer does not write the undecoded section")
			}
		}
	}
}

// ---- C16 ----

func init() {
	register("C16", "abstract interpretation with symbolic lists of every worker that looks up node locations while re-encoding a block: the nest of loops over groups, ways and references is summarised; it covers every group, way and reference exactly once in order; the list of a way after the loop is, element by element, the reference itself if it is already a location, the location returned by the lookup of exactly this reference if it was found, and the reference otherwise; the length is unchanged; all other stores into decoded memory on all paths are enumerated and rejected; a block is passed on untouched only where the path proves that it has no way.",
		func(c *Ctx) {
			const rule = "references are mapped one by one"
			n := 0
			for _, f := range c.flowsPrep("pipeline", false, func(in *Interp) { in.TraceMem = true }) {
				finds, re := false, false
				for _, g := range f.work.segs {
					eachEv(g.evs, func(e *Ev) { finds = finds || e.Kind == "find" })
					re = re || len(c.reencoded(g)) > 0
				}
				if !finds || f.write == nil || !f.isPBFOutput() {
					continue
				}
				n++
				c.Try(rule, f.workS.name(), f.workS.Fn, func() { c.rewriteRefs(rule, f) })
			}
			c.Want(n >= 1, "coverage", "rewriting worker", nil, "no worker that looks up locations and re-encodes blocks was found")
			c.Min(rule, 4)
			c.Min("untouched only without ways", 1)
		}, "the location lists of different ways of a block do not share memory")
}

type refAna struct {
	c    *Ctx
	rule string
	name string
	x    *reencode
	bad  bool
}

func (a *refAna) fail(pos any, f string, v ...any) {
	a.bad = true
	a.c.Bad(a.rule, a.name, pos, f, v...)
}

func (c *Ctx) rewriteRefs(rule string, f *flow) {
	pgT, wT := c.P.Named("internal/t.PrimitiveGroup"), c.P.Named("internal/t.Way")
	pbT := c.P.Named("internal/t.PrimitiveBlock")
	if pgT == nil || wT == nil || pbT == nil {
		c.Bad(rule, f.workS.name(), nil, "message types not found")
		return
	}
	iPG, iW, iR := FieldIndex(pbT, "PrimitiveGroup"), FieldIndex(pgT, "Ways"), FieldIndex(wT, "Refs")
	if iPG < 0 || iW < 0 || iR < 0 {
		c.Bad(rule, f.workS.name(), nil, "message members not found")
		return
	}
	for _, g := range f.work.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		for _, x := range c.reencoded(g) {
			a := &refAna{c: c, rule: rule, name: f.workS.name(), x: x}
			c.verbatimRaw(rule, a.name, x)
			groups := x.msgVal(pbT, "PrimitiveBlock", iPG)
			// ways have to be decoded
			c.wantDecoded(rule, a.name, x.read, g, "SkipWays")
			okStore := map[*Ev]bool{}
			// loops over groups
			nests := 0
			for _, e := range x.evs {
				if e.Loop == nil || !hasFind(e) {
					continue
				}
				nests++
				a.overList(e.Loop, groups, "groups", func(it *Iter, k *Term) {
					pg := it.St.elem(groups, k, elemType(groups.T))
					ways := it.St.load(FieldAddrT(pg, iW, pgT), under(pgT).(*types.Struct).Field(iW).Type())
					inner := 0
					for _, e2 := range it.St.ev.list() {
						if e2.Loop == nil || !hasFind(e2) {
							continue
						}
						inner++
						a.overList(e2.Loop, ways, "ways", func(it2 *Iter, k2 *Term) {
							w := it2.St.elem(ways, k2, elemType(ways.T))
							a.way(it2, w, FieldAddrT(w, iR, wT), under(wT).(*types.Struct).Field(iR).Type(), okStore)
						})
					}
					if inner == 0 && !knownEmpty(it.St, ways) {
						a.fail(e.Pos, "the ways of a group are not looked at on every path")
					} else if inner > 1 {
						a.fail(e.Pos, "the ways of a group are rewritten more than once")
					}
				})
			}
			if nests == 0 {
				// no way: the block has none
				if !c.noWays(g, groups, pgT, iW) {
					a.fail(x.out.Pos, "a block is written again without its references having been looked up")
				}
			} else if nests > 1 {
				a.fail(x.out.Pos, "references are looked up in more than one pass over the block")
			}
			for _, e := range x.decodedStores() {
				if !okStore[e] {
					a.fail(e.Pos, "something else than the list of references is changed (%v)", e.Args[0])
				}
			}
			for _, e := range x.unknownEffects() {
				a.fail(e.Pos, "not decided: decoded memory is handed to %s %s", e.Kind, e.Name)
			}
			if !a.bad {
				c.Ok(rule, a.name, x.out.Pos, "")
			}
		}
		// passed on untouched
		for _, p := range c.inputKinds(rule) {
			if p.kind != "OSMData" {
				continue
			}
			if ok, _ := g.feasible(p); !ok {
				continue
			}
			for _, e := range g.evs {
				if e.Kind != "send" {
					continue
				}
				q, why := sentPayload(e.Args[1], g.blk, p, e)
				if why != "" || !q.pass {
					continue
				}
				const urule = "untouched only without ways"
				var read *Ev
				for _, r := range g.evs {
					if r.Kind == "readinto" && r.Name == "PrimitiveBlock" {
						read = r
					}
				}
				if read == nil {
					c.Bad(urule, f.workS.name(), e.Pos, "map data are passed on without looking for ways in them")
					continue
				}
				y := &reencode{seg: g, read: read}
				c.wantDecoded(urule, f.workS.name(), read, g, "SkipWays")
				c.Want(c.noWays(g, y.msgVal(pbT, "PrimitiveBlock", iPG), pgT, iW), urule, f.workS.name(), e.Pos, "map data can be passed on untouched although they may contain ways")
			}
		}
		// what is sent for map data is the block written
		for _, e := range g.evs {
			if e.Kind == "send" && e.Args[1] != g.blk {
				ok := false
				e.Args[1].any(func(t *Term) bool {
					if b := msgOf(t, "Blob"); b != nil {
						for _, x := range c.reencoded(g) {
							ok = ok || x.out == b
						}
					}
					return false
				})
				if pass := dataOf(e.Args[1]) == dataOf(g.blk); !pass {
					c.Want(ok, rule, f.workS.name()+" output", e.Pos, "what is sent is not the block that was read and rewritten")
				}
			}
		}
	}
}

func hasFind(e *Ev) bool {
	r := false
	eachEv([]*Ev{e}, func(x *Ev) { r = r || x.Kind == "find" })
	return r
}

func knownEmpty(st *State, l *Term) bool {
	_, hi := st.bounds(Len(l))
	if hi <= 0 {
		return true
	}
	k, v := st.decide(Eq(Len(l), tZero))
	return k && v
}

// overList checks that a loop visits every element of a list once.
func (a *refAna) overList(L *LoopInfo, list *Term, what string, f func(it *Iter, k *Term)) {
	if L.Trip != Len(list) {
		a.fail(L.Pos, "the loop over the %s does not visit each of them exactly once (it runs %v times)", what, L.Trip)
		return
	}
	for _, it := range L.Iters {
		f(it, L.K)
	}
}

// way checks one iteration over a way: its reference list after the iteration.
func (a *refAna) way(it *Iter, w, refsAddr *Term, T types.Type, okStore map[*Ev]bool) {
	refs := it.St.clone()
	_ = refs
	old := newState().load(refsAddr, T)
	oldArr, _ := arrOf(old)
	el := elemType(T)
	var L *LoopInfo
	for _, e := range it.St.ev.list() {
		if e.Loop == nil || !hasFind(e) {
			continue
		}
		if L != nil {
			a.fail(e.Pos, "the references of a way are looked up more than once")
			return
		}
		L = e.Loop
	}
	if L == nil {
		if !knownEmpty(it.St, old) {
			a.fail(a.x.out.Pos, "the references of a way are not looked up on every path")
		}
		return
	}
	if L.Trip != Len(old) {
		a.fail(L.Pos, "the loop over the references does not visit each of them exactly once (it runs %v times)", L.Trip)
		return
	}
	// in place: the content of the list
	var cont, list *LoopVar
	for _, lv := range L.Order {
		if lv.Cell != nil && lv.Cell == oldArr {
			cont = lv
		}
		if lv.Init != nil && (lv.Init == tNil || lv.Init.isOp("empty") || Len(lv.Init) == tZero) && lv.Sym.T != nil && types.Identical(under(lv.Sym.T), under(T)) {
			list = lv
		}
	}
	st := it.St
	final := (*Term)(nil)
	for _, e := range it.St.ev.list() {
		if e.Kind == "store" && e.Args[0] == refsAddr {
			okStore[e] = true
			final = e.Args[1]
		}
	}
	inPlace := true
	if final != nil && list != nil && (final == list.Sym || final == st.load(refsAddr, T) && final != old && loopVarOf(final) == list) {
		inPlace = false
	} else if final != nil {
		arr, lo := arrOf(final)
		k, v := st.decide(Eq(Len(final), Len(old)))
		same := Len(final) == Len(old) || Len(final) == L.K || k && v
		if arr != oldArr || lo != tZero || !same {
			a.fail(L.Pos, "the list of references of a way is replaced by %v", final)
			return
		}
	}
	for _, p := range L.Iters {
		ref := Select(Op("cont0", "", nil, oldArr), L.K, el)
		ref = newState().elem(old, L.K, el)
		var val *Term
		if inPlace {
			if cont == nil {
				val = ref // nothing is stored
			} else {
				nx := p.Next[cont.Sym]
				switch {
				case nx == nil || nx == cont.Sym:
					val = Select(cont.Sym, L.K, el)
				case nx.isOp("store") && nx.Args[0] == cont.Sym && nx.Args[1] == L.K:
					val = nx.Args[2]
				default:
					a.fail(L.Pos, "a reference is not replaced at its own position")
					return
				}
			}
		} else {
			nx := p.Next[list.Sym]
			if nx == nil || !nx.isOp("app") || len(nx.Args) != 2 || nx.Args[0] != list.Sym {
				a.fail(L.Pos, "an iteration does not keep exactly one entry for a reference")
				return
			}
			val = nx.Args[1]
		}
		// stores to the content
		for _, e := range p.St.ev.list() {
			if e.Kind == "store" && e.Args[0].isOp("idx") && e.Args[0].Args[0] == oldArr {
				if e.Args[0].Args[1] == L.K {
					okStore[e] = true
				}
			}
		}
		isRef := func(t *Term) bool {
			t = stripConv(t, 64)
			return t == ref || cont != nil && t == Select(cont.Sym, L.K, el)
		}
		sgn := ref
		if cont != nil {
			sgn = Select(cont.Sym, L.K, el)
		}
		neg := func(t *Term) (bool, bool) { return p.St.decide(Lt(t, tZero, false)) }
		known, isLoc := neg(sgn)
		if !known {
			known, isLoc = neg(ref)
		}
		var find *Ev
		finds := 0
		for _, e := range p.St.ev.list() {
			if e.Kind == "find" {
				find = e
				finds++
			}
		}
		switch {
		case known && isLoc:
			if !isRef(val) {
				a.fail(L.Pos, "a reference that already is a location is replaced by %v", val)
			}
		case finds == 0:
			a.fail(L.Pos, "a reference that is not a location is not looked up")
		case finds > 1:
			a.fail(L.Pos, "not decided: a reference is looked up more than once")
		default:
			if len(find.Args) < 2 || !isRef(find.Args[1]) {
				a.fail(find.Pos, "what is looked up is not the reference")
				continue
			}
			if find.Ret == nil || !find.Ret.isOp("tuple") || len(find.Ret.Args) != 3 {
				a.fail(find.Pos, "not decided: results of the lookup")
				continue
			}
			k, found := p.St.decide(find.Ret.Args[2])
			switch {
			case !k:
				a.fail(find.Pos, "the result of the lookup is used without checking that the reference was found")
			case found && !known:
				a.fail(find.Pos, "a reference is looked up without knowing that it is not a location already")
			case found && val != find.Ret.Args[0] && stripConv(val, 64) != find.Ret.Args[0]:
				a.fail(find.Pos, "a reference that was found becomes %v, not the location found", val)
			case !found && !isRef(val):
				a.fail(find.Pos, "a reference that was not found becomes %v", val)
			}
		}
	}
}

// noWays reports whether the facts of the path imply that no group has ways.
func (c *Ctx) noWays(g *segment, groups *Term, pgT types.Type, iW int) bool {
	if knownEmpty(g.St, groups) {
		return true
	}
	wT := under(pgT).(*types.Struct).Field(iW).Type()
	for _, e := range g.evs {
		if e.Loop == nil {
			continue
		}
		L := e.Loop
		if L.Trip != Len(groups) {
			// left early on some paths, but not on this one
			if k, v := g.St.decide(Lt(L.K, Len(groups), false)); !k || v {
				continue
			}
		}
		n := Len(newState().load(FieldAddrT(newState().elem(groups, L.K, elemType(groups.T)), iW, pgT), wT))
		// every completed iteration knows that there is none
		all := len(L.Iters) > 0
		for _, it := range L.Iters {
			_, hi := it.St.bounds(n)
			k, v := it.St.decide(Eq(n, tZero))
			all = all && (hi <= 0 || k && v)
		}
		if all {
			return true
		}
		// a sum of the lengths that is zero at the end
		for _, lv := range L.Order {
			sum := lv.Init == tZero
			for _, it := range L.Iters {
				sum = sum && it.Next[lv.Sym] == Add(lv.Sym, n)
			}
			if k, v := g.St.decide(Eq(lv.Sym, tZero)); sum && k && v {
				return true
			}
			if _, hi := g.St.bounds(lv.Sym); sum && hi <= 0 {
				return true
			}
		}
		// a flag that stays false unless a group has ways
		for _, lv := range L.Order {
			flag := lv.Init == tFalse
			for _, it := range L.Iters {
				nx := it.Next[lv.Sym]
				k, v := it.St.decide(Eq(n, tZero))
				_, hi := it.St.bounds(n)
				empty := hi <= 0 || k && v
				flag = flag && (nx == tTrue || nx == lv.Sym && empty || nx == Not(Eq(n, tZero)) || nx == Lt(tZero, n, false))
			}
			if k, v := g.St.decide(lv.Sym); flag && k && !v {
				return true
			}
		}
	}
	return false
}

// wantDecoded: the reader configuration does not skip a section that the stage works on.
func (c *Ctx) wantDecoded(rule, name string, read *Ev, g *segment, flags ...string) {
	if read.Ret == nil {
		return // the reader has no configuration: nothing can be skipped
	}
	prT := read.Ret.T
	if prT == nil {
		c.Bad(rule, name+" reader flags", read.Pos, "not decided: configuration of the reader")
		return
	}
	secs := c.sections()
	for _, fl := range flags {
		sec := secs[fl]
		switch {
		case sec == nil || sec.err != "":
			why := "its reader was not found"
			if sec != nil {
				why = sec.err
			}
			c.Bad(rule, name+" reader flag "+fl, read.Pos, "not decided: when the section is decoded (%s)", why)
			continue
		case sec.always:
			continue
		case sec.never:
			c.Bad(rule, name+" reader flag "+fl, read.Pos, "the section is never decoded, so what it contains is missed")
			continue
		}
		v := Field(read.Ret, sec.flag, types.Typ[types.Bool])
		c.Want(v == Bool(!sec.rawWhen), rule, name+" reader flag "+fl, read.Pos, "the section is left undecoded (%s is %v, and it is decoded when that is %v), so what it contains is missed", sec.name, v, !sec.rawWhen)
	}
}

// section tells which option of the reader decides whether a section of a block is decoded or kept as it is.
type section struct {
	flag          int    // member of the reader
	name          string // of the member
	rawWhen       bool   // its value that leaves the section undecoded
	always, never bool   // decoded whatever the options are
	err           string
	pos           any
}

// sectionOf lists the sections by the customary name of the option that leaves them undecoded.
var sectionOf = map[string]struct {
	Msg string
	Num int
}{
	"SkipStringTable": {"PrimitiveBlock", 1},
	"SkipDenseNodes":  {"PrimitiveGroup", 2},
	"SkipWays":        {"PrimitiveGroup", 3},
	"SkipRelations":   {"PrimitiveGroup", 4},
}

// sections is computed from the readers of the messages the sections are in.
func (c *Ctx) sections() map[string]*section {
	if c.secs != nil {
		return c.secs
	}
	c.secs = map[string]*section{}
	ms := c.P.messages()
	rs := map[string]*readerInfo{}
	for fl, at := range sectionOf {
		m := ms[at.Msg]
		if m == nil || m.Read == nil {
			continue
		}
		r := rs[at.Msg]
		if r == nil {
			if r = readerOf(c, "anchor", m); r == nil {
				continue
			}
			rs[at.Msg] = r
		}
		c.secs[fl] = sectionIn(r, at.Num)
	}
	return c.secs
}

func sectionIn(r *readerInfo, num int) *section {
	s := &section{flag: -1, pos: r.L.Pos}
	var raw, dec []*readerPath
	for _, p := range r.Paths {
		if p.Field == nil || p.Field.Num != num {
			continue
		}
		ms := p.members()
		if len(ms) != 1 {
			s.err = "it is not stored in one member"
			return s
		}
		switch kind, _, _, _, _ := r.classify(p, ms[0]); kind {
		case "msg":
			dec = append(dec, p)
		case "bytes":
			raw = append(raw, p)
		default:
			s.err = "it is neither decoded nor kept"
			return s
		}
	}
	switch {
	case len(dec) == 0 && len(raw) == 0:
		s.err = "no path reads it"
	case len(raw) == 0:
		s.always = true
	case len(dec) == 0:
		s.never = true
	default:
		fn := r.M.Read
		if fn.Signature.Recv() == nil {
			s.err = "the reader has no options"
			return s
		}
		T := fn.Signature.Recv().Type()
		el := T
		if pt, ok := under(T).(*types.Pointer); ok {
			el = pt.Elem()
		}
		st, ok := under(el).(*types.Struct)
		if !ok {
			s.err = "the reader has no options"
			return s
		}
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := under(st.Field(i).Type()).(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			var ot *Term
			if el != T {
				ot = newState().load(FieldAddrT(r.Args[0], i, el), st.Field(i).Type())
			} else {
				ot = Field(r.Args[0], i, st.Field(i).Type())
			}
			opt := func(p *readerPath) (bool, bool) {
				v, k := p.It.St.lits[ot]
				return k, v
			}
			for _, when := range []bool{true, false} {
				good := true
				for _, p := range raw {
					k, v := opt(p)
					good = good && k && v == when
				}
				for _, p := range dec {
					k, v := opt(p)
					good = good && k && v != when
				}
				if good {
					s.flag, s.rawWhen, s.name = i, when, st.Field(i).Name()
					return s
				}
			}
		}
		s.err = "no single option of the reader decides it"
	}
	return s
}

var _ *ssa.Function
