package main

// C17, C18, C19, C20, C21: the protocol between the stages of a pipeline.

import (
	"go/types"
	"sort"
)

// ---- worker and writer protocol ----

// isBlockChan reports whether the type is a channel of pbf.Block.
func (c *Ctx) isBlock(T types.Type) bool {
	b := c.P.Named("internal/pbf.Block")
	return b != nil && T != nil && types.Identical(T, b)
}

// protoState: the block received and not yet answered (index and the condition that it is a real block, not
// the end of the channel), or nothing.
type protoState struct {
	idx, ok *Term
	blk     *Term // the block itself, if it is one value
	sent    bool  // the block has been answered
}

// segment: what happens with one received block on one path.
type segment struct {
	blk  *Term
	evs  []*Ev
	St   *State
	Kind OutKind // ORet: the path continues
	Pos  any
}

type protoWalk struct {
	c      *Ctx
	s      *Stage
	rule   string
	worker bool // blocks have to be answered
	bad    bool
	sends  []*sendRec
	segs   []*segment
	recvs  int
}

type sendRec struct {
	val *Term
	cur *Term // block received, if known
	St  *State
	Ev  *Ev
}

func (w *protoWalk) fail(pos any, f string, a ...any) {
	w.bad = true
	w.c.Bad(w.rule, w.s.name(), pos, f, a...)
}

func blockIndex(t *Term) *Term { return Field(t, 0, types.Typ[types.Uint64]) }

// walk runs the protocol over the events; facts are those that hold at the end of the path.
func (w *protoWalk) walkK(evs []*Ev, facts *State, st protoState, own bool, kind OutKind, pos any) protoState {
	from := 0
	flush := func(to int) {
		if st.idx == nil || !own {
			return
		}
		if k, v := facts.decide(st.ok); k && !v {
			return
		}
		w.segs = append(w.segs, &segment{blk: st.blk, evs: evs[from:to], St: facts, Kind: kind, Pos: pos})
	}
	defer func() { flush(len(evs)) }()
	for i, e := range evs {
		switch e.Kind {
		case "recv":
			if e.Args[0] != w.s.ChIn {
				if e.Name != "select" {
					w.fail(e.Pos, "waits for another channel than its input")
				}
				continue
			}
			w.recvs++
			if len(e.Args) < 2 {
				w.fail(e.Pos, "receives without noticing that the input was closed")
				return st
			}
			if w.worker && st.idx != nil && !st.sent {
				if k, v := facts.decide(st.ok); !k || v {
					w.fail(e.Pos, "receives a block while the previous one was not answered")
				}
			}
			flush(i)
			from, own = i, true
			st = protoState{idx: blockIndex(e.Ret), ok: e.Args[1], blk: e.Ret}
		case "send":
			ch := e.Args[0]
			if ch != w.s.ChOut || ch == tNil || w.s.ChOut == nil {
				w.fail(e.Pos, "sends on a channel that is not its output")
				continue
			}
			w.sends = append(w.sends, &sendRec{val: e.Args[1], St: facts, Ev: e})
			if !w.worker {
				w.fail(e.Pos, "sends although nothing is expected from it")
				continue
			}
			if st.idx == nil {
				w.fail(e.Pos, "sends a block without having received one")
				continue
			}
			if st.sent {
				w.fail(e.Pos, "sends a second block for one received block")
				continue
			}
			if k, v := facts.decide(st.ok); !k || !v {
				w.fail(e.Pos, "sends although no block may have been received (channel closed)")
			}
			if got := blockIndex(e.Args[1]); got != st.idx {
				if k, v := facts.decide(Eq(got, st.idx)); !k || !v {
					w.fail(e.Pos, "the block sent carries index %v, not the index of the block received", got)
				}
			}
			st.sent = true
		case "go":
			w.fail(e.Pos, "starts a goroutine: the order of its effects is not decided")
		case "close":
			w.fail(e.Pos, "closes a channel that it does not own")
		case "call":
			switch e.Name {
			case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "runtime.Goexit":
				w.fail(e.Pos, "blocks or leaves in %s", e.Name)
			}
			for _, a := range e.Args {
				if a == w.s.ChIn || a == w.s.ChOut && a != tNil {
					w.fail(e.Pos, "hands a channel to %s, whose effects are unknown", e.Name)
				}
			}
		case "select":
			// a select that can only wait for something else than the pipeline's channels
			mine := false
			for _, a := range e.Args {
				mine = mine || a == w.s.ChIn || a == w.s.ChOut && a != tNil
			}
			if !mine && e.Stack != "nonblocking" {
				w.fail(e.Pos, "waits for channels other than its own")
			}
		case "loop":
			st = w.loop(e.Loop, st)
		}
	}
	return st
}

func (w *protoWalk) loop(L *LoopInfo, st protoState) protoState {
	in := st
	var idxLv, okLv *LoopVar
	for _, lv := range L.Order {
		if st.ok != nil && lv.Init == st.ok {
			okLv = lv
		}
		if st.idx != nil && (lv.Init == st.idx || blockIndexOf(lv.Init) == st.idx) {
			idxLv = lv
		}
	}
	if okLv != nil && idxLv != nil {
		in.ok = okLv.Sym
		in.blk = nil
		if idxLv.Init == st.blk {
			in.blk = idxLv.Sym
		}
		if idxLv.Init == st.idx {
			in.idx = idxLv.Sym
		} else {
			in.idx = blockIndex(idxLv.Sym)
		}
	}
	for _, it := range L.Iters {
		out := w.walkK(it.St.ev.list(), it.St, in, okLv != nil && idxLv != nil, ORet, nil)
		want := in
		if okLv != nil && idxLv != nil {
			want.ok, want.idx = it.Next[okLv.Sym], it.Next[idxLv.Sym]
			if idxLv.Init != st.idx {
				want.idx = blockIndexOf(want.idx)
			}
		}
		if out.idx == nil && want.idx == nil || out.idx == want.idx && out.ok == want.ok && out.sent == want.sent {
			continue
		}
		// a receiving loop: between iterations nothing is outstanding
		if okLv == nil && out.sent && (want.idx == nil || want.sent) {
			continue
		}
		if !w.worker && okLv == nil {
			continue
		}
		if w.worker && out.idx != nil && !out.sent {
			w.fail(L.Pos, "an iteration ends with a received block that is neither sent on nor dropped")
		} else if w.worker {
			w.fail(L.Pos, "an iteration does not answer exactly one block")
		}
	}
	// after the loop
	if st.idx == nil {
		return st
	}
	return in
}

func blockIndexOf(t *Term) *Term {
	if t == nil || t.T == nil {
		return nil
	}
	if _, ok := under(t.T).(*types.Struct); ok {
		return blockIndex(t)
	}
	return nil
}

// proto checks one stage; it reports whether all paths obey.
func (c *Ctx) proto(rule string, s *Stage) *protoWalk {
	w := &protoWalk{c: c, s: s, rule: rule, worker: !s.Writer && !s.NilOut}
	if s.ChIn == nil {
		w.fail(s.Fn, "the stage has no input channel")
		return w
	}
	rets := 0
	for _, o := range s.Outs {
		st := w.walkK(o.St.ev.list(), o.St, protoState{}, true, o.Kind, o.Pos)
		if o.Kind == OPanic || o.Kind == OExit && !(o.Val != nil && o.Val.K == KStr) {
			continue
		}
		rets++
		if st.idx == nil {
			w.fail(o.Pos, "returns without having received until the input was closed")
			continue
		}
		if k, v := o.St.decide(st.ok); !k || v {
			w.fail(o.Pos, "can return although its input has not been closed")
		}
	}
	if rets == 0 {
		w.fail(s.Fn, "never returns")
	}
	if w.recvs == 0 {
		w.fail(s.Fn, "never receives from its input")
	}
	return w
}

// ---- simulation of a stage on one kind of block ----

type payload struct {
	kind string
	T    types.Type // dynamic type of the data; nil for no data
	pass bool       // the block received, unchanged
	Ev   *Ev
	send []*sendRec
}

func (p payload) String() string {
	if p.T == nil {
		return p.kind + "/no data"
	}
	return p.kind + "/" + types.TypeString(p.T, func(p *types.Package) string { return p.Name() })
}

// withPayload substitutes kind and data type of the received block.
func withPayload(t, blk *Term, p payload) *Term {
	kind := Field(blk, 2, tString)
	data := dataOf(blk)
	var dv *Term
	if p.T == nil {
		dv = tNil
	} else {
		dv = Op("iface", types.TypeString(p.T, nil), p.T, Sym("payload."+p.String(), p.T, nil))
	}
	return rewrite(t, func(x *Term) *Term {
		switch {
		case x == kind:
			return Str(p.kind)
		case x.isOp("istype") && (x.Args[0] == data || x.Args[0] == dv):
			return Bool(p.T != nil && x.S == types.TypeString(p.T, nil))
		case x == data:
			return dv
		}
		return nil
	})
}

var tString = types.Typ[types.String]

func dataOf(blk *Term) *Term {
	if s, ok := under(blk.T).(*types.Struct); ok && s.NumFields() > 1 {
		return Field(blk, 1, s.Field(1).Type())
	}
	return nil
}

// feasible reports whether the segment can happen for this payload; undet is the number of facts that remain open.
func (g *segment) feasible(p payload) (ok bool, undet int) {
	for t, v := range g.St.lits {
		n := withPayload(t, g.blk, p)
		switch {
		case n == tTrue && !v, n == tFalse && v:
			return false, 0
		case n != tTrue && n != tFalse && !t.isOp("recvok"):
			undet++
		}
	}
	return true, undet
}

// sentPayload describes a sent block.
func sentPayload(val, blk *Term, p payload, e *Ev) (payload, string) {
	v := withPayload(val, blk, p)
	kind, data := withPayload(Field(val, 2, tString), blk, p), dataOf(val)
	if data == nil {
		return payload{}, "its data is not known"
	}
	pass := val == blk || data == dataOf(blk) && Field(val, 2, tString) == Field(blk, 2, tString)
	data = withPayload(data, blk, p)
	_ = v
	if kind.K != KStr {
		return payload{}, "its kind is not a known constant"
	}
	switch {
	case data == tNil:
		return payload{kind: kind.S, pass: pass, Ev: e}, ""
	case data.isOp("iface"):
		return payload{kind: kind.S, T: data.T, pass: pass, Ev: e}, ""
	}
	return payload{}, "the type of its data is not known"
}

// produced simulates a worker on the input kinds and lists what it sends.
func (c *Ctx) produced(rule string, w *protoWalk, in []payload) []*payload {
	var r []*payload
	seen := map[string]*payload{}
	for _, g := range w.segs {
		if g.blk == nil {
			c.Bad(rule, w.s.name(), w.s.Fn, "not decided: the received block is not followed as one value")
			continue
		}
		for _, p := range in {
			if ok, _ := g.feasible(p); !ok {
				continue
			}
			for _, e := range g.evs {
				if e.Kind != "send" {
					continue
				}
				q, why := sentPayload(e.Args[1], g.blk, p, e)
				if why != "" {
					c.Bad(rule, w.s.name(), e.Pos, "not decided: a block is sent, but %s", why)
					continue
				}
				k := q.String()
				if q.pass {
					k += "(pass)"
				}
				if seen[k] == nil {
					seen[k] = &q
					r = append(r, &q)
				}
				seen[k].send = append(seen[k].send, &sendRec{val: e.Args[1], cur: g.blk, St: g.St, Ev: e})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// asserts verifies that a stage accepts a payload: no type assertion fails and no path rejects it.
func (c *Ctx) accepts(rule string, w *protoWalk, p payload) {
	n := 0
	for _, g := range w.segs {
		if g.blk == nil {
			c.Bad(rule, w.s.name(), w.s.Fn, "not decided: the received block is not followed as one value")
			continue
		}
		ok, undet := g.feasible(p)
		if !ok {
			// is it infeasible only because a type assertion without a check demands another type?
			free := g.freeOfAsserts(p)
			if free == nil {
				continue
			}
			n++
			c.Bad(rule, w.s.name()+" on "+p.String(), free.Pos, "the block is sent with this data, but the receiver asserts %s", free.Name)
			continue
		}
		n++
		if g.Kind == OPanic && undet == 0 {
			c.Bad(rule, w.s.name()+" on "+p.String(), g.Pos, "the receiver rejects every block of this kind")
			continue
		}
		good := true
		eachEv(g.evs, func(e *Ev) {
			if e.Kind == "assert" && e.Args[2] == tFalse && withPayload(e.Args[1], g.blk, p) == tFalse {
				good = false
				c.Bad(rule, w.s.name()+" on "+p.String(), e.Pos, "the block is sent with this data, but the receiver asserts %s", e.Name)
			}
		})
		if good {
			c.Ok(rule, w.s.name()+" on "+p.String(), g.Pos, "")
		}
	}
	if n == 0 {
		c.Bad(rule, w.s.name()+" on "+p.String(), w.s.Fn, "no path of the receiver handles this kind of block")
	}
}

// freeOfAsserts returns the unchecked type assertion on the received data that this payload fails, if all other
// facts of the path allow the payload.
func (g *segment) freeOfAsserts(p payload) *Ev {
	must := map[*Term]*Ev{}
	eachEv(g.evs, func(e *Ev) {
		if e.Kind == "assert" && e.Args[2] == tFalse {
			must[e.Args[1]] = e
		}
	})
	var first *Ev
	for t, v := range g.St.lits {
		n := withPayload(t, g.blk, p)
		if n == tTrue && !v || n == tFalse && v {
			e := must[t]
			if e == nil || !v {
				return nil
			}
			if first == nil || e.Pos < first.Pos {
				first = e
			}
		}
	}
	return first
}

// inputKinds: what the file reader sends to the workers.
func (c *Ctx) inputKinds(rule string) []payload {
	var r []payload
	d := c.driver(rule)
	if d == nil {
		return nil
	}
	seen := map[string]bool{}
	for _, o := range d.Outs {
		var visit func(evs []*Ev, st *State)
		visit = func(evs []*Ev, st *State) {
			for _, e := range evs {
				if e.Loop != nil {
					for _, it := range e.Loop.Iters {
						visit(it.St.ev.list(), it.St)
					}
				}
				if e.Kind != "send" || !c.isBlock(e.Args[1].T) {
					continue
				}
				data := dataOf(e.Args[1])
				kind := Field(e.Args[1], 2, tString)
				if data == nil || !data.isOp("iface") {
					c.Bad(rule, "file reader", e.Pos, "not decided: the type of the data sent is not known")
					continue
				}
				var ks []string
				if kind.K == KStr {
					ks = []string{kind.S}
				} else {
					for _, k := range []string{"OSMHeader", "OSMData", "other"} {
						ok := true
						for t, v := range st.lits {
							n := subst(t, kind, Str(k))
							if n == tTrue && !v || n == tFalse && v {
								ok = false
							}
						}
						if ok {
							ks = append(ks, k)
						}
					}
				}
				for _, k := range ks {
					p := payload{kind: k, T: data.T, Ev: e}
					if !seen[p.String()] {
						seen[p.String()] = true
						r = append(r, p)
					}
				}
			}
		}
		visit(o.St.ev.list(), o.St)
	}
	if len(r) == 0 {
		c.Bad(rule, "file reader", nil, "no block is ever sent to the workers")
	}
	return r
}
