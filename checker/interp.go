package main

// The abstract interpreter: walks SSA path-sensitively over terms, interpreting repository callees in
// place.  Loops are summarised: everything a loop changes is replaced by a symbol standing for its value
// at the start of an arbitrary iteration, and one arbitrary iteration is interpreted.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	ID      int
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	Pos     token.Pos
	K       *Term // iteration number (during the loop), number of completed iterations (afterwards)
	Vars    map[*Term]*LoopVar
	Order   []*LoopVar
	Iters   []*Iter
	Exits   []*Iter // states in which the loop is left (events of the partial iteration)
	Aborts  []*Outcome
	Trip    *Term // K == Trip after every normal exit, if known
	Entry   *State
	ObjMark int // objects created before the loop have numbers up to this
}

type LoopVar struct {
	Loop *LoopInfo
	Sym  *Term
	Init *Term
	Next []*Term // per iteration path
	Phi  *ssa.Phi
	Cell *Term
	Step int64
	Ind  bool
}

type Iter struct {
	St   *State // effects of this iteration only; facts at its end
	Env  map[ssa.Value]*Term
	Next map[*Term]*Term // loop var symbol -> value for the next iteration
}

type OutKind int

const (
	ORet OutKind = iota
	OPanic
	OExit
)

type Outcome struct {
	Kind OutKind
	St   *State
	Rets []*Term
	Pos  token.Pos
	Val  *Term // panic value
}

type deferred struct {
	callee *Term
	fn     *ssa.Function
	args   []*Term
	instr  *ssa.Defer
}

type PState struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []deferred
}

func (p *PState) clone() *PState {
	n := &PState{env: make(map[ssa.Value]*Term, len(p.env)+8), st: p.st.clone(), defers: p.defers}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type CallCtx struct {
	Fn    *ssa.Function // callee (may be nil)
	Name  string
	Args  []*Term
	Binds []*Term
	St    *State
	Pos   token.Pos
	In    *ssa.Function
	Sig   *types.Signature
	Depth int
	Instr ssa.CallInstruction
}

type Hook func(in *Interp, c *CallCtx) []*Outcome

type Interp struct {
	ID       int
	P        *Program
	Hooks    map[string]Hook
	Unroll   func(fn *ssa.Function, h *ssa.BasicBlock) int // >0: unroll up to n iterations instead of summarising
	OnField  func(in *Interp, st *State, addr *Term, write bool, pos token.Pos, fn *ssa.Function)
	Opaque   func(fn *ssa.Function) bool
	Nils     *nilWatch
	TraceMem bool
	TraceIdx bool
	Ite      bool // merge two-way branches into conditional values (used with unrolled loops)

	loopN     int
	symN      int
	visits    int
	Budget    int
	MaxPaths  int
	AtomicMem bool // atomic operations read and write memory (the analysed goroutine is the only writer)
	KeepPaths bool // do not join states whose path facts differ
	loopCtx   []*LoopInfo
	stack     []*ssa.Function
	Visited   map[*ssa.Function]bool
	Unknown   map[string]int // unresolved calls
	hav       map[string]map[*Term]bool
}

type analysisError struct{ msg string }

func (e analysisError) Error() string { return e.msg }

func (in *Interp) fail(pos token.Pos, f string, a ...any) {
	panic(analysisError{fmt.Sprintf("%s: %s", in.P.pos(pos), fmt.Sprintf(f, a...))})
}

var interpN, objCount int

func NewInterp(p *Program) *Interp {
	interpN++
	return &Interp{P: p, ID: interpN, Hooks: map[string]Hook{}, Budget: 400000, MaxPaths: 3000, Visited: map[*ssa.Function]bool{}, Unknown: map[string]int{}}
}

func (in *Interp) newObj(kind string, T types.Type, x any) *Term {
	objCount++
	return OpX("obj", fmt.Sprintf("%s.%d.%d", kind, objCount, in.ID), T, x)
}

func (in *Interp) fresh(name string, T types.Type, x any) *Term {
	in.symN++
	return Sym(name, T, x)
}

// Run interprets fn on the given arguments and captured values.
func (in *Interp) Run(fn *ssa.Function, args, binds []*Term, st *State) []*Outcome {
	return in.callFn(&CallCtx{Fn: fn, Args: args, Binds: binds, St: st, Pos: fn.Pos()})
}

// SymArgs makes one opaque symbol per parameter.
func (in *Interp) SymArgs(fn *ssa.Function) []*Term {
	var as []*Term
	for _, p := range fn.Params {
		as = append(as, in.fresh(p.Name(), p.Type(), p))
	}
	return as
}

func (in *Interp) SymBinds(fn *ssa.Function) []*Term {
	var as []*Term
	for _, p := range fn.FreeVars {
		as = append(as, in.fresh("cap."+p.Name(), p.Type(), p))
	}
	return as
}

func (in *Interp) callFn(c *CallCtx) []*Outcome {
	fn := c.Fn
	if len(in.stack) > 80 {
		in.fail(c.Pos, "call depth exceeded at %s", fn)
	}
	rec := 0
	for _, f := range in.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 3 {
		in.fail(c.Pos, "recursion in %s", fn)
	}
	in.Visited[fn] = true
	in.stack = append(in.stack, fn)
	saved := in.loopCtx
	defer func() { in.stack = in.stack[:len(in.stack)-1]; in.loopCtx = saved }()

	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = c.Args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(c.Binds) {
			env[p] = c.Binds[i]
		} else {
			env[p] = in.fresh("cap."+p.Name(), p.Type(), p)
		}
	}
	bornMark := objCount
	evMark := c.St.ev
	ps := &PState{env: env, st: c.St}
	fi := in.P.info(fn)
	res := in.region(fi, nil, fn.Blocks[0], []*PState{ps})
	out := res.outs
	// collect garbage: local objects not reachable any more
	for _, o := range out {
		if o.Kind == ORet {
			in.gc(o, bornMark, evMark)
		}
	}
	return in.dedupOut(out)
}

func objNum(t *Term) int {
	n := 0
	if i := strings.IndexByte(t.S, '.'); i >= 0 {
		fmt.Sscanf(t.S[i+1:], "%d", &n)
	}
	return n
}

var objNumCache = map[*Term]int{}

func (in *Interp) objBorn(t *Term) int {
	if n, ok := objNumCache[t]; ok {
		return n
	}
	n := objNum(t)
	objNumCache[t] = n
	return n
}

func (in *Interp) gc(o *Outcome, born int, evMark *Ev) {
	local := map[*Term][]*Term{}
	for cell := range o.St.heap {
		r := rootOf(cell)
		if r.isOp("arr") {
			continue
		}
		if r.isOp("obj") && in.objBorn(r) > born {
			local[r] = append(local[r], cell)
		}
	}
	if len(local) == 0 {
		return
	}
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if cells, ok := local[t]; ok && !live[t] {
			live[t] = true
			for _, c := range cells {
				mark(o.St.heap[c])
			}
		}
		for _, a := range t.Args {
			mark(a)
		}
		for _, m := range t.P {
			for _, a := range m.A {
				mark(a)
			}
		}
		if t.isOp("obj") {
			// cells below it are marked above
		}
	}
	for _, r := range o.Rets {
		mark(r)
	}
	for c, v := range o.St.heap {
		r := rootOf(c)
		if _, isLocal := local[r]; !isLocal {
			mark(v)
			mark(c)
		}
	}
	for e := o.St.ev; e != nil && e != evMark; e = e.Prev {
		for _, a := range e.Args {
			mark(a)
		}
		mark(e.Ret)
	}
	for r, cells := range local {
		if !live[r] {
			for _, c := range cells {
				delete(o.St.heap, c)
			}
		}
	}
}

func (in *Interp) dedupOut(out []*Outcome) []*Outcome {
	if len(out) < 2 {
		return out
	}
	idx := map[string]*Outcome{}
	var res []*Outcome
	for _, o := range out {
		var b strings.Builder
		fmt.Fprintf(&b, "%d|", o.Kind)
		for _, r := range o.Rets {
			fmt.Fprintf(&b, "%d,", r.ID)
		}
		if o.Kind != ORet {
			fmt.Fprintf(&b, "@%d", o.Pos)
		}
		b.WriteString(o.St.heapKey())
		if o.St.ev != nil {
			b.WriteString(o.St.ev.key)
		}
		if in.KeepPaths {
			b.WriteString(o.St.litKey())
		}
		k := b.String()
		if p, ok := idx[k]; ok {
			p.St.meet(o.St)
			continue
		}
		idx[k] = o
		res = append(res, o)
	}
	if len(res) > in.MaxPaths {
		in.fail(token.NoPos, "too many paths (%d)", len(res))
	}
	return res
}

// ---- control flow ----

type FnInfo struct {
	fn     *ssa.Function
	rpo    map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*Loop // innermost loop headed by the block
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	npred  map[*ssa.BasicBlock]int
}

type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

type edge struct{ from, to *ssa.BasicBlock }

type exitState struct {
	e     edge
	ps    *PState
	early bool // the loop is left because the last iteration set a flag
}

type regionRes struct {
	outs  []*Outcome
	exits []exitState // to blocks outside the region
	backs []*PState   // re-entering the region's header (phis already evaluated)
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, rpo: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*Loop{}, npred: map[*ssa.BasicBlock]int{}}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range order {
		fi.rpo[b] = len(order) - 1 - i
	}
	for _, b := range order {
		for _, s := range b.Succs {
			fi.npred[s]++
			if s.Dominates(b) { // back edge
				l := fi.loopOf[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loopOf[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.Blocks[x] {
						return
					}
					l.Blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			} else if fi.rpo[s] <= fi.rpo[b] {
				panic(analysisError{fmt.Sprintf("irreducible control flow in %s", fn)})
			}
		}
	}
	fi.liveness(order)
	p.infos[fn] = fi
	return fi
}

func (fi *FnInfo) liveness(post []*ssa.BasicBlock) {
	fi.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range post {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					isPhi := false
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						isPhi = true
					}
					if !isPhi {
						live[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
}

func (in *Interp) stateKey(fi *FnInfo, b *ssa.BasicBlock, ps *PState) string {
	var l []string
	for v := range fi.liveIn[b] {
		if t, ok := ps.env[v]; ok {
			l = append(l, fmt.Sprintf("%s=%d", v.Name(), t.ID))
		}
	}
	sort.Strings(l)
	var sb strings.Builder
	sb.WriteString(strings.Join(l, ","))
	sb.WriteByte('|')
	sb.WriteString(ps.st.heapKey())
	sb.WriteByte('|')
	if ps.st.ev != nil {
		sb.WriteString(ps.st.ev.key)
	}
	if in.KeepPaths {
		sb.WriteString(ps.st.litKey())
	}
	fmt.Fprintf(&sb, "|%d", len(ps.defers))
	for _, d := range ps.defers {
		fmt.Fprintf(&sb, ",%p", d.instr)
		for _, a := range d.args {
			fmt.Fprintf(&sb, ":%d", a.ID)
		}
	}
	return sb.String()
}

func (in *Interp) mergeStates(fi *FnInfo, b *ssa.BasicBlock, l []*PState) []*PState {
	if len(l) < 2 {
		return l
	}
	if in.Ite {
		l = in.iteMerge(fi, b, l)
	}
	idx := map[string]*PState{}
	var res []*PState
	for _, ps := range l {
		k := in.stateKey(fi, b, ps)
		if p, ok := idx[k]; ok {
			p.st.meet(ps.st)
			continue
		}
		idx[k] = ps
		res = append(res, ps)
	}
	if len(res) > in.MaxPaths {
		in.fail(b.Parent().Pos(), "too many paths in %s", b.Parent())
	}
	return res
}

// iteMerge joins pairs of states that differ in one branch decision.
func (in *Interp) iteMerge(fi *FnInfo, b *ssa.BasicBlock, l []*PState) []*PState {
	for again := true; again && len(l) > 1; {
		again = false
	pairs:
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				p, q := l[i], l[j]
				if p.st.ev != q.st.ev || len(p.defers) != len(q.defers) {
					continue
				}
				var diff *Term
				n := 0
				for c, v := range p.st.lits {
					if w, ok := q.st.lits[c]; ok && v != w {
						diff = c
						n++
					} else if !ok {
						n += 2
					}
				}
				if n != 1 || len(p.st.lits) != len(q.st.lits) || p.st.heapKey() != q.st.heapKey() {
					continue
				}
				if !p.st.lits[diff] {
					p, q = q, p
				}
				ok := true
				env := cloneEnv(p.env)
				for v := range fi.liveIn[b] {
					x, y := p.env[v], q.env[v]
					if x == nil || y == nil || x == y {
						continue
					}
					if !isInteger(v.Type()) {
						ok = false
						break
					}
					env[v] = Op("ite", "", v.Type(), diff, x, y)
				}
				for _, ins := range b.Instrs {
					ph, isPhi := ins.(*ssa.Phi)
					if !isPhi {
						break
					}
					x, y := p.env[ph], q.env[ph]
					if x == y {
						continue
					}
					if !isInteger(ph.Type()) {
						ok = false
						break
					}
					env[ph] = Op("ite", "", ph.Type(), diff, x, y)
				}
				if !ok {
					continue
				}
				r := &PState{env: env, st: p.st, defers: p.defers}
				r.st.meet(q.st)
				delete(r.st.lits, diff)
				l = append(append(append([]*PState{}, l[:i]...), l[i+1:j]...), l[j+1:]...)
				l = append(l, r)
				again = true
				break pairs
			}
		}
	}
	return l
}

// region interprets the blocks of loop (nil: the whole function) starting at entry.
func (in *Interp) region(fi *FnInfo, loop *Loop, entry *ssa.BasicBlock, start []*PState) regionRes {
	var res regionRes
	pending := map[*ssa.BasicBlock][]*PState{entry: start}
	first := true
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fi.rpo[x] < fi.rpo[b] {
				b = x
			}
		}
		states := in.mergeStates(fi, b, pending[b])
		delete(pending, b)
		route := func(e edge, ps *PState) {
			if loop != nil {
				if e.to == loop.Header {
					res.backs = append(res.backs, ps)
					return
				}
				if !loop.Blocks[e.to] {
					res.exits = append(res.exits, exitState{e: e, ps: ps})
					return
				}
			}
			pending[e.to] = append(pending[e.to], ps)
		}
		if l := fi.loopOf[b]; l != nil && !(first && loop != nil && b == loop.Header) {
			for _, ps := range states {
				r := in.execLoop(fi, l, ps)
				res.outs = append(res.outs, r.outs...)
				for _, x := range r.exits {
					route(x.e, x.ps)
				}
			}
			first = false
			continue
		}
		first = false
		for _, ps := range states {
			in.block(fi, b, ps, route, &res)
		}
	}
	return res
}

// transfer evaluates the phis of to for the edge from->to.
func (in *Interp) transfer(fi *FnInfo, from, to *ssa.BasicBlock, ps *PState) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.val(ps, ph.Edges[pi]))
	}
	for i, ph := range phis {
		ps.env[ph] = vals[i]
	}
}

func (in *Interp) execLoop(fi *FnInfo, l *Loop, entry *PState) regionRes {
	if in.Unroll != nil {
		if n := in.Unroll(fi.fn, l.Header); n > 0 {
			return in.unrollLoop(fi, l, entry, n)
		}
	}
	var phis []*ssa.Phi
	for _, ins := range l.Header.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	in.loopN++
	L := &LoopInfo{ID: in.loopN, Fn: fi.fn, Header: l.Header, Pos: loopPos(l), ObjMark: objCount}
	L.K = OpX("ivar", fmt.Sprintf("%d.%d", L.ID, in.ID), types.Typ[types.Int], L)
	const (
		mHavoc = iota
		mInd
		mInv
	)
	mode := map[any]int{}
	step := map[any]int64{}
	locked := map[any]bool{}
	for _, ph := range phis {
		mode[ph] = mHavoc
	}
	cells := []*Term{}
	cellMode := map[*Term]bool{}
	bornMark := objCount

	savedCtx := in.loopCtx
	defer func() { in.loopCtx = savedCtx }()
	in.loopCtx = append(append([]*LoopInfo{}, savedCtx...), L)

	for round := 0; ; round++ {
		if round > 40 {
			in.fail(L.Pos, "loop summary did not converge in %s", fi.fn)
		}
		h := entry.clone()
		h.st.ev = nil
		L.Vars = map[*Term]*LoopVar{}
		L.Order = nil
		L.Entry = entry.st
		mk := func(key any, init *Term, T types.Type, name string) *Term {
			switch mode[key] {
			case mInv:
				return init
			case mInd:
				return Add(init, Scale(L.K, step[key]))
			}
			lv := &LoopVar{Loop: L, Init: init}
			s := in.fresh("lv."+name, T, lv)
			lv.Sym = s
			L.Vars[s] = lv
			L.Order = append(L.Order, lv)
			return s
		}
		cur := map[any]*Term{}
		for _, ph := range phis {
			v := mk(ph, entry.env[ph], ph.Type(), ph.Comment+ph.Name())
			h.env[ph] = v
			cur[ph] = v
			if lv := L.Vars[v]; lv != nil {
				lv.Phi = ph
			}
		}
		for _, c := range cells {
			init, had := entry.st.heap[c]
			if !had {
				init = cellDefault(entry.st, c)
			}
			T := init.T
			if c.T != nil && T == nil {
				T = c.T
			}
			v := mk(c, init, T, "mem")
			h.st.heap[c] = v
			cur[c] = v
			if lv := L.Vars[v]; lv != nil {
				lv.Cell = c
			}
		}
		symMark := termCount
		r := in.foldFlags(fi, l, phis, entry, in.region(fi, l, l.Header, []*PState{h.clone()}))
		if debugLoops {
			fmt.Println("LOOP round", round, fi.fn, "cells", cells, "mode", mode)
			for _, b := range r.backs {
				for c, v := range b.st.heap {
					fmt.Println("   back", c, "=", v, " was ", h.st.heap[c])
				}
			}
		}
		// facts shared by loop instances: K >= 0 is built into the range of K
		changed := false
		newCell := func(c *Term) {
			if !cellMode[c] {
				cellMode[c] = true
				mode[c] = mHavoc
				cells = append(cells, c)
				changed = true
			}
		}
		for _, b := range r.backs {
			for c, v := range b.st.heap {
				if h.st.heap[c] == v || cellMode[c] {
					continue
				}
				if c.any(func(y *Term) bool {
					return y.isOp("obj") && in.objBorn(y) > bornMark || y.K == KSym && y.ID > symMark
				}) {
					continue // born in this iteration
				}
				if _, had := h.st.heap[c]; !had {
					if iterationLocal(c, L) {
						if fk := fieldKey(c); fk != "" {
							h.st.smash[fk] = L.ID
						}
						continue
					}
					if cellDefault(h.st, c) == v {
						continue
					}
				}
				newCell(c)
			}
		}
		if !changed {
			// classify
			classify := func(key any) {
				if mode[key] != mHavoc || locked[key] {
					return
				}
				v := cur[key]
				next := func(b *PState) *Term {
					switch k := key.(type) {
					case *ssa.Phi:
						return b.env[k]
					case *Term:
						return b.st.heap[k]
					}
					return nil
				}
				inv, ind := true, true
				var d0 *Term
				for _, b := range r.backs {
					n := next(b)
					if n != v {
						inv = false
					}
					if n == nil || !isIntTerm(v) || !(isIntTerm(n)) {
						ind = false
						continue
					}
					d := Sub(n, v)
					if d.K != KInt || (d0 != nil && d0 != d) {
						ind = false
						continue
					}
					d0 = d
				}
				if len(r.backs) == 0 {
					inv = true
				}
				if inv {
					mode[key] = mInv
					changed = true
				} else if ind && d0 != nil && intWidthOfTerm(v) == 64 {
					mode[key] = mInd
					step[key] = d0.I
					changed = true
				}
			}
			for _, ph := range phis {
				classify(ph)
			}
			for _, c := range cells {
				classify(c)
			}
		}
		// verify assumptions of earlier classification
		for _, key := range allKeys(phis, cells) {
			if mode[key] == mHavoc {
				continue
			}
			want := cur[key]
			if mode[key] == mInd {
				want = Add(cur[key], Int(step[key]))
			}
			for _, b := range r.backs {
				var n *Term
				switch k := key.(type) {
				case *ssa.Phi:
					n = b.env[k]
				case *Term:
					n = b.st.heap[k]
				}
				if cur[key] != nil && L.Vars[cur[key]] == nil && n != want {
					mode[key] = mHavoc
					locked[key] = true
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// final round
		for _, b := range r.backs {
			it := &Iter{St: b.st, Env: b.env, Next: map[*Term]*Term{}}
			for _, lv := range L.Order {
				var n *Term
				if lv.Phi != nil {
					n = b.env[lv.Phi]
				} else {
					n = b.st.heap[lv.Cell]
				}
				lv.Next = append(lv.Next, n)
				it.Next[lv.Sym] = n
			}
			L.Iters = append(L.Iters, it)
		}
		for _, o := range r.outs {
			if o.Kind == OPanic || o.Kind == OExit {
				L.Aborts = append(L.Aborts, o)
			}
		}
		for _, x := range r.exits {
			L.Exits = append(L.Exits, &Iter{St: x.ps.st.clone(), Env: x.ps.env})
		}
		L.monotone(entry.st, r)
		L.findTrip(l, r)
		if L.Trip != nil && L.Trip.K == KInt && L.Trip.I >= 1 && L.Trip.I <= 4 && in.Hooks["$loops"] == nil {
			return in.unrollLoop(fi, l, entry, int(L.Trip.I)) // a short list written out
		}
		join := func(st *State) {
			tail := st.ev.list()
			st.ev = entry.st.ev
			if len(L.Iters) > 0 {
				st.emit(&Ev{Kind: "loop", Loop: L, Pos: L.Pos, In: fi.fn})
			}
			for _, e := range tail {
				c := *e
				st.emit(&c)
			}
			for k, v := range h.st.smash {
				st.smash[k] = v
			}
			if L.Trip != nil {
				d := Sub(L.K, L.Trip)
				st.ivs[d] = iv{0, 0}
				st.ivs[Scale(d, -1)] = iv{0, 0}
			}
		}
		for _, x := range r.exits {
			join(x.ps.st)
			for i := range x.ps.defers {
				_ = i
			}
		}
		for _, o := range r.outs {
			join(o.St)
		}
		return r
	}
}

// monotone: a variable that no iteration lowers is never below the value it starts with (and the other way round).
func (L *LoopInfo) monotone(entry *State, r regionRes) {
	for _, lv := range L.Order {
		if lv.Phi == nil || !isIntTerm(lv.Sym) || intWidthOfTerm(lv.Sym) != 64 || lv.Init == nil || len(L.Iters) == 0 {
			continue
		}
		up, down := true, true
		for _, it := range L.Iters {
			n := it.Next[lv.Sym]
			if n == nil || !isIntTerm(n) {
				up, down = false, false
				break
			}
			lo, hi := it.St.bounds(Sub(n, lv.Sym))
			up, down = up && lo >= 0, down && hi <= 0
		}
		lo, hi := entry.bounds(lv.Init)
		if !up {
			lo = minI
		}
		if !down {
			hi = maxI
		}
		if lo == minI && hi == maxI {
			continue
		}
		set := func(st *State) {
			w, ok := st.ivs[lv.Sym]
			if !ok {
				w = iv{minI, maxI}
			}
			st.ivs[lv.Sym] = iv{maxI64(w.lo, lo), minI64(w.hi, hi)}
		}
		for _, it := range L.Iters {
			set(it.St)
		}
		for _, it := range L.Exits {
			set(it.St)
		}
		for _, x := range r.exits {
			set(x.ps.st)
		}
		for _, o := range r.outs {
			set(o.St)
		}
	}
}

// foldFlags turns an iteration which sets a flag that ends the loop ("done = true" where the header asks !done) into the
// exit that it is: the header is evaluated with the values the iteration leaves, and where that leaves the loop on every
// path and does nothing else, the iteration has left it as by a break.
func (in *Interp) foldFlags(fi *FnInfo, l *Loop, phis []*ssa.Phi, entry *PState, r regionRes) regionRes {
	isBool := func(t *Term) bool { return t != nil && (t == tTrue || t == tFalse) }
	var backs []*PState
	for _, b := range r.backs {
		flag := false
		for _, ph := range phis {
			if i, n := entry.env[ph], b.env[ph]; isBool(i) && isBool(n) && i != n {
				flag = true
			}
		}
		if !flag {
			backs = append(backs, b)
			continue
		}
		x := in.region(fi, l, l.Header, []*PState{b.clone()})
		pure := len(x.backs) == 0 && len(x.outs) == 0
		for _, e := range x.exits {
			if e.ps.st.ev != b.st.ev {
				pure = false
			}
		}
		if !pure {
			backs = append(backs, b)
			continue
		}
		for _, e := range x.exits {
			e.early = true
			r.exits = append(r.exits, e)
		}
	}
	r.backs = backs
	return r
}

func allKeys(phis []*ssa.Phi, cells []*Term) []any {
	var r []any
	for _, p := range phis {
		r = append(r, p)
	}
	for _, c := range cells {
		r = append(r, c)
	}
	return r
}

func intWidthOfTerm(t *Term) int {
	if t.T == nil {
		return 64
	}
	return intWidth(t.T)
}

// findTrip recognises "for k := 0; k < n" style loops: the only normal exits are from the header test and
// that test is K < n with n fixed, n >= 0.
func (L *LoopInfo) findTrip(l *Loop, r regionRes) {
	var trip *Term
	byEq := false
	for _, x := range r.exits {
		if x.e.from != l.Header || x.early {
			return
		}
	}
	// every continuing path knows K < n; every exit knows !(K < n)
	for _, x := range r.exits {
		found := false
		for c, v := range x.ps.st.lits {
			if !c.isOp("lt") || c.Args[1].K != KInt {
				continue
			}
			q, n := c.Args[0], c.Args[1].I
			// q = K - trip' , !(q < n)  ->  K >= trip'+n
			d := Sub(L.K, q)
			t := Add(d, Int(n))
			if v {
				// q = trip' - K , q < n  ->  K >= trip'-n+1
				d = Add(L.K, q)
				t = Add(d, Int(1-n))
			}
			if d.contains(L.K) {
				continue
			}
			if t.any(func(y *Term) bool { return L.Vars[y] != nil }) {
				continue
			}
			lo, _ := x.ps.st.bounds(t)
			if lo < 0 {
				continue
			}
			if trip != nil && trip != t {
				return
			}
			trip = t
			found = true
		}
		for c, v := range x.ps.st.lits {
			if !v || !c.isOp("eq") || found {
				continue
			}
			// exit on K == n (K counts from 0)
			d := Sub(L.K, c.Args[0])
			t := Add(d, c.Args[1])
			if !d.contains(L.K) && !t.any(func(y *Term) bool { return L.Vars[y] != nil }) {
				if lo, _ := x.ps.st.bounds(t); lo >= 0 {
					trip, found, byEq = t, true, true
				}
			}
		}
		if !found {
			return
		}
	}
	L.Trip = trip
	if byEq && trip != nil {
		for _, it := range L.Iters { // K counts up from 0 and has not been the number of iterations yet
			it.St.assume(Lt(L.K, trip, false), true)
		}
	}
}

func cellDefault(st *State, c *Term) *Term {
	// content cells have array semantics: recognised by a previous content value only; scalars by type
	if c.isOp("arr") || c.T == nil {
		return st.defaultCell(c, nil, true)
	}
	switch under(c.T).(type) {
	case *types.Array:
		return st.defaultCell(c, under(c.T).(*types.Array).Elem(), true)
	}
	return st.defaultCell(c, c.T, false)
}

// iterationLocal reports whether an address depends on the iteration of L.
func iterationLocal(a *Term, L *LoopInfo) bool {
	return a.any(func(y *Term) bool { return y == L.K || L.Vars[y] != nil })
}

func loopPos(l *Loop) token.Pos {
	for _, ins := range l.Header.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	best := token.NoPos
	for b := range l.Blocks {
		for _, ins := range b.Instrs {
			if p := ins.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (in *Interp) unrollLoop(fi *FnInfo, l *Loop, entry *PState, n int) regionRes {
	var res regionRes
	cur := []*PState{entry}
	for i := 0; ; i++ {
		cur = in.mergeStates(fi, l.Header, cur)
		if len(cur) == 0 {
			return res
		}
		if i > n {
			in.fail(loopPos(l), "loop in %s not bounded by %d iterations", fi.fn, n)
		}
		var next []*PState
		for _, ps := range cur {
			r := in.region(fi, l, l.Header, []*PState{ps})
			res.outs = append(res.outs, r.outs...)
			res.exits = append(res.exits, r.exits...)
			next = append(next, r.backs...)
		}
		cur = next
	}
}

// ---- instructions ----

func (in *Interp) val(ps *PState, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constTerm(v)
	case *ssa.Function:
		return OpX("func", v.String(), v.Type(), v)
	case *ssa.Global:
		return OpX("glob", v.String(), v.Type(), v)
	case *ssa.Builtin:
		return OpX("builtin", v.Name(), nil, v)
	}
	if t, ok := ps.env[v]; ok {
		return t
	}
	in.fail(v.Pos(), "value %s of %s not available", v.Name(), v.Parent())
	return nil
}

func (in *Interp) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if isInteger(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return Int(i)
			}
			if u, ok := constant.Uint64Val(c.Value); ok {
				return Int(int64(u))
			}
		}
	}
	if isInteger(c.Type()) {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if i, ok := constant.Int64Val(v); ok {
				return Int(i)
			}
		}
	}
	return Op("float", c.Value.ExactString(), c.Type())
}

func (in *Interp) block(fi *FnInfo, b *ssa.BasicBlock, ps *PState, route func(edge, *PState), res *regionRes) {
	in.visits++
	if in.visits > in.Budget {
		in.fail(b.Parent().Pos(), "analysis budget exceeded in %s", b.Parent())
	}
	work := []*PState{ps}
	for i, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, ps := range work {
				in.transfer(fi, b, b.Succs[0], ps)
				route(edge{b, b.Succs[0]}, ps)
			}
			return
		case *ssa.If:
			for _, ps := range work {
				c := in.val(ps, ins.Cond)
				if k, v := ps.st.decide(c); k {
					s := b.Succs[1]
					if v {
						s = b.Succs[0]
					}
					in.transfer(fi, b, s, ps)
					route(edge{b, s}, ps)
					continue
				}
				p2 := ps.clone()
				if ps.st.assume(c, true) {
					in.transfer(fi, b, b.Succs[0], ps)
					route(edge{b, b.Succs[0]}, ps)
				}
				if p2.st.assume(c, false) {
					in.transfer(fi, b, b.Succs[1], p2)
					route(edge{b, b.Succs[1]}, p2)
				}
			}
			return
		case *ssa.Return:
			for _, ps := range work {
				var rs []*Term
				for _, r := range ins.Results {
					rs = append(rs, in.val(ps, r))
				}
				at := ins.Pos()
				if !at.IsValid() {
					at = ins.Parent().Pos() // the end of the function
				}
				res.outs = append(res.outs, &Outcome{Kind: ORet, St: ps.st, Rets: rs, Pos: at})
			}
			return
		case *ssa.Panic:
			for _, ps := range work {
				res.outs = append(res.outs, &Outcome{Kind: OPanic, St: ps.st, Pos: ins.Pos(), Val: in.val(ps, ins.X)})
			}
			return
		}
		var next []*PState
		for _, ps := range work {
			l, outs := in.instr(fi, ins, ps)
			next = append(next, l...)
			res.outs = append(res.outs, outs...)
		}
		work = next
		if len(work) > 1 {
			// cheap merge of identical states
			if _, isCall := ins.(*ssa.Call); isCall {
				work = in.mergeAt(fi, b, i, work)
			}
		}
		if len(work) == 0 {
			return
		}
	}
}

func (in *Interp) mergeAt(fi *FnInfo, b *ssa.BasicBlock, i int, l []*PState) []*PState {
	idx := map[string]*PState{}
	var res []*PState
	for _, ps := range l {
		var sb strings.Builder
		// all states come from one at the start of the block: only values made since can differ
		for _, ins := range b.Instrs[:i+1] {
			if v, ok := ins.(ssa.Value); ok {
				if t := ps.env[v]; t != nil {
					fmt.Fprintf(&sb, "%d,", t.ID)
				}
			}
		}
		sb.WriteByte('|')
		if in.KeepPaths {
			sb.WriteString(ps.st.litKey())
		}
		sb.WriteString(ps.st.heapKey())
		if ps.st.ev != nil {
			sb.WriteString(ps.st.ev.key)
		}
		fmt.Fprintf(&sb, "|%d", len(ps.defers))
		k := sb.String()
		if p, ok := idx[k]; ok {
			p.st.meet(ps.st)
			continue
		}
		idx[k] = ps
		res = append(res, ps)
	}
	if len(res) > in.MaxPaths {
		in.fail(b.Parent().Pos(), "too many paths in %s", b.Parent())
	}
	return res
}

func one(ps *PState) ([]*PState, []*Outcome) { return []*PState{ps}, nil }

func (in *Interp) instr(fi *FnInfo, ins ssa.Instruction, ps *PState) ([]*PState, []*Outcome) {
	st := ps.st
	set := func(v ssa.Value, t *Term) { ps.env[v] = t }
	if in.Nils != nil {
		in.Nils.instr(in, fi, ins, ps)
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		T := ins.Type().Underlying().(*types.Pointer).Elem()
		set(ins, in.newObj("alloc", T, ins))
	case *ssa.MakeSlice:
		T := ins.Type().Underlying().(*types.Slice).Elem()
		o := in.newObj("make", T, ins)
		n := in.val(ps, ins.Len)
		set(ins, SliceTerm(o, Int(0), n, in.val(ps, ins.Cap), ins.Type()))
		if in.TraceMem {
			st.emit(&Ev{Kind: "makeslice", Args: []*Term{o, n}, Pos: ins.Pos(), In: fi.fn})
		}
	case *ssa.MakeMap:
		set(ins, in.newObj("map", ins.Type(), ins))
	case *ssa.MakeChan:
		o := in.newObj("chan", ins.Type(), ins)
		st.emit(&Ev{Kind: "makechan", Args: []*Term{o, in.val(ps, ins.Size)}, Pos: ins.Pos(), In: fi.fn})
		set(ins, o)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, in.val(ps, b))
		}
		f := ins.Fn.(*ssa.Function)
		set(ins, OpX("closure", fmt.Sprintf("%p", f), ins.Type(), f, bs...))
	case *ssa.MakeInterface:
		set(ins, OpX("iface", types.TypeString(ins.X.Type(), nil), ins.X.Type(), nil, in.val(ps, ins.X)))
	case *ssa.ChangeInterface:
		set(ins, in.val(ps, ins.X))
	case *ssa.ChangeType:
		set(ins, in.val(ps, ins.X))
	case *ssa.Convert:
		set(ins, in.convert(ps, ins))
	case *ssa.MultiConvert:
		set(ins, Op("mconv", types.TypeString(ins.Type(), nil), ins.Type(), in.val(ps, ins.X)))
	case *ssa.SliceToArrayPointer:
		arr, lo := arrOf(in.val(ps, ins.X))
		if lo.K == KInt && lo.I == 0 {
			set(ins, arr)
		} else {
			set(ins, Op("s2a", "", ins.Type(), in.val(ps, ins.X)))
		}
	case *ssa.BinOp:
		set(ins, in.binop(ps, ins))
	case *ssa.UnOp:
		return in.unop(fi, ps, ins)
	case *ssa.FieldAddr:
		T := ins.X.Type().Underlying().(*types.Pointer).Elem()
		set(ins, FieldAddrT(in.val(ps, ins.X), ins.Field, T))
	case *ssa.Field:
		set(ins, Field(in.val(ps, ins.X), ins.Field, ins.Type()))
		if in.Nils != nil {
			in.Nils.read(ins, ps.env[ins])
		}
	case *ssa.IndexAddr:
		x := in.val(ps, ins.X)
		i := in.val(ps, ins.Index)
		elem := ins.Type().Underlying().(*types.Pointer).Elem()
		var arr, lo *Term
		if _, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			arr, lo = x, Int(0)
		} else {
			arr, lo = arrOf(x)
		}
		if in.TraceIdx {
			n := Len(x)
			if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
				n = Int(under(pt.Elem()).(*types.Array).Len())
			}
			st.emit(&Ev{Kind: "index", Args: []*Term{x, i, n}, Pos: ins.Pos(), In: fi.fn})
		}
		set(ins, IndexAddrT(arr, Add(lo, i), elem))
	case *ssa.Index:
		x, i := in.val(ps, ins.X), in.val(ps, ins.Index)
		if isString(ins.X.Type()) {
			set(ins, Op("stridx", "", ins.Type(), x, i))
		} else {
			set(ins, Select(x, i, ins.Type()))
		}
	case *ssa.Lookup:
		x, k := in.val(ps, ins.X), in.val(ps, ins.Index)
		if isString(ins.X.Type()) {
			set(ins, Op("stridx", "", ins.Type(), x, k))
			break
		}
		c := in.mapContent(st, x)
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		v := mapGet(c, k, vt)
		if in.TraceMem {
			st.emit(&Ev{Kind: "lookup", Args: []*Term{x, k, v}, Pos: ins.Pos(), In: fi.fn})
		}
		if ins.CommaOk {
			set(ins, Op("tuple", "", nil, v, mapHas(c, k)))
		} else {
			set(ins, v)
		}
	case *ssa.MapUpdate:
		m, k, v := in.val(ps, ins.Map), in.val(ps, ins.Key), in.val(ps, ins.Value)
		c := in.mapContent(st, m)
		st.heap[mapCell(m)] = Op("mstore", "", nil, c, k, v)
		if in.TraceMem {
			st.emit(&Ev{Kind: "mapupdate", Args: []*Term{m, k, v}, Pos: ins.Pos(), In: fi.fn})
		}
	case *ssa.Range:
		x := in.val(ps, ins.X)
		if isString(ins.X.Type()) {
			set(ins, Op("range", "", nil, x))
		} else {
			objCount++
			set(ins, OpX("range", fmt.Sprint(objCount), nil, ins, x, in.mapContent(st, x)))
		}
	case *ssa.Next:
		it := in.val(ps, ins.Iter)
		var K *Term = Int(0)
		if n := len(in.loopCtx); n > 0 {
			K = in.loopCtx[n-1].K
		}
		tt := ins.Type().(*types.Tuple)
		set(ins, Op("tuple", "", nil,
			Op("rok", "", types.Typ[types.Bool], it, K),
			Op("rkey", "", tt.At(1).Type(), it, K),
			Op("rval", "", tt.At(2).Type(), it, K)))
	case *ssa.Slice:
		set(ins, in.sliceInstr(fi, ps, ins))
	case *ssa.Store:
		addr := in.val(ps, ins.Addr)
		v := in.val(ps, ins.Val)
		if in.OnField != nil {
			in.OnField(in, st, addr, true, ins.Pos(), fi.fn)
		}
		if in.TraceMem {
			st.emit(&Ev{Kind: "store", Args: []*Term{addr, v}, Pos: ins.Pos(), In: fi.fn})
		}
		st.store(addr, v, ins.Val.Type())
	case *ssa.TypeAssert:
		in.typeAssert(ps, ins)
		if !ins.CommaOk {
			x := ps.env[ins]
			if x == nil { // certainly fails
				return nil, []*Outcome{{Kind: OPanic, St: st, Pos: ins.Pos(), Val: Str("type assertion")}}
			}
		}
	case *ssa.Extract:
		t := in.val(ps, ins.Tuple)
		if t.isOp("tuple") {
			set(ins, t.Args[ins.Index])
		} else {
			set(ins, Op("extract", fmt.Sprint(ins.Index), ins.Type(), t))
		}
	case *ssa.Send:
		ch, v := in.val(ps, ins.Chan), in.val(ps, ins.X)
		st.emit(&Ev{Kind: "send", Args: []*Term{ch, v}, Pos: ins.Pos(), In: fi.fn})
	case *ssa.Select:
		return in.selectInstr(fi, ps, ins)
	case *ssa.Go:
		callee, fn, args := in.resolve(ps, &ins.Call, ins.Pos())
		st.emit(&Ev{Kind: "go", Args: append([]*Term{callee}, args...), Fn: fn, Pos: ins.Pos(), In: fi.fn, Snap: st.clone()})
	case *ssa.Defer:
		callee, fn, args := in.resolve(ps, &ins.Call, ins.Pos())
		nd := append([]deferred{}, ps.defers...)
		ps.defers = append(nd, deferred{callee, fn, args, ins})
	case *ssa.RunDefers:
		states := []*PState{ps}
		var outs []*Outcome
		for {
			var next []*PState
			did := false
			for _, p := range states {
				if len(p.defers) == 0 {
					next = append(next, p)
					continue
				}
				did = true
				d := p.defers[len(p.defers)-1]
				p.defers = p.defers[:len(p.defers)-1]
				os := in.invoke(p, fi.fn, d.callee, d.fn, d.args, d.instr.Call.Signature(), d.instr, &d.instr.Call)
				for i, o := range os {
					if o.Kind != ORet {
						outs = append(outs, o)
						continue
					}
					q := p
					if i < len(os)-1 {
						q = &PState{env: cloneEnv(p.env), defers: p.defers}
					}
					q.st = o.St
					next = append(next, q)
				}
			}
			states = next
			if !did {
				break
			}
		}
		return states, outs
	case *ssa.Call:
		callee, fn, args := in.resolve(ps, &ins.Call, ins.Pos())
		os := in.invoke(ps, fi.fn, callee, fn, args, ins.Call.Signature(), ins, &ins.Call)
		var res []*PState
		var outs []*Outcome
		for i, o := range os {
			if o.Kind != ORet {
				outs = append(outs, o)
				continue
			}
			q := ps
			if i < len(os)-1 {
				q = &PState{env: cloneEnv(ps.env), defers: ps.defers}
			}
			q.st = o.St
			switch {
			case len(o.Rets) == 1:
				q.env[ins] = o.Rets[0]
			case len(o.Rets) > 1:
				q.env[ins] = Op("tuple", "", nil, o.Rets...)
			}
			res = append(res, q)
		}
		return res, outs
	default:
		in.fail(ins.Pos(), "unsupported instruction %T in %s", ins, fi.fn)
	}
	return one(ps)
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+4)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func mapCell(m *Term) *Term { return Op("mapc", "", nil, m) }

func (in *Interp) mapContent(st *State, m *Term) *Term {
	if m == tNil {
		return Op("mzero", "", nil)
	}
	if v, ok := st.heap[mapCell(m)]; ok {
		return v
	}
	if m.isOp("obj") {
		if e, ok := st.esc[m]; ok {
			return Op("mcontx", "", nil, m, e)
		}
		return Op("mzero", "", nil)
	}
	return Op("mcont0", "", nil, m)
}

func mapGet(c, k *Term, T types.Type) *Term {
	for c.isOp("mstore") || c.isOp("mdel") {
		if c.Args[1] == k {
			if c.Op == "mstore" {
				return c.Args[2]
			}
			return zeroOf(T)
		}
		if !distinct(c.Args[1], k) {
			return Op("mget", "", T, c, k)
		}
		c = c.Args[0]
	}
	if c.isOp("mzero") {
		return zeroOf(T)
	}
	return Op("mget", "", T, c, k)
}

func mapHas(c, k *Term) *Term {
	for c.isOp("mstore") || c.isOp("mdel") {
		if c.Args[1] == k {
			return Bool(c.Op == "mstore")
		}
		if !distinct(c.Args[1], k) {
			return Op("mhas", "", types.Typ[types.Bool], c, k)
		}
		c = c.Args[0]
	}
	if c.isOp("mzero") {
		return tFalse
	}
	return Op("mhas", "", types.Typ[types.Bool], c, k)
}

func distinct(a, b *Term) bool {
	if isIntTerm(a) && isIntTerm(b) {
		d := Sub(a, b)
		return d.K == KInt && d.I != 0
	}
	return a.K == KStr && b.K == KStr && a != b || isObj(a) && isObj(b) && a != b
}

func (in *Interp) convert(ps *PState, ins *ssa.Convert) *Term {
	x := in.val(ps, ins.X)
	from, to := ins.X.Type(), ins.Type()
	switch {
	case isInteger(from) && isInteger(to):
		return Conv(x, to)
	case isString(to) && isInteger(from):
		return Op("rune2s", "", to, x)
	case isString(to):
		if sl, ok := under(from).(*types.Slice); ok {
			if !isByte(sl.Elem()) {
				return Op("r2s", "", to, ps.st.snap(x, sl.Elem()))
			}
			if x.isOp("s2b") {
				return x.Args[0]
			}
			return Op("b2s", "", to, ps.st.snap(x, types.Typ[types.Byte]))
		}
		return x
	case isString(from):
		if sl, ok := under(to).(*types.Slice); ok && !isByte(sl.Elem()) {
			return Op("s2r", "", to, x)
		}
		if x.isOp("b2s") && !ps.st.mutated(x.Args[0]) {
			return x.Args[0]
		}
		return Op("s2b", types.TypeString(to, nil), to, x)
	case types.Identical(under(from), under(to)):
		return x
	}
	return Op("convert", types.TypeString(to, nil), to, x)
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (s *State) mutated(sl *Term) bool {
	arr, _ := arrOf(sl)
	_, ok := s.heap[arr]
	return ok
}

func (in *Interp) binop(ps *PState, ins *ssa.BinOp) *Term {
	a, b := in.val(ps, ins.X), in.val(ps, ins.Y)
	T := ins.X.Type()
	if isInteger(T) {
		uns := isUnsigned(T)
		switch ins.Op {
		case token.ADD:
			return Conv(Add(a, b), T)
		case token.SUB:
			return Conv(Sub(a, b), T)
		case token.MUL:
			return Conv(Mul(a, b), T)
		case token.QUO, token.REM:
			op := "div"
			if ins.Op == token.REM {
				op = "rem"
			}
			if uns {
				op = "u" + op
			}
			return Conv(bitOp(op, a, b, T), T)
		case token.AND:
			return bitOp("and", a, b, T)
		case token.OR:
			return bitOp("or", a, b, T)
		case token.XOR:
			return bitOp("xor", a, b, T)
		case token.AND_NOT:
			return bitOp("andnot", a, b, T)
		case token.SHL:
			return Conv(bitOp("shl", a, b, T), T)
		case token.SHR:
			if uns {
				return bitOp("shr", a, b, T)
			}
			return bitOp("sar", a, b, T)
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Not(Eq(a, b))
		case token.LSS:
			return Lt(a, b, uns)
		case token.GTR:
			return Lt(b, a, uns)
		case token.LEQ:
			return Le(a, b, uns)
		case token.GEQ:
			return Le(b, a, uns)
		}
	}
	switch ins.Op {
	case token.EQL:
		if isFloat(T) {
			return Op("feq", "", types.Typ[types.Bool], a, b)
		}
		return Eq(a, b)
	case token.NEQ:
		if isFloat(T) {
			return Not(Op("feq", "", types.Typ[types.Bool], a, b))
		}
		return Not(Eq(a, b))
	case token.ADD:
		if isString(T) {
			return strcat(a, b)
		}
	case token.LSS:
		return Op("xlt", "", types.Typ[types.Bool], a, b)
	case token.GTR:
		return Op("xlt", "", types.Typ[types.Bool], b, a)
	case token.LEQ:
		return Not(Op("xlt", "", types.Typ[types.Bool], b, a))
	case token.GEQ:
		return Not(Op("xlt", "", types.Typ[types.Bool], a, b))
	}
	return Op("bin"+ins.Op.String(), "", ins.Type(), a, b)
}

func strcat(a, b *Term) *Term {
	if a.K == KStr && a.S == "" {
		return b
	}
	if b.K == KStr && b.S == "" {
		return a
	}
	if a.K == KStr && b.K == KStr {
		return Str(a.S + b.S)
	}
	var l []*Term
	add := func(t *Term) {
		if t.isOp("strcat") {
			l = append(l, t.Args...)
		} else {
			l = append(l, t)
		}
	}
	add(a)
	add(b)
	return Op("strcat", "", types.Typ[types.String], l...)
}

func (in *Interp) unop(fi *FnInfo, ps *PState, ins *ssa.UnOp) ([]*PState, []*Outcome) {
	x := in.val(ps, ins.X)
	switch ins.Op {
	case token.MUL:
		if in.OnField != nil {
			in.OnField(in, ps.st, x, false, ins.Pos(), fi.fn)
		}
		v := ps.st.load(x, ins.Type())
		if in.TraceMem {
			ps.st.emit(&Ev{Kind: "load", Args: []*Term{x}, Ret: v, Pos: ins.Pos(), In: fi.fn})
		}
		ps.env[ins] = v
		if in.Nils != nil {
			in.Nils.read(ins, v)
		}
	case token.NOT:
		ps.env[ins] = Not(x)
	case token.SUB:
		if isInteger(ins.Type()) {
			ps.env[ins] = Conv(Scale(x, -1), ins.Type())
		} else {
			ps.env[ins] = Op("fneg", "", ins.Type(), x)
		}
	case token.XOR:
		ps.env[ins] = Conv(bitOp("xor", x, Int(-1), ins.Type()), ins.Type())
	case token.ARROW:
		T := ins.Type()
		if ins.CommaOk {
			T = T.(*types.Tuple).At(0).Type()
		}
		v := in.fresh("recv", T, ins)
		e := &Ev{Kind: "recv", Args: []*Term{x}, Ret: v, Pos: ins.Pos(), In: fi.fn}
		if ins.CommaOk {
			ok := Op("recvok", "", types.Typ[types.Bool], v)
			e.Args = append(e.Args, ok)
			ps.env[ins] = Op("tuple", "", nil, v, ok)
		} else {
			ps.env[ins] = v
		}
		ps.st.emit(e)
	default:
		in.fail(ins.Pos(), "unsupported unary %s", ins.Op)
	}
	return one(ps)
}

func (in *Interp) sliceInstr(fi *FnInfo, ps *PState, ins *ssa.Slice) *Term {
	x := in.val(ps, ins.X)
	var lo, hi, mx *Term
	if ins.Low != nil {
		lo = in.val(ps, ins.Low)
	} else {
		lo = Int(0)
	}
	if ins.High != nil {
		hi = in.val(ps, ins.High)
	}
	if ins.Max != nil {
		mx = in.val(ps, ins.Max)
	}
	if isString(ins.X.Type()) {
		if hi == nil {
			hi = Len(x)
		}
		return Op("substr", "", ins.Type(), x, lo, hi)
	}
	if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		n := Int(under(pt.Elem()).(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		return SliceTerm(x, lo, Sub(hi, lo), Sub(cp, lo), ins.Type())
	}
	if x == tNil {
		return tNil
	}
	if hi == nil {
		hi = Len(x)
	}
	if in.TraceIdx || in.Hooks["$slice"] != nil {
		e := &Ev{Kind: "slice", Args: []*Term{x, lo, hi, Len(x)}, Pos: ins.Pos(), In: fi.fn}
		if mx != nil {
			e.Args = append(e.Args, mx)
		}
		ps.st.emit(e)
	}
	if lo.K == KInt && lo.I == 0 && mx == nil && hi == Len(x) {
		return x
	}
	arr, base := arrOf(x)
	var cp *Term
	if mx != nil {
		cp = Sub(mx, lo)
	} else if x.isOp("slice") {
		cp = Sub(x.Args[3], lo)
	} else {
		cp = Sub(capOf(x), lo)
	}
	// a prefix of an append chain whose length is exactly that of an inner link is that link
	if x.isOp("app") && lo.K == KInt && lo.I == 0 && !ps.st.mutated(x) {
		b := Len(x.Args[0])
		d := Sub(hi, b)
		if d.K == KInt && d.I >= 0 && d.I <= int64(len(x.Args)-1) {
			return App(x.Args[0], x.Args[1:1+d.I]...)
		}
		if d.K == KInt && hi.K == KInt && hi.I == 0 {
			return SliceTerm(arr, Int(0), Int(0), cp, ins.Type())
		}
	}
	return SliceTerm(arr, Add(base, lo), Sub(hi, lo), cp, ins.Type())
}

func (in *Interp) typeAssert(ps *PState, ins *ssa.TypeAssert) {
	x := in.val(ps, ins.X)
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	if x.isOp("iface") || x == tNil {
		ok := x != tNil
		var v *Term
		if ok {
			if toIface {
				ok = types.Implements(x.T, ins.AssertedType.Underlying().(*types.Interface))
				v = x
			} else {
				ok = types.Identical(x.T, ins.AssertedType)
				v = x.Args[0]
			}
		}
		if !ok {
			v = zeroOf(ins.AssertedType)
		}
		ps.st.emit(&Ev{Kind: "assert", Name: types.TypeString(ins.AssertedType, nil), Args: []*Term{x, Bool(ok), Bool(ins.CommaOk)}, Pos: ins.Pos(), In: ins.Parent()})
		if ins.CommaOk {
			ps.env[ins] = Op("tuple", "", nil, v, Bool(ok))
		} else if ok {
			ps.env[ins] = v
		} else {
			delete(ps.env, ins)
		}
		return
	}
	tn := types.TypeString(ins.AssertedType, nil)
	v := OpX("tassert", tn, ins.AssertedType, nil, x)
	if toIface {
		v = x
	}
	is := Op("istype", tn, types.Typ[types.Bool], x)
	ps.st.emit(&Ev{Kind: "assert", Name: tn, Args: []*Term{x, is, Bool(ins.CommaOk)}, Pos: ins.Pos(), In: ins.Parent()})
	if ins.CommaOk {
		ps.env[ins] = Op("tuple", "", nil, v, is)
		return
	}
	ps.st.assume(is, true)
	ps.env[ins] = v
}

func (in *Interp) selectInstr(fi *FnInfo, ps *PState, ins *ssa.Select) ([]*PState, []*Outcome) {
	var res []*PState
	n := len(ins.States)
	idxs := make([]int, 0, n+1)
	for i := range ins.States {
		idxs = append(idxs, i)
	}
	if !ins.Blocking {
		idxs = append(idxs, -1)
	}
	for k, i := range idxs {
		p := ps
		if k < len(idxs)-1 {
			p = ps.clone()
		}
		rets := []*Term{Int(int64(i)), tFalse}
		ev := &Ev{Kind: "select", Name: fmt.Sprint(i), Pos: ins.Pos(), In: fi.fn}
		if !ins.Blocking {
			ev.Stack = "nonblocking"
		}
		var recvT []types.Type
		tt := ins.Type().(*types.Tuple)
		for j := 2; j < tt.Len(); j++ {
			recvT = append(recvT, tt.At(j).Type())
		}
		rj := 0
		var evs []*Ev
		for j, s := range ins.States {
			ch := in.val(p, s.Chan)
			ev.Args = append(ev.Args, ch)
			if s.Dir == types.SendOnly {
				if j == i {
					evs = append(evs, &Ev{Kind: "send", Name: "select", Args: []*Term{ch, in.val(p, s.Send)}, Pos: ins.Pos(), In: fi.fn})
				}
				continue
			}
			if j == i {
				v := in.fresh("recv", recvT[rj], ins)
				ok := Op("recvok", "", types.Typ[types.Bool], v)
				rets[1] = ok
				rets = append(rets, v)
				evs = append(evs, &Ev{Kind: "recv", Name: "select", Args: []*Term{ch, ok}, Ret: v, Pos: ins.Pos(), In: fi.fn})
			} else {
				rets = append(rets, zeroOf(recvT[rj]))
			}
			rj++
		}
		p.st.emit(ev)
		for _, e := range evs {
			p.st.emit(e)
		}
		p.env[ins] = Op("tuple", "", nil, rets...)
		res = append(res, p)
	}
	return res, nil
}

var debugLoops = os.Getenv("OSMCHECK_LOOPS") != ""
