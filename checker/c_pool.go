package main

// C22: buffers of the shared pool.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// holdsBytes reports whether a value of the type can refer to byte memory.
func holdsBytes(T types.Type) bool { return holds(T, map[types.Type]bool{}) }

func holds(T types.Type, seen map[types.Type]bool) bool {
	if T == nil {
		return true
	}
	if seen[T] {
		return false
	}
	seen[T] = true
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Invalid
	case *types.Slice:
		return types.Identical(u.Elem(), tByte) || holds(u.Elem(), seen)
	case *types.Array:
		return types.Identical(u.Elem(), tByte) || holds(u.Elem(), seen)
	case *types.Pointer:
		return types.Identical(u.Elem(), tByte) || holds(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Map:
		return holds(u.Key(), seen) || holds(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holds(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// poolWalk follows the buffers of one stage along its events.
type poolWalk struct {
	c     *Ctx
	name  string
	rule  string
	roots map[*Term][]*Term // memo: the symbols whose memory a value may refer to
	quiet bool
	puts  int
	bad   bool
}

func (w *poolWalk) fail(pos any, f string, a ...any) {
	if w.quiet {
		return
	}
	w.bad = true
	w.c.Bad(w.rule, w.name, pos, f, a...)
}

func (w *poolWalk) rootsOf(t *Term) []*Term {
	if r, ok := w.roots[t]; ok {
		return r
	}
	w.roots[t] = nil
	var r []*Term
	pass := false
	for _, op := range []string{"view", "slice", "seq", "arr", "idx", "fld", "store", "copyin"} {
		pass = pass || t.isOp(op)
	}
	switch {
	case !pass && !holdsBytes(t.T):
	case t.isOp("msg"), t.isOp("enc"), t.isOp("lp"):
		// newly written bytes
	case t.K == KSym:
		r = []*Term{t}
	case t.isOp("appS"):
		r = w.rootsOf(t.Args[0])
		if s, ok := under(t.T).(*types.Slice); !ok || !types.Identical(s.Elem(), tByte) {
			r = union(r, w.rootsOf(t.Args[1]))
		}
	default:
		for _, a := range t.Args {
			r = union(r, w.rootsOf(a))
		}
	}
	w.roots[t] = r
	return r
}

func union(a, b []*Term) []*Term {
	r := a
	for _, x := range b {
		dup := false
		for _, y := range r {
			dup = dup || x == y
		}
		if !dup {
			r = append(r[:len(r):len(r)], x)
		}
	}
	return r
}

// bufferOf gives the byte memory of a borrowed buffer.
func (w *poolWalk) bufferOf(v *Term) []*Term {
	var r []*Term
	s, ok := under(v.T).(*types.Struct)
	if !ok {
		return w.rootsOf(v)
	}
	for i := 0; i < s.NumFields(); i++ {
		if isBytes(s.Field(i).Type()) {
			r = union(r, w.rootsOf(Field(v, i, s.Field(i).Type())))
		}
	}
	return r
}

// deep also follows pointers to memory.
func (w *poolWalk) deep(st *State, t *Term) []*Term {
	r := w.rootsOf(t)
	if st == nil {
		return r
	}
	seen := map[*Term]bool{}
	cells := map[*Term][]*Term{}
	for k, v := range st.heap {
		root := rootOf(k)
		cells[root] = append(cells[root], v)
		if root.isOp("arr") {
			cells[root.Args[0]] = append(cells[root.Args[0]], v)
		}
	}
	var visit func(x *Term, d int)
	visit = func(x *Term, d int) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.isOp("len") {
			return // a number
		}
		for _, v := range cells[x] {
			if d < 4 {
				r = union(r, w.rootsOf(v))
				visit(v, d+1)
			}
		}
		for _, a := range x.Args {
			visit(a, d)
		}
	}
	visit(t, 0)
	return r
}

type poolState struct {
	released map[*Term]bool
	sent     map[*Term]bool
}

func (s poolState) clone() poolState {
	n := poolState{map[*Term]bool{}, map[*Term]bool{}}
	for k := range s.released {
		n.released[k] = true
	}
	for k := range s.sent {
		n.sent[k] = true
	}
	return n
}

func (w *poolWalk) hit(s map[*Term]bool, r []*Term) bool {
	for _, x := range r {
		if s[x] {
			return true
		}
	}
	return false
}

// inMemory reports whether the address is inside released memory.
func (w *poolWalk) inMemory(s map[*Term]bool, addr *Term) bool {
	for addr.isOp("fld") || addr.isOp("idx") {
		if addr.isOp("idx") {
			a := addr.Args[0]
			if a.isOp("arr") {
				x := a.Args[0]
				if (x.T == nil || isBytes(x.T) || x.isOp("view")) && w.hit(s, w.rootsOf(x)) {
					return true
				}
			}
		}
		addr = addr.Args[0]
	}
	return s[addr]
}

func (w *poolWalk) walk(evs []*Ev, st poolState) poolState {
	for _, e := range evs {
		switch e.Kind {
		case "loop":
			st = w.loop(e.Loop, st)
		case "rawdata", "get":
			// a new borrowing: its symbols are new, but a loop repeats them
			for _, x := range w.bufferOf(e.Ret) {
				delete(st.released, x)
				delete(st.sent, x)
			}
			if e.Kind == "rawdata" && w.hit(st.released, w.rootsOf(e.Args[1])) {
				w.fail(e.Pos, "decodes data that lie in a buffer already given back")
			}
		case "put":
			if !w.quiet {
				w.puts++
			}
			b := e.Args[len(e.Args)-1]
			rs := w.bufferOf(b)
			if w.hit(st.released, rs) {
				w.fail(e.Pos, "the same buffer is given back twice")
			}
			if w.hit(st.sent, rs) {
				w.fail(e.Pos, "a buffer is given back although data in it were sent to another stage")
			}
			if !w.whole(b) {
				w.fail(e.Pos, "what is given back is not a buffer that was borrowed (%v)", b)
			}
			for _, x := range rs {
				st.released[x] = true
			}
		case "load", "store":
			if w.inMemory(st.released, e.Args[0]) {
				w.fail(e.Pos, "accesses memory of a buffer that was given back")
			}
		case "conv":
			// the objects do not refer to bytes
			if e.Fn == nil || !w.c.pureConv(e.Fn) {
				w.use(e, st)
			}
		case "send":
			w.use(e, st)
			for _, x := range w.deep(e.Snap, e.Args[1]) {
				st.sent[x] = true
			}
		case "trackworker", "untrackworker", "recv", "select", "fld":
		default:
			w.use(e, st)
		}
	}
	return st
}

func (w *poolWalk) use(e *Ev, st poolState) {
	for _, a := range e.Args {
		r := w.rootsOf(a)
		if e.Snap != nil {
			r = w.deep(e.Snap, a)
		}
		if w.hit(st.released, r) {
			what := e.Kind
			if e.Name != "" {
				what += " " + e.Name
			}
			w.fail(e.Pos, "uses a buffer (or data decoded from it in place) that was given back: %s", what)
			return
		}
	}
}

// whole reports whether the value is exactly one borrowed buffer (or nothing borrowed).
func (w *poolWalk) whole(v *Term) bool {
	s, ok := under(v.T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := Field(v, i, s.Field(i).Type())
		if b, ok := under(s.Field(i).Type()).(*types.Basic); ok && b.Kind() == types.Bool && f == tFalse {
			return true
		}
	}
	var from *Ev
	for i := 0; i < s.NumFields(); i++ {
		f := Field(v, i, s.Field(i).Type())
		e, _ := f.X.(*Ev)
		if f.K != KSym || e == nil || e.Kind != "rawdata" && e.Kind != "get" || from != nil && from != e {
			// carried from before as one value
			if v.K == KSym || f.isOp("field") && f.Args[0].K == KSym {
				continue
			}
			return false
		}
		from = e
	}
	return true
}

func (w *poolWalk) loop(L *LoopInfo, st poolState) poolState {
	cur := st.clone()
	outer := w.quiet
	w.quiet = true
	for n := 0; n < 8; n++ {
		grew := false
		for _, it := range L.Iters {
			out := w.walk(it.St.ev.list(), cur.clone())
			for _, lv := range L.Order {
				if nx := it.Next[lv.Sym]; nx != nil && nx != lv.Sym && w.hit(out.released, w.rootsOf(nx)) && !cur.released[lv.Sym] {
					cur.released[lv.Sym], grew = true, true
				}
				if nx := it.Next[lv.Sym]; nx != nil && nx != lv.Sym && w.hit(out.sent, w.rootsOf(nx)) && !cur.sent[lv.Sym] {
					cur.sent[lv.Sym], grew = true, true
				}
			}
			for x := range out.released {
				if !cur.released[x] && bornBefore(x, L) {
					cur.released[x], grew = true, true
				}
			}
			for x := range out.sent {
				if !cur.sent[x] && bornBefore(x, L) {
					cur.sent[x], grew = true, true
				}
			}
		}
		if !grew {
			break
		}
	}
	w.quiet = outer
	if !w.quiet {
		for _, it := range L.Iters {
			w.walk(it.St.ev.list(), cur.clone())
		}
	}
	return cur
}

// bornBefore reports whether the symbol existed before the loop: it is not created by one of its events.
func bornBefore(x *Term, L *LoopInfo) bool {
	e, _ := x.X.(*Ev)
	if e == nil {
		return true
	}
	inside := false
	for _, it := range L.Iters {
		eachEv(it.St.ev.list(), func(y *Ev) { inside = inside || y == e })
	}
	return !inside
}

// pureConv reports whether a conversion works on decoded values only: it handles no byte slice.
func (c *Ctx) pureConv(fn *ssa.Function) bool {
	if holdsBytes(fn.Signature.Results()) && !onlyDecoded(fn.Signature.Results()) {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function) bool
	visit = func(fn *ssa.Function) bool {
		if seen[fn] || !c.P.body(fn) {
			return true
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && v.Type() != nil {
					if s, ok := v.Type().Underlying().(*types.Slice); ok && (isBytes(v.Type()) || isBytes(s.Elem())) {
						return false
					}
				}
				if cl, ok := ins.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil && !visit(g) {
						return false
					}
				}
			}
		}
		return true
	}
	return visit(fn)
}

func onlyDecoded(T types.Type) bool { return !holdsBytes(T) }

func init() {
	register("C22", "typestate analysis of pooled buffers over all paths of every worker and writer: each buffer borrowed from the pool moves from borrowed to released at most once; the abstract interpretation tracks for every value which memory it refers to in place (slices, decoded raw sections, messages holding them, views), and rejects any read, write, decode, encode, call or send of released memory, and the release of memory that was sent on; buffers carried around a loop are tracked by a fixpoint over the loop. The pool itself and the function that borrows for a blob are interpreted: only borrowed buffers are put back, and a borrowed buffer has the requested length.",
		func(c *Ctx) {
			const rule = "released once and never used after"
			var put *ssa.Function = c.need(rule, "internal/pool.(*ByteSlicePool).Put")
			get := c.need(rule, "internal/pool.(*ByteSlicePool).Get")
			if put == nil || get == nil {
				return
			}
			seen := map[*ssa.Function]bool{}
			for _, s := range c.stages(rule, func(in *Interp) { in.TraceMem = true }) {
				w := &poolWalk{c: c, name: s.name(), rule: rule, roots: map[*Term][]*Term{}}
				for f := range s.In.Visited {
					seen[f] = true
				}
				for _, o := range s.Outs {
					w.walk(o.St.ev.list(), poolState{map[*Term]bool{}, map[*Term]bool{}})
				}
				if !w.bad {
					c.Ok(rule, s.name(), s.Fn, "%d release(s)", w.puts)
				}
			}
			c.poolCallers(put, get, seen)
			c.poolItself(put, get)
			c.borrowedRaw()
			c.decodedCopies()
			c.Min(rule, 10)
		}, "sync.Pool hands a buffer to one caller at a time")
}

// poolCallers: releases happen only in the functions analysed above.
func (c *Ctx) poolCallers(put, get *ssa.Function, seen map[*ssa.Function]bool) {
	const rule = "every release is analysed"
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(put) {
						cl, isCall := ins.(ssa.CallInstruction)
						if !isCall || cl.Common().StaticCallee() != put {
							c.Bad(rule, fnName(fn), ins.Pos(), "not decided: the release function is used as a value")
							continue
						}
						c.Want(seen[fn], rule, fnName(fn), ins.Pos(), "a buffer is released in a function that no stage was seen to call")
					}
				}
			}
		}
	}
	c.Min(rule, 1)
}

func (c *Ctx) poolItself(put, get *ssa.Function) {
	const rule = "pool"
	bb := c.P.Named("internal/pool.BorrowedBuffer")
	if bb == nil {
		c.Bad(rule, "BorrowedBuffer", nil, "type not found")
		return
	}
	s, _ := under(bb).(*types.Struct)
	bi, fi := -1, -1
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if isBytes(s.Field(i).Type()) {
			bi = i
		} else if b, ok := under(s.Field(i).Type()).(*types.Basic); ok && b.Kind() == types.Bool {
			fi = i
		}
	}
	if bi < 0 || fi < 0 {
		c.Bad(rule, "BorrowedBuffer", nil, "not decided: no byte slice and borrowed flag found in it")
		return
	}
	hooks := func(in *Interp) {
		in.AtomicMem = true
		in.Hooks["(*sync.Pool).Get"] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "pool.get", Args: c.Args, Pos: c.Pos, In: c.In}
			e.Ret = Op("iface", "[]byte", tBytes, in.fresh("pooled", tBytes, e))
			c.St.emit(e)
			return retOne(c.St, e.Ret)
		}
		in.Hooks["(*sync.Pool).Put"] = func(in *Interp, c *CallCtx) []*Outcome {
			c.St.emit(&Ev{Kind: "pool.put", Args: c.Args, Pos: c.Pos, In: c.In})
			return []*Outcome{{Kind: ORet, St: c.St}}
		}
	}
	// Put
	c.Try(rule, "Put", put, func() {
		in := c.interp()
		hooks(in)
		args := in.SymArgs(put)
		v := args[len(args)-1]
		flag := Field(v, fi, s.Field(fi).Type())
		for _, o := range c.run(in, put, args, newState()) {
			n := 0
			good := true
			for _, e := range o.St.ev.list() {
				if e.Kind == "pool.put" {
					n++
					x := e.Args[1]
					if x.isOp("iface") {
						x = x.Args[0]
					}
					if x != Field(v, bi, tBytes) && !(x.isOp("slice") && w0(x, Field(v, bi, tBytes))) {
						good = false
						c.Bad(rule, "Put", e.Pos, "what is put into the pool is not the buffer")
					}
				}
			}
			k, b := o.St.decide(flag)
			if n > 0 && !(k && b) {
				good = false
				c.Bad(rule, "Put", put, "memory that was not borrowed can be put into the pool")
			}
			if n > 1 {
				good = false
				c.Bad(rule, "Put", put, "a buffer is put into the pool twice")
			}
			if good {
				c.Ok(rule, "Put", put, "")
			}
		}
	})
	// Get
	c.Try(rule, "Get", get, func() {
		in := c.interp()
		hooks(in)
		args := in.SymArgs(get)
		n := 0
		for _, o := range c.run(in, get, args, newState()) {
			if o.Kind != ORet {
				continue
			}
			n++
			v := o.Rets[0]
			buf := Field(v, bi, tBytes)
			size := args[len(args)-1]
			c.Want(Len(buf) == size || stripConv(Len(buf), 64) == size, rule, "Get length", get, "the buffer has length %v, not the requested one", Len(buf))
			var puts []*Term
			arr, _ := arrOf(buf)
			fromPool := false
			for _, e := range o.St.ev.list() {
				switch e.Kind {
				case "pool.put":
					puts = append(puts, e.Args[1])
				case "pool.get":
					a, _ := arrOf(e.Ret.Args[0])
					if a == arr {
						fromPool = true
						fits := false
						for _, room := range []*Term{capOf(e.Ret.Args[0]), Len(e.Ret.Args[0])} {
							for _, uns := range []bool{false, true} {
								fits = fits || sure(o.St, Le(size, room, uns)) || sure(o.St, Not(Lt(room, size, uns)))
							}
						}
						c.Want(fits, rule, "Get capacity", get, "a buffer from the pool is cut to the requested length although it may be shorter (the run would be stopped)")
					}
				}
			}
			for _, x := range puts {
				if x.isOp("iface") {
					x = x.Args[0]
				}
				a, _ := arrOf(x)
				c.Want(a != arr, rule, "Get keeps its buffer", get, "the buffer returned is also put back into the pool")
			}
			c.Want(fromPool || rootOf(arr).isOp("obj"), rule, "Get memory", get, "the buffer returned is neither from the pool nor newly made (%v)", arr)
		}
		c.Want(n > 0, rule, "Get", get, "never returns")
	})
	// other makers of borrowed buffers
	for _, fn := range c.P.Funcs() {
		if fnPkg(fn) != pkgPool || fn == get || fn == put || fn.Parent() != nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), bb) || c.reachedOnlyFrom(fn, get) {
			continue
		}
		c.Try(rule, fn.Name(), fn, func() {
			in := c.interp()
			hooks(in)
			args := in.SymArgs(fn)
			for _, o := range c.run(in, fn, args, newState()) {
				if o.Kind == ORet {
					c.Want(Field(o.Rets[0], fi, nil) == tFalse, rule, fn.Name(), fn, "returns memory that is marked as borrowed, but is not from the pool")
				}
			}
		})
	}
	// the flag is unexported, so only package pool can set it
	c.Want(!s.Field(fi).Exported(), rule, "borrowed flag", nil, "the flag that marks borrowed memory can be set outside of the pool")
	for _, fn := range c.P.Funcs() {
		if fnPkg(fn) != pkgPool || fn == get || fn.Parent() == get {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != fi || !types.Identical(deref(fa.X.Type()), bb) {
					continue
				}
				k, isC := st.Val.(*ssa.Const)
				c.Want(isC && k.Value != nil && k.Value.String() == "false" || c.reachedOnlyFrom(fn, get), rule, fnName(fn)+" sets the flag", ins.Pos(), "memory is marked as borrowed outside of Get")
			}
		}
	}
	c.Min(rule, 5)
}

// reachedOnlyFrom reports whether fn is an unexported helper whose only callers are root (or helpers of it).
func (c *Ctx) reachedOnlyFrom(fn, root *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Exported() {
		return false
	}
	n := 0
	for _, g := range c.P.Funcs() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(fn) {
						n++
						if g != root {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

func deref(T types.Type) types.Type {
	if p, ok := under(T).(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// w0 reports whether x is b cut at its front (the same memory from its start).
func w0(x, b *Term) bool {
	a1, l1 := arrOf(x)
	a2, l2 := arrOf(b)
	return a1 == a2 && l1 == l2
}

// borrowedRaw: the decoded data of a blob is a whole borrowed buffer that was not given back, or memory that is
// not marked as borrowed.
func (c *Ctx) borrowedRaw() {
	const rule = "blob data"
	fn := c.need(rule, "internal/t.(*Blob).GetRawData")
	if fn == nil {
		return
	}
	c.Try(rule, "GetRawData", fn, func() {
		in := c.interp()
		domainHooks(in, nil)
		delete(in.Hooks, fnName(fn))
		n := 0
		for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
			if o.Kind != ORet {
				continue
			}
			n++
			w := &poolWalk{c: c, name: "GetRawData", rule: rule, roots: map[*Term][]*Term{}}
			v := o.Rets[0]
			if !w.whole(v) {
				w.fail(fn, "the data returned is not a whole borrowed buffer")
			}
			rs := w.bufferOf(v)
			for _, e := range o.St.ev.list() {
				if e.Kind == "put" && w.hit(setOf(rs), w.bufferOf(e.Args[len(e.Args)-1])) {
					w.fail(e.Pos, "the buffer returned has been given back")
				}
			}
			if !w.bad {
				c.Ok(rule, "GetRawData", fn, "")
			}
		}
		c.Want(n >= 2, rule, "GetRawData returns", fn, "only %d way(s) of returning", n)
	})
}

func setOf(l []*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// decodedCopies: decoding copies everything but byte slices; that cannot be otherwise without unsafe.
func (c *Ctx) decodedCopies() {
	const rule = "decoded values are copies"
	for _, pk := range []string{modPath + "/internal/pb", modPath + "/internal/t"} {
		tp := c.P.Types[pk]
		if tp == nil {
			c.Bad(rule, pk, nil, "package not found")
			continue
		}
		ok := true
		for _, i := range tp.Imports() {
			if i.Path() == "unsafe" || i.Path() == modPath+"/internal/iunsafe" {
				ok = false
			}
		}
		c.Want(ok, rule, pk, nil, "the decoders can reinterpret memory, so decoded values may not be copies")
	}
}
