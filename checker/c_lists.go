package main

// C03: packed list codecs.  C40: bounds of length-delimited fields.

import (
	"fmt"
	"go/types"
)

func init() {
	register("C03", "Loop-invariant abstract interpretation of every packed list codec: on an arbitrary iteration the encoder must append exactly the item of the element with the iteration's index (delta against the element before it, zero before the first) for exactly len(values) iterations; the decoder must append exactly the item at the cursor, advance the cursor past it, and leave the loop only at the end of the field (or at the terminating zero).",
		checkC03, "the varint and zigzag primitives are as C01 decides", "length-delimited fields are as C40 decides")
}

func checkC03(c *Ctx) {
	n := 0
	for _, l := range c.P.listCodecs() {
		l := l
		n++
		rule := "list-encode"
		if l.Decode {
			rule = "list-decode"
		}
		c.Try(rule, "pb."+l.Name, l.Fn, func() {
			if l.Decode {
				c03Decode(c, l)
			} else {
				c03Encode(c, l)
			}
		})
	}
	c.Min("list-encode", 8)
	c.Min("list-decode", 8)
	if n < 6 {
		c.Bad("coverage", "packed list codecs", nil, "only %d found in package pb", n)
	}
}

func c03Encode(c *Ctx, l *ListCodec) {
	fn := l.Fn
	name := "pb." + l.Name
	in := c.interp()
	codecHooks(in, "EncodeVarInt", "EncodeZigZag")
	args := in.SymArgs(fn)
	var values, buf *Term
	for i, q := range fn.Params {
		if isBytes(q.Type()) {
			buf = args[i]
		} else {
			values = args[i]
		}
	}
	outs := c.run(in, fn, args, newState())
	if l.Func {
		buf = Sym("buf", tBytes, nil)
		var res []*Outcome
		for _, o := range outs {
			if o.Kind != ORet {
				c.Bad("list-encode", name, o.Pos, "aborts")
				continue
			}
			cc := &CallCtx{St: o.St, Pos: fn.Pos(), In: fn}
			res = append(res, in.callTerm(cc, o.Rets[0], []*Term{buf})...)
		}
		outs = res
	}
	for k, o := range outs {
		pn := fmt.Sprintf("%s path %d", name, k)
		if o.Kind != ORet {
			c.Bad("list-encode", pn, o.Pos, "aborts for some list")
			continue
		}
		r := o.Rets[0]
		empty, _ := decideTrue(o.St, Eq(Len(values), Int(0)))
		switch {
		case l.Zero:
			// buffer, items, one zero byte
			if !r.isOp("app") || len(r.Args) != 2 || !(r.Args[1].K == KInt && r.Args[1].I == 0) {
				if r.isOp("appS") && r.Args[1].isOp("vi") && r.Args[1].Args[0] == Int(0) {
					r = r.Args[0]
				} else {
					c.Bad("list-encode", pn, o.Pos, "does not end with exactly one zero byte: %v", r)
					continue
				}
			} else {
				r = r.Args[0]
			}
			c03Items(c, l, pn, o, r, buf, values, empty)
		case l.Func:
			c03Items(c, l, pn, o, r, buf, values, empty)
		default:
			// buffer, length of the items, items
			var inner, pre *Term
			if r.isOp("appS") {
				inner, pre = r.Args[1], r.Args[0]
			}
			if inner != nil && inner.isOp("vi") && inner.Args[0] == Int(0) && pre == buf {
				c.Want(empty, "list-encode", pn+" empty", o.Pos, "writes an empty list although the list may have elements")
				continue
			}
			if pre == nil || !pre.isOp("appS") || pre.Args[0] != buf || pre.Args[1] != viItem(Len(inner)) {
				c.Bad("list-encode", pn, o.Pos, "is not the buffer followed by the byte length of the items and the items: %v", r)
				continue
			}
			c03Items(c, l, pn, o, inner, nil, values, empty)
		}
	}
}

func decideTrue(st *State, t *Term) (bool, bool) {
	k, v := st.decide(t)
	return k && v, k
}

// c03Items checks that seq is base followed by the item of every element.
func c03Items(c *Ctx, l *ListCodec, pn string, o *Outcome, seq, base, values *Term, empty bool) {
	isBase := func(t *Term) bool {
		if base == nil {
			return t == tNil || t != nil && Len(t) == Int(0)
		}
		return t == base
	}
	if isBase(seq) && empty {
		c.Ok("list-encode", pn+" empty", o.Pos, "")
		return
	}
	lv := loopVarOf(seq)
	if lv == nil {
		c.Bad("list-encode", pn, o.Pos, "the items are not built by one loop over the list: %v", seq)
		return
	}
	L := lv.Loop
	c.Want(isBase(lv.Init), "list-encode", pn+" start", L.Pos, "items are appended to %v", lv.Init)
	c.Want(L.Trip != nil && L.Trip == Len(values), "list-encode", pn+" trip count", L.Pos, "the loop runs %v times, not once per element", L.Trip)
	c.Want(len(L.Iters) > 0, "list-encode", pn+" iterations", L.Pos, "no iteration path")
	for i, it := range L.Iters {
		n := it.Next[seq]
		if n == nil || !n.isOp("appS") || n.Args[0] != seq || !n.Args[1].isOp("vi") {
			c.Bad("list-encode", fmt.Sprintf("%s iteration path %d", pn, i), L.Pos, "an iteration does not append exactly one varint: %v", n)
			continue
		}
		got := n.Args[1].Args[0]
		e := it.St.elem(values, L.K, l.Elem)
		ok := false
		for _, prev := range prevTerms(L, it, values, l) {
			x := e
			if l.Delta {
				x = Sub(e, prev)
				if l.Bits == 32 {
					x = Conv(x, l.Elem)
				}
			}
			if l.Zig {
				x = zz(Conv(x, tI64))
			} else {
				x = Conv(x, tU64)
			}
			if x == got {
				ok = true
			}
		}
		c.Want(ok, "list-encode", fmt.Sprintf("%s iteration path %d", pn, i), L.Pos, "appends %v for element %v, which is not its %s item", got, e, l.kind())
	}
}

// prevTerms are the terms that stand for the previous element (0 before the first).
func prevTerms(L *LoopInfo, it *Iter, values *Term, l *ListCodec) []*Term {
	if !l.Delta {
		return []*Term{Int(0)}
	}
	var r []*Term
	if k, v := it.St.decide(Eq(L.K, Int(0))); k && v {
		r = append(r, Int(0))
	}
	if k, v := it.St.decide(Lt(L.K, Int(1), false)); k && !v {
		r = append(r, it.St.elem(values, Sub(L.K, Int(1)), l.Elem))
	}
	for _, lv := range L.Order {
		if lv.Init == nil || lv.Init != Int(0) {
			continue
		}
		good := true
		for _, j := range L.Iters {
			if n := j.Next[lv.Sym]; n != j.St.elem(values, L.K, l.Elem) {
				good = false
			}
		}
		if good {
			r = append(r, lv.Sym)
		}
	}
	return r
}

func loopVarOf(t *Term) *LoopVar {
	if t == nil || t.K != KSym {
		return nil
	}
	lv, _ := t.X.(*LoopVar)
	return lv
}

// builtList describes a list built by one loop, one element per iteration.
type builtList struct {
	L     *LoopInfo
	Items []*Term // element appended by each iteration path
	Cap   *Term   // length of the array the elements are stored into (nil: unbounded)
	Init  *Term
	err   string
}

// listOf recognises result r at state st: appended elements, or elements stored at the iteration's index.
func listOf(st *State, r *Term) *builtList {
	if lv := loopVarOf(r); lv != nil {
		b := &builtList{L: lv.Loop, Init: lv.Init}
		if lv.Init == nil || Len(lv.Init) != Int(0) {
			b.err = fmt.Sprintf("the list starts as %v", lv.Init)
			return b
		}
		for _, it := range lv.Loop.Iters {
			n := it.Next[r]
			if n == nil || !n.isOp("app") || len(n.Args) != 2 || n.Args[0] != r {
				b.err = fmt.Sprintf("an iteration does not append exactly one element: %v", n)
				return b
			}
			b.Items = append(b.Items, n.Args[1])
		}
		return b
	}
	if r.isOp("slice") && r.Args[1] == Int(0) {
		cell, n := r.Args[0], r.Args[2]
		lv := loopVarOf(st.heap[cell])
		if lv == nil {
			return nil
		}
		L := lv.Loop
		b := &builtList{L: L, Init: lv.Init}
		if n != L.K && !(L.Trip != nil && n == L.Trip) {
			b.err = fmt.Sprintf("the list returned has %v elements, not one per iteration", n)
			return b
		}
		if m, ok := cell.X.(interface{ Name() string }); ok {
			_ = m
		}
		b.Cap = r.Args[3]
		for _, it := range L.Iters {
			x := it.Next[lv.Sym]
			if x == nil || !x.isOp("store") || x.Args[0] != lv.Sym || x.Args[1] != L.K {
				b.err = fmt.Sprintf("an iteration does not store exactly one element at its index: %v", x)
				return b
			}
			b.Items = append(b.Items, x.Args[2])
		}
		return b
	}
	return nil
}

func c03Decode(c *Ctx, l *ListCodec) {
	fn := l.Fn
	name := "pb." + l.Name
	in := c.interp()
	codecHooks(in, "DecodeVarInt", "DecodeZigZag")
	bytesHooks(in)
	args := in.SymArgs(fn)
	var buf, next *Term
	for i, q := range fn.Params {
		if isBytes(q.Type()) {
			buf = args[i]
		} else {
			next = args[i]
		}
	}
	st := newState()
	var start *Term
	inner := buf
	if next != nil {
		start = st.load(next, tInt)
		inner = fbytes(buf, start)
	}
	returns := 0
	for k, o := range c.run(in, fn, args, st) {
		pn := fmt.Sprintf("%s path %d", name, k)
		if o.Kind != ORet {
			if l.Zero {
				// only when the data runs out without a zero
				L := lastLoop(o.St)
				ok := L != nil && exhausted(o.St, L, inner)
				if !ok {
					// zero iterations: the buffer is empty
					t, _ := decideTrue(o.St, Eq(Len(inner), Int(0)))
					ok = t
				}
				c.Want(ok, "list-decode", pn+" abort", o.Pos, "aborts before the data has run out")
				continue
			}
			c.Bad("list-decode", pn, o.Pos, "aborts for some list")
			continue
		}
		returns++
		if next != nil {
			c.Want(o.St.load(next, tInt) == fend(buf, start), "list-decode", pn+" cursor", o.Pos, "leaves the cursor at %v, not behind the field", o.St.load(next, tInt))
		}
		r := o.Rets[0]
		if t, _ := decideTrue(o.St, Eq(Len(inner), Int(0))); t && Len(r) == Int(0) && !l.Zero {
			c.Ok("list-decode", pn+" empty", o.Pos, "")
			continue
		}
		b := listOf(o.St, r)
		if b == nil {
			c.Bad("list-decode", pn, o.Pos, "the result is not a list built by one loop: %v", r)
			continue
		}
		if b.err != "" {
			c.Bad("list-decode", pn, b.L.Pos, "%s", b.err)
			continue
		}
		if b.Cap != nil {
			// room for one element per byte
			lo, _ := o.St.bounds(Sub(b.Cap, Len(inner)))
			c.Want(lo >= 0, "list-decode", pn+" room", o.Pos, "the result has room for %v elements, the field may hold one per byte", b.Cap)
		}
		c03DecodeLoop(c, l, pn, o, b, inner)
	}
	c.Want(returns > 0, "list-decode", name+" returns", fn, "no returning path")
}

func lastLoop(st *State) *LoopInfo {
	for e := st.ev; e != nil; e = e.Prev {
		if e.Kind == "loop" {
			return e.Loop
		}
	}
	return nil
}

// cursorOf finds the loop variable that walks inner: starts at 0 and advances by the length of the varint at it.
func cursorOf(L *LoopInfo, inner *Term) *Term {
	for _, lv := range L.Order {
		if lv.Init != Int(0) {
			continue
		}
		ok := len(L.Iters) > 0
		for _, it := range L.Iters {
			if it.Next[lv.Sym] != Add(lv.Sym, vlen(inner, lv.Sym)) {
				ok = false
			}
		}
		if ok {
			return lv.Sym
		}
	}
	return nil
}

func exhausted(st *State, L *LoopInfo, inner *Term) bool {
	p := cursorOf(L, inner)
	if p == nil {
		return false
	}
	k, v := st.decide(Lt(p, Len(inner), false))
	return k && !v
}

func c03DecodeLoop(c *Ctx, l *ListCodec, pn string, o *Outcome, b *builtList, inner *Term) {
	L := b.L
	p := cursorOf(L, inner)
	if p == nil {
		c.Bad("list-decode", pn, L.Pos, "no cursor that starts at 0 and moves past each element read")
		return
	}
	v := dvi(inner, p)
	item := v
	if l.Zig {
		item = unzz(v)
	}
	if l.Bits == 32 {
		item = Conv(item, l.Elem)
	} else {
		item = Conv(item, l.Elem)
	}
	for i, it := range L.Iters {
		k, y := it.St.decide(Lt(p, Len(inner), false))
		c.Want(k && y, "list-decode", fmt.Sprintf("%s iteration path %d bound", pn, i), L.Pos, "an element is read without knowing that the field has one left")
		want := item
		ok := false
		if l.Delta {
			for _, lv := range L.Order {
				if lv.Init != Int(0) {
					continue
				}
				good := true
				for _, j := range L.Iters {
					if j.Next[lv.Sym] != Add(lv.Sym, item) {
						good = false
					}
				}
				if good && b.Items[i] == Add(lv.Sym, item) {
					ok = true
				}
				want = Add(lv.Sym, item)
			}
		} else {
			ok = b.Items[i] == want
		}
		c.Want(ok, "list-decode", fmt.Sprintf("%s iteration path %d item", pn, i), L.Pos, "yields %v, the %s element is %v", b.Items[i], l.kind(), want)
		if l.Zero {
			k, y := it.St.decide(Eq(v, Int(0)))
			c.Want(k && !y, "list-decode", fmt.Sprintf("%s iteration path %d terminator", pn, i), L.Pos, "a zero may be taken as an element")
		}
	}
	// the returning exit
	if l.Zero {
		k, y := o.St.decide(Eq(v, Int(0)))
		c.Want(k && y, "list-decode", pn+" end", o.Pos, "returns without having read the terminating zero")
	} else {
		k, y := o.St.decide(Lt(p, Len(inner), false))
		c.Want(k && !y, "list-decode", pn+" end", o.Pos, "returns before the end of the field")
	}
	_ = types.Typ
}
