package main

// C40: length-delimited fields stay inside their message, and parsing advances.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "Interval and path-fact analysis of every function that consumes a length-delimited field: on each returning path the facts (explicit comparisons, or a slice expression whose limit is the length of the buffer) must imply that the length is not negative and that the field ends inside the buffer; its result is exactly that window and the cursor moves to its end.  In the message readers every iteration moves the cursor forward and touches the message only through those functions.",
		checkC40, "varints advance by at least one byte and read inside the buffer, as C01 decides", "sums of a cursor and a length do not overflow 63 bits")
}

// byteReaders finds the functions of package pb that read a length-delimited field: (buf []byte, next *int)
// with no result, or a result of bytes or string, that call the varint decoder.
func (p *Program) byteReaders() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.Funcs() {
		if fnPkg(fn) != modPath+"/internal/pb" || fn.Parent() != nil || len(fn.Params) != 2 || !isBytes(fn.Params[0].Type()) || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		pt, ok := under(fn.Params[1].Type()).(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), tInt) {
			continue
		}
		res := fn.Signature.Results()
		switch {
		case res.Len() == 0:
		case res.Len() == 1 && (isBytes(res.At(0).Type()) || isString(res.At(0).Type())):
		case res.Len() == 1:
			q, ok := under(res.At(0).Type()).(*types.Pointer)
			if !ok || !isString(q.Elem()) {
				continue
			}
		default:
			continue
		}
		r = append(r, fn)
	}
	return r
}

func checkC40(c *Ctx) {
	for _, fn := range c.P.byteReaders() {
		fn := fn
		name := "pb." + fn.Name()
		c.Try("field-bounds", name, fn, func() { c40Reader(c, fn) })
	}
	c.Min("field-bounds", 4)
	for _, n := range []string{"ReadBytes", "DecodeBytes", "SkipBytes", "DecodeString"} {
		c.need("field-bounds", "internal/pb."+n)
	}
	ms := c.P.messages()
	for _, name := range schemaNames {
		m := ms[name]
		if m == nil || m.Read == nil {
			c.Bad("anchor", "t."+name, nil, "reader not found")
			continue
		}
		c.Try("reader-advances", "t."+name+" reader", m.Read, func() {
			r := readerOf(c, "reader-advances", m)
			if r == nil {
				return
			}
			for _, p := range r.Paths {
				c.Want(forward(p.Next, r.Cur), "reader-advances", p.Name, r.L.Pos, "the cursor goes from %v to %v, which need not be forward", r.Cur, p.Next)
			}
			direct := directReads(c, m)
			c.Want(direct == "", "reader-advances", "t."+m.Name+" reader, access", m.Read, "%s", direct)
		})
	}
	c.Min("reader-advances", 25)
	c40Lists(c)
}

// forward: t is x plus lengths of varints and ends of fields behind x.
func forward(t, x *Term) bool {
	if t == nil || t == x {
		return false
	}
	if t.isOp("fend") {
		return t.Args[1] == x || forward(t.Args[1], x)
	}
	d := Sub(t, x)
	if d.K == KPoly || d.isOp("vlen") || d.K == KInt {
		if lo, _ := rangeVlen(d); lo > 0 {
			return true
		}
	}
	// base of another field's end
	for _, m := range polyOf(t) {
		if len(m.A) == 1 && m.C == 1 && m.A[0].isOp("fend") && forward(m.A[0], x) {
			if lo, _ := rangeVlen(Sub(t, m.A[0])); lo >= 0 {
				return true
			}
		}
	}
	return false
}

func rangeVlen(d *Term) (int64, int64) {
	var lo, hi int64
	for _, m := range polyOf(d) {
		switch {
		case len(m.A) == 0:
			lo, hi = lo+m.C, hi+m.C
		case len(m.A) == 1 && m.A[0].isOp("vlen") && m.C > 0:
			lo, hi = lo+m.C, hi+10*m.C
		default:
			return minI, maxI
		}
	}
	return lo, hi
}

// directReads reports an element or a window of the message read without the bounded functions.
func directReads(c *Ctx, m *Message) string {
	in := c.interp()
	in.KeepPaths = true
	in.TraceIdx = true
	wireHooks(in)
	msgHooks(in, map[string]bool{m.Name: true})
	args := in.SymArgs(m.Read)
	buf := args[m.BufArg]
	bad := ""
	var scan func(e *Ev)
	scan = func(e *Ev) {
		for ; e != nil; e = e.Prev {
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					scan(it.St.ev)
				}
			}
			if (e.Kind == "index" || e.Kind == "slice") && len(e.Args) > 0 && (e.Args[0] == buf || rootOf(e.Args[0]) == buf) {
				bad = fmt.Sprintf("%s: the message is accessed directly", c.P.pos(e.Pos))
			}
		}
	}
	for _, o := range c.run(in, m.Read, args, newState()) {
		scan(o.St.ev)
	}
	return bad
}

func c40Reader(c *Ctx, fn *ssa.Function) {
	name := "pb." + fn.Name()
	in := c.interp()
	in.KeepPaths = true
	in.TraceIdx = true
	codecHooks(in, "DecodeVarInt")
	args := in.SymArgs(fn)
	buf, next := args[0], args[1]
	st := newState()
	at := st.load(next, tInt)
	n := Conv(dvi(buf, at), tInt)
	start := Add(at, vlen(buf, at))
	end := Add(start, n)
	room := Sub(Len(buf), start)
	outs := c.run(in, fn, args, st)
	rets := 0
	for k, o := range outs {
		pn := fmt.Sprintf("%s path %d", name, k)
		yes := func(t *Term) bool { a, b := o.St.decide(t); return a && b }
		if o.Kind != ORet {
			bad := yes(Lt(n, Int(0), false)) || yes(Lt(room, n, false)) || yes(Lt(room, n, true))
			c.Want(bad, "field-bounds", pn+" abort", o.Pos, "may abort for a field that lies inside the message")
			continue
		}
		rets++
		nonneg := yes(Not(Lt(n, Int(0), false)))
		inside := yes(Not(Lt(room, n, false)))
		if yes(Not(Lt(room, n, true))) {
			nonneg, inside = true, true // room is not negative
		}
		for e := o.St.ev; e != nil; e = e.Prev {
			if e.Kind != "slice" || e.Args[0] != buf {
				continue
			}
			if e.Args[1] == start && e.Args[2] == end {
				nonneg = true
				if len(e.Args) == 5 && e.Args[4] == Len(buf) {
					inside = true
				}
			}
			// indexing beyond: buf[end:] also needs end <= len(buf)
			if e.Args[1] == end && e.Args[2] == Len(buf) {
				inside = true
			}
		}
		c.Want(nonneg, "field-bounds", pn+" length", o.Pos, "the length may be negative")
		c.Want(inside, "field-bounds", pn+" end", o.Pos, "the field may reach beyond the end of the buffer it was found in (into its spare capacity)")
		c.Want(o.St.load(next, tInt) == end, "field-bounds", pn+" cursor", o.Pos, "the cursor is left at %v, the field ends at %v", o.St.load(next, tInt), end)
		if len(o.Rets) == 1 {
			v := o.Rets[0]
			if pt, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer); ok {
				v = o.St.load(v, pt.Elem())
			}
			if v.isOp("b2s") {
				v = v.Args[0]
			}
			ok := false
			if v.isOp("slice") || v.isOp("seq") {
				arr, lo := arrOf(buf)
				vlo := v.Args[1]
				ln := v.Args[2]
				ok = vlo == Add(lo, start) && ln == n && (v.Args[0] == arr || v.isOp("seq"))
			}
			if !ok && Len(v) == Int(0) && yes(Eq(n, Int(0))) {
				ok = true
			}
			c.Want(ok, "field-bounds", pn+" result", o.Pos, "the result is %v, not the field's content", v)
		}
	}
	c.Want(rets > 0, "field-bounds", name+" returns", fn, "never returns")
}

// c40Lists: the list decoders advance (C03 decides the details).
func c40Lists(c *Ctx) {
	for _, l := range c.P.listCodecs() {
		if !l.Decode {
			continue
		}
		l := l
		c.Try("list-advances", "pb."+l.Name, l.Fn, func() {
			in := c.interp()
			codecHooks(in, "DecodeVarInt", "DecodeZigZag")
			bytesHooks(in)
			args := in.SymArgs(l.Fn)
			n := 0
			for _, o := range c.run(in, l.Fn, args, newState()) {
				L := lastLoop(o.St)
				if L == nil {
					continue
				}
				for i, it := range L.Iters {
					n++
					ok := false
					for _, lv := range L.Order {
						if forward(it.Next[lv.Sym], lv.Sym) {
							ok = true
						}
					}
					c.Want(ok, "list-advances", fmt.Sprintf("pb.%s iteration path %d", l.Name, i), L.Pos, "no cursor moves forward")
				}
			}
			c.Want(n > 0, "list-advances", "pb."+l.Name, l.Fn, "no loop over the elements")
		})
	}
}
