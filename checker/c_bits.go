package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Bit-provenance abstract interpretation: EncodeVarInt, DecodeVarInt, EncodeZigZag and DecodeZigZag are interpreted over SSA with every loop unrolled; on every path each output bit must be exactly the prescribed input bit, the path condition must be the prescribed length class, and the cursor and buffer must change by exactly the bytes of the encoding.",
		checkC01, "no out-of-memory")
	register("C02", "Bit-provenance plus sequence summaries: every Embed* function (any function that takes an Embedder) is interpreted with an arbitrary payload; the reserved bytes must hold exactly the 7-bit groups of the payload length with the right continuation bits, lie directly before the payload, no other byte may be stored, and the only abort is for a payload that does not fit.",
		checkC02, "the embedder appends to the buffer it is given")
	register("C09", "Bit-provenance: the packing functions are interpreted symbolically and the accessors are applied to their result; under the path facts of every accepting path each accessor must return all 64 bits of the argument, and every aborting path must be one where an argument does not fit.",
		checkC09)
}

// argFor gives symbolic arguments.
func symArg(in *Interp, p *ssa.Parameter) *Term { return in.fresh(p.Name(), p.Type(), p) }

func checkC01(c *Ctx) {
	withBits(func() {
		if fn := c.need("varint-encode", "internal/pb.EncodeVarInt"); fn != nil {
			c.Try("varint-encode", "pb.EncodeVarInt", fn, func() { c01Encode(c, fn) })
		}
		if fn := c.need("varint-decode", "internal/pb.DecodeVarInt"); fn != nil {
			c.Try("varint-decode", "pb.DecodeVarInt", fn, func() { c01Decode(c, fn) })
		}
		for _, d := range []struct {
			name string
			exp  func(b bitvec, i int) bv
		}{
			{"internal/pb.EncodeZigZag", func(b bitvec, i int) bv {
				if i == 0 {
					return b[63]
				}
				return bvXor(b[i-1], b[63])
			}},
			{"internal/pb.DecodeZigZag", func(b bitvec, i int) bv {
				if i == 63 {
					return b[0]
				}
				return bvXor(b[i+1], b[0])
			}},
		} {
			fn := c.need("zigzag", d.name)
			if fn == nil {
				continue
			}
			c.Try("zigzag", d.name, fn, func() {
				in := c.interp()
				in.Unroll = unrollAll(70)
				x := symArg(in, fn.Params[0])
				outs := c.run(in, fn, []*Term{x}, newState())
				for k, o := range outs {
					if o.Kind != ORet {
						c.Bad("zigzag", fmt.Sprintf("%s path %d", d.name, k), o.Pos, "aborts for some value")
						continue
					}
					e := newBitEval(o.St)
					if !feasible(e, x) {
						continue
					}
					xb, rb := e.bits(x), e.bits(o.Rets[0])
					for i := 0; i < 64; i++ {
						w := d.exp(xb, i)
						c.Want(bvEq(rb[i], w), "zigzag", fmt.Sprintf("%s path %d bit %d", d.name, k, i), o.Pos, "is %v, the zigzag mapping needs %v", rb[i], w)
					}
				}
			})
		}
	})
	c.Min("varint-encode", 64)
	c.Min("varint-decode", 64)
	c.Min("zigzag", 128)
}

func feasible(e *bitEval, x *Term) bool {
	if n, ok := e.lt[x]; ok && n != 0 && e.ge[x] >= n {
		return false
	}
	return true
}

// appended splits a byte sequence result into base and appended elements; ok is false for anything else.
func appended(t, base *Term) (es []*Term, ok bool) {
	for t != base {
		switch {
		case t.isOp("app"):
			es = append(append([]*Term{}, t.Args[1:]...), es...)
			t = t.Args[0]
		case t.isOp("appS") && t.Args[1].isOp("app") && t.Args[1].Args[0] == tNil:
			es = append(append([]*Term{}, t.Args[1].Args[1:]...), es...)
			t = t.Args[0]
		default:
			return nil, false
		}
	}
	return es, true
}

// listElems enumerates a sequence of constant length.
func listElems(st *State, s, base *Term, el types.Type) ([]*Term, bool) {
	if es, ok := appended(s, base); ok {
		return es, true
	}
	if s.isOp("appS") && s.Args[0] == base {
		n := Len(s.Args[1])
		if n.K == KInt && n.I <= 64 {
			var es []*Term
			for i := int64(0); i < n.I; i++ {
				es = append(es, elemOf2(s.Args[1], Int(i), el))
			}
			return es, true
		}
	}
	return nil, false
}

func c01Encode(c *Ctx, fn *ssa.Function) {
	in := c.interp()
	in.Unroll = unrollAll(12)
	in.Ite = false
	b, v := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
	outs := c.run(in, fn, []*Term{b, v}, newState())
	classes := map[int]bool{}
	for k, o := range outs {
		e := newBitEval(o.St)
		if !feasible(e, v) {
			continue
		}
		name := fmt.Sprintf("pb.EncodeVarInt path %d", k)
		if o.Kind != ORet {
			c.Bad("varint-encode", name, o.Pos, "aborts for some value")
			continue
		}
		es, ok := listElems(o.St, o.Rets[0], b, types.Typ[types.Byte])
		if !ok || len(es) < 1 {
			c.Bad("varint-encode", name, o.Pos, "result is not the buffer with a fixed number of bytes appended: %v", o.Rets[0])
			continue
		}
		if len(o.St.heap) != 0 {
			c.Bad("varint-encode", name, o.Pos, "stores to memory besides appending")
		}
		n := len(es)
		classes[n] = true
		vb := e.bits(v)
		// the length class: v < 2^(7n), and v >= 2^(7(n-1)) unless n == 1
		fits := n >= 10
		if !fits {
			fits = true
			for i := 7 * n; i < 64; i++ {
				if !(vb[i].isConst() && !vb[i].c) {
					fits = false
				}
			}
		}
		c.Want(fits && n <= 10, "varint-encode", fmt.Sprintf("%d bytes: value fits", n), o.Pos, "a %d-byte encoding is chosen on a path where the value may need more than %d bits", n, 7*n)
		if n > 1 && n <= 10 {
			min := uint64(1) << uint(7*(n-1))
			c.Want(e.ge[v] >= min, "varint-encode", fmt.Sprintf("%d bytes: shortest form", n), o.Pos, "a %d-byte encoding is chosen for values below 2^%d (known: >= %d)", n, 7*(n-1), e.ge[v])
		}
		for i, x := range es {
			xb := e.bits(Conv(x, types.Typ[types.Byte]))
			for j := 0; j < 8; j++ {
				var w bv
				switch {
				case j == 7:
					w = bv{c: i < n-1}
				case 7*i+j < 64:
					w = vb[7*i+j]
				default:
					w = b0
				}
				c.Want(bvEq(xb[j], w), "varint-encode", fmt.Sprintf("%d bytes: byte %d bit %d", n, i, j), o.Pos, "is %v, must be %v", xb[j], w)
			}
		}
	}
	for n := 1; n <= 10; n++ {
		c.Want(classes[n], "varint-encode", fmt.Sprintf("length class %d", n), fn, "no path produces a %d-byte encoding", n)
	}
}

func c01Decode(c *Ctx, fn *ssa.Function) {
	in := c.interp()
	in.Unroll = unrollAll(12)
	b, s := symArg(in, fn.Params[0]), symArg(in, fn.Params[1])
	st := newState()
	start := st.load(s, types.Typ[types.Int])
	outs := c.run(in, fn, []*Term{b, s}, st)
	at := func(i int) *Term {
		return newState().elem(b, Add(start, Int(int64(i))), types.Typ[types.Byte])
	}
	classes := map[int]bool{}
	for k, o := range outs {
		e := newBitEval(o.St)
		name := fmt.Sprintf("pb.DecodeVarInt path %d", k)
		bad := false
		for i := 0; i < 10; i++ {
			if !feasible(e, at(i)) {
				bad = true
			}
		}
		if bad {
			continue
		}
		hi := func(i int) bv { return e.bits(at(i))[7] }
		is := func(b bv, v bool) bool { return b.isConst() && b.c == v }
		if o.Kind != ORet {
			// allowed only for 10 bytes that do not fit 64 bits
			ok := e.ge[at(9)] >= 2
			for i := 0; i < 9; i++ {
				if !is(hi(i), true) {
					ok = false
				}
			}
			c.Want(ok, "varint-decode", name+" abort", o.Pos, "aborts on an encoding that fits 64 bits")
			continue
		}
		end := o.St.load(s, types.Typ[types.Int])
		d := Sub(end, start)
		if d.K != KInt || d.I < 1 || d.I > 10 {
			c.Bad("varint-decode", name, o.Pos, "the cursor does not advance by a fixed number of bytes in 1..10: %v", d)
			continue
		}
		n := int(d.I)
		classes[n] = true
		for cell := range o.St.heap {
			if cell != s {
				c.Bad("varint-decode", name, o.Pos, "writes memory other than the cursor: %v", cell)
			}
		}
		for i := 0; i < n-1; i++ {
			c.Want(is(hi(i), true), "varint-decode", fmt.Sprintf("%d bytes: continuation %d", n, i), o.Pos, "byte %d is not known to have its continuation bit set", i)
		}
		c.Want(is(hi(n-1), false), "varint-decode", fmt.Sprintf("%d bytes: last", n), o.Pos, "byte %d may have its continuation bit set", n-1)
		if n == 10 {
			lb := e.bits(at(9))
			for j := 1; j < 8; j++ {
				c.Want(is(lb[j], false), "varint-decode", fmt.Sprintf("10 bytes: overflow bit %d", j), o.Pos, "bits that do not fit 64 bits are dropped silently")
			}
		}
		rb := e.bits(o.Rets[0])
		for i := 0; i < 64; i++ {
			w := b0
			if i/7 < n {
				w = e.bits(at(i / 7))[i%7]
			}
			c.Want(bvEq(rb[i], w), "varint-decode", fmt.Sprintf("%d bytes: value bit %d", n, i), o.Pos, "is %v, must be %v", rb[i], w)
		}
	}
	for n := 1; n <= 10; n++ {
		c.Want(classes[n], "varint-decode", fmt.Sprintf("length class %d", n), fn, "no path decodes a %d-byte encoding", n)
	}
}

// ---- C02 ----

func checkC02(c *Ctx) {
	withBits(func() {
		emb := c.P.Named("internal/pb.Embedder")
		pbPkg := c.P.Types[modPath+"/internal/pb"]
		if emb == nil || pbPkg == nil {
			c.Bad("embed", "pb.Embedder", nil, "type pb.Embedder not found")
			return
		}
		for _, fn := range c.P.Funcs() {
			if fn.Parent() != nil || fn.Signature.Recv() != nil || !c.P.repo(fn) {
				continue
			}
			ei := -1
			for i, p := range fn.Params {
				if types.Identical(p.Type(), emb) || types.Identical(p.Type(), emb.Underlying()) {
					ei = i
				}
			}
			if ei < 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if !fn.Object().Exported() {
				continue // reached through the exported ones
			}
			fn := fn
			c.Try("embed", fn.Name(), fn, func() { c02Embed(c, fn, ei) })
		}
	})
	c.Min("embed", 20)
}

func c02Embed(c *Ctx, fn *ssa.Function, ei int) {
	in := c.interp()
	in.Unroll = unrollAll(12)
	codecHooks(in, "EncodeVarInt")
	args := in.SymArgs(fn)
	bi := -1
	for i, p := range fn.Params {
		if s, ok := under(p.Type()).(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			bi = i
		}
	}
	if bi < 0 {
		c.Bad("embed", fn.Name(), fn, "no buffer parameter")
		return
	}
	buf := args[bi]
	payload := in.fresh("payload", buf.T, nil)
	calls := 0
	in.Hooks["dynamic"] = func(in *Interp, cc *CallCtx) []*Outcome {
		calls++
		if len(cc.Args) != 1 {
			return nil
		}
		return retOne(cc.St, AppS(cc.Args[0], payload))
	}
	outs := c.run(in, fn, args, newState())
	L := Len(payload)
	rets := 0
	for k, o := range outs {
		name := fmt.Sprintf("%s path %d", fn.Name(), k)
		e := newBitEval(o.St)
		if o.Kind != ORet {
			w := embedWidth(fn)
			c.Want(w > 0 && e.ge[L] >= 1<<uint(7*w), "embed", name+" abort", o.Pos, "aborts for a payload that fits the prefix (known: length >= %d)", e.ge[L])
			continue
		}
		rets++
		r := o.Rets[0]
		// shape: appS(app(appS(buf, key), reserved...), payload)   or   appS(appS(appS(buf,key), varint(len)), payload)
		if !r.isOp("appS") || r.Args[1] != payload {
			c.Bad("embed", name, o.Pos, "the result does not end with the payload: %v", r)
			continue
		}
		pre := r.Args[0]
		if pre.isOp("appS") && pre.Args[1].isOp("vi") && pre.Args[1].Args[0] == L && len(o.St.heap) == 0 {
			c.Ok("embed", name+" minimal prefix", o.Pos, "")
			continue
		}
		key := pre
		if pre.isOp("app") {
			key = pre.Args[0]
		}
		if !key.isOp("appS") || !key.Args[1].isOp("vi") || key.Args[0] != buf {
			c.Bad("embed", name, o.Pos, "expected buffer, field key, reserved bytes, payload; got %v", r)
			continue
		}
		n := 0
		if pre.isOp("app") {
			n = len(pre.Args) - 1
		}
		startAt := Len(key)
		// bytes stored after the fact
		arr, lo := arrOf(r)
		cont := o.St.heap[arr]
		for cell := range o.St.heap {
			if cell != arr {
				c.Bad("embed", name, o.Pos, "stores into other memory: %v", cell)
			}
		}
		for x := cont; x != nil && x.isOp("store"); x = x.Args[0] {
			d := Sub(x.Args[1], Add(lo, startAt))
			c.Want(d.K == KInt && d.I >= 0 && d.I < int64(n), "embed", name+" stays inside the reservation", o.Pos, "a byte outside the reserved prefix is overwritten (offset %v)", d)
		}
		lb := e.bits(L)
		for i := 7 * n; i < 64; i++ {
			if !(lb[i].isConst() && !lb[i].c) {
				c.Bad("embed", name+" width", o.Pos, "%d reserved byte(s) but the payload length is not bounded by 2^%d on this path", n, 7*n)
				break
			}
		}
		for i := 0; i < n; i++ {
			x := o.St.elem(r, Add(startAt, Int(int64(i))), types.Typ[types.Byte])
			xb := e.bits(x)
			for j := 0; j < 8; j++ {
				w := b0
				if j == 7 {
					w = bv{c: i < n-1}
				} else if 7*i+j < 64 {
					w = lb[7*i+j]
				}
				c.Want(bvEq(xb[j], w), "embed", fmt.Sprintf("%s byte %d bit %d", fn.Name(), i, j), o.Pos, "is %v, must be %v", xb[j], w)
			}
		}
		if n == 0 {
			c.Bad("embed", name, o.Pos, "no prefix bytes")
		}
		w := embedWidth(fn)
		c.Want(w == 0 || w == n, "embed", fn.Name()+" capacity", o.Pos, "the name promises payloads up to 2^%d bytes, %d byte(s) are reserved", 7*w, n)
	}
	c.Want(rets > 0, "embed", fn.Name()+" returns", fn, "no returning path")
}

// embedWidth: the number of prefix bytes that the payload bound in the function's name stands for.
func embedWidth(fn *ssa.Function) int {
	n := strings.TrimLeft(fn.Name(), "EmbdRsrvIntabcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	v := uint64(0)
	fmt.Sscan(n, &v)
	switch v {
	case 1 << 7:
		return 1
	case 1 << 14:
		return 2
	case 1 << 21:
		return 3
	case 1 << 28:
		return 4
	case 1 << 35:
		return 5
	}
	return 0
}

// ---- C09 ----

func checkC09(c *Ctx) {
	withBits(func() {
		for _, d := range []struct {
			mk   string
			accs []string
			par  []int
			bits []int
		}{
			{"internal/nodeindex.NewCountOffset", []string{"internal/nodeindex.CountOffset.Count", "internal/nodeindex.CountOffset.Offset"}, []int{0, 1}, []int{24, 40}},
			{"internal/wayindex.MakeIndexData", []string{"internal/wayindex.WayIndexData.WayID", "internal/wayindex.WayIndexData.Offset"}, []int{0, 1}, []int{31, 33}},
		} {
			fn := c.need("pack", d.mk)
			if fn == nil {
				continue
			}
			d := d
			c.Try("pack", d.mk, fn, func() {
				in := c.interp()
				in.Unroll = unrollAll(70)
				in.KeepPaths = true
				args := in.SymArgs(fn)
				rets := 0
				for k, o := range c.run(in, fn, args, newState()) {
					e := newBitEval(o.St)
					if o.Kind != ORet {
						ok := false
						for i, p := range d.par {
							if outside(o.St, e, args[p], d.bits[i]) {
								ok = true
							}
						}
						c.Want(ok, "pack-abort", fmt.Sprintf("%s path %d", d.mk, k), o.Pos, "aborts although every argument fits its field")
						continue
					}
					rets++
					for i, an := range d.accs {
						acc := c.P.Func(an)
						if acc == nil {
							c.Bad("pack", an, nil, "accessor not found")
							continue
						}
						for _, r := range c.run(in, acc, []*Term{o.Rets[0]}, o.St.clone()) {
							if r.Kind != ORet {
								c.Bad("pack", an, r.Pos, "aborts")
								continue
							}
							e2 := newBitEval(r.St)
							want, got := e2.bits(args[d.par[i]]), e2.bits(r.Rets[0])
							for b := 0; b < 64; b++ {
								c.Want(bvEq(want[b], got[b]), "pack", fmt.Sprintf("%s(%s) path %d bit %d", shortName(an), shortName(d.mk), k, b), o.Pos,
									"for some accepted %s, bit %d of the recovered value is %v instead of %v", fn.Params[d.par[i]].Name(), b, got[b], want[b])
							}
						}
					}
				}
				c.Want(rets > 0, "pack", d.mk+" accepts", fn, "no accepting path")
			})
		}
	})
	c.Min("pack", 256)
}

// outside: on this path x cannot be a value of 0..2^n-1.
func outside(st *State, e *bitEval, x *Term, n int) bool {
	if e.ge[x] >= 1<<uint(n) {
		return true
	}
	lo, hi := st.bounds(x)
	if !isUnsigned(x.T) && (hi < 0 || lo >= 1<<uint(n)) || isUnsigned(x.T) && lo >= 1<<uint(n) {
		return true
	}
	b := e.bits(x)
	for i := n; i < 64; i++ {
		if b[i].isConst() && b[i].c {
			return true
		}
	}
	return false
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
