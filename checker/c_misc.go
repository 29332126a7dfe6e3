package main

// C07: location codes.  C39: decompression.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Bit-provenance abstract interpretation of package morton (its lookup tables are taken from interpreting its initialisation, and must not be written afterwards): every bit of the code must be the prescribed bit of one argument and every bit of the decoded values the prescribed bit of the code; at every call of the encoder in the repository, the value stored must have its top bit constantly set.",
		checkC07)
	register("C39", "Path rules over the abstract interpretation of the blob data accessor: every path that returns the data of a compressed blob must have filled the whole returned buffer, whose length is the declared size, from a decompressor over exactly the blob's compressed bytes, with the error known to be nil, and must then have seen the end of the stream (which is where the checksum is verified); every other outcome aborts.",
		checkC39, "compress/zlib reports checksum and format errors as documented")
}

// initState interprets the initialisation of a package.
func initState(c *Ctx, in *Interp, pkg string) *State {
	sp := c.P.SSA[modPath+"/"+pkg]
	if sp == nil {
		panic(analysisError{"package " + pkg + " not found"})
	}
	st := newState()
	fn := sp.Func("init")
	if fn == nil {
		return st
	}
	if g := sp.Var("init$guard"); g != nil {
		st.store(OpX("glob", g.String(), g.Type(), g), tFalse, types.Typ[types.Bool])
	}
	for _, imp := range c.P.SSA {
		if imp != nil && imp != sp {
			in.Hooks[imp.Pkg.Path()+".init"] = func(in *Interp, cc *CallCtx) []*Outcome { return []*Outcome{{Kind: ORet, St: cc.St}} }
		}
	}
	outs := in.Run(fn, nil, nil, st)
	c.visited(in)
	if len(outs) != 1 || outs[0].Kind != ORet {
		panic(analysisError{fmt.Sprintf("initialisation of %s has %d outcomes", pkg, len(outs))})
	}
	return outs[0].St
}

func checkC07(c *Ctx) {
	withBits(func() {
		in := c.interp()
		in.Unroll = unrollAll(300)
		in.Ite = true
		in.Budget = 4000000
		var st *State
		c.Try("table-constant", "morton initialisation", nil, func() { st = initState(c, in, "internal/morton") })
		if st == nil {
			return
		}
		tableConstant(c, "internal/morton")
		run := func(fn *ssa.Function, f func(o *Outcome, e *bitEval, args []*Term)) {
			i2 := c.interp()
			i2.Unroll = unrollAll(300)
			i2.Ite = true
			i2.Budget = 4000000
			var args []*Term
			for _, p := range fn.Params {
				args = append(args, symArg(i2, p))
			}
			s := st.clone()
			s.ev = nil
			outs := c.run(i2, fn, args, s)
			if len(outs) == 0 {
				c.Bad("morton", fn.Name(), fn, "no outcome")
			}
			for _, o := range outs {
				if o.Kind != ORet {
					c.Bad("morton", fn.Name(), o.Pos, "aborts for some value")
					continue
				}
				f(o, newBitEval(o.St), args)
			}
		}
		if fn := c.need("morton", "internal/morton.Encode"); fn != nil {
			c.Try("morton", "morton.Encode", fn, func() {
				run(fn, func(o *Outcome, e *bitEval, a []*Term) {
					r := e.bits(o.Rets[0])
					ev, od := e.bits(a[0]), e.bits(a[1])
					for i := 0; i < 64; i++ {
						w := ev[i/2]
						if i%2 == 1 {
							w = od[i/2]
						}
						c.Want(bvEq(r[i], w), "morton", fmt.Sprintf("morton.Encode bit %d", i), o.Pos, "is %v, must be bit %d of the %s", r[i], i/2, []string{"evens", "odds"}[i%2])
					}
				})
			})
		}
		if fn := c.need("morton", "internal/morton.Decode"); fn != nil {
			c.Try("morton", "morton.Decode", fn, func() {
				run(fn, func(o *Outcome, e *bitEval, a []*Term) {
					x := e.bits(a[0])
					for k, nm := range []string{"evens", "odds"} {
						r := e.bits(o.Rets[k])
						for i := 0; i < 32; i++ {
							c.Want(bvEq(r[i], x[2*i+k]), "morton", fmt.Sprintf("morton.Decode %s bit %d", nm, i), o.Pos, "is %v, must be bit %d of the code", r[i], 2*i+k)
						}
					}
				})
			})
		}
		if fn := c.need("morton", "internal/morton.DecodeLocation"); fn != nil {
			c.Try("morton", "morton.DecodeLocation", fn, func() {
				run(fn, func(o *Outcome, e *bitEval, a []*Term) {
					x := e.bits(a[0])
					for k, nm := range []string{"lon", "lat"} {
						r := e.bits(o.Rets[k])
						for i := 0; i < 32; i++ {
							j := i
							if k == 1 && i == 31 {
								j = 30
							}
							c.Want(bvEq(r[i], x[2*j+k]), "morton", fmt.Sprintf("morton.DecodeLocation %s bit %d", nm, i), o.Pos, "is %v, must be bit %d of the code", r[i], 2*j+k)
						}
					}
				})
			})
		}
	})
	c.Min("morton", 64+64+64)
	locationFlag(c)
}

// tableConstant: the package's variables are only written while it is initialised.
func tableConstant(c *Ctx, pkg string) {
	path := modPath + "/" + pkg
	for _, fn := range c.P.Funcs() {
		if fnPkg(fn) == path && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != path {
						continue
					}
					ok = false
					if u, is := ins.(*ssa.UnOp); is {
						ok = readOnlyUse(u, 0)
					} else if ia, is := ins.(*ssa.IndexAddr); is {
						ok = readOnlyUse(ia, 0)
					}
					c.Want(ok, "table-constant", fmt.Sprintf("%s used in %s", g.Name(), fnName(fn)), ins.Pos(), "may be changed after initialisation")
				}
			}
		}
	}
}

func readOnlyUse(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Phi:
			if !readOnlyUse(r.(ssa.Value), d+1) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Range, *ssa.BinOp:
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---- C39 ----

func checkC39(c *Ctx) {
	fn := c.need("decompress", "internal/t.(*Blob).GetRawData")
	if fn == nil {
		return
	}
	in := c.interp()
	in.KeepPaths = true
	in.Budget = 2000000
	c.Try("decompress", "t.(*Blob).GetRawData", fn, func() { c39(c, in, fn) })
	c.readsIntoEmpty("blob read", "Blob")
	// nobody else decompresses
	n := 0
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil || !strings.HasPrefix(fnPkg(cal), "compress/") || !strings.Contains(cal.Name(), "Reader") {
					continue
				}
				n++
				c.Want(in.Visited[f], "decompress", "decompressor made in "+fnName(f), ins.Pos(), "decompresses outside of the blob data accessor")
			}
		}
	}
	c.Want(n > 0, "decompress", "decompressors", fn, "no decompressor found")
}

func c39(c *Ctx, in *Interp, fn *ssa.Function) {
	blob := c.P.Named("internal/t.Blob")
	st := newState()
	args := in.SymArgs(fn)
	member := func(n string) *Term {
		i := FieldIndex(blob, n)
		if i < 0 {
			panic(analysisError{"Blob." + n + " not found"})
		}
		return st.load(FieldAddrT(args[0], i, blob), under(blob).(*types.Struct).Field(i).Type())
	}
	raw, zdata, sizep := member("Raw"), member("ZLibData"), member("RawSize")
	size := st.load(sizep, elemType(sizep.T))
	compressed, plain := 0, 0
	for k, o := range c.run(in, fn, args, st) {
		pn := fmt.Sprintf("t.(*Blob).GetRawData path %d", k)
		yes := func(t *Term) bool { a, b := o.St.decide(t); return a && b }
		no := func(t *Term) bool { a, b := o.St.decide(t); return a && !b }
		// the decompressors on this path
		type read struct {
			e      *Ev
			n, err *Term
			buf    *Term
		}
		var zr *Term
		var reads []read
		var zerr *Term
		for _, e := range o.St.ev.list() {
			if e.Kind != "call" {
				continue
			}
			switch {
			case e.Name == "compress/zlib.NewReader" && e.Ret.isOp("tuple"):
				zr, zerr = e.Ret.Args[0], e.Ret.Args[1]
				src := e.Args[0]
				okSrc := false
				if src.isOp("iface") && src.Args[0].X != nil {
					if cr, ok := src.Args[0].X.(*CallRes); ok && (cr.Ev.Name == "bytes.NewBuffer" || cr.Ev.Name == "bytes.NewReader") && cr.Ev.Args[0] == zdata {
						okSrc = true
					}
				}
				c.Want(okSrc, "decompress", pn+" source", e.Pos, "decompresses %v, not exactly the blob's compressed bytes", src)
			case zr != nil && len(e.Args) > 0 && sameReader(e.Args[0], zr) && e.Ret.isOp("tuple"):
				r := read{e: e, n: e.Ret.Args[0], err: e.Ret.Args[len(e.Ret.Args)-1]}
				if len(e.Args) > 1 {
					r.buf = e.Args[1]
				}
				reads = append(reads, r)
			case zr != nil && len(e.Args) > 1 && sameReader(e.Args[1], zr) && (e.Name == "io.Copy" || e.Name == "io.CopyN"):
				reads = append(reads, read{e: e, n: e.Ret.Args[0], err: e.Ret.Args[1]})
			}
		}
		if o.Kind != ORet {
			bad := yes(Eq(raw, tNil)) && yes(Eq(zdata, tNil)) || yes(Eq(sizep, tNil))
			bad = bad || zerr != nil && no(Eq(zerr, tNil))
			for i, r := range reads {
				if i == 0 && no(Eq(r.err, tNil)) {
					bad = true
				}
				if i > 0 && (yes(Eq(r.err, tNil)) || eofKnown(o.St, r.err) == 2 || no(Eq(r.n, Int(0))) || yes(Lt(Int(0), r.n, false))) {
					bad = true
				}
			}
			for _, e := range o.St.ev.list() {
				if e.Kind == "assert" && len(e.Args) > 1 && no(e.Args[1]) {
					bad = true
				}
			}
			c.Want(bad, "decompress", pn+" abort", o.Pos, "may abort for sound data")
			continue
		}
		out := o.Rets[0]
		buf := out
		if s, ok := under(fn.Signature.Results().At(0).Type()).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isBytes(s.Field(i).Type()) {
					buf = Field(out, i, s.Field(i).Type())
				}
			}
		}
		if buf == raw {
			plain++
			c.Want(no(Eq(raw, tNil)), "decompress", pn+" plain", o.Pos, "returns the uncompressed data although the blob may have none")
			continue
		}
		compressed++
		if zr == nil {
			c.Bad("decompress", pn, o.Pos, "returns %v without decompressing", buf)
			continue
		}
		c.Want(yes(Eq(zerr, tNil)), "decompress", pn+" header error", o.Pos, "continues although the decompressor could not be created")
		c.Want(Len(buf) == Conv(size, tInt) || yes(Eq(Len(buf), Conv(size, tInt))), "decompress", pn+" length", o.Pos, "the buffer has length %v, the declared size is %v", Len(buf), size)
		// the last writer of the buffer
		full := false
		tail := false
		fillAt := -1
		for i, r := range reads {
			switch r.e.Name {
			case "io.ReadFull":
				if r.buf != nil && fillAt < 0 && covers(r.buf, buf) {
					fillAt = i
					full = yes(Eq(r.err, tNil))
				} else if fillAt >= 0 && r.buf != nil && positive(o.St, Len(r.buf)) && eofKnown(o.St, r.err) == 1 {
					tail = true
				}
			case "io.ReadAll", "io/ioutil.ReadAll":
				if r.n == buf && yes(Eq(r.err, tNil)) {
					full, tail, fillAt = true, true, i
				} else if fillAt >= 0 && yes(Eq(r.err, tNil)) && yes(Eq(Len(r.n), Int(0))) {
					tail = true
				}
			case "io.Copy":
				if fillAt >= 0 && yes(Eq(r.err, tNil)) && yes(Eq(r.n, Int(0))) {
					tail = true
				}
			default:
				if strings.HasSuffix(r.e.Name, ".Read") && fillAt >= 0 && r.buf != nil && positive(o.St, Len(r.buf)) && eofKnown(o.St, r.err) == 1 && yes(Eq(r.n, Int(0))) {
					tail = true
				}
			}
		}
		c.Want(full, "decompress", pn+" filled", o.Pos, "the buffer returned need not have been filled completely by the decompressor")
		c.Want(tail, "decompress", pn+" end of stream", o.Pos, "returns without having seen the end of the compressed stream, so that surplus data or a wrong checksum go unnoticed")
		// nothing else written to it afterwards
		arr, _ := arrOf(buf)
		cont := o.St.readCell(arr, types.Typ[types.Byte], true)
		if fillAt >= 0 && reads[fillAt].e.Name == "io.ReadFull" {
			c.Want(cont.isOp("readin") && cont.X == any(reads[fillAt].e), "decompress", pn+" content", o.Pos, "the content of the buffer is %v", cont)
		}
	}
	c.Want(compressed > 0, "decompress", "compressed data", fn, "no path returns decompressed data")
	c.Want(plain > 0, "decompress", "plain data", fn, "no path returns uncompressed data")
}

func sameReader(a, zr *Term) bool {
	return a == zr || a.isOp("iface") && a.Args[0] == zr
}

// covers: buffer a is the window b.
func covers(a, b *Term) bool {
	if a == b {
		return true
	}
	aa, al := arrOf(a)
	ba, bl := arrOf(b)
	return aa == ba && al == bl && Len(a) == Len(b)
}

func positive(st *State, t *Term) bool {
	lo, _ := st.bounds(t)
	return lo > 0
}

// eofKnown: 1 if the error is known to be io.EOF, 2 if it is known not to be, 0 otherwise.
func eofKnown(st *State, err *Term) int {
	for f, v := range st.lits {
		if !f.isOp("eq") {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.Args[i] == err && isEOF(f.Args[1-i]) {
				if v {
					return 1
				}
				return 2
			}
		}
	}
	return 0
}

func isEOF(t *Term) bool {
	return t.any(func(x *Term) bool { return x.isOp("glob") && x.S == "io.EOF" })
}

// ---- location flag ----

func locationFlag(c *Ctx) {
	nodeLocations(c, "stored locations are flagged")
	c.Min("stored locations are flagged", 1)
}
