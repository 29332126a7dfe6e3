package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

// interp makes an interpreter for this check.
func (c *Ctx) interp() *Interp {
	in := NewInterp(c.P)
	return in
}

// A strings.Builder holds the text written to it.
func init() {
	tStr := types.Typ[types.String]
	cell := func(cc *CallCtx) *Term {
		if cc.Fn == nil || cc.Fn.Signature.Recv() == nil || !isObj(rootOf(cc.Args[0])) {
			return nil
		}
		T := elemType(cc.Fn.Signature.Recv().Type())
		if s, ok := under(T).(*types.Struct); !ok || s.NumFields() < 2 {
			return nil
		}
		return FieldAddrT(cc.Args[0], 1, T)
	}
	write := func(text func(st *State, a *Term) *Term) func(in *Interp, cc *CallCtx) []*Outcome {
		return func(in *Interp, cc *CallCtx) []*Outcome {
			x := cell(cc)
			if x == nil {
				return nil
			}
			cc.St.store(x, strcat(cc.St.load(x, tStr), text(cc.St, cc.Args[1])), tStr)
			var rs []*Term
			for i := 0; i < cc.Sig.Results().Len(); i++ {
				if T := cc.Sig.Results().At(i).Type(); isInteger(T) {
					rs = append(rs, Len(text(cc.St, cc.Args[1])))
				} else {
					rs = append(rs, tNil)
				}
			}
			return retOne(cc.St, rs...)
		}
	}
	const B = "(*strings.Builder)."
	models[B+"WriteString"] = write(func(st *State, a *Term) *Term { return a })
	models[B+"WriteByte"] = write(func(st *State, a *Term) *Term {
		if a.K == KInt && a.I > 0 && a.I < 128 {
			return Str(string(rune(a.I)))
		}
		return Op("rune2s", "", tStr, a)
	})
	models[B+"WriteRune"] = models[B+"WriteByte"]
	models[B+"String"] = func(in *Interp, cc *CallCtx) []*Outcome {
		x := cell(cc)
		if x == nil {
			return nil
		}
		return retOne(cc.St, cc.St.load(x, tStr))
	}
	models["math.IsNaN"] = func(in *Interp, cc *CallCtx) []*Outcome {
		if cc.Args[0].isOp("float") {
			return retOne(cc.St, tFalse)
		}
		return nil
	}
}

// run interprets fn and records what was visited.
func (c *Ctx) run(in *Interp, fn *ssa.Function, args []*Term, st *State) []*Outcome {
	if fn == nil {
		panic(analysisError{"function not found"})
	}
	out := in.Run(fn, args, nil, st)
	c.visited(in)
	return out
}

func (c *Ctx) visited(in *Interp) {
	for f := range in.Visited {
		visitedFns[f.String()] = true
	}
}

// need finds a function by name or reports its absence.
func (c *Ctx) need(rule, name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil {
		c.Bad(rule, name, nil, "function not found: the anchor of this rule is gone")
	}
	return f
}

func unrollAll(n int) func(*ssa.Function, *ssa.BasicBlock) int {
	return func(*ssa.Function, *ssa.BasicBlock) int { return n }
}

func elemType(T types.Type) types.Type {
	switch u := under(T).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// withBits runs f with bit-level decisions enabled.
func withBits(f func()) {
	bitsDecide = decideBits
	defer func() { bitsDecide = nil }()
	f()
}
