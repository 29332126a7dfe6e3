package main

// C46: values that may be absent are used only where they are present.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C46", "path-sensitive nil analysis: the fields that some construction of their struct leaves unset, and the parameters for which some call passes nil, are found from the whole program; every function that reads one is interpreted, and at each dereference, method call, call, index or map store through such a value the path taken must have established that it is there; a use in a helper counts against the callers that reach it without having established that", checkC46,
		"values handed in by libraries through interfaces and callbacks are present; the widget library gives a widget its view before it passes events to it", "a block has a string table (the schema requires one)", "a field set by the function that makes its struct, or on every path of a function it calls, stays set")
}

type nilWatch struct {
	c      *Ctx
	fields map[*types.Var]string // optional fields
	params map[*ssa.Parameter]bool
	tags   map[*Term]string
	sites  map[token.Pos]string
	more   map[*ssa.Parameter]bool
}

func pointerLike(T types.Type) bool {
	switch under(T).(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}
	return false
}

func structField(T types.Type, i int) *types.Var {
	if p, ok := under(T).(*types.Pointer); ok {
		T = p.Elem()
	}
	if s, ok := under(T).(*types.Struct); ok {
		return s.Field(i).Origin()
	}
	return nil
}

// optionalFields: fields that a construction of their struct leaves at nil.
func (w *nilWatch) optionalFields() {
	inModule := func(f *types.Var) bool { return f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), modPath) }
	sets := map[*ssa.Function]map[*types.Var]bool{} // set on every path to a return
	// what is set on every way from a block to a return
	stores := func(fn *ssa.Function, from *ssa.BasicBlock, deeper func(g *ssa.Function) map[*types.Var]bool) map[*types.Var]bool {
		r := map[*types.Var]bool{}
		reach := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if reach[b] {
				return
			}
			reach[b] = true
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(from)
		for _, b := range fn.Blocks {
			all := reach[b]
			for x := range reach {
				if len(x.Instrs) == 0 {
					continue
				}
				if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
					all = all && b.Dominates(x)
				}
			}
			if !all {
				continue
			}
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !nilConst(x.Val) {
						if f := structField(fa.X.Type(), fa.Field); f != nil {
							r[f] = true
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && w.c.P.repo(g) && len(g.Blocks) > 0 {
						for f := range deeper(g) {
							r[f] = true
						}
					}
				}
			}
		}
		return r
	}
	var setBy func(fn *ssa.Function) map[*types.Var]bool
	setBy = func(fn *ssa.Function) map[*types.Var]bool {
		if r, ok := sets[fn]; ok {
			return r
		}
		sets[fn] = map[*types.Var]bool{}
		sets[fn] = stores(fn, fn.Blocks[0], setBy)
		return sets[fn]
	}
	compared := map[*types.Var]bool{} // slices that are compared with nil
	for _, fn := range w.c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					for _, p := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
						if f := fieldRead(p[0]); f != nil && nilConst(p[1]) {
							compared[f] = true
						}
					}
				}
			}
		}
	}
	var leaves func(T types.Type, set map[*types.Var]bool, at string, seen map[types.Type]bool)
	leaves = func(T types.Type, set map[*types.Var]bool, at string, seen map[types.Type]bool) {
		if seen[T] {
			return
		}
		seen[T] = true
		switch s := under(T).(type) {
		case *types.Struct:
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Origin()
				if !inModule(f) || set[f] {
					continue
				}
				_, slice := under(f.Type()).(*types.Slice)
				if required[fieldName(T, f)] || strings.HasPrefix(typePkg(f.Type()), "github.com/gdamore/tcell") {
					continue
				}
				if pointerLike(f.Type()) || slice && compared[f] {
					if w.fields[f] == "" {
						w.fields[f] = at
					}
				} else {
					leaves(f.Type(), set, at, seen)
				}
			}
		case *types.Array:
			leaves(s.Elem(), set, at, seen)
		}
	}
	for _, fn := range w.c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var T types.Type
				switch x := ins.(type) {
				case *ssa.Alloc:
					T = x.Type().Underlying().(*types.Pointer).Elem()
					if whole(x) {
						continue // a copy of another value
					}
				case *ssa.MakeSlice:
					T = x.Type().Underlying().(*types.Slice).Elem()
				default:
					continue
				}
				leaves(T, stores(fn, b, setBy), w.c.P.pos(ins.Pos()), map[types.Type]bool{})
			}
		}
	}
}

// required parts of a message
var required = map[string]bool{"PrimitiveBlock.StringTable": true}

func fieldName(T types.Type, f *types.Var) string {
	if n, ok := types.Unalias(T).(*types.Named); ok {
		return n.Obj().Name() + "." + f.Name()
	}
	return f.Name()
}

// typePkg: the package of an interface type.
func typePkg(T types.Type) string {
	if n, ok := types.Unalias(T).(*types.Named); ok && types.IsInterface(T) {
		return pkgOf(n.Obj())
	}
	return ""
}

// whole: the variable is given a whole value where it is made.
func whole(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a && s.Block() == a.Block() {
			if c, ok := s.Val.(*ssa.Const); !ok || c.Value != nil {
				return true
			}
		}
	}
	return false
}

func nilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// fieldRead: the field that a value was read from.
func fieldRead(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return structField(fa.X.Type(), fa.Field)
			}
		}
	case *ssa.Field:
		return structField(x.X.Type(), x.Field)
	case *ssa.ChangeInterface:
		return fieldRead(x.X)
	case *ssa.ChangeType:
		return fieldRead(x.X)
	}
	return nil
}

// read tags what was read from an optional field.
func (w *nilWatch) read(v ssa.Value, t *Term) {
	if f := fieldRead(v); f != nil && w.fields[f] != "" && t != nil && t != tNil {
		w.tags[t] = "field " + f.Name() + ", which is left unset at " + w.fields[f]
	}
}

// use: a value is used in a way that needs it to be there.
func (w *nilWatch) use(in *Interp, st *State, t *Term, pos token.Pos, fn *ssa.Function, how string) {
	if t == nil {
		return
	}
	tag := w.tags[t]
	if t == tNil {
		tag = "nil"
	}
	if tag == "" {
		return
	}
	if t != tNil {
		if pos.IsValid() && w.sites[pos] == "" {
			w.sites[pos] = how + " in " + fnName(fn)
		}
		if k, v := st.decide(Eq(t, tNil)); k && !v {
			return
		}
		if _, ok := under(t.T).(*types.Slice); ok && sure(st, Lt(tZero, Len(t), false)) {
			return
		}
	}
	st.emit(&Ev{Kind: "absent", Name: how + " of " + tag, Args: []*Term{t}, Pos: pos, In: fn})
}

func checkC46(c *Ctx) {
	const rule = "present"
	w := &nilWatch{c: c, fields: map[*types.Var]string{}, params: map[*ssa.Parameter]bool{}, tags: map[*Term]string{}, sites: map[token.Pos]string{}, more: map[*ssa.Parameter]bool{}}
	w.optionalFields()
	callers := map[*ssa.Function][]*ssa.Function{}
	valued := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := ins.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee != nil && c.P.repo(callee) {
						callers[callee] = append(callers[callee], fn)
						for i, a := range ci.Common().Args {
							if nilConst(a) && i < len(callee.Params) && pointerLike(callee.Params[i].Type()) {
								w.params[callee.Params[i]] = true
							}
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != callee {
						valued[f] = true
					}
				}
			}
		}
	}
	// methods that can be called through an interface
	isRoot := func(fn *ssa.Function) bool {
		return len(callers[fn]) == 0 || valued[fn] || fn.Parent() != nil || fn.Name() == "main"
	}
	concerned := func(fn *ssa.Function) bool {
		if fn.Name() == "main" && fn.Signature.Recv() == nil {
			return true
		}
		for _, p := range fn.Params {
			if w.params[p] {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if f := fieldRead(v); f != nil && w.fields[f] != "" {
						return true
					}
				}
			}
		}
		return false
	}
	type hit struct {
		pos token.Pos
		how string
		in  *ssa.Function
	}
	// absences found when interpreting root, with further functions inlined
	run := func(root *ssa.Function, inline map[*ssa.Function]bool) map[token.Pos]hit {
		in := c.interp()
		pk := fnPkg(root)
		if root.Name() == "main" && root.Parent() == nil {
			domainHooks(in, nil)
			in.KeepPaths = true
			for n := range in.Hooks {
				for _, p := range []string{"system", "iio"} {
					if strings.HasPrefix(n, "(*"+modPath+"/internal/"+p+".") || strings.HasPrefix(n, modPath+"/internal/"+p+".") {
						delete(in.Hooks, n)
					}
				}
			}
			for fn := range inline {
				delete(in.Hooks, fnName(fn))
			}
		}
		in.Nils = w
		in.Opaque = func(fn *ssa.Function) bool {
			p := fnPkg(fn)
			return p != pk && !inline[fn] && !nilInline[p]
		}
		in.Hooks["*"] = w.calls
		var args []*Term
		for _, p := range root.Params {
			a := symArg(in, p)
			if w.params[p] {
				w.tags[a] = "parameter " + p.Name() + ", for which nil may be passed"
			}
			args = append(args, a)
		}
		hits := map[token.Pos]hit{}
		outs := in.callFn(&CallCtx{Fn: root, Args: args, Binds: in.SymBinds(root), St: newState(), Pos: root.Pos()})
		c.visited(in)
		for _, o := range outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Kind == "absent" {
					hits[e.Pos] = hit{e.Pos, e.Name, e.In}
					if os.Getenv("OSMCHECK_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "absent", c.P.pos(e.Pos), fnName(root), e.Name, o.St.litKey())
					}
				}
			})
		}
		return hits
	}
	var confirmed func(fn *ssa.Function, h hit, inline map[*ssa.Function]bool, depth int) bool
	confirmed = func(fn *ssa.Function, h hit, inline map[*ssa.Function]bool, depth int) bool {
		if isRoot(fn) || depth > 3 {
			return true
		}
		inl := map[*ssa.Function]bool{fn: true}
		for k := range inline {
			inl[k] = true
		}
		done := map[*ssa.Function]bool{}
		for _, g := range callers[fn] {
			if done[g] {
				continue
			}
			done[g] = true
			if g == fn {
				continue
			}
			hs := run(g, inl)
			if h2, ok := hs[h.pos]; ok && confirmed(g, h2, inl, depth+1) {
				return true
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	bad := map[token.Pos]bool{}
	for round := 0; round < 4; round++ {
		w.more = map[*ssa.Parameter]bool{}
		fns := append([]*ssa.Function{}, c.P.Funcs()...)
		sort.SliceStable(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
		for _, fn := range fns {
			if fn.Synthetic != "" || done[fn] || !concerned(fn) {
				continue
			}
			done[fn] = true
			c.Try(rule, fnName(fn), fn, func() {
				hs := run(fn, nil)
				for _, h := range hs {
					if bad[h.pos] {
						continue
					}
					if confirmed(fn, h, nil, 0) {
						bad[h.pos] = true
						c.Bad(rule, fnName(h.in), h.pos, "%s, on a path on which it is not known to be there", h.how)
					}
				}
			})
		}
		more := false
		for p := range w.more {
			if !w.params[p] {
				w.params[p] = true
				more = true
				done[p.Parent()] = false
			}
		}
		if !more {
			break
		}
	}
	for pos, s := range w.sites {
		if !bad[pos] {
			c.Ok(rule, s, pos, "")
		}
	}
	c.Count("optional fields", len(w.fields))
	c.Count("optional parameters", len(w.params))
	c.Min(rule, 15)
}

// small packages that are interpreted with their callers
var nilInline = map[string]bool{modPath + "/internal/system": true, modPath + "/internal/args": true, modPath + "/internal/iio": true}

// calls: arguments that may be nil make the parameter one that may be nil; a method outside of the module needs its receiver.
func (w *nilWatch) calls(in *Interp, cc *CallCtx) []*Outcome {
	if cc.Fn == nil {
		return nil
	}
	if w.c.P.repo(cc.Fn) && !in.wantInline(cc.Fn) {
		for i, a := range cc.Args {
			if a == nil || i >= len(cc.Fn.Params) || w.tags[a] == "" {
				continue
			}
			if k, v := cc.St.decide(Eq(a, tNil)); !k || v {
				w.more[cc.Fn.Params[i]] = true
			}
		}
	}
	if !w.c.P.repo(cc.Fn) && cc.Sig != nil && cc.Fn.Signature.Recv() != nil && len(cc.Args) > 0 {
		if _, ok := under(cc.Fn.Signature.Recv().Type()).(*types.Pointer); ok {
			w.use(in, cc.St, cc.Args[0], cc.Pos, cc.In, fmt.Sprintf("call of %s", cc.Fn.Name()))
		}
	}
	return nil
}

// instr looks at the uses an instruction makes of its operands.
func (w *nilWatch) instr(in *Interp, fi *FnInfo, ins ssa.Instruction, ps *PState) {
	use := func(v ssa.Value, how string) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar, *ssa.Function, *ssa.MakeClosure, *ssa.Builtin:
			return
		}
		w.use(in, ps.st, in.val(ps, v), ins.Pos(), fi.fn, how)
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			use(x.X, "dereference")
		}
	case *ssa.FieldAddr:
		use(x.X, "dereference")
	case *ssa.IndexAddr:
		if _, ok := under(x.X.Type()).(*types.Slice); ok && sure(ps.st, Lt(in.val(ps, x.Index), Len(in.val(ps, x.X)), false)) {
			return
		}
		use(x.X, "element")
	case *ssa.Store:
		use(x.Addr, "dereference")
	case *ssa.MapUpdate:
		use(x.Map, "entry")
	case ssa.CallInstruction:
		if _, b := x.Common().Value.(*ssa.Builtin); !b {
			use(x.Common().Value, "call")
		}
	}
}
