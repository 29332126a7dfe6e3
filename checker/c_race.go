package main

// C31: data races. The parts: who runs what (threads of the call graph), accesses to shared fields, the list of
// workers and its lock, package variables, variables captured by the stages, and values handed over.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- threads ----

// Threads tells which goroutines may execute which function: a goroutine is named by the function it starts in.
// Functions used as values are goroutines of their own, unless they are only called by whoever receives them.
type Threads struct {
	c       *Ctx
	edges   map[*ssa.Function][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	roots   map[*ssa.Function]string // why
	multi   map[*ssa.Function]bool
	of      map[*ssa.Function]map[*ssa.Function]bool
	valued  map[*ssa.Function]bool
}

// unbound gives the method a wrapper function calls.
func (p *Program) unbound(f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok {
		if g := p.Prog.FuncValue(o); g != nil && g != f {
			return g
		}
	}
	return f
}

func funcOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcOf(v.X)
	}
	return nil
}

// onlyCalled: the function-typed parameter is called, or passed on to be called, but not kept.
func (p *Program) onlyCalled(par *ssa.Parameter, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, r := range *par.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if call.Call.Value == par {
			used := false
			for _, a := range call.Call.Args {
				used = used || a == ssa.Value(par)
			}
			if !used {
				continue
			}
		}
		g := call.Call.StaticCallee()
		if g == nil || !p.repo(g) {
			return false
		}
		for i, a := range call.Call.Args {
			if a == ssa.Value(par) && (i >= len(g.Params) || !p.onlyCalled(g.Params[i], depth+1)) {
				return false
			}
		}
	}
	return true
}

// callsArgs: functions of other packages that call the functions they are given and return.
func callsArgs(f *ssa.Function) bool {
	switch fnPkg(f) {
	case "sort", "slices", "strings", "bytes", "maps":
		return true
	}
	return f.String() == "(*sync.Once).Do" || f.String() == "(*sync.Map).Range"
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}

func (c *Ctx) threads() *Threads {
	if c.P.thr != nil {
		return c.P.thr
	}
	p := c.P
	t := &Threads{c: c, edges: map[*ssa.Function][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, roots: map[*ssa.Function]string{}, multi: map[*ssa.Function]bool{},
		of: map[*ssa.Function]map[*ssa.Function]bool{}, valued: map[*ssa.Function]bool{}}
	root := func(f *ssa.Function, why string) {
		if _, ok := t.roots[f]; !ok {
			t.roots[f] = why
		}
	}
	// methods by name, for calls through interfaces
	methods := map[string][]*ssa.Function{}
	for _, f := range p.Funcs() {
		if f.Signature.Recv() != nil && f.Parent() == nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
	}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var call *ssa.CallCommon
				ci, isCall := ins.(ssa.CallInstruction)
				if isCall {
					call = ci.Common()
				}
				_, isGo := ins.(*ssa.Go)
				if isCall {
					g := p.unbound(call.StaticCallee())
					switch {
					case g != nil && isGo:
						root(g, "started by go")
						t.valued[g] = true
						if inLoop(b) {
							t.multi[g] = true
						}
					case g != nil:
						if p.repo(g) {
							t.edges[f] = append(t.edges[f], g)
							t.callers[g] = append(t.callers[g], ci)
						}
					case call.IsInvoke():
						I, _ := under(call.Value.Type()).(*types.Interface)
						for _, m := range methods[call.Method.Name()] {
							T := m.Signature.Recv().Type()
							if I != nil && (types.Implements(T, I) || types.Implements(types.NewPointer(T), I)) {
								t.edges[f] = append(t.edges[f], m)
								t.valued[m] = true
								if isGo {
									root(m, "started by go")
									t.multi[m] = t.multi[m] || inLoop(b)
								}
							}
						}
					}
				}
				// functions used as values
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, ok := ins.(*ssa.ChangeType); ok {
						continue
					}
					g := p.unbound(funcOf(*op))
					if g == nil || !p.repo(g) {
						continue
					}
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == *op {
						continue // judged where the closure is used
					}
					if isCall && call.Value == *op {
						as := false
						for _, a := range call.Args {
							as = as || a == *op
						}
						if !as {
							continue
						}
					}
					if isCall && !isGo && !call.IsInvoke() {
						callee := call.StaticCallee()
						sync := callee != nil && (callsArgs(callee))
						if callee != nil && !sync && p.repo(callee) {
							sync = true
							for i, a := range call.Args {
								if a == *op && (i >= len(callee.Params) || !p.onlyCalled(callee.Params[i], 0)) {
									sync = false
								}
							}
						}
						if sync {
							t.edges[f] = append(t.edges[f], g)
							t.valued[g] = true
							continue
						}
					}
					root(g, "used as a value")
					t.valued[g] = true
				}
			}
		}
	}
	// methods that other packages may call through interfaces (display)
	for _, f := range p.Funcs() {
		if len(t.callers[f]) == 0 && t.roots[f] == "" && !t.valued[f] && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
				root(f, "main")
			} else if f.Signature.Recv() != nil {
				root(f, "called from outside")
			}
		}
	}
	for _, k := range c.commands() {
		for _, pp := range k.Pipe {
			if f := pp.Work; f.isOp("closure") || f.isOp("func") {
				t.multi[p.unbound(f.X.(*ssa.Function))] = true
			}
		}
	}
	for r := range t.roots {
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			m := t.of[f]
			if m == nil {
				m = map[*ssa.Function]bool{}
				t.of[f] = m
			}
			if m[r] {
				return
			}
			m[r] = true
			for _, g := range t.edges[f] {
				visit(g)
			}
		}
		visit(r)
	}
	p.thr = t
	return t
}

// reaches: a call of f may run g.
func (t *Threads) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(x *ssa.Function) bool
	visit = func(x *ssa.Function) bool {
		if x == g {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range t.edges[x] {
			if visit(y) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// ---- accesses ----

type access struct {
	fn     *ssa.Function
	ins    ssa.Instruction
	write  bool
	atomic bool
	fresh  bool
	key    string
}

// fieldRef names a field of a struct type.
func fieldRef(T types.Type, i int) (string, *types.Named) {
	if p, ok := under(T).(*types.Pointer); ok {
		T = p.Elem()
	}
	n, _ := types.Unalias(T).(*types.Named)
	S, ok := under(T).(*types.Struct)
	if n == nil || !ok {
		return "", nil
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + S.Field(i).Name(), n
}

func isSyncType(T types.Type) bool {
	n, _ := types.Unalias(T).(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func atomicCall(f *ssa.Function) (ok, write bool) {
	if f == nil || fnPkg(f) != "sync/atomic" {
		return false, false
	}
	return true, !strings.HasPrefix(f.Name(), "Load")
}

// freshness of memory: made by the function and not yet given to anyone.
type freshness struct {
	t    *Threads
	memo map[ssa.Value]bool
}

// maker: the value is newly made memory.
func (fr *freshness) maker(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !fr.t.c.P.repo(g) || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if r, ok := ins.(*ssa.Return); ok {
					n++
					x := r.Results[0]
					if !fr.maker(x, depth+1) || !fr.unescaped(x, r, depth+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// mayPrecede: a may run before b in the same call of the function.
func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, x := range a.Block().Instrs {
			if x == a {
				ia = i
			}
			if x == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
		return inLoop(a.Block())
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(a.Block())
}

// unescaped: when ins runs, the memory v refers to is not known to anyone else.
func (fr *freshness) unescaped(v ssa.Value, at ssa.Instruction, depth int) bool {
	if depth > 5 {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if !fr.escapes(v, r, depth) {
			continue
		}
		if r == at {
			if _, ok := r.(*ssa.Return); ok {
				continue
			}
			if d, ok := v.(ssa.Instruction); ok && d.Block() == r.Block() {
				continue // made and given away in one go
			}
			if !inLoop(r.Block()) {
				continue
			}
			return false
		}
		if mayPrecede(r, at) {
			if d, ok := v.(ssa.Instruction); ok && inLoop(d.Block()) && d.Block().Dominates(at.Block()) && d.Block().Dominates(r.Block()) {
				// a new one is made in every iteration
				if !beforeWithout(r, at, d) {
					continue
				}
			}
			return false
		}
	}
	return true
}

// beforeWithout: b may run after a without passing d in between.
func beforeWithout(a, b, d ssa.Instruction) bool {
	idx := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if y == x {
				return i
			}
		}
		return -1
	}
	if a.Block() == b.Block() && idx(a) < idx(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == d.Block() {
				if s == b.Block() && idx(b) < idx(d) {
					return true
				}
				continue
			}
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(a.Block())
}

// escapes: the instruction makes the memory of v known to others.
func (fr *freshness) escapes(v ssa.Value, r ssa.Instruction, depth int) bool {
	switch r := r.(type) {
	case *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.BinOp:
		return false
	case *ssa.Store:
		return r.Val == v
	case *ssa.MapUpdate:
		return r.Value == v || r.Key == v
	case *ssa.Call:
		g := r.Call.StaticCallee()
		if ok, _ := atomicCall(g); ok {
			return false
		}
		if g == nil || !fr.t.c.P.repo(g) {
			return true
		}
		for i, a := range r.Call.Args {
			if a != v {
				continue
			}
			if i >= len(g.Params) {
				return true
			}
			par := g.Params[i]
			if par.Referrers() == nil || depth > 4 {
				return true
			}
			for _, q := range *par.Referrers() {
				if fr.escapes(par, q, depth+1) {
					return true
				}
			}
		}
		return false
	}
	return true
}

// fresh: the memory v points to is fresh at the instruction.
func (fr *freshness) fresh(v ssa.Value, at ssa.Instruction, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fr.fresh(x.X, at, depth)
	case *ssa.IndexAddr:
		return fr.fresh(x.X, at, depth)
	case *ssa.Slice:
		return fr.fresh(x.X, at, depth)
	case *ssa.Parameter:
		f := x.Parent()
		i := -1
		for j, q := range f.Params {
			if q == x {
				i = j
			}
		}
		if i < 0 || fr.t.valued[f] || fr.t.roots[f] != "" || len(fr.t.callers[f]) == 0 {
			return false
		}
		for _, r := range *x.Referrers() {
			if fr.escapes(x, r, depth) && mayPrecede(r, at) {
				return false
			}
		}
		for _, call := range fr.t.callers[f] {
			ins, ok := call.(*ssa.Call)
			if !ok || i >= len(ins.Call.Args) || !fr.fresh(ins.Call.Args[i], ins, depth+1) {
				return false
			}
		}
		return true
	}
	return fr.maker(v, 0) && fr.unescaped(v, at, 0)
}

// accesses collects the accesses to fields of named struct types (and to the elements of lists in such fields).
func (t *Threads) accesses() []*access {
	p := t.c.P
	fr := &freshness{t: t, memo: map[ssa.Value]bool{}}
	var r []*access
	// follow an address (or list) with a name
	var follow func(key string, v ssa.Value, fn *ssa.Function, isList bool, depth int, seen map[ssa.Value]bool)
	follow = func(key string, v ssa.Value, fn *ssa.Function, isList bool, depth int, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil || depth > 12 {
			return
		}
		seen[v] = true
		add := func(ins ssa.Instruction, write, atomic bool, k string) {
			r = append(r, &access{fn: fn, ins: ins, write: write, atomic: atomic, key: k, fresh: !isList && fr.fresh(v, ins, 0) || isList && fr.maker(v, 0) && fr.unescaped(v, ins, 0)})
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.UnOp:
				if !isList && x.X == v {
					add(x, false, false, key)
					switch under(x.Type()).(type) {
					case *types.Slice, *types.Map:
						follow(key+"[]", x, fn, true, depth+1, seen)
					}
				}
			case *ssa.Store:
				if x.Addr == v && !isList {
					add(x, true, false, key)
				} else if x.Val == v && !isList {
					// the address is kept: whoever loads it may access the field
					add(x, true, false, key)
				}
			case *ssa.IndexAddr:
				if x.X == v {
					k := key
					if !isList {
						k += "[]"
					}
					follow(k, x, fn, false, depth+1, seen)
				}
			case *ssa.Slice:
				if x.X == v {
					k := key
					if !isList {
						k += "[]"
					}
					follow(k, x, fn, true, depth+1, seen)
				}
			case *ssa.Lookup:
				if isList {
					add(x, false, false, key)
				}
			case *ssa.MapUpdate:
				if isList && x.Map == v {
					add(x, true, false, key)
				}
			case *ssa.Range:
				if isList {
					add(x, false, false, key)
				}
			case *ssa.Phi:
				follow(key, x, fn, isList, depth+1, seen)
			case *ssa.ChangeType:
				follow(key, x, fn, isList, depth+1, seen)
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy":
						if isList {
							if cc.Args[0] == v {
								add(ref, true, false, key)
							}
							if cc.Args[1] == v {
								add(ref, false, false, key)
							}
						}
					case "append":
						if isList && cc.Args[0] == v {
							add(ref, true, false, key)
						}
						if isList && len(cc.Args) > 1 && cc.Args[1] == v {
							add(ref, false, false, key)
						}
					case "delete", "clear":
						if isList {
							add(ref, true, false, key)
						}
					}
					continue
				}
				g := cc.StaticCallee()
				if ok, w := atomicCall(g); ok {
					if !isList && len(cc.Args) > 0 && cc.Args[0] == v {
						add(ref, w, true, key)
					}
					continue
				}
				if g == nil || !p.repo(g) || len(g.Blocks) == 0 {
					if isSyncType(deref(v.Type())) {
						continue
					}
					if !isList {
						// an address given to code that was not analysed
						if g == nil || !p.repo(g) {
							add(ref, true, false, key)
						}
					}
					continue
				}
				for i, a := range cc.Args {
					if a == v && i < len(g.Params) {
						// the field's own methods and helpers
						follow(key, g.Params[i], g, isList, depth+1, map[ssa.Value]bool{})
					}
				}
			case *ssa.MakeClosure:
				f, _ := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && f != nil && i < len(f.FreeVars) {
						follow(key, f.FreeVars[i], f, isList, depth+1, seen)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if k, n := fieldRef(x.X.Type(), x.Field); k != "" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
						follow(k, x, f, false, 0, map[ssa.Value]bool{})
					}
				case *ssa.UnOp, *ssa.Store:
					// whole structs
					var addr ssa.Value
					write := false
					if u, ok := ins.(*ssa.UnOp); ok {
						if u.Op.String() != "*" {
							continue
						}
						addr = u.X
					} else {
						addr = ins.(*ssa.Store).Addr
						write = true
					}
					T := deref(addr.Type())
					S, ok := under(T).(*types.Struct)
					if !ok || isSyncType(T) {
						continue
					}
					for i := 0; i < S.NumFields(); i++ {
						if k, n := fieldRef(T, i); k != "" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
							r = append(r, &access{fn: f, ins: ins, write: write, key: k, fresh: fr.fresh(addr, ins, 0)})
						}
					}
				}
			}
		}
	}
	return r
}

// sharedTypes lists the struct types whose values several goroutines may know: what the display is told about, what
// the stages of a pipeline are given, and package variables.
func (c *Ctx) sharedTypes(rule string) map[string]bool {
	r := map[string]bool{}
	var add func(T types.Type)
	add = func(T types.Type) {
		switch u := types.Unalias(T).(type) {
		case *types.Named:
			if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
				return
			}
			k := u.Obj().Pkg().Path() + "." + u.Obj().Name()
			if r[k] {
				return
			}
			if S, ok := u.Underlying().(*types.Struct); ok {
				r[k] = true
				for i := 0; i < S.NumFields(); i++ {
					add(S.Field(i).Type())
				}
				return
			}
			switch u.Underlying().(type) {
			case *types.Interface, *types.Signature:
				return
			}
			add(u.Underlying())
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Key())
			add(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type())
			}
		}
	}
	value := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.T != nil {
				add(x.T)
			}
			return false
		})
	}
	for _, k := range c.commands() {
		for _, o := range k.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Kind == "process" && e.Ret != nil {
					value(e.Ret)
					for _, a := range e.Args {
						if a.isOp("closure") {
							for _, b := range a.Args {
								value(b)
							}
						}
					}
				}
			})
		}
	}
	for _, s := range c.stages(rule, nil) {
		for _, o := range s.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Kind == "trackworker" && len(e.Args) == 2 {
					value(e.Args[1])
				}
			})
		}
	}
	for _, f := range c.P.Funcs() {
		if f.Name() == "WriterState" && f.Signature.Recv() != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if m, ok := ins.(*ssa.MakeInterface); ok {
						add(m.X.Type())
					}
				}
			}
		}
	}
	for _, sp := range c.P.SSA {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				add(deref(g.Type()))
			}
		}
	}
	return r
}

func fnSet(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// fields: rule "field" of C31.
func (c *Ctx) raceFields() (*Threads, map[*ssa.Function][]*access) {
	t := c.threads()
	shared := c.sharedTypes("field")
	byKey := map[string][]*access{}
	atomicKey := map[string]bool{}
	seen := map[string]bool{}
	for _, a := range t.accesses() {
		id := fmt.Sprint(a.key, a.ins.Parent().String(), a.ins.Pos(), a.write, a.atomic, a.fresh, fmt.Sprintf("%p", a.ins))
		if seen[id] {
			continue
		}
		seen[id] = true
		byKey[a.key] = append(byKey[a.key], a)
		if a.atomic {
			atomicKey[a.key] = true
		}
	}
	// types with a lock are decided by their methods' locking
	guarded := map[string]bool{}
	for _, n := range c.lockedTypes() {
		guarded[n.Obj().Pkg().Path()+"."+n.Obj().Name()] = true
	}
	// where the objects of a type are made
	made := map[string]map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok {
					if n, _ := types.Unalias(deref(a.Type())).(*types.Named); n != nil && n.Obj().Pkg() != nil {
						k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
						if made[k] == nil {
							made[k] = map[*ssa.Function]bool{}
						}
						made[k][f] = true
					}
				}
			}
		}
	}
	embedded := map[string]bool{} // part of another object
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			if S, ok := under(sc.Lookup(nm).Type()).(*types.Struct); ok {
				for i := 0; i < S.NumFields(); i++ {
					T := S.Field(i).Type()
					if a, ok := under(T).(*types.Array); ok {
						T = a.Elem()
					}
					if n, _ := types.Unalias(T).(*types.Named); n != nil && n.Obj().Pkg() != nil {
						embedded[n.Obj().Pkg().Path()+"."+n.Obj().Name()] = true
					}
				}
			}
		}
	}
	ownedBy := func(typ string, th *ssa.Function) bool {
		if embedded[typ] || len(made[typ]) == 0 {
			return false
		}
		for f := range made[typ] {
			for r := range t.of[f] {
				if r != th {
					return false
				}
			}
			if len(t.of[f]) == 0 {
				return false
			}
		}
		return true
	}
	mains := map[*ssa.Function][]*access{} // main function → accesses that must not happen while a file is processed
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		base := strings.TrimSuffix(k, "[]")
		typ := base[:strings.LastIndexByte(base, '.')]
		if !shared[typ] && !atomicKey[k] {
			continue
		}
		if guarded[typ] && !atomicKey[k] {
			continue
		}
		bad := false
		for _, a := range byKey[k] {
			if a.atomic || a.fresh || bad {
				continue
			}
			for _, b := range byKey[k] {
				if b.fresh || !a.write && !b.write || bad {
					continue
				}
				for _, ta := range fnSet(t.of[a.fn]) {
					for _, tb := range fnSet(t.of[b.fn]) {
						if bad {
							break
						}
						ma, mb := t.roots[ta] == "main", t.roots[tb] == "main"
						switch {
						case ma && mb:
						case ma:
							if t.sameProgram(ta, tb) {
								mains[ta] = append(mains[ta], a)
							}
						case mb:
							if t.sameProgram(tb, ta) {
								mains[tb] = append(mains[tb], b)
							}
						case ta != tb || t.multi[ta] && !ownedBy(typ, ta):
							if ta != tb && !t.samePrograms(ta, tb) {
								continue
							}
							bad = true
							c.Bad("field", k[len(modPath)+1:], a.ins, "%s in %s, which may run (in %s) at the same time as the %s in %s (%s, in %s)", accessText(a), a.fn, short(ta), accessText(b), b.fn, c.posStr(b.ins), short(tb))
						}
					}
				}
			}
		}
		if !bad {
			c.Ok("field", k[len(modPath)+1:], byKey[k][0].ins, "")
		}
	}
	return t, mains
}

func short(f *ssa.Function) string { return strings.TrimPrefix(f.String(), modPath+"/") }

func accessText(a *access) string {
	s := "read"
	if a.write {
		s = "write"
	}
	if a.atomic {
		return "atomic " + s
	}
	return "plain " + s
}

func importsPkg(a *types.Package, b string, seen map[*types.Package]bool) bool {
	if a.Path() == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for _, x := range a.Imports() {
		if importsPkg(x, b, seen) {
			return true
		}
	}
	return false
}

// sameProgram: the function is part of the program of main.
func (t *Threads) sameProgram(main, f *ssa.Function) bool {
	return main.Pkg != nil && importsPkg(main.Pkg.Pkg, fnPkg(f), map[*types.Package]bool{})
}

func (t *Threads) samePrograms(f, g *ssa.Function) bool {
	for r, why := range t.roots {
		if why == "main" && t.sameProgram(r, f) && t.sameProgram(r, g) {
			return true
		}
	}
	return false
}

// lockedTypes lists the struct types with a lock.
func (c *Ctx) lockedTypes() []*types.Named {
	var r []*types.Named
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			S, ok := under(tn.Type()).(*types.Struct)
			n, _ := types.Unalias(tn.Type()).(*types.Named)
			if !ok || n == nil {
				continue
			}
			for i := 0; i < S.NumFields(); i++ {
				if m := namedPath(S.Field(i).Type()); m == "sync.Mutex" || m == "sync.RWMutex" {
					r = append(r, n)
					break
				}
			}
		}
	}
	return r
}

func namedPath(T types.Type) string {
	if p, ok := under(T).(*types.Pointer); ok {
		T = p.Elem()
	}
	n, _ := types.Unalias(T).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// mainTraced interprets a command's main function with its memory accesses.
func (c *Ctx) mainTraced(k *Command) []*Outcome {
	in := c.interp()
	domainHooks(in, nil)
	in.KeepPaths = true
	in.TraceMem = true
	return c.run(in, k.Main, in.SymArgs(k.Main), newState())
}

// outstanding visits the events of main with the files being processed at that point (started and not waited for).
func outstanding(evs []*Ev, open map[*Term]*Ev, f func(e *Ev, open map[*Term]*Ev)) {
	for _, e := range evs {
		if e.Loop != nil {
			before := map[*Term]*Ev{}
			for k, v := range open {
				before[k] = v
			}
			for _, it := range e.Loop.Iters {
				in := map[*Term]*Ev{}
				for k, v := range before {
					in[k] = v
				}
				outstanding(it.St.ev.list(), in, f)
				for k, v := range in {
					open[k] = v
				}
			}
			continue
		}
		f(e, open)
		switch {
		case e.Kind == "process" && e.Ret != nil:
			open[e.Ret] = e
		case e.Kind == "wait" && len(e.Args) > 0:
			delete(open, e.Args[0])
		}
	}
}

// raceCommand: the variables that the stages of a command share, and what its main function does meanwhile.
func (c *Ctx) raceCommand(t *Threads, k *Command, as []*access) {
	outs := c.mainTraced(k)
	atomics := map[*Term]bool{}
	for _, p := range pipesOf(k, outs) {
		var stages []*Stage
		for _, w := range []bool{false, true} {
			if w && !p.hasWriter() {
				continue
			}
			keepIdentity = true
			s := c.stage(p, w, func(in *Interp) { in.TraceMem = true })
			keepIdentity = false
			if s.Err != "" {
				c.Bad("stage", s.name(), s.ErrPos, "not decided: %s", s.Err)
				continue
			}
			stages = append(stages, s)
		}
		at := map[*Term]bool{}
		for _, s := range stages {
			for _, o := range s.Outs {
				eachEv(o.St.ev.list(), func(e *Ev) {
					if e.Kind == "atomic" && len(e.Args) > 0 {
						if r := rootOf(e.Args[0]); s.foreign(r) {
							at[e.Args[0]] = true
							atomics[e.Args[0]] = true
						}
					}
				})
			}
		}
		for _, s := range stages {
			c.raceStage(s, at)
		}
	}
	for _, o := range outs {
		outstanding(o.St.ev.list(), map[*Term]*Ev{}, func(e *Ev, open map[*Term]*Ev) {
			if len(open) == 0 {
				return
			}
			for _, a := range as {
				hit := e.Kind != "process" && e.Kind != "wait" && e.Fn != nil && t.reaches(e.Fn, a.fn)
				if e.Pos == a.ins.Pos() && e.Pos.IsValid() && memKind(e.Kind) {
					hit = true
				}
				c.Want(!hit, "main", k.Name, e.Pos, "%s of %s while a file is being processed", accessText(a), a.key[len(modPath)+1:])
			}
			// variables the stages know
			if !memKind(e.Kind) || e.Kind == "append" || len(e.Args) == 0 {
				return
			}
			root := rootOf(e.Args[0])
			if root.isOp("arr") {
				root = rootOf(root.Args[0])
			}
			for _, p := range open {
				if leadsTo(p.Snap, p.Args[2], root) || leadsTo(p.Snap, p.Args[3], root) {
					reads := e.Kind == "load" || e.Kind == "lookup"
					c.Want(reads && !atomics[e.Args[0]], "main", k.Name, e.Pos, "%s of a variable that the goroutines of the pipeline use, while they run", e.Kind)
				}
			}
		})
	}
	c.Ok("main", k.Name, k.Main, "")
}

func memKind(k string) bool {
	switch k {
	case "store", "copy", "mapupdate", "mapdelete", "append", "load", "lookup", "readinto":
		return true
	}
	return false
}

// foreign: the object existed before the stage was started (it is captured, or a package variable).
func (s *Stage) foreign(root *Term) bool {
	switch {
	case root.isOp("glob"):
		return true
	case root.isOp("obj"):
		return s.In.objBorn(root) <= s.ObjMark
	case root.K == KSym:
		return root.ID <= s.TermMark
	case root.isOp("load"), root.isOp("loadx"):
		return s.foreign(rootOf(root.Args[0]))
	case root.isOp("arr"), root.isOp("slice"), root.isOp("conv"), root.isOp("view"), root.isOp("cont0"):
		return s.foreign(rootOf(root.Args[0]))
	case root.isOp("select"):
		return s.foreign(rootOf(root.Args[0]))
	case root.isOp("app"), root.isOp("appS"):
		return s.foreign(rootOf(root.Args[0]))
	}
	return false
}

// memWalk follows which memory the values of a stage refer to.
type memWalk struct {
	s    *Stage
	vars map[*Term]*LoopVar
	memo map[*Term]map[*Term]bool
}

func (w *memWalk) loops(evs []*Ev) {
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, v := range e.Loop.Order {
			w.vars[v.Sym] = v
		}
		for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
			w.loops(it.St.ev.list())
		}
	}
}

// roots: the objects (and values of loop variables) whose memory the value may refer to.
func (w *memWalk) roots(t *Term) map[*Term]bool {
	if r, ok := w.memo[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.K == KInt || t == tNil:
		case t.isOp("obj"):
			r[t] = true
		case t.K == KSym:
			if !refType(t.T) {
				break
			}
			r[t] = true
			if v := w.vars[t]; v != nil {
				visit(v.Init)
				for _, n := range v.Next {
					visit(n)
				}
			}
		case t.isOp("app"):
			if len(t.Args) > 0 {
				visit(t.Args[0])
				if len(t.Args) > 1 && refType(t.Args[1].T) {
					visit(t.Args[1])
				}
			}
		case t.isOp("appS"), t.isOp("slice"), t.isOp("arr"), t.isOp("fld"), t.isOp("idx"):
			visit(t.Args[0])
		default:
			if t.T != nil && !refType(t.T) {
				break
			}
			for _, a := range t.Args {
				visit(a)
			}
		}
	}
	visit(t)
	w.memo[t] = r
	return r
}

// refType: values of the type may refer to memory.
func refType(T types.Type) bool { return refTypeIn(T, map[types.Type]bool{}) }

func refTypeIn(T types.Type, seen map[types.Type]bool) bool {
	if T == nil {
		return true
	}
	if seen[T] {
		return false
	}
	seen[T] = true
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refTypeIn(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return refTypeIn(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refTypeIn(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// deep also follows memory.
func (w *memWalk) deep(st *State, t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	cells := map[*Term][]*Term{}
	for k, v := range st.heap {
		root := rootOf(k)
		if root.isOp("arr") {
			root = rootOf(root.Args[0])
		}
		cells[root] = append(cells[root], v)
	}
	var visit func(x *Term)
	visit = func(x *Term) {
		for y := range w.roots(x) {
			if r[y] {
				continue
			}
			r[y] = true
			for _, v := range cells[y] {
				visit(v)
			}
		}
	}
	visit(t)
	return r
}

// written: the memory an event writes to.
func (w *memWalk) written(e *Ev) map[*Term]bool {
	switch e.Kind {
	case "store", "mapupdate", "mapdelete", "copy", "readinto":
		return w.roots(e.Args[0])
	case "append":
		// only a list that was cut shorter has something to overwrite
		return w.cut(e.Args[0], map[*Term]bool{})
	}
	return nil
}

// cut: the memory of a list of which a part may have been cut off, so that appending overwrites it.
func (w *memWalk) cut(t *Term, seen map[*Term]bool) map[*Term]bool {
	if seen[t] {
		return nil
	}
	seen[t] = true
	switch {
	case t.isOp("slice"):
		return w.roots(t.Args[0])
	case t.isOp("app"), t.isOp("appS"):
		return w.cut(t.Args[0], seen)
	case t.K == KSym:
		if v := w.vars[t]; v != nil {
			r := map[*Term]bool{}
			for _, n := range append([]*Term{v.Init}, v.Next...) {
				for x := range w.cut(n, seen) {
					r[x] = true
				}
			}
			return r
		}
		return w.roots(t)
	}
	return nil
}

func intersects(a, b map[*Term]bool) bool {
	for x := range a {
		if b[x] {
			return true
		}
	}
	return false
}

// heldRead is a plain read of shared memory with the locks that were held.
type heldRead struct {
	e    *Ev
	held map[*Term]bool
}

// raceStage: a stage writes only to its own memory, and no longer to what it has handed over.
func (c *Ctx) raceStage(s *Stage, at map[*Term]bool) {
	// the locks that every plain access to a shared variable holds, and the accesses that hold too few
	common := map[*Term]map[*Term]bool{}
	reads := map[*Term][]heldRead{}
	for _, o := range s.Outs {
		held := map[*Term]bool{} // the locks held, true where nobody else holds them
		w := &memWalk{s: s, vars: map[*Term]*LoopVar{}, memo: map[*Term]map[*Term]bool{}}
		w.loops(o.St.ev.list())
		var visit func(evs []*Ev)
		visit = func(evs []*Ev) {
			for _, e := range evs {
				if e.Loop != nil {
					for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
						visit(it.St.ev.list())
					}
					c.raceSent(s, w, e.Loop)
					continue
				}
				if e.Kind == "call" && strings.HasPrefix(e.Name, "(*sync.") && len(e.Args) > 0 {
					switch lock := e.Args[0]; {
					case strings.HasSuffix(e.Name, "nlock"):
						delete(held, lock)
					case !s.foreign(rootOf(lock)): // nobody else knows the lock
					case strings.HasSuffix(e.Name, ".Lock"):
						held[lock] = true
					case strings.HasSuffix(e.Name, ".RLock"):
						held[lock] = false
					}
				}
				if !memKind(e.Kind) || len(e.Args) == 0 {
					continue
				}
				if e.Kind == "load" || e.Kind == "lookup" {
					if at[e.Args[0]] {
						c.Bad("stage", s.name(), e.Pos, "plain read of a shared variable that is accessed atomically elsewhere")
					}
					if s.foreign(rootOf(e.Args[0])) {
						now := map[*Term]bool{}
						for l := range held {
							now[l] = true
						}
						reads[e.Args[0]] = append(reads[e.Args[0]], heldRead{e, now})
					}
					continue
				}
				for r := range w.written(e) {
					if !s.foreign(r) {
						continue
					}
					now := map[*Term]bool{}
					for l, alone := range held {
						if alone {
							now[l] = true
						}
					}
					c.Want(len(now) > 0, "stage", s.name(), e.Pos, "%s to memory that the stage shares with others (%v)", e.Kind, e.Args[0])
					if len(now) == 0 {
						continue
					}
					cell := e.Args[0]
					if old, seen := common[cell]; seen {
						for l := range old {
							if !now[l] {
								delete(old, l)
							}
						}
						c.Want(len(old) > 0, "stage", s.name(), e.Pos, "%s to memory that the stage shares with others (%v) under another lock than elsewhere", e.Kind, cell)
					} else {
						common[cell] = now
					}
				}
			}
		}
		visit(o.St.ev.list())
	}
	for cell, locks := range common {
		for _, r := range reads[cell] {
			ok := false
			for l := range locks {
				ok = ok || r.held[l]
			}
			c.Want(ok, "stage", s.name(), r.e.Pos, "%s of memory that other workers change under a lock (%v), without the lock", r.e.Kind, cell)
		}
	}
	c.Ok("stage", s.name(), s.Fn, "")
}

// raceSent: what a loop sends in one iteration is not written to afterwards, nor in later iterations.
func (c *Ctx) raceSent(s *Stage, w *memWalk, L *LoopInfo) {
	type sent struct {
		m  map[*Term]bool
		ev *Ev
	}
	own := func(m map[*Term]bool) map[*Term]bool {
		r := map[*Term]bool{}
		for x := range m {
			if x.isOp("obj") && !s.foreign(x) || w.vars[x] != nil {
				r[x] = true
			}
		}
		return r
	}
	var collect func(evs []*Ev, st *State) []sent
	collect = func(evs []*Ev, st *State) []sent {
		var r []sent
		for _, e := range evs {
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					r = append(r, collect(it.St.ev.list(), it.St)...)
				}
				continue
			}
			if e.Kind == "send" && len(e.Args) > 1 {
				r = append(r, sent{own(w.deep(st, e.Args[1])), e})
			}
			for _, x := range r {
				if intersects(w.written(e), x.m) {
					c.Bad("sent", s.name(), e.Pos, "%s to memory that was handed over (%s)", e.Kind, c.posStr(x.ev))
				}
			}
		}
		return r
	}
	var writes []*Ev
	for _, it := range L.Iters {
		eachEv(it.St.ev.list(), func(e *Ev) { writes = append(writes, e) })
	}
	for _, it := range L.Iters {
		for _, x := range collect(it.St.ev.list(), it.St) {
			c.Ok("sent", s.name(), x.ev.Pos, "")
			kept := map[*Term]bool{}
			for y := range x.m {
				if y.isOp("obj") && s.In.objBorn(y) <= L.ObjMark {
					kept[y] = true
				}
			}
			for _, v := range L.Order {
				if n := it.Next[v.Sym]; n != nil && intersects(own(w.roots(n)), x.m) {
					kept[v.Sym] = true
				}
			}
			if len(kept) == 0 {
				continue
			}
			for _, e := range writes {
				if intersects(w.written(e), kept) {
					c.Bad("sent", s.name(), e.Pos, "%s to memory that may have been handed over in an earlier iteration (%s)", e.Kind, c.posStr(x.ev.Pos))
				}
			}
		}
	}
}

// leadsTo: the object is reached from the value by following memory.
func leadsTo(st *State, v, root *Term) bool {
	cells := map[*Term][]*Term{}
	if st != nil {
		for k, x := range st.heap {
			r := rootOf(k)
			cells[r] = append(cells[r], x)
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == root {
			return true
		}
		for _, x := range cells[t] {
			if visit(x) {
				return true
			}
		}
		for _, a := range t.Args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// ---- the list of workers ----

// raceLocked: the methods of a type with a lock use its other fields only while they hold it.
func (c *Ctx) raceLocked() {
	n := 0
	for _, T := range c.lockedTypes() {
		for _, f := range c.P.Funcs() {
			r := f.Signature.Recv()
			if r == nil || f.Parent() != nil || !types.Identical(deref(r.Type()), T) || !token.IsExported(f.Name()) {
				continue
			}
			n++
			f := f
			c.Try("lock", T.Obj().Name()+"."+f.Name(), f, func() { c.lockedMethod(T, f) })
		}
	}
	if n == 0 {
		c.Bad("lock", "types", nil, "no type with a lock was found")
	}
	// nobody else uses the fields
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, T := range c.lockedTypes() {
					if types.Identical(deref(fa.X.Type()), T) {
						top := f
						for top.Parent() != nil {
							top = top.Parent()
						}
						own := fnPkg(f) == T.Obj().Pkg().Path()
						c.Want(own, "lock", T.Obj().Name()+" field in "+short(f), fa, "a field of a type with a lock is used outside its package")
					}
				}
			}
		}
	}
}

func (c *Ctx) lockedMethod(T *types.Named, f *ssa.Function) {
	in := c.interp()
	in.TraceMem = true
	in.AtomicMem = true
	in.KeepPaths = true
	S := under(T).(*types.Struct)
	args := in.SymArgs(f)
	self := args[0]
	name := T.Obj().Name() + "." + f.Name()
	mark := termCount
	keepIdentity = true
	outs := c.run(in, f, args, newState())
	keepIdentity = false
	s := &Stage{In: in, TermMark: mark, ObjMark: objCount}
	_ = s
	// field of the object an address belongs to: -1 none
	fieldOf := func(a *Term) (int, bool) {
		for {
			switch {
			case a.isOp("fld") && a.Args[0] == self:
				return atoi(a.S), true
			case a.isOp("fld"), a.isOp("idx"), a.isOp("arr"), a.isOp("load"), a.isOp("loadx"), a.isOp("slice"), a.isOp("cont0"), a.isOp("app"), a.isOp("appS"):
				a = a.Args[0]
			default:
				return 0, false
			}
		}
	}
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		const (
			none = iota
			shared
			full
		)
		held, changed, bumped := none, false, false
		loops := map[*Term]*LoopVar{}
		w := &memWalk{s: &Stage{In: in}, vars: loops, memo: map[*Term]map[*Term]bool{}}
		w.loops(o.St.ev.list())
		var walk func(evs []*Ev)
		walk = func(evs []*Ev) {
			for _, e := range evs {
				if e.Loop != nil {
					h := held
					for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
						held = h
						walk(it.St.ev.list())
						c.Want(held == h || len(e.Loop.Iters) == 0, "lock", name, e.Pos, "the lock is taken or released in a loop")
					}
					held = h
					continue
				}
				switch {
				case e.Kind == "call" && (e.Name == "(*sync.RWMutex).Lock" || e.Name == "(*sync.Mutex).Lock"):
					c.Want(held == none, "lock", name, e.Pos, "the lock is taken twice")
					held = full
					continue
				case e.Kind == "call" && e.Name == "(*sync.RWMutex).RLock":
					c.Want(held == none, "lock", name, e.Pos, "the lock is taken twice")
					held = shared
					continue
				case e.Kind == "call" && (e.Name == "(*sync.RWMutex).Unlock" || e.Name == "(*sync.Mutex).Unlock"):
					c.Want(held == full, "lock", name, e.Pos, "the lock is released but not held for writing")
					held = none
					continue
				case e.Kind == "call" && e.Name == "(*sync.RWMutex).RUnlock":
					c.Want(held == shared, "lock", name, e.Pos, "the lock is released but not held for reading")
					held = none
					continue
				case e.Kind == "atomic" && len(e.Args) > 1:
					if _, ok := fieldOf(e.Args[0]); ok && strings.Contains(e.Name, "Add") {
						c.Want(e.Args[1].K == KInt && e.Args[1].I != 0, "lock", name, e.Pos, "the version does not change")
						if changed {
							bumped = true
						} else if held == none {
							bumped = false
						} else {
							bumped = true
						}
					} else if ok && strings.Contains(e.Name, "Store") {
						c.Want(held == full, "lock", name, e.Pos, "the version is replaced while others may replace it, too")
						bumped = true
					}
					continue
				}
				if !memKind(e.Kind) || len(e.Args) == 0 {
					continue
				}
				i, ok := fieldOf(e.Args[0])
				if !ok || isSyncType(S.Field(i).Type()) {
					continue
				}
				wr := e.Kind != "load" && e.Kind != "lookup"
				if e.Kind == "append" {
					continue // an update of the field follows, or a write through a cut list
				}
				c.Want(held == full || !wr && held == shared, "lock", name, e.Pos, "%s of %s without holding the lock", e.Kind, S.Field(i).Name())
				if wr {
					changed = true
					bumped = false
				}
			}
		}
		walk(o.St.ev.list())
		c.Want(held == none, "lock", name, o.Pos, "the lock is still held on return")
		c.Want(!changed || bumped, "lock", name+" version", o.Pos, "the list may change without a change of the version afterwards")
		for _, r := range o.Rets {
			if !refType(r.T) {
				continue
			}
			shares := false
			var list func(t *Term, seen map[*Term]bool)
			list = func(t *Term, seen map[*Term]bool) {
				if seen[t] {
					return
				}
				seen[t] = true
				switch {
				case t.isOp("load"), t.isOp("loadx"):
					if _, ok := fieldOf(t); ok {
						shares = true
					}
				case t.isOp("slice"), t.isOp("app"), t.isOp("appS"), t.isOp("arr"):
					list(t.Args[0], seen)
				case t.K == KSym:
					if v := loops[t]; v != nil {
						for _, n := range append([]*Term{v.Init}, v.Next...) {
							list(n, seen)
						}
					}
				}
			}
			list(r, map[*Term]bool{})
			c.Want(!shares, "lock", name+" result", o.Pos, "the list itself is returned, which changes when the lock is released")
		}
	}
}

// ---- package variables ----

// raceGlobals: package variables are set up before main runs, and not changed afterwards.
func (c *Ctx) raceGlobals(t *Threads) {
	n := 0
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 20 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X, d+1)
		case *ssa.IndexAddr:
			return root(x.X, d+1)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return root(x.X, d+1)
			}
		case *ssa.Slice:
			return root(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if g := root(e, d+1); g != nil {
					return g
				}
			}
		case *ssa.ChangeType:
			return root(x.X, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return root(x.Call.Args[0], d+1)
			}
		}
		return nil
	}
	for _, f := range c.P.Funcs() {
		if len(t.of[f]) == 0 {
			continue // only run by package initialisation, or not at all
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var g *ssa.Global
				switch x := ins.(type) {
				case *ssa.Store:
					g = root(x.Addr, 0)
				case *ssa.MapUpdate:
					g = root(x.Map, 0)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "delete" || bi.Name() == "clear") {
						g = root(x.Call.Args[0], 0)
					}
				}
				if g == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
					continue
				}
				only := true
				for r := range t.of[f] {
					only = only && t.roots[r] == "main"
				}
				c.Want(only, "global", g.Name()+" in "+short(f), ins, "the package variable is changed by code that several goroutines may run")
			}
		}
	}
	for _, sp := range c.P.SSA {
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
					n++
					c.Ok("global", strings.TrimPrefix(sp.Pkg.Path(), modPath+"/")+"."+g.Name(), g.Pos(), "")
				}
			}
		}
	}
}

// ---- variables captured by goroutines ----

// blocking: the instruction waits for other goroutines.
func blocking(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && g.String() == "(*sync.WaitGroup).Wait"
	}
	return false
}

// raceCaptured: a variable that a goroutine captures is not written by one side while the other uses it.
func (c *Ctx) raceCaptured() {
	n := 0
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				var vars []ssa.Value // addresses given to the goroutine
				var inner []ssa.Value
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					fn, _ := mc.Fn.(*ssa.Function)
					for i, x := range mc.Bindings {
						if fn != nil && i < len(fn.FreeVars) {
							vars = append(vars, x)
							inner = append(inner, fn.FreeVars[i])
						}
					}
				}
				if fn := g.Call.StaticCallee(); fn != nil {
					for i, a := range g.Call.Args {
						if i < len(fn.Params) {
							vars = append(vars, a)
							inner = append(inner, fn.Params[i])
						}
					}
				}
				for i, v := range vars {
					if _, ok := under(v.Type()).(*types.Pointer); !ok || isSyncType(deref(v.Type())) {
						continue
					}
					if n, _ := types.Unalias(deref(v.Type())).(*types.Named); n != nil {
						if _, ok := n.Underlying().(*types.Struct); ok && strings.HasPrefix(namedPath(n), modPath) {
							continue // decided field by field
						}
					}
					a, ok := v.(*ssa.Alloc)
					if !ok {
						continue
					}
					ir, iw := cellUses(inner[i], 0)
					multi := inLoop(b) && !(inLoop(a.Block()) && a.Block().Dominates(b) && !beforeWithoutAny(g, g, a))
					name := fmt.Sprintf("%s in %s", a.Comment, short(f))
					ok2 := true
					if multi && len(iw) > 0 {
						ok2 = false
						c.Bad("captured", name, iw[0], "several goroutines write to the variable %s", a.Comment)
					}
					// other goroutines that know the variable
					outer, outerW := cellUses(a, 0)
					for _, u := range outer {
						isW := false
						for _, x := range outerW {
							isW = isW || x == u
						}
						if !isW && len(iw) == 0 {
							continue
						}
						inGo := false
						for _, x := range append(append([]ssa.Instruction{}, ir...), iw...) {
							inGo = inGo || x == u
						}
						if inGo {
							continue
						}
						if u.Parent() == f {
							if !mayPrecede(g, u) || waitedFor(g, u) {
								continue
							}
						}
						ok2 = false
						c.Bad("captured", name, u, "the variable %s is used while a goroutine started earlier may use it, and one of them writes to it", a.Comment)
						break
					}
					if ok2 {
						c.Ok("captured", name, a, "")
					}
				}
				c.Ok("captured", "goroutine in "+short(f), g, "")
			}
		}
	}
	c.Min("captured", 4)
}

func beforeWithoutAny(a, b, d ssa.Instruction) bool { return beforeWithout(a, b, d) }

// waitedFor: every way from the go statement to the instruction passes an instruction that waits.
func waitedFor(g *ssa.Go, u ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	found := false
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == u {
				found = true
				return
			}
			if blocking(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				scan(s, 0)
			}
		}
	}
	at := 0
	for i, x := range g.Block().Instrs {
		if x == ssa.Instruction(g) {
			at = i + 1
		}
	}
	scan(g.Block(), at)
	return !found
}

// cellUses lists the plain reads and writes (all uses, and the writes among them) of a variable, in closures as well.
func cellUses(v ssa.Value, d int) (uses, writes []ssa.Instruction) {
	if v.Referrers() == nil || d > 6 {
		return
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				uses = append(uses, r)
			}
		case *ssa.Store:
			if x.Addr == v {
				uses = append(uses, r)
				writes = append(writes, r)
			}
		case *ssa.FieldAddr:
			u, w := cellUses(x, d+1)
			uses, writes = append(uses, u...), append(writes, w...)
		case *ssa.IndexAddr:
			u, w := cellUses(x, d+1)
			uses, writes = append(uses, u...), append(writes, w...)
		case *ssa.MakeClosure:
			f, _ := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && f != nil && i < len(f.FreeVars) {
					u, w := cellUses(f.FreeVars[i], d+1)
					uses, writes = append(uses, u...), append(writes, w...)
				}
			}
		}
	}
	return
}

func init() {
	register("C31", "five analyses over the whole program. (1) field accesses: every access to a field of a type that several goroutines can know (what the display is given, what stages capture, package variables, and every field that is accessed atomically anywhere) is classified as atomic or plain, read or write, and as fresh where escape analysis shows that nobody else knows the object yet; the goroutines that may execute each function come from the call graph (go statements, functions used as values, methods called by the display); two accesses from goroutines that can overlap, of which one writes and one is plain, are a violation. (2) lock discipline of the list of workers, over every interpreted path: the list is read or written only with the lock held (for writing, exclusively), the lock is released on return, the list itself is not returned, and every update is followed by a change of the version. (3) package variables are not changed by code that goroutines run. (4) variables captured by go statements and by the stages of the pipelines: the stages write only to memory of their own unless atomically, or under a lock that they share and that every access to that memory holds, and the main function does not touch such variables until it has waited. (5) hand-over: what a stage has sent is not written to afterwards, nor in later iterations", checkC31,
		"values sent over a channel belong to the receiver", "atomic operations, locks, channels and WaitGroups synchronise as documented", "functions of other packages do not access the repository's fields except through what they are given", "the functions that show the display run in one goroutine")
}

func checkC31(c *Ctx) {
	t, mains := c.raceFields()
	c.raceLocked()
	c.raceGlobals(t)
	c.raceCaptured()
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("main", k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		if len(k.Pipe) > 0 {
			c.Try("main", k.Name, k.Main, func() { c.raceCommand(t, k, mains[k.Main]) })
		}
	}
}
