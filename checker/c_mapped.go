package main

// C23: memory of mapped input files is never written.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "whole-program taint analysis over the SSA form (flow-insensitive; field-, element-, channel- and interface-type-based heap; local variables and struct values tracked field by field): the sources are the results of every mapping call that is not a writable mapping of a file the program has created; taint flows through slices, views, interfaces, structs, channels, closures, calls and decoders. Rejected are stores, copies and appends into such memory and its use by any function outside the repository that is not known to only read it, and every writable mapping whose file is not known to have been created for output",
		func(c *Ctx) {
			m := &mapTaint{c: c, taint: map[ssa.Value]paths{}, heap: map[string]paths{}, local: map[*ssa.Alloc]paths{}, rets: map[*ssa.Function]paths{}, priv: map[*ssa.Alloc]bool{}, links: map[string]map[string]bool{}, views: map[*ssa.Function]bool{}}
			m.run()
			put, get := c.need("pool", "internal/pool.(*ByteSlicePool).Put"), c.need("pool", "internal/pool.(*ByteSlicePool).Get")
			if put != nil && get != nil {
				c.poolItself(put, get)
			}
			c.borrowedRaw()
		}, "the listed library functions only read what they are given", "only memory taken from the pool is put back into it (decided with C22)")
}

// paths says which parts of a value refer to mapped memory: "" the value itself, "2." the third field, "#T." the
// dynamic value of type T in an interface.
type paths map[string]bool

type mapTaint struct {
	c     *Ctx
	taint map[ssa.Value]paths
	heap  map[string]paths
	local map[*ssa.Alloc]paths
	rets  map[*ssa.Function]paths
	priv  map[*ssa.Alloc]bool
	links map[string]map[string]bool
	views map[*ssa.Function]bool
	funcs []*ssa.Function
	cands []*ssa.Function // functions used as values
	impls map[string][]*ssa.Function
	calls map[*ssa.Function][]ssa.CallInstruction
	dirty bool
	n     int
}

func (m *mapTaint) set(v ssa.Value, ps paths) {
	t := m.taint[v]
	for p := range ps {
		if !t[p] {
			if t == nil {
				t = paths{}
				m.taint[v] = t
			}
			t[p] = true
			m.dirty = true
		}
	}
}

func (p paths) under(prefix string) paths {
	var r paths
	for x := range p {
		if strings.HasPrefix(x, prefix) {
			if r == nil {
				r = paths{}
			}
			r[x[len(prefix):]] = true
		}
	}
	return r
}

func (p paths) in(prefix string) paths {
	var r paths
	for x := range p {
		if r == nil {
			r = paths{}
		}
		r[prefix+x] = true
	}
	return r
}

func (p paths) any() bool { return len(p) > 0 }

// whole: the value itself, or the value in the interface, is mapped memory.
func (p paths) whole() bool {
	for x := range p {
		if x == "" || strings.HasPrefix(x, "#") && strings.HasSuffix(x, "|.") && strings.Count(x, "|.") == 1 {
			return true
		}
	}
	return false
}

func ifaceKey(T types.Type) string { return "#" + T.String() + "|." }

func memTypeKey(T types.Type) string { return "T:" + T.String() }

// elemKey is for the elements of slices, arrays, maps and channels; memTypeKey for what other pointers refer to.
func elemKey(T types.Type) string { return "E:" + T.String() }

func memFieldKey(S types.Type, i int) string { return "F:" + S.String() + "." + strconv.Itoa(i) }

func pointedTo(T types.Type) types.Type {
	if p, ok := under(T).(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

type mloc struct {
	alloc *ssa.Alloc
	path  string
	key   string
}

// direct: the address is only used to read and write.
func (m *mapTaint) direct(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.FieldAddr:
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// where is the location an address refers to.
func (m *mapTaint) where(addr ssa.Value) mloc {
	switch a := addr.(type) {
	case *ssa.Alloc:
		if m.private(a) {
			return mloc{alloc: a}
		}
	case *ssa.FieldAddr:
		l := m.where(a.X)
		if l.alloc != nil {
			l.path += strconv.Itoa(a.Field) + "."
			return l
		}
		k := memFieldKey(pointedTo(a.X.Type()), a.Field)
		if !m.direct(a) {
			m.link(k, memTypeKey(pointedTo(a.Type())))
		}
		return mloc{key: k}
	case *ssa.IndexAddr:
		if _, ok := under(a.X.Type()).(*types.Pointer); ok {
			if l := m.where(a.X); l.alloc != nil {
				return l
			}
		}
		T := pointedTo(a.Type())
		if !m.direct(a) {
			m.link(elemKey(T), memTypeKey(T))
		}
		return mloc{key: elemKey(T)}
	case *ssa.FreeVar:
		if b := m.bound(a); b != nil && m.private(b) {
			return mloc{alloc: b}
		}
	case *ssa.ChangeType:
		return m.where(a.X)
	}
	return mloc{key: memTypeKey(pointedTo(addr.Type()))}
}

// bound is the variable a captured variable refers to.
func (m *mapTaint) bound(v *ssa.FreeVar) *ssa.Alloc {
	f := v.Parent()
	i := -1
	for j, x := range f.FreeVars {
		if x == v {
			i = j
		}
	}
	if f.Parent() == nil || i < 0 {
		return nil
	}
	var r ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				if r != nil && r != mc.Bindings[i] {
					return nil
				}
				r = mc.Bindings[i]
			}
		}
	}
	switch r := r.(type) {
	case *ssa.Alloc:
		return r
	case *ssa.FreeVar:
		return m.bound(r)
	}
	return nil
}

// private: the address of the variable is only used to read, write and capture it.
func (m *mapTaint) private(a *ssa.Alloc) bool {
	if r, ok := m.priv[a]; ok {
		return r
	}
	var addr func(v ssa.Value) bool
	addr = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Convert: // a view: see call
				if !isUnsafe(r.Type()) {
					return false
				}
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !addr(r) {
					return false
				}
			case *ssa.IndexAddr:
				if r.X != v || !addr(r) {
					return false
				}
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				if f.Synthetic != "" {
					return false
				}
				for i, b := range r.Bindings {
					if b == v && (m.bound(f.FreeVars[i]) == nil || !addr(f.FreeVars[i])) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r := addr(a)
	m.priv[a] = r
	return r
}

func (m *mapTaint) load(l mloc, T types.Type) paths {
	if l.alloc != nil {
		return m.local[l.alloc].under(l.path)
	}
	if strings.HasPrefix(l.key, "F:") {
		switch u := under(T).(type) {
		case *types.Struct, *types.Array:
			_ = u
		default:
			return m.linked(l.key)
		}
	}
	switch u := under(T).(type) {
	case *types.Struct:
		r := paths{}
		for i := 0; i < u.NumFields(); i++ {
			for p := range m.load(mloc{key: memFieldKey(T, i)}, u.Field(i).Type()) {
				r[strconv.Itoa(i)+"."+p] = true
			}
		}
		return r
	case *types.Array:
		return m.load(mloc{key: elemKey(u.Elem())}, u.Elem())
	}
	return m.linked(l.key)
}

// linked is what is kept at a location and, if its address is passed around, at those a pointer may mean.
func (m *mapTaint) linked(key string) paths {
	r := m.heap[key]
	if len(m.links[key]) == 0 {
		return r
	}
	u := paths{}
	for p := range r {
		u[p] = true
	}
	for k := range m.links[key] {
		for p := range m.heap[k] {
			u[p] = true
		}
	}
	return u
}

func (m *mapTaint) link(a, b string) {
	for i := 0; i < 2; i++ {
		if m.links[a] == nil {
			m.links[a] = map[string]bool{}
		}
		if !m.links[a][b] {
			m.dirty = true
		}
		m.links[a][b] = true
		a, b = b, a
	}
}

func (m *mapTaint) store(l mloc, T types.Type, ps paths) {
	if !ps.any() {
		return
	}
	if l.alloc != nil {
		t := m.local[l.alloc]
		if t == nil {
			t = paths{}
			m.local[l.alloc] = t
		}
		for p := range ps {
			if !t[l.path+p] {
				t[l.path+p] = true
				m.dirty = true
			}
		}
		return
	}
	switch u := under(T).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.store(mloc{key: memFieldKey(T, i)}, u.Field(i).Type(), ps.under(strconv.Itoa(i)+"."))
		}
		return
	case *types.Array:
		m.store(mloc{key: elemKey(u.Elem())}, u.Elem(), ps)
		return
	}
	t := m.heap[l.key]
	if t == nil {
		t = paths{}
		m.heap[l.key] = t
	}
	for p := range ps {
		if !t[p] {
			t[p] = true
			m.dirty = true
		}
	}
}

// read: parts of what is read at an address.
func (m *mapTaint) read(addr ssa.Value) paths {
	if m.taint[addr][""] {
		return nil // the file has no references
	}
	return m.load(m.where(addr), pointedTo(addr.Type()))
}

func isUnsafe(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isRef(T types.Type) bool {
	switch u := under(T).(type) {
	case *types.Slice, *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	}
	return false
}

func (m *mapTaint) run() {
	const rule = "input mappings"
	c := m.c
	m.funcs = c.P.Funcs()
	m.impls = map[string][]*ssa.Function{}
	m.calls = map[*ssa.Function][]ssa.CallInstruction{}
	seen := map[*ssa.Function]bool{}
	for _, f := range m.funcs {
		if f.Signature.Recv() != nil && f.Parent() == nil {
			m.impls[f.Name()] = append(m.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var cc *ssa.CallCommon
				if ci, ok := ins.(ssa.CallInstruction); ok {
					cc = ci.Common()
				}
				if cv, ok := ins.(*ssa.Convert); ok && (isUnsafe(cv.Type()) || isUnsafe(cv.X.Type())) {
					m.views[f] = true
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					g := funcOf(*op)
					if g == nil || seen[g] {
						continue
					}
					if cc != nil && cc.Value == *op {
						as := false
						for _, a := range cc.Args {
							as = as || a == *op
						}
						if !as {
							continue
						}
					}
					seen[g] = true
					m.cands = append(m.cands, g)
				}
			}
		}
	}
	for _, f := range m.funcs {
		for _, ci := range callsIn(f) {
			for _, t := range m.callees(ci) {
				m.calls[t.fn] = append(m.calls[t.fn], ci)
			}
		}
	}
	nsrc := 0
	for _, f := range m.funcs {
		for _, ci := range callsIn(f) {
			if m.mapping(ci) {
				nsrc++
			}
		}
	}
	c.Want(nsrc >= 1, rule, "mapping calls", nil, "no call maps a file")
	for i := 0; ; i++ {
		m.dirty = false
		for _, f := range m.funcs {
			m.flow(f)
		}
		if !m.dirty {
			break
		}
		if i > 500 {
			c.Bad(rule, "analysis", nil, "not decided: no fixpoint")
			return
		}
	}
	for _, f := range m.funcs {
		m.sinks(f)
	}
	if os.Getenv("OSMCHECK_DEBUG") != "" {
		for k, v := range m.heap {
			fmt.Println("heap", k, v)
		}
		for k, v := range m.links {
			fmt.Println("link", k, v)
		}
	}
	// the analysis sees the memory it is about
	n := 0
	byPkg := map[string]int{}
	for v := range m.taint {
		if f := v.Parent(); f != nil {
			n++
			byPkg[fnPkg(f)]++
		}
	}
	c.Count("values that refer to mapped memory", n)
	c.Count("functions", len(m.funcs))
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		c.Ok(rule, "package "+p, nil, "%d values refer to mapped memory, none is written through", byPkg[p])
	}
	for _, w := range []string{"internal/pbf", "internal/pb", "internal/t", "internal/nodeindex", "internal/wayindex"} {
		found := false
		for _, p := range pk {
			found = found || strings.HasSuffix(p, w)
		}
		c.Want(found, rule, "reach "+w, nil, "not decided: no value of the package was found to refer to mapped memory")
	}
}

func callsIn(f *ssa.Function) (r []ssa.CallInstruction) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				r = append(r, ci)
			}
		}
	}
	return r
}

type mtarget struct {
	fn   *ssa.Function
	args []ssa.Value
}

// callees lists the functions of the repository a call may run, with their arguments.
func (m *mapTaint) callees(ci ssa.CallInstruction) (r []mtarget) {
	cc := ci.Common()
	if cc.IsInvoke() {
		I, _ := under(cc.Value.Type()).(*types.Interface)
		for _, f := range m.impls[cc.Method.Name()] {
			T := f.Signature.Recv().Type()
			if I != nil && (types.Implements(T, I) || types.Implements(types.NewPointer(T), I)) {
				r = append(r, mtarget{f, append([]ssa.Value{nil}, cc.Args...)})
			}
		}
		return r
	}
	if f := cc.StaticCallee(); f != nil {
		g := m.c.P.unbound(f)
		if !m.c.P.repo(g) || len(g.Blocks) == 0 {
			return nil
		}
		args := cc.Args
		if g != f {
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				args = append(append([]ssa.Value{}, mc.Bindings...), args...)
			}
		}
		return []mtarget{{g, args}}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	sg := cc.Signature()
	for _, f := range m.cands {
		if !types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())) {
			continue
		}
		g := m.c.P.unbound(f)
		if !m.c.P.repo(g) || len(g.Blocks) == 0 {
			continue
		}
		args := cc.Args
		if g != f {
			args = append([]ssa.Value{nil}, args...)
		}
		r = append(r, mtarget{g, args})
	}
	return r
}

func extName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

// mapping judges a mapping call and reports whether there is one.
func (m *mapTaint) mapping(ci ssa.CallInstruction) bool {
	const rule = "input mappings"
	cc := ci.Common()
	name := extName(cc)
	prot, file, write := -1, 0, int64(0)
	switch {
	case name == "github.com/edsrzf/mmap-go.Map":
		prot, write = 1, 2|4 // RDWR, COPY
	case name == "github.com/edsrzf/mmap-go.MapRegion":
		prot, write = 2, 2|4
	case strings.HasSuffix(name, ".Mmap") && !m.c.P.repo(cc.StaticCallee()):
		prot, write = 3, 2
	default:
		return false
	}
	call, _ := ci.(*ssa.Call)
	fn := ci.Parent()
	what := fmt.Sprintf("mapping in %s", fnName(fn))
	if call == nil || prot >= len(cc.Args) {
		m.c.Bad(rule, what, ci.Pos(), "not decided: the result of the mapping is not used in an ordinary way")
		return true
	}
	ro, known := true, true
	m.origins(cc.Args[prot], map[ssa.Value]bool{}, func(v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			known = false
			return
		}
		x, _ := constant.Int64Val(constant.ToInt(k.Value))
		if x&write != 0 {
			ro = false
		}
	})
	if known && ro {
		m.c.Ok(rule, what, ci.Pos(), "the mapping is read-only")
	} else {
		why := ""
		n := 0
		m.origins(cc.Args[file], map[ssa.Value]bool{}, func(v ssa.Value) {
			n++
			if w := m.created(v); w != "" {
				why = w
			}
		})
		m.c.Want(why == "", rule, what, ci.Pos(), "the mapping is not read-only, and its file is not always one that was created for output (%s)", why)
		if why == "" {
			return true // not an input
		}
	}
	m.set(call, paths{"0.": true})
	if _, ok := call.Type().(*types.Tuple); !ok {
		m.set(call, paths{"": true})
	}
	return true
}

// origins visits the values a value may come from: through parameters, results and variables.
func (m *mapTaint) origins(v ssa.Value, seen map[ssa.Value]bool, visit func(ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.origins(e, seen, visit)
		}
		return
	case *ssa.ChangeType:
		m.origins(x.X, seen, visit)
		return
	case *ssa.Convert:
		m.origins(x.X, seen, visit)
		return
	case *ssa.Parameter:
		i := -1
		for j, p := range x.Parent().Params {
			if p == x {
				i = j
			}
		}
		for _, ci := range m.calls[x.Parent()] {
			for _, t := range m.callees(ci) {
				if t.fn == x.Parent() && i < len(t.args) && t.args[i] != nil {
					m.origins(t.args[i], seen, visit)
				} else if t.fn == x.Parent() {
					visit(x)
				}
			}
		}
		return // without callers it is never executed
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && m.private(a) {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					m.origins(s.Val, seen, visit)
				} else if _, ok := r.(*ssa.MakeClosure); ok {
					visit(x)
				}
			}
			return
		}
	case *ssa.Extract, *ssa.Call:
		call, ok := v.(*ssa.Call)
		i := 0
		if e, is := v.(*ssa.Extract); is {
			call, ok = e.Tuple.(*ssa.Call)
			i = e.Index
		}
		if ok {
			ts := m.callees(call)
			if len(ts) > 0 {
				for _, t := range ts {
					for _, b := range t.fn.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
							m.origins(r.Results[i], seen, visit)
						}
					}
				}
				return
			}
			visit(call)
			return
		}
	}
	visit(v)
}

// created says why a value is not a file that was created.
func (m *mapTaint) created(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return ""
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return "it comes from " + v.String()
	}
	switch name := extName(call.Common()); name {
	case "os.Create":
		return ""
	case "os.OpenFile":
		if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
			x, _ := constant.Int64Val(constant.ToInt(k.Value))
			if x&0x40 != 0 && x&(0x80|0x200) != 0 { // O_CREAT with O_EXCL or O_TRUNC
				return ""
			}
		}
		return "it is opened without being created"
	default:
		return "it comes from " + name
	}
}

// flow propagates once through a function.
func (m *mapTaint) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					m.set(x, m.taint[e])
				}
			case *ssa.ChangeType:
				m.set(x, m.taint[x.X])
			case *ssa.ChangeInterface:
				m.set(x, m.taint[x.X])
			case *ssa.Convert:
				if isRef(x.Type()) && isRef(x.X.Type()) {
					m.set(x, m.taint[x.X])
				}
			case *ssa.SliceToArrayPointer:
				m.set(x, m.taint[x.X])
			case *ssa.MakeInterface:
				m.set(x, m.taint[x.X].in(ifaceKey(x.X.Type())))
			case *ssa.TypeAssert:
				var ps paths
				if types.IsInterface(x.AssertedType) {
					ps = m.taint[x.X]
				} else {
					ps = m.taint[x.X].under(ifaceKey(x.AssertedType))
				}
				if x.CommaOk {
					ps = ps.in("0.")
				}
				m.set(x, ps)
			case *ssa.Extract:
				m.set(x, m.taint[x.Tuple].under(strconv.Itoa(x.Index)+"."))
			case *ssa.Field:
				m.set(x, m.taint[x.X].under(strconv.Itoa(x.Field)+"."))
			case *ssa.Index:
				if _, ok := under(x.X.Type()).(*types.Array); ok {
					m.set(x, m.taint[x.X])
				}
			case *ssa.FieldAddr:
				if m.taint[x.X][""] {
					m.set(x, paths{"": true})
				}
			case *ssa.IndexAddr:
				if m.taint[x.X][""] {
					m.set(x, paths{"": true})
				}
			case *ssa.Slice:
				if m.taint[x.X][""] && isRef(x.Type()) {
					m.set(x, paths{"": true})
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					m.set(x, m.read(x.X))
				case token.ARROW:
					E := under(x.X.Type()).(*types.Chan).Elem()
					ps := m.load(mloc{key: elemKey(E)}, E)
					if x.CommaOk {
						ps = ps.in("0.")
					}
					m.set(x, ps)
				}
			case *ssa.Store:
				if !m.taint[x.Addr][""] {
					m.store(m.where(x.Addr), x.Val.Type(), m.taint[x.Val])
				}
			case *ssa.Send:
				E := under(x.Chan.Type()).(*types.Chan).Elem()
				m.store(mloc{key: elemKey(E)}, E, m.taint[x.X])
			case *ssa.Select:
				k := 2
				for _, s := range x.States {
					E := under(s.Chan.Type()).(*types.Chan).Elem()
					if s.Dir == types.SendOnly {
						m.store(mloc{key: elemKey(E)}, E, m.taint[s.Send])
					} else {
						m.set(x, m.load(mloc{key: elemKey(E)}, E).in(strconv.Itoa(k)+"."))
						k++
					}
				}
			case *ssa.MapUpdate:
				M := under(x.Map.Type()).(*types.Map)
				m.store(mloc{key: elemKey(M.Elem())}, M.Elem(), m.taint[x.Value])
				m.store(mloc{key: elemKey(M.Key())}, M.Key(), m.taint[x.Key])
			case *ssa.Lookup:
				if M, ok := under(x.X.Type()).(*types.Map); ok {
					ps := m.load(mloc{key: elemKey(M.Elem())}, M.Elem())
					if x.CommaOk {
						ps = ps.in("0.")
					}
					m.set(x, ps)
				}
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					if M, ok := under(r.X.Type()).(*types.Map); ok {
						m.set(x, m.load(mloc{key: elemKey(M.Key())}, M.Key()).in("1."))
						m.set(x, m.load(mloc{key: elemKey(M.Elem())}, M.Elem()).in("2."))
					}
				}
			case *ssa.MakeClosure:
				if g, ok := x.Fn.(*ssa.Function); ok {
					if u := m.c.P.unbound(g); u != g {
						for i, v := range x.Bindings {
							if i < len(u.Params) {
								m.set(u.Params[i], m.taint[v])
							}
						}
					} else {
						for i, v := range x.Bindings {
							m.set(g.FreeVars[i], m.taint[v])
						}
					}
				}
			case *ssa.Return:
				t := m.rets[f]
				for i, v := range x.Results {
					ps := m.taint[v]
					if len(x.Results) > 1 {
						ps = ps.in(strconv.Itoa(i) + ".")
					}
					for p := range ps {
						if t == nil {
							t = paths{}
							m.rets[f] = t
						}
						if !t[p] {
							t[p] = true
							m.dirty = true
						}
					}
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				m.call(ci)
			}
		}
	}
}

func (m *mapTaint) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	v := ci.Value()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if v == nil {
			return
		}
		switch bi.Name() {
		case "append":
			m.set(v, m.taint[cc.Args[0]])
		case "min", "max":
		default:
			if len(cc.Args) > 0 && isRef(v.Type()) {
				for _, a := range cc.Args {
					m.set(v, m.taint[a])
				}
			}
		}
		return
	}
	ts := m.callees(ci)
	for _, t := range ts {
		given := false
		for i, a := range t.args {
			if a == nil || i >= len(t.fn.Params) {
				continue
			}
			m.set(t.fn.Params[i], m.taint[a])
			given = given || m.taint[a].whole()
		}
		if m.views[t.fn] {
			// a view refers to the memory it is made from
			if !given {
				continue
			}
			for i, a := range t.args {
				if a == nil || i >= len(t.fn.Params) {
					continue
				}
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if p, ok := under(a.Type()).(*types.Pointer); ok {
					if _, ok := under(p.Elem()).(*types.Slice); ok && !m.taint[a][""] {
						m.store(m.where(a), p.Elem(), paths{"": true})
					}
				}
			}
			if v != nil {
				if tu, ok := v.Type().(*types.Tuple); ok {
					for i := 0; i < tu.Len(); i++ {
						if isRef(tu.At(i).Type()) {
							m.set(v, paths{strconv.Itoa(i) + ".": true})
						}
					}
				} else if isRef(v.Type()) {
					m.set(v, paths{"": true})
				}
			}
			continue
		}
		if v != nil {
			m.set(v, m.rets[t.fn])
		}
	}
	if len(ts) > 0 || v == nil {
		return
	}
	// functions of other packages: what they return may be part of what they are given
	any := false
	for _, a := range m.given(cc) {
		any = any || m.taint[a].any()
	}
	if !any || m.c.copies(extName(cc)) {
		return
	}
	if tu, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if isRef(tu.At(i).Type()) {
				m.set(v, paths{strconv.Itoa(i) + ".": true})
			}
		}
	} else if isRef(v.Type()) {
		m.set(v, paths{"": true})
	}
}

// given lists all values a call of an external function is given.
func (m *mapTaint) given(cc *ssa.CallCommon) []ssa.Value {
	var r []ssa.Value
	if cc.IsInvoke() {
		r = append(r, cc.Value)
	}
	return append(r, cc.Args...)
}

// copies: functions that hand back none of the memory they are given.
func (c *Ctx) copies(name string) bool {
	for _, p := range []string{"fmt.", "io.ReadAll", "io/ioutil.ReadAll", "compress/", "errors.", "strings.", "strconv.", "(*sync.Pool)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// reads: the function only reads the memory of its i-th argument (receivers count).
func reads(name string, i int) bool {
	for _, p := range []string{
		"fmt.", "errors.", "strings.", "strconv.", "unicode/utf8.", "hash/", "crypto/", "sync/atomic.Load", "sort.Search", "runtime.KeepAlive",
		"(encoding/binary.littleEndian).Uint", "(encoding/binary.bigEndian).Uint", "encoding/binary.Uvarint", "encoding/binary.Varint", "encoding/hex.Encode", "encoding/hex.Dump",
		"bytes.NewReader", "bytes.NewBuffer", "bytes.Equal", "bytes.Compare", "bytes.Index", "bytes.LastIndex", "bytes.Has", "bytes.Contains", "bytes.Count", "bytes.Trim", "bytes.Split", "bytes.Fields", "bytes.Cut",
		"(*bytes.Reader).", "(*bytes.Buffer).Read", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Next", "(*bytes.Buffer).Cap",
		"compress/zlib.NewReader", "compress/flate.NewReader", "bufio.NewReader", "io.NewSectionReader", "io.LimitReader", "io.ReadAll", "io/ioutil.ReadAll",
		"(github.com/edsrzf/mmap-go.MMap).", "(*github.com/edsrzf/mmap-go.MMap).", "(*sync.Pool).Put", "reflect.TypeOf", "reflect.DeepEqual",
	} {
		if strings.HasPrefix(name, p) {
			// reading into memory is writing
			if strings.HasSuffix(name, "Reader).Read") || strings.HasSuffix(name, "Buffer).Read") || strings.HasSuffix(name, "Reader).ReadAt") {
				return i == 0
			}
			if name == "(*bytes.Buffer).ReadFrom" {
				return i > 0
			}
			if strings.HasPrefix(name, "encoding/hex.Encode") {
				return i > 0 || name != "encoding/hex.Encode"
			}
			return true
		}
	}
	switch {
	case strings.HasSuffix(name, ").Write"), strings.HasSuffix(name, ").WriteAt"), strings.HasSuffix(name, ").WriteString"), strings.HasSuffix(name, ").WriteTo"):
		return i > 0
	case name == "io.Copy":
		return i == 1
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return i == 0
	case strings.HasSuffix(name, ").Read"): // reading from something made of mapped memory
		return i == 0
	case strings.HasSuffix(name, ".Munmap"):
		return true
	}
	return false
}

// sinks judges the writes of a function.
func (m *mapTaint) sinks(f *ssa.Function) {
	const rule = "no write to a mapping"
	c := m.c
	name := fnName(f)
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				m.n++
				c.Want(!m.taint[x.Addr][""], rule, name, x.Pos(), "this writes to memory of a mapped input file")
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "clear":
						m.n++
						c.Want(!m.taint[cc.Args[0]][""], rule, name, ins.Pos(), "%s writes to memory of a mapped input file", bi.Name())
					case "append":
						m.n++
						c.Want(!m.taint[cc.Args[0]][""] || fullSlice(cc.Args[0]), rule, name, ins.Pos(), "append may write to the memory of a mapped input file behind the slice")
					}
					continue
				}
				if len(m.callees(x)) > 0 {
					continue
				}
				ext := extName(cc)
				if _, isMap := m.mapCall(ext); isMap {
					continue
				}
				for i, a := range m.given(cc) {
					if !m.refers(a) {
						continue
					}
					m.n++
					if ext == "" {
						c.Bad(rule, name, ins.Pos(), "not decided: memory of a mapped input file is passed to a function that is not known")
						continue
					}
					c.Want(reads(ext, i), rule, name+" calls "+ext, ins.Pos(), "memory of a mapped input file is passed to %s, which is not known to only read it", ext)
				}
			}
		}
	}
}

func (m *mapTaint) mapCall(name string) (string, bool) {
	return name, strings.HasPrefix(name, "github.com/edsrzf/mmap-go.Map")
}

// refers: the value refers to mapped memory, directly or as the list of values of a variadic call.
func (m *mapTaint) refers(a ssa.Value) bool {
	return m.taint[a].any()
}

// fullSlice: the slice ends at its capacity, so that append never writes behind it.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && (s.Max == s.High || sameValue(s.Max, s.High))
}

// sameValue: two computations of the same length, or the same constant.
func sameValue(a, b ssa.Value) bool {
	if x, ok := a.(*ssa.Const); ok {
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	f, ok1 := x.Call.Value.(*ssa.Builtin)
	g, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}
