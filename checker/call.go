package main

// Calls: resolution, interpretation of repository callees, and models of the functions outside it.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve evaluates the callee and arguments of a call.
func (in *Interp) resolve(ps *PState, c *ssa.CallCommon, pos token.Pos) (callee *Term, fn *ssa.Function, args []*Term) {
	if c.IsInvoke() {
		recv := in.val(ps, c.Value)
		for _, a := range c.Args {
			args = append(args, in.val(ps, a))
		}
		if recv.isOp("iface") {
			m := in.P.Prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return OpX("func", m.String(), m.Type(), m), m, append([]*Term{recv.Args[0]}, args...)
			}
		}
		return OpX("method", c.Method.FullName(), nil, c.Method, recv), nil, append([]*Term{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, in.val(ps, a))
	}
	callee = in.val(ps, c.Value)
	switch {
	case callee.isOp("func"):
		fn = callee.X.(*ssa.Function)
	case callee.isOp("closure"):
		fn = callee.X.(*ssa.Function)
	}
	return callee, fn, args
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func retOne(st *State, rs ...*Term) []*Outcome {
	return []*Outcome{{Kind: ORet, St: st, Rets: rs}}
}

// inlinable functions outside the repository.
var inlinePkgs = map[string]bool{"encoding/binary": true, "slices": true, "maps": true, "cmp": true, "math/bits": true, "errors": false}

func (in *Interp) wantInline(fn *ssa.Function) bool {
	if in.Opaque != nil && in.Opaque(fn) {
		return false
	}
	if in.P.repo(fn) || fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0 && (strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk")) {
		return true
	}
	pk := fnPkg(fn)
	if !inlinePkgs[pk] {
		return false
	}
	n := fnName(fn)
	if pk == "encoding/binary" {
		return strings.Contains(n, "littleEndian).") || strings.Contains(n, "bigEndian).") || strings.HasSuffix(n, "varint")
	}
	if pk == "slices" {
		return !strings.Contains(n, "Sort")
	}
	if pk == "math/bits" {
		return strings.Contains(n, "RotateLeft")
	}
	return true
}

func (in *Interp) invoke(ps *PState, inFn *ssa.Function, callee *Term, fn *ssa.Function, args []*Term, sig *types.Signature, instr ssa.CallInstruction, common *ssa.CallCommon) []*Outcome {
	st := ps.st
	pos := instr.Pos()
	if !pos.IsValid() {
		pos = common.Pos()
	}
	if callee.isOp("builtin") {
		return in.builtin(ps, inFn, callee.S, args, common, pos)
	}
	cc := &CallCtx{Fn: fn, Args: args, St: st, Pos: pos, In: inFn, Sig: sig, Instr: instr, Depth: len(in.stack)}
	if callee.isOp("closure") {
		cc.Binds = callee.Args
	}
	switch {
	case fn != nil:
		cc.Name = fnName(fn)
	case callee.isOp("method"):
		cc.Name = "invoke " + callee.S
	default:
		cc.Name = "dynamic"
	}
	if h, ok := in.Hooks[cc.Name]; ok {
		if os := h(in, cc); os != nil {
			return os
		}
	}
	if h, ok := in.Hooks["*"]; ok {
		if os := h(in, cc); os != nil {
			return os
		}
	}
	if fn != nil {
		if m, ok := models[cc.Name]; ok {
			if os := m(in, cc); os != nil {
				return os
			}
		}
		if in.wantInline(fn) && in.P.body(fn) {
			return in.callFn(cc)
		}
	}
	return in.external(cc, callee)
}

// results makes the result terms of an uninterpreted call.
func (in *Interp) results(cc *CallCtx, e *Ev, pure bool) []*Term {
	var rs []*Term
	n := cc.Sig.Results().Len()
	for i := 0; i < n; i++ {
		T := cc.Sig.Results().At(i).Type()
		nm := cc.Name
		if pure {
			s := nm
			if n > 1 {
				s += fmt.Sprintf("#%d", i)
			}
			if e == nil {
				rs = append(rs, Op("pure", s, T, cc.Args...))
			} else {
				rs = append(rs, OpX("pure", s, T, e, cc.Args...))
			}
			continue
		}
		sh := nm
		if j := strings.LastIndexByte(sh, '/'); j >= 0 {
			sh = sh[j+1:]
		}
		if n > 1 {
			sh += fmt.Sprintf(".%d", i)
		}
		rs = append(rs, in.fresh(sh, T, &CallRes{Ev: e, Index: i, Name: nm}))
	}
	return rs
}

// CallRes links a fresh symbol to the call that produced it.
type CallRes struct {
	Ev    *Ev
	Index int
	Name  string
}

func (in *Interp) external(cc *CallCtx, callee *Term) []*Outcome {
	name := cc.Name
	st := cc.St
	if name == "invoke (context.Context).Err" && len(cc.Args) == 1 {
		// the same as a look, without waiting, at the channel that Done gives
		done := Op("pure", "invoke (context.Context).Done", types.NewChan(types.RecvOnly, types.NewStruct(nil, nil)), in.freeze(st, cc.Args[0]))
		look := func(st *State, chosen string) {
			st.emit(&Ev{Kind: "select", Name: chosen, Args: []*Term{done}, Stack: "nonblocking", Pos: cc.Pos, In: cc.In})
		}
		on := st.clone()
		look(on, "-1")
		look(st, "0")
		err := in.results(cc, nil, false)[0]
		st.assume(Eq(err, tNil), false)
		return append(retOne(on, tNil), retOne(st, err)...)
	}
	if isPureFn(name) {
		args := make([]*Term, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = in.freeze(st, a)
		}
		c2 := *cc
		c2.Args = args
		return retOne(st, in.results(&c2, nil, true)...)
	}
	args := cc.Args
	if cc.Fn == nil {
		in.Unknown[name]++
		if name == "dynamic" {
			args = append([]*Term{callee}, args...)
		}
	}
	e := &Ev{Kind: "call", Name: name, Args: args, Pos: cc.Pos, In: cc.In, Fn: cc.Fn}
	rs := in.results(cc, e, false)
	if len(rs) == 1 {
		e.Ret = rs[0]
	} else if len(rs) > 1 {
		e.Ret = Op("tuple", "", nil, rs...)
	}
	st.emit(e)
	if !readsOnly(name) {
		if strings.HasPrefix(name, "(*github.com/jessevdk/go-flags.Parser).Parse") { // fills in the options given to NewParser
			e.Snap = st.clone()
			args = append([]*Term{}, args...)
			for o := range st.esc {
				args = append(args, o)
			}
			for _, m := range st.ev.list() {
				if m.Kind == "call" && m.Name == "github.com/jessevdk/go-flags.NewParser" {
					args = append(args, m.Args...)
				}
			}
		}
		in.havocFrom(st, args)
	}
	return retOne(st, rs...)
}

// freeze replaces slice arguments by snapshots of their content, so that pure results depend on it.
func (in *Interp) freeze(st *State, a *Term) *Term {
	if a.isOp("slice") && !a.Args[0].isOp("arr") {
		arr := a.Args[0]
		if n := a.Args[2]; n.K == KInt && n.I <= 16 && isObj(rootOf(arr)) {
			var es []*Term
			T := types.Type(nil)
			if s, ok := under(a.T).(*types.Slice); ok {
				T = s.Elem()
			}
			for i := int64(0); i < n.I; i++ {
				es = append(es, in.freeze(st, st.load(IndexAddrT(arr, Add(a.Args[1], Int(i)), T), T)))
			}
			return Op("list", "", a.T, es...)
		}
	}
	if s, ok := under(a.T).(*types.Slice); ok {
		return st.snap(a, s.Elem())
	}
	return a
}

// havocFrom forgets the content of memory reachable from the arguments of an unknown call.
func (in *Interp) havocFrom(st *State, args []*Term) {
	seen := map[*Term]bool{}
	objs := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if b, ok := under(t.T).(*types.Basic); ok && b.Kind() != types.UnsafePointer && b.Kind() != types.Uintptr && b.Kind() != types.UntypedNil {
			return // gives no access to memory
		}
		if t.isOp("obj") || t.isOp("arr") {
			objs[t] = true
			for c, v := range st.heap {
				if rootOf(c) == t {
					mark(v)
				}
			}
			if t.isOp("obj") {
				if v, ok := st.heap[mapCell(t)]; ok {
					mark(v)
				}
			}
		}
		if t.isOp("glob") {
			return
		}
		for _, a := range t.Args {
			mark(a)
		}
		if s, ok := under(t.T).(*types.Slice); ok && s != nil && !t.isOp("slice") {
			mark(Op("arr", "", nil, t))
		}
	}
	for _, a := range args {
		mark(a)
	}
	for c := range st.heap {
		if objs[rootOf(c)] || c.isOp("mapc") && objs[c.Args[0]] {
			delete(st.heap, c)
		}
	}
	for o := range objs {
		if o.isOp("obj") {
			st.esc[o] = in.fresh("esc", nil, nil)
		} else {
			st.heap[o] = in.fresh("havoc", nil, nil)
		}
	}
}

// ---- knowledge about functions outside the repository ----

var purePrefixes = []string{
	"strings.", "strconv.", "fmt.Sprint", "errors.", "fmt.Errorf", "math.", "math/bits.", "path/filepath.Base", "path/filepath.Join", "path/filepath.Ext", "path/filepath.Dir", "path.",
	"unicode/utf8.", "unicode.", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "bytes.Index", "bytes.Contains",
	"(time.Time).", "(time.Duration).", "reflect.TypeOf", "(*reflect.rtype).", "(*golang.org", "context.Background", "context.TODO",
	"invoke (reflect.Type).", "invoke (error).Error", "invoke (context.Context).Done", "invoke (context.Context).Err", "sort.Search", "(*os.File).Name",
}

func isPureFn(name string) bool {
	if strings.HasPrefix(name, "strings.NewReader") || strings.HasPrefix(name, "(*strings.") {
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readsOnly: the call does not change memory that the caller can see (other than through its receiver's
// opaque state).
func readsOnly(name string) bool {
	for _, p := range []string{"os.", "(*os.", "fmt.Print", "fmt.Fprint", "log.", "(*log.", "github.com/edsrzf/mmap-go", "(github.com/edsrzf/mmap-go", "time.", "(*time.", "runtime", "(*sync.", "sync/atomic.", "(*sync/atomic.",
		"context.", "(*context.", "invoke (context.", "os/signal.", "github.com/gdamore", "(*github.com/gdamore", "(github.com/gdamore", "github.com/dterei", "bytes.NewBuffer", "bytes.NewReader", "compress/zlib.NewReader", "invoke (io.Closer)", "invoke (io.Writer)", "io.Copy", "syscall.", "invoke (error)", "bufio.NewWriter", "bufio.NewReader", "(*bufio.Writer)", "github.com/jessevdk/go-flags.Is", "github.com/jessevdk/go-flags.NewParser", "hash", "(hash", "invoke (hash", "crypto"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type model = Hook

var models map[string]model

func init() {
	models = map[string]model{
		"os.Exit": func(in *Interp, c *CallCtx) []*Outcome {
			c.St.emit(&Ev{Kind: "call", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Fn: c.Fn})
			return []*Outcome{{Kind: OExit, St: c.St, Pos: c.Pos, Val: c.Args[0]}}
		},
		"log.Fatal":   modelFatal,
		"log.Fatalf":  modelFatal,
		"log.Fatalln": modelFatal,
		"log.Panic":   modelPanic,
		"log.Panicf":  modelPanic,
		"runtime.Goexit": func(in *Interp, c *CallCtx) []*Outcome {
			c.St.emit(&Ev{Kind: "call", Name: c.Name, Pos: c.Pos, In: c.In, Fn: c.Fn})
			return []*Outcome{{Kind: OExit, St: c.St, Pos: c.Pos, Val: Str("goexit")}}
		},
		"sort.Slice":            modelSort,
		"sort.SliceStable":      modelSort,
		"sort.Strings":          modelSort,
		"sort.Ints":             modelSort,
		"sort.Sort":             modelSort,
		"sort.Stable":           modelSort,
		"slices.Sort":           modelSort,
		"slices.SortFunc":       modelSort,
		"slices.SortStableFunc": modelSort,
		"errors.Is": func(in *Interp, c *CallCtx) []*Outcome { // the wrapped errors of the standard readers are sentinels
			return retOne(c.St, Eq(c.Args[0], c.Args[1]))
		},
		"errors.New":              modelNewErr,
		"fmt.Errorf":              modelNewErr,
		"io.ReadFull":             modelReadFull,
		"(*os.File).Read":         modelReadInto,
		"(*os.File).ReadAt":       modelReadInto,
		"invoke (io.Reader).Read": modelReadInto,
		"(*bytes.Buffer).Read":    modelReadInto,
		"(*bytes.Reader).Read":    modelReadInto,
		"(*bufio.Reader).Read":    modelReadInto,
		"(*sync.Pool).Get": func(in *Interp, c *CallCtx) []*Outcome {
			return nil
		},
	}
	for _, n := range []string{"Uint64", "Int64", "Uint32", "Int32", "Uintptr", "Pointer"} {
		n := n
		for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			models["sync/atomic."+op+n] = modelAtomic
			models["(*sync/atomic."+n+")."+op] = modelAtomic
		}
	}
	for _, op := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		models["(*sync/atomic.Bool)."+op] = modelAtomic
		models["(*sync/atomic.Value)."+op] = modelAtomic
	}
}

func modelFatal(in *Interp, c *CallCtx) []*Outcome {
	c.St.emit(&Ev{Kind: "call", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Fn: c.Fn})
	return []*Outcome{{Kind: OExit, St: c.St, Pos: c.Pos, Val: Int(1)}}
}

func modelPanic(in *Interp, c *CallCtx) []*Outcome {
	return []*Outcome{{Kind: OPanic, St: c.St, Pos: c.Pos}}
}

func modelNewErr(in *Interp, c *CallCtx) []*Outcome {
	v := in.freeze(c.St, c.Args[0])
	return retOne(c.St, OpX("iface", "error.new", nil, nil, Op("err", "", nil, v)))
}

// modelAtomic: an atomic access; loads yield a fresh value since other goroutines may write.
func modelAtomic(in *Interp, c *CallCtx) []*Outcome {
	e := &Ev{Kind: "atomic", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Fn: c.Fn}
	rs := in.results(c, e, false)
	if len(rs) == 1 {
		e.Ret = rs[0]
	}
	c.St.emit(e)
	if in.AtomicMem && len(c.Args) > 0 {
		// the analysed goroutine is the only writer of the cell (established separately)
		if T := atomicType(c.Name); T != nil {
			switch op := c.Name[strings.LastIndexAny(c.Name, ".")+1:]; {
			case strings.HasPrefix(op, "Load"):
				return retOne(c.St, c.St.load(c.Args[0], T))
			case strings.HasPrefix(op, "Store"):
				c.St.store(c.Args[0], c.Args[1], T)
			case strings.HasPrefix(op, "Add"):
				v := Conv(Add(c.St.load(c.Args[0], T), c.Args[1]), T)
				c.St.store(c.Args[0], v, T)
				return retOne(c.St, v)
			case strings.HasPrefix(op, "Swap"):
				v := c.St.load(c.Args[0], T)
				c.St.store(c.Args[0], c.Args[1], T)
				return retOne(c.St, v)
			}
		}
	}
	return retOne(c.St, rs...)
}

func atomicType(name string) types.Type {
	for _, k := range []struct {
		n string
		T types.Type
	}{{"Uint64", types.Typ[types.Uint64]}, {"Uint32", types.Typ[types.Uint32]}, {"Int64", types.Typ[types.Int64]}, {"Int32", types.Typ[types.Int32]}} {
		if strings.Contains(name, k.n) {
			return k.T
		}
	}
	return nil
}

// modelSort: the elements of the slice are permuted in place.
func modelSort(in *Interp, c *CallCtx) []*Outcome {
	s := c.Args[0]
	if s.isOp("iface") {
		s = s.Args[0]
	}
	e := &Ev{Kind: "sort", Name: c.Name, Args: append([]*Term{s}, c.Args[1:]...), Pos: c.Pos, In: c.In, Fn: c.Fn, Snap: c.St.clone()}
	if sl, ok := under(s.T).(*types.Slice); ok {
		arr, lo := arrOf(s)
		old := c.St.readCell(arr, sl.Elem(), true)
		less := tNil
		if len(c.Args) > 1 {
			less = c.Args[1]
		}
		c.St.heap[arr] = OpX("sorted", c.Name, sl.Elem(), e, old, lo, Len(s), less)
	} else {
		in.havocFrom(c.St, c.Args)
	}
	c.St.emit(e)
	return retOne(c.St)
}

func modelReadFull(in *Interp, c *CallCtx) []*Outcome { return in.readInto(c, 1) }
func modelReadInto(in *Interp, c *CallCtx) []*Outcome {
	for i := 1; i < len(c.Args); i++ {
		if s, ok := under(c.Args[i].T).(*types.Slice); ok && s != nil {
			return in.readInto(c, i)
		}
	}
	return in.readInto(c, 1)
}

func (in *Interp) readInto(c *CallCtx, i int) []*Outcome {
	buf := c.Args[i]
	e := &Ev{Kind: "call", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Fn: c.Fn}
	rs := in.results(c, e, false)
	e.Ret = Op("tuple", "", nil, rs...)
	c.St.emit(e)
	arr, lo := arrOf(buf)
	old := c.St.readCell(arr, types.Typ[types.Byte], true)
	c.St.heap[arr] = OpX("readin", "", types.Typ[types.Byte], e, old, lo, Len(buf), rs[0])
	return retOne(c.St, rs...)
}

// ---- builtins ----

func (in *Interp) builtin(ps *PState, inFn *ssa.Function, name string, args []*Term, common *ssa.CallCommon, pos token.Pos) []*Outcome {
	st := ps.st
	switch name {
	case "len":
		x := args[0]
		switch u := under(common.Args[0].Type()).(type) {
		case *types.Map:
			return retOne(st, mapLen(in.mapContent(st, x)))
		case *types.Chan:
			return retOne(st, in.fresh("chlen", types.Typ[types.Int], nil))
		case *types.Pointer:
			return retOne(st, Int(under(u.Elem()).(*types.Array).Len()))
		case *types.Array:
			return retOne(st, Int(u.Len()))
		}
		return retOne(st, Len(x))
	case "cap":
		return retOne(st, capOf(args[0]))
	case "append":
		return in.appendB(ps, inFn, args, common, pos)
	case "copy":
		dst, src := args[0], args[1]
		el := types.Type(types.Typ[types.Byte])
		if s, ok := under(common.Args[0].Type()).(*types.Slice); ok {
			el = s.Elem()
		}
		var n *Term
		dl, sl := Len(dst), Len(src)
		d := Sub(dl, sl)
		lo, hi := st.bounds(d)
		switch {
		case lo >= 0:
			n = sl
		case hi <= 0:
			n = dl
		default:
			n = Op("min", "", types.Typ[types.Int], dl, sl)
		}
		arr, off := arrOf(dst)
		old := st.readCell(arr, el, true)
		ss := src
		if !isString(common.Args[1].Type()) {
			ss = in.contentSnap(st, src, el)
		}
		st.heap[arr] = Op("copyin", "", el, old, off, ss, n)
		if in.TraceMem {
			st.emit(&Ev{Kind: "copy", Args: []*Term{dst, src, n}, Pos: pos, In: inFn})
		}
		return retOne(st, n)
	case "delete":
		m, k := args[0], args[1]
		c := in.mapContent(st, m)
		st.heap[mapCell(m)] = mapDel(c, k)
		if in.TraceMem {
			st.emit(&Ev{Kind: "mapdelete", Args: []*Term{m, k}, Pos: pos, In: inFn})
		}
		return retOne(st)
	case "clear":
		if _, ok := under(common.Args[0].Type()).(*types.Map); ok {
			st.heap[mapCell(args[0])] = Op("mzero", "", nil)
		} else {
			in.havocFrom(st, args)
		}
		return retOne(st)
	case "close":
		st.emit(&Ev{Kind: "close", Args: args, Pos: pos, In: inFn})
		return retOne(st)
	case "panic":
		return []*Outcome{{Kind: OPanic, St: st, Pos: pos, Val: args[0]}}
	case "print", "println":
		st.emit(&Ev{Kind: "call", Name: name, Args: args, Pos: pos, In: inFn})
		return retOne(st)
	case "recover":
		// deferred calls are interpreted for normal returns only, where there is nothing to recover
		c := &Ctx{P: in.P}
		for _, b := range inFn.Blocks {
			for i, x := range b.Instrs {
				if call, ok := x.(*ssa.Call); ok && builtinName(&call.Call) == "recover" && call.Pos() == pos && c.intercepts(b, i, call, nil) {
					panic(analysisError{fnName(inFn) + " intercepts failures (recover)"})
				}
			}
		}
		return retOne(st, tNil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			d := Sub(r, a)
			lo, hi := st.bounds(d)
			switch {
			case lo >= 0 && name == "max" || hi <= 0 && name == "min":
			case lo >= 0 && name == "min" || hi <= 0 && name == "max":
				r = a
			default:
				r = Op(name, "", common.Args[0].Type(), r, a)
			}
		}
		return retOne(st, r)
	case "ssa:wrapnilchk":
		return retOne(st, args[0])
	case "String", "Slice", "SliceData", "StringData", "Add", "Offsetof", "Sizeof", "Alignof":
		var T types.Type
		if v, ok := common.Value.(*ssa.Builtin); ok {
			T = v.Type().(*types.Signature).Results().At(0).Type()
		}
		return retOne(st, Op("unsafe", name, T, args...))
	}
	in.fail(pos, "unsupported builtin %s", name)
	return nil
}

func capOf(x *Term) *Term {
	switch {
	case x == tNil:
		return Int(0)
	case x.isOp("slice"):
		return x.Args[3]
	case x.isOp("hdr"):
		return x.Args[2]
	}
	return Op("cap", "", types.Typ[types.Int], x)
}

func mapLen(c *Term) *Term {
	if c.isOp("mzero") {
		return Int(0)
	}
	return Op("mlen", "", types.Typ[types.Int], c)
}

func mapDel(c, k *Term) *Term {
	if c.isOp("mstore") && c.Args[1] == k {
		return mapDel(c.Args[0], k)
	}
	if c.isOp("mzero") {
		return c
	}
	return Op("mdel", "", nil, c, k)
}

// contentSnap is the frozen content of a slice, to be copied elsewhere.
func (in *Interp) contentSnap(st *State, s *Term, elem types.Type) *Term {
	if s == tNil || s.K == KStr || s.isOp("s2b") {
		return s
	}
	return st.snap(s, elem)
}

func (in *Interp) appendB(ps *PState, inFn *ssa.Function, args []*Term, common *ssa.CallCommon, pos token.Pos) []*Outcome {
	st := ps.st
	base := args[0]
	T := common.Args[0].Type()
	el := types.Type(types.Typ[types.Byte])
	if s, ok := under(T).(*types.Slice); ok {
		el = s.Elem()
	}
	var r *Term
	b := in.appBase(st, base, el)
	more := args[1]
	n := Len(more)
	if _, isStr := under(common.Args[1].Type()).(*types.Basic); isStr {
		r = AppS(b, more)
	} else if n.K == KInt && n.I <= 64 && more.isOp("slice") {
		var es []*Term
		for i := int64(0); i < n.I; i++ {
			es = append(es, st.elem(more, Int(i), el))
		}
		r = App(b, es...)
	} else {
		r = AppS(b, in.contentSnap(st, more, el))
	}
	if r.T == nil && r.K == KOp && (r.Op == "app" || r.Op == "appS") {
		r.T = T
	}
	st.emitIf(in.TraceMem, &Ev{Kind: "append", Args: []*Term{base, more, r}, Ret: r, Pos: pos, In: inFn})
	return retOne(st, r)
}

func (s *State) emitIf(c bool, e *Ev) {
	if c {
		s.emit(e)
	}
}

// appBase is the value-semantics form of the slice being appended to.
func (in *Interp) appBase(st *State, s *Term, el types.Type) *Term {
	if s.isOp("slice") {
		if n := s.Args[2]; n.K == KInt && n.I == 0 && !keepIdentity {
			return Op("empty", "", s.T) // its elements never show
		}
		return st.snap(s, el)
	}
	if st.mutated(s) {
		return st.snap(s, el)
	}
	return s
}
