package main

// C24: failed file operations stop the run.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "path-sensitive dataflow over the control flow graph of every function: from each call of the operating system or an I/O library (and of each function of the module that passes such an error on), on every path to a return of the caller, or back to the same call, the error is known to be nil (or the expected end of file); the wrappers used everywhere else are interpreted and do exactly the operation they are named for, FWrite continues until everything is written", checkC24,
		"the libraries report their failures as errors", "os.Exit and panic do not return")
}

func checkC24(c *Ctx) {
	w := &errWalk{c: c, checkers: map[string]bool{}}
	for _, fn := range c.P.Funcs() {
		w.function(fn)
	}
	c.wrappers("wrapper")
	c.Min("error", 12)
	c.Min("wrapper", 14)
	c.Min("success", 8)
}

// ---- errors ----

type errWalk struct {
	c        *Ctx
	checkers map[string]bool
}

var ioPkgs = []string{"os", "io", "bufio", "compress/", "archive/", "syscall", "net", "golang.org/x/sys", "github.com/edsrzf/mmap-go", "runtime/pprof", "encoding/binary", "encoding/csv", "encoding/gob", "encoding/json", "path/filepath", "os/", "io/", "database/"}

func ioPkg(p string) bool {
	for _, q := range ioPkgs {
		if p == strings.TrimSuffix(q, "/") || strings.HasSuffix(q, "/") && strings.HasPrefix(p, q) || strings.HasPrefix(p, q+"/") {
			return true
		}
	}
	return false
}

var errT = types.Universe.Lookup("error").Type()

func errResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), errT) {
			return i
		}
	}
	return -1
}

func pkgOf(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	return o.Pkg().Path()
}

// stdStream: a standard stream of the process.
func stdStream(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return stdStream(x.X)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stderr" || g.Name() == "Stdout" || g.Name() == "Stdin")
	}
	return false
}

// ioCall: a call that may report the failure of a file operation; "" if it is none.
func (w *errWalk) ioCall(call *ssa.CallCommon, in *ssa.Function) string {
	if _, b := call.Value.(*ssa.Builtin); b {
		return ""
	}
	if errResult(call.Signature()) < 0 {
		return ""
	}
	if call.IsInvoke() {
		if stdStream(call.Value) {
			return ""
		}
		if p := pkgOf(call.Method); ioPkg(p) || strings.HasPrefix(p, modPath) || p == "" {
			return call.Method.Name()
		}
		return ""
	}
	fn := call.StaticCallee()
	if fn == nil {
		return "a function value"
	}
	pk := ""
	if fn.Object() != nil {
		pk = pkgOf(fn.Object())
	} else if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	}
	name := fn.String()
	switch {
	case pk == "runtime/pprof":
		return ""
	case pk == "fmt":
		if strings.HasPrefix(fn.Name(), "Fprint") && len(call.Args) > 0 && !stdStream(call.Args[0]) && !inMemory(call.Args[0]) {
			return name
		}
		return ""
	case name == "os.Remove" && in.Name() == "OsRemoveTry" && in.Pkg != nil && in.Pkg.Pkg.Path() == modPath+"/internal/iio":
		return ""
	case len(call.Args) > 0 && fn.Signature.Recv() != nil && stdStream(call.Args[0]):
		return ""
	case ioPkg(pk) || strings.HasPrefix(pk, modPath) || fn.Parent() != nil:
		return name
	}
	return ""
}

// inMemory: a writer that cannot fail.
func inMemory(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	switch v.Type().String() {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	return false
}

func (w *errWalk) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := w.ioCall(ci.Common(), fn)
			if name == "" {
				continue
			}
			at := fmt.Sprintf("%s in %s", name, fnName(fn))
			call, ok := ins.(*ssa.Call)
			if !ok {
				w.c.Bad("error", at, ins.Pos(), "the error of a deferred or concurrent call is not checked")
				continue
			}
			n := errResult(call.Call.Signature())
			alias := map[ssa.Value]bool{}
			var count ssa.Value
			if call.Call.Signature().Results().Len() == 1 {
				alias[call] = true
			} else {
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok {
						if x.Index == n {
							alias[x] = true
						} else if x.Index == 0 {
							count = x
						}
					}
				}
			}
			ps := w.paths(fn, b, i+1, alias, call)
			why := ""
			readLike := strings.Contains(name, "Read") || strings.Contains(name, "Copy")
			nilReturns := false
			for _, p := range ps {
				nilReturns = nilReturns || p.state == errNil
			}
			for _, p := range ps {
				switch {
				case p.state == errNil, p.passed:
				case p.state == errEOF && readLike && (!nilReturns || returnsCount(fn, count)):
				case p.again:
					why = "the error may be ignored and the operation repeated"
				default:
					why = "the function may return normally although the operation failed"
				}
			}
			w.c.Want(why == "", "error", at, ins.Pos(), "%s", why)
		}
	}
}

func returnsCount(fn *ssa.Function, n ssa.Value) bool {
	if n == nil || n.Referrers() == nil {
		return false
	}
	for _, r := range *n.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi:
			if returnsCount(fn, x) {
				return true
			}
		}
	}
	return false
}

type errState int

const (
	errAny errState = iota
	errNil
	errSome
	errEOF
)

type errPath struct {
	state         errState
	passed, again bool
}

type errAt struct {
	b     *ssa.BasicBlock
	i     int
	state errState
	env   map[ssa.Value]ssa.Value // phis on this path
	alias map[ssa.Value]bool
}

// paths explores from an instruction on.
func (w *errWalk) paths(fn *ssa.Function, b *ssa.BasicBlock, i int, alias map[ssa.Value]bool, origin *ssa.Call) []errPath {
	var res []errPath
	seen := map[string]bool{}
	work := []errAt{{b: b, i: i, state: errAny, env: map[ssa.Value]ssa.Value{}, alias: alias}}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		state := a.state
		for j := a.i; j < len(a.b.Instrs); j++ {
			ins := a.b.Instrs[j]
			if ins == ssa.Instruction(origin) {
				if state != errNil {
					res = append(res, errPath{state: state, again: true})
				}
				goto next
			}
			switch x := ins.(type) {
			case *ssa.Return:
				p := errPath{state: state}
				for _, r := range x.Results {
					if a.alias[a.resolve(r)] || a.alias[r] {
						p.passed = true
					}
				}
				res = append(res, p)
				goto next
			case *ssa.Panic:
				goto next
			case *ssa.ChangeInterface:
				if a.alias[a.resolve(x.X)] {
					a.alias = with(a.alias, x)
				}
			case *ssa.Call:
				if noReturn(&x.Call) {
					goto next
				}
				for k, arg := range x.Call.Args {
					if a.alias[a.resolve(arg)] && w.stops(x.Call.StaticCallee(), k) {
						state = errNil
					}
				}
			case *ssa.If:
				for k, s := range a.b.Succs {
					if st, ok := a.refine(x.Cond, k == 0, state); ok {
						work = append(work, a.enter(s, st, seen)...)
					}
				}
				goto next
			case *ssa.Jump:
				work = append(work, a.enter(a.b.Succs[0], state, seen)...)
				goto next
			}
		}
	next:
	}
	return res
}

func with(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{v: true}
	for k := range m {
		r[k] = true
	}
	return r
}

func (a *errAt) resolve(v ssa.Value) ssa.Value {
	for k := 0; k < 8; k++ {
		n, ok := a.env[v]
		if !ok {
			return v
		}
		v = n
	}
	return v
}

// enter moves to a block; phis take the value of the edge.
func (a *errAt) enter(s *ssa.BasicBlock, st errState, seen map[string]bool) []errAt {
	n := errAt{b: s, state: st, env: map[ssa.Value]ssa.Value{}, alias: a.alias}
	for k, v := range a.env {
		n.env[k] = v
	}
	edge := -1
	for k, p := range s.Preds {
		if p == a.b {
			edge = k
		}
	}
	for _, ins := range s.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if edge >= 0 {
			v := a.resolve(ph.Edges[edge])
			_, isConst := v.(*ssa.Const)
			_, isBin := v.(*ssa.BinOp)
			if a.alias[v] || isConst || isBin {
				n.env[ph] = v
			} else {
				delete(n.env, ph)
			}
		}
	}
	var ks []string
	for k, v := range n.env {
		ks = append(ks, fmt.Sprintf("%p=%p", k, v))
	}
	sort.Strings(ks)
	key := fmt.Sprint(s.Index, st, len(n.alias), ks)
	if seen[key] {
		return nil
	}
	seen[key] = true
	return []errAt{n}
}

// refine: the state if a condition has a value; false if that is impossible.
func (a *errAt) refine(cond ssa.Value, v bool, st errState) (errState, bool) {
	cond = a.resolve(cond)
	switch x := cond.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return st, constant.BoolVal(x.Value) == v
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.refine(x.X, !v, st)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && len(x.Call.Args) == 2 && a.alias[a.resolve(x.Call.Args[0])] && loadsEOF(x.Call.Args[1]) {
			return is(st, errEOF, v)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			break
		}
		p, q := a.resolve(x.X), a.resolve(x.Y)
		if a.alias[q] {
			p, q = q, p
		}
		if !a.alias[p] {
			break
		}
		yes := (x.Op == token.EQL) == v
		if k, ok := q.(*ssa.Const); ok && k.Value == nil {
			return is(st, errNil, yes)
		}
		if loadsEOF(q) {
			return is(st, errEOF, yes)
		}
	}
	return st, true
}

func is(st, x errState, yes bool) (errState, bool) {
	if yes {
		switch {
		case st == errAny, st == x, st == errSome && x == errEOF:
			return x, true
		}
		return st, false
	}
	if st == x {
		return st, false
	}
	if st == errAny && x == errNil {
		return errSome, true
	}
	return st, true
}

func loadsEOF(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
		}
	}
	return false
}

func noReturn(call *ssa.CallCommon) bool {
	f := call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// stops: the function returns only if its parameter is nil.
func (w *errWalk) stops(fn *ssa.Function, k int) bool {
	if fn == nil || len(fn.Blocks) == 0 || k >= len(fn.Params) || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return false
	}
	key := fmt.Sprint(fn.String(), k)
	if r, ok := w.checkers[key]; ok {
		return r
	}
	w.checkers[key] = false // recursion
	r := true
	for _, p := range w.paths(fn, fn.Blocks[0], 0, map[ssa.Value]bool{fn.Params[k]: true}, nil) {
		r = r && p.state == errNil
	}
	w.checkers[key] = r
	return r
}

// ---- the wrappers ----

type wrapSpec struct {
	name string
	op   string // raw operation
	args []any  // parameter number, constant (int64) or nil (anything)
	ret  int    // result of the operation that is returned, -1 none
}

var wrapSpecs = []wrapSpec{
	{"OsOpen", "os.Open", []any{0}, 0},
	{"OsCreate", "os.Create", []any{0}, 0},
	{"OsRemove", "os.Remove", []any{0}, -1},
	{"OsRemoveTry", "os.Remove", []any{0}, -1},
	{"OsRename", "os.Rename", []any{0, 1}, -1},
	{"FSeek", "(*os.File).Seek", []any{0, 1, 2}, 0},
	{"FClose", "(*os.File).Close", []any{0}, -1},
	{"FRead", "(*os.File).Read", []any{0, 1}, 0},
	{"MMapMap", "github.com/edsrzf/mmap-go.Map", []any{0, int64(0), int64(0)}, 0},
	{"MMapMapWrite", "github.com/edsrzf/mmap-go.Map", []any{0, int64(2), int64(0)}, 0},
	{"MMapMapRegion", "github.com/edsrzf/mmap-go.MapRegion", []any{0, 1, int64(0), int64(0), 2}, 0},
	{"IoCopy", "io.Copy", []any{0, 1}, -1},
}

func (c *Ctx) wrapPaths(rule, name string) (fn *ssa.Function, args []*Term, outs []*Outcome) {
	fn = c.P.Func("internal/iio." + name)
	if fn == nil {
		return
	}
	in := c.interp()
	in.KeepPaths = true
	viewHooks(in)
	for _, p := range fn.Params {
		args = append(args, symArg(in, p))
	}
	for _, o := range c.run(in, fn, args, newState()) {
		switch o.Kind {
		case ORet:
			outs = append(outs, o)
		case OPanic, OExit:
			if rule == "wrapper" {
				c.Want(failed(o.St), "success", name, o.Pos, "the run is stopped on a path where no failure of the operation is known")
			}
		}
	}
	c.Want(len(outs) > 0, rule, name, fn, "the function never returns")
	return
}

// wrappers: each wrapper does the operation that the analysis of the rest takes it for.
func (c *Ctx) wrappers(rule string) {
	for _, s := range wrapSpecs {
		c.Try(rule, s.name, nil, func() { c.wrapper(rule, s) })
	}
	for _, n := range []string{"FWrite", "FWriteSliceI64", "FWriteSliceU64"} {
		c.Try(rule, n, nil, func() {
			fn, args, outs := c.wrapPaths(rule, n)
			for _, o := range outs {
				data := args[1]
				if n != "FWrite" {
					data = Op("view", "", tBytes, o.St.snap(data, elemType(data.T)))
				}
				evs := o.St.ev.list()
				why := writesAll(o.St, evs, args[0], data)
				c.Want(why == "", rule, n, fn, "%s", why)
			}
		})
	}
	c.Try(rule, "FCopy", nil, func() {
		fn, args, outs := c.wrapPaths(rule, "FCopy")
		for _, o := range outs {
			evs := rawEvs(o.St)
			if len(evs) == 0 || evs[0].Name != "(*os.File).Read" || evs[0].Args[0] != args[1] || evs[0].Args[1] != args[2] {
				c.Bad(rule, "FCopy", fn, "the source is not read into the buffer")
				continue
			}
			n := evs[0].Ret.Args[0]
			if len(o.Rets) != 1 || stripConv(o.Rets[0], 64) != n {
				c.Bad(rule, "FCopy", fn, "the number of bytes returned (%v) is not the number of bytes read", o.Rets)
				continue
			}
			if len(evs) == 1 && equal(o.St, n, tZero) {
				c.Ok(rule, "FCopy", fn, "")
				continue
			}
			arr, lo := arrOf(args[2])
			why := writesAll(o.St, evs[1:], args[0], SliceTerm(arr, lo, n, n, args[2].T))
			c.Want(why == "", rule, "FCopy", fn, "%s", why)
		}
	})
}

// failed: the last operation of the path failed: its error is known not to be nil (nor to be the end of
// the file, for reading), or it is known to be incomplete.
func failed(st *State) bool {
	var last *Ev
	var L *LoopInfo
	for _, e := range st.ev.list() {
		if e.Loop != nil {
			L = e.Loop
		} else if e.Kind == "call" && e.Ret != nil && !strings.HasPrefix(e.Name, "fmt.") {
			last = e
		}
	}
	if last == nil {
		return false
	}
	err, n := last.Ret, (*Term)(nil)
	if err.isOp("tuple") {
		n, err = err.Args[0], err.Args[len(err.Args)-1]
	}
	isEOF := func(t *Term) bool { return t.isOp("load") && strings.Contains(t.String(), "io.EOF") }
	if k, v := st.decide(Eq(err, tNil)); k && !v {
		if !strings.HasSuffix(last.Name, ".Read") {
			return true
		}
		for f, v := range st.lits {
			if !v && f.isOp("eq") && (f.Args[0] == err && isEOF(f.Args[1]) || f.Args[1] == err && isEOF(f.Args[0])) {
				return true
			}
		}
		return false
	}
	if n == nil || !isIntTerm(n) || !strings.HasSuffix(last.Name, ".Write") {
		return false
	}
	data := last.Args[1]
	left := []*Term{Len(data)}
	if lv := loopVarOf(data); lv != nil && L != nil && L.Vars[lv.Sym] != nil {
		left = append(left, lockstep(L, lv)...)
	}
	for _, l := range left {
		if sure(st, Not(Eq(n, l))) || sure(st, Lt(n, l, false)) || sure(st, Lt(n, Int(1), false)) && (sure(st, Lt(tZero, l, false)) || sure(st, Not(Eq(l, tZero)))) {
			return true
		}
	}
	return false
}

// positionIn: the variable that says from which position on a slice is the rest of data.
func positionIn(L *LoopInfo, t, data *Term) *LoopVar {
	a, lo := arrOf(t)
	b, lo2 := arrOf(data)
	if a != b {
		return nil
	}
	for _, v := range L.Order {
		if isIntTerm(v.Sym) && Sub(lo, lo2) == v.Sym && Len(t) == Sub(Len(data), v.Sym) {
			return v
		}
	}
	return nil
}

// lockstep: the integer variables of a loop that are always the length of the slice in another.
func lockstep(L *LoopInfo, cur *LoopVar) []*Term {
	var left []*Term
	for _, v := range L.Order {
		if v == cur || v.Init == nil || !isIntTerm(v.Init) || v.Init != Len(cur.Init) {
			continue
		}
		ok := true
		for _, it := range L.Iters {
			ok = ok && Sub(v.Sym, it.Next[v.Sym]) == Sub(Len(cur.Sym), Len(it.Next[cur.Sym]))
		}
		if ok {
			left = append(left, v.Sym)
		}
	}
	return left
}

func rawEvs(st *State) []*Ev {
	var r []*Ev
	for _, e := range st.ev.list() {
		if e.Loop != nil {
			k := false
			eachEv([]*Ev{e}, func(x *Ev) { k = k || x.Kind == "call" && !strings.HasPrefix(x.Name, "fmt.") })
			if k {
				r = append(r, e)
			}
			continue
		}
		if e.Kind == "call" {
			r = append(r, e)
		}
	}
	return r
}

func (c *Ctx) wrapper(rule string, s wrapSpec) {
	fn, args, outs := c.wrapPaths(rule, s.name)
	if fn == nil {
		return
	}
	for _, o := range outs {
		evs := rawEvs(o.St)
		if len(evs) != 1 || evs[0].Name != s.op || len(evs[0].Args) != len(s.args) {
			c.Bad(rule, s.name, fn, "the function does not do exactly one %s", s.op)
			continue
		}
		e := evs[0]
		ok := true
		for i, a := range s.args {
			got := stripConv(e.Args[i], 64)
			switch x := a.(type) {
			case int:
				ok = ok && (got == args[x] || got == stripConv(args[x], 64))
			case int64:
				ok = ok && got == Int(x)
			}
		}
		c.Want(ok, rule, s.name, fn, "%s is called with %v", s.op, e.Args)
		if s.ret >= 0 {
			r := e.Ret
			if r.isOp("tuple") {
				r = r.Args[s.ret]
			}
			c.Want(len(o.Rets) == 1 && o.Rets[0] == r, rule, s.name+" result", fn, "the result is %v, not that of the operation", o.Rets)
		}
	}
}

// writesAll: the events write the whole of data to the file, once.
func writesAll(st *State, evs []*Ev, file, data *Term) string {
	if len(evs) == 0 {
		if knownEmpty(st, data) {
			return ""
		}
		return "nothing is written"
	}
	if len(evs) > 1 {
		return "data are written more than once"
	}
	e := evs[0]
	isWrite := func(e *Ev) bool { return e.Kind == "call" && e.Name == "(*os.File).Write" && e.Args[0] == file }
	same := func(t *Term) bool {
		if t == data {
			return true
		}
		a, lo := arrOf(t)
		b, lo2 := arrOf(data)
		return a == b && lo == lo2 && Len(t) == Len(data)
	}
	if e.Loop == nil {
		if !isWrite(e) || !same(e.Args[1]) {
			return fmt.Sprintf("not the whole of the data is written (%v)", e.Args)
		}
		return "" // the operating system reports a short write as an error
	}
	L := e.Loop
	var cur *LoopVar
	pos := false
	for _, it := range L.Iters {
		l := rawEvs(it.St)
		if len(l) != 1 || !isWrite(l[0]) {
			return "an iteration does not write once"
		}
		w := l[0]
		n := w.Ret.Args[0]
		lv := loopVarOf(w.Args[1])
		if lv == nil || L.Vars[lv.Sym] == nil {
			if v := positionIn(L, w.Args[1], data); v != nil {
				if v.Init != tZero || it.Next[v.Sym] != Add(v.Sym, n) {
					return "after a short write the rest is not what was not yet written"
				}
				if l := Sub(Len(data), v.Sym); !sure(st, Le(l, tZero, false)) && !sure(st, Eq(l, tZero)) {
					return "the loop may end before everything is written"
				}
				pos = true
				continue
			}
			return fmt.Sprintf("not decided: what an iteration writes (%v)", w.Args[1])
		}
		cur = lv
		if !same(lv.Init) {
			return "the data are not written from the beginning"
		}
		arr, lo := arrOf(lv.Sym)
		a, lo2 := arrOf(it.Next[lv.Sym])
		if a != arr || lo2 != Add(lo, n) || Len(it.Next[lv.Sym]) != Sub(Len(lv.Sym), n) {
			return "after a short write the rest is not what was not yet written"
		}
	}
	if pos && cur == nil {
		return ""
	}
	if cur == nil {
		return "nothing is written"
	}
	// what is left: its length, or a number that keeps equal to it
	left := append([]*Term{Len(cur.Sym)}, lockstep(L, cur)...)
	ok := false
	for _, l := range left {
		ok = ok || sure(st, Le(l, tZero, false)) || sure(st, Eq(l, tZero))
	}
	if !ok {
		return "the loop may end before everything is written"
	}
	return ""
}
