package main

// C27: the output does not depend on scheduling, hashing or time.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "dependence analysis over the terms that symbolic interpretation gives for the data each stage sends and writes, and over the loops of the SSA form for maps: "+
		"(carried state) in every pipeline with a writer, on every path through a worker's handling of one block, what is sent, whether it is sent, and the memory made for it are made of the received block, of what was set before the pipeline started and of constants only: not of variables that keep a value from one block to the next (a list that is empty again each time, and the hint of a lookup, do not count), of memory that a stage changes, of atomic counters, of the choice of a select, of the clock, random numbers, the environment or the number of workers; what a writer does to its files is made of none of the latter; "+
		"(commands) neither what a command does to files outside its pipelines, nor whether it does it, depends on such a source; "+
		"(map order) every loop over a map, outside of the display, has the same effect in every order of its iterations: it sums, sets flags to one constant, fills a map under the current key, deletes the current key, adds strings to a string table, or collects a list that a complete sort orders before anything looks at it; it is not left early with anything of one iteration; "+
		"(table) the count that a string table records for a string is made of its previous count and constants only, so that adding strings in another order gives the same counts; "+
		"(table order) the sort of a string table is complete: by count, then by the strings themselves",
		runDeterm, "the run is not cancelled", "a lookup in the node index does not depend on its hint (C14)", "the writer receives the blocks in the order of the input (C18)", "no goroutine changes memory another one uses without synchronisation (C31), and pooled buffers are overwritten before use (C22, C39)")
}

func runDeterm(c *Ctx) {
	c.Try("carried state", "pipelines", nil, func() { c.carriedState("carried state") })
	c.Try("commands", "commands", nil, func() { c.mainSources("commands") })
	c.Try("map order", "map loops", nil, func() { c.mapOrder("map order") })
	c.Try("table", "string tables", nil, func() { c.tableOrder("table") })
	k := &Ctx{P: c.P, ID: "C28", Tier: c.Tier, seen: map[string]bool{}, stats: map[string]int{}}
	k.Try("sort", "Finalize", nil, func() { k.stringTable("sort") })
	for _, o := range k.Obls {
		if o.Construct == "Finalize order" || strings.Contains(o.Note, "not decided") {
			o.Rule = "table order"
			c.add(o)
		}
	}
	c.Min("table order", 1)
}

// ---- carried state and other sources: what the data of an answer are made of ----

// volatileCalls: results that differ from run to run. ("context." is left out: a run that is not cancelled.)
var volatilePrefixes = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "math/rand", "crypto/rand", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getenv", "os.LookupEnv", "os.Environ", "os.Getwd", "os.TempDir", "os.Executable", "os.Getuid",
	"runtime.", "hash/maphash", "os/user", "net.", "syscall.Getpid", "syscall.Time", "syscall.Gettimeofday", "(*sync.Pool)", "os.Stat", "os.Lstat", "(*os.File).Stat",
	"math/rand/v2", "sync/atomic.", "(*sync/atomic.", "(*sync.Map)", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Try", "invoke (os.FileInfo).ModTime",
}

func volatile(name string) bool {
	for _, p := range volatilePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// depWalk follows what terms are made of.
type depWalk struct {
	c       *Ctx
	ret     map[*Term]*Ev       // results of events
	loops   map[*Term]*LoopInfo // by iteration number
	stop    map[*Term]bool      // not followed: the received block
	carried map[*LoopInfo]bool  // loops whose variables carry state from block to block
	bad     map[*Term]string    // further sources
	seen    map[*Term]bool
	hit     string
}

func newDepWalk(c *Ctx, outs []*Outcome) *depWalk {
	d := &depWalk{c: c, ret: map[*Term]*Ev{}, loops: map[*Term]*LoopInfo{}, stop: map[*Term]bool{}, carried: map[*LoopInfo]bool{}, bad: map[*Term]string{}}
	for _, o := range outs {
		d.index(o.St.ev.list())
	}
	return d
}

func (d *depWalk) index(evs []*Ev) {
	for _, e := range evs {
		if e.Ret != nil {
			d.ret[e.Ret] = e
			if e.Ret.isOp("tuple") {
				for _, a := range e.Ret.Args {
					d.ret[a] = e
				}
			}
		}
		if L := e.Loop; L != nil {
			if L.K != nil {
				d.loops[L.K] = L
			}
			for _, it := range append(append([]*Iter{}, L.Iters...), L.Exits...) {
				d.index(it.St.ev.list())
			}
		}
	}
}

// source says what varying thing the terms are made of; empty if there is none.
func (d *depWalk) source(ts ...*Term) string {
	d.hit = ""
	d.seen = map[*Term]bool{}
	for _, t := range ts {
		d.walk(t)
	}
	return d.hit
}

func (d *depWalk) found(f string, a ...any) {
	if d.hit == "" {
		d.hit = fmt.Sprintf(f, a...)
	}
}

func (d *depWalk) facts(st *State) {
	for l := range st.lits {
		d.walk(l)
	}
}

func (d *depWalk) walk(t *Term) {
	if t == nil || d.hit != "" || d.seen[t] || d.stop[t] {
		return
	}
	d.seen[t] = true
	if why := d.bad[t]; why != "" {
		d.found("%s", why)
		return
	}
	if e := d.ret[t]; e != nil {
		d.event(e, t)
		return
	}
	if t.K == KSym {
		switch x := t.X.(type) {
		case *LoopVar:
			if d.carried[x.Loop] && stayEmpty(x) {
				return
			}
			if d.carried[x.Loop] {
				d.found("%s, which is kept from one block to the next", strings.SplitN(t.String(), "#", 2)[0])
				return
			}
			d.walk(x.Init)
			for _, n := range x.Next {
				d.walk(n)
			}
			d.loop(x.Loop)
		case *CallRes:
			if x.Ev != nil {
				d.event(x.Ev, t)
			} else if volatile(x.Name) {
				d.found("the result of %s", x.Name)
			}
		case *Ev:
			d.event(x, t)
		}
		if L := d.loops[t]; L != nil {
			d.loop(L)
		}
		return
	}
	if L := d.loops[t]; L != nil {
		d.loop(L)
	}
	if t.isOp("len") && t.Args[0].isLoopVar() {
		// the length of a list that a loop makes, not its content
		x := t.Args[0].X.(*LoopVar)
		if d.carried[x.Loop] {
			d.walk(t.Args[0])
			return
		}
		d.walk(Len(x.Init))
		for _, n := range x.Next {
			if n != t.Args[0] {
				d.walk(Len(n))
			}
		}
		d.loop(x.Loop)
		return
	}
	if (t.isOp("pure") || t.isOp("call") || t.isOp("ext")) && volatile(t.S) {
		d.found("the result of %s", t.S)
		return
	}
	if t.isOp("slice") && len(t.Args) >= 3 && t.Args[2] == tZero {
		return // an empty slice has no content; its capacity does not show
	}
	if t.isOp("app") && len(t.Args) > 1 && t.Args[0].isOp("slice") && t.Args[0].Args[2] == tZero {
		for _, a := range t.Args[1:] {
			d.walk(a)
		}
		return
	}
	if e, ok := t.X.(*Ev); ok && e != nil && !t.isOp("sorted") {
		d.event(e, t)
	}
	for _, a := range t.Args {
		d.walk(a)
	}
	for _, m := range t.P {
		for _, a := range m.A {
			d.walk(a)
		}
	}
}

func (t *Term) isLoopVar() bool {
	if t.K != KSym {
		return false
	}
	_, ok := t.X.(*LoopVar)
	return ok
}

// stayEmpty: the list is empty at the start of every iteration.
func stayEmpty(x *LoopVar) bool {
	if _, ok := under(x.Sym.T).(*types.Slice); !ok || x.Init != tNil && Len(x.Init) != tZero {
		return false
	}
	for _, it := range x.Loop.Iters {
		st := it.St.clone()
		if !st.assume(Eq(Len(x.Sym), tZero), true) {
			continue
		}
		if n := it.Next[x.Sym]; n != nil {
			n.any(func(y *Term) bool {
				if y.isOp("seq") { // a list that exists has no negative length
					st.assume(Le(tZero, Len(y), false), true)
				}
				return false
			})
		}
		if n := it.Next[x.Sym]; n == nil || !sure(st, Eq(Len(n), tZero)) {
			return false
		}
	}
	return true
}

// loop: what a loop computes depends also on how often it runs and which way its iterations go.
func (d *depWalk) loop(L *LoopInfo) {
	if L.Trip != nil {
		d.walk(L.Trip)
	}
	if d.carried[L] {
		d.found("the number of blocks received before")
		return
	}
	for _, it := range L.Iters {
		for l := range it.St.lits {
			if L.Entry != nil {
				if _, ok := L.Entry.lits[l]; ok {
					continue // decided before the loop
				}
			}
			d.walk(l)
		}
	}
}

func (d *depWalk) event(e *Ev, t *Term) {
	switch e.Kind {
	case "recv":
		return // judged where it is received
	case "get":
		return // a pooled buffer: its content is overwritten (C22, C39)
	case "find":
		// the lookups do not depend on the hint (C14)
		for i, a := range e.Args {
			if i < 2 {
				d.walk(a)
			}
		}
		return
	case "select":
		d.found("the choice of a select")
		return
	case "atomic":
		d.found("%s of memory that several goroutines use", e.Name)
		return
	case "call":
		if volatile(e.Name) {
			d.found("the result of %s", e.Name)
			return
		}
		if e.Fn != nil && opaquePkg(fnPkg(e.Fn)) {
			d.found("the result of %s, which displays the progress", e.Name)
			return
		}
	}
	for i, a := range e.Args {
		if e.Kind == "process" && i == 4 {
			continue // what a pipeline leaves does not depend on the number of its workers (carried state)
		}
		d.walk(a)
	}
}

// receiveLoops of a stage: the loops in which it receives from its input.
func (s *Stage) receiveLoops() map[*LoopInfo]bool {
	r := map[*LoopInfo]bool{}
	var visit func(evs []*Ev) bool
	visit = func(evs []*Ev) bool {
		hit := false
		for _, e := range evs {
			if e.Kind == "recv" && len(e.Args) > 0 && e.Args[0] == s.ChIn {
				hit = true
			}
			if e.Loop == nil {
				continue
			}
			in := false
			for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
				in = visit(it.St.ev.list()) || in
			}
			if in {
				r[e.Loop] = true
				hit = true
			}
		}
		return hit
	}
	for _, o := range s.Outs {
		visit(o.St.ev.list())
	}
	return r
}

// changed lists the memory that existed before the stage started and that the stage changes.
func (s *Stage) changed() map[*Term]bool {
	r := map[*Term]bool{}
	old := func(cell *Term) bool {
		root := rootOf(cell)
		if root.isOp("mapc") {
			root = root.Args[0]
		}
		return root.isOp("glob") || isObj(root) && objNum(root) <= s.ObjMark || root.K == KSym && root.ID <= s.TermMark
	}
	diff := func(st *State) {
		for cell, v := range st.heap {
			if s.Pipe.St.heap[cell] != v && old(cell) {
				r[cell] = true
			}
		}
	}
	var visit func(evs []*Ev)
	visit = func(evs []*Ev) {
		for _, e := range evs {
			if e.Loop == nil {
				continue
			}
			for _, lv := range e.Loop.Order {
				if lv.Cell != nil && old(lv.Cell) {
					r[lv.Cell] = true
				}
			}
			for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
				diff(it.St)
				visit(it.St.ev.list())
			}
		}
	}
	for _, o := range s.Outs {
		diff(o.St)
		visit(o.St.ev.list())
	}
	return r
}

// carriedState: what a worker answers to a block depends on that block alone.
func (c *Ctx) carriedState(rule string) {
	n := 0
	for _, p := range c.pipes(rule) {
		if !p.hasWriter() {
			continue
		}
		w, o := c.stage(p, false, nil), c.stage(p, true, nil)
		if w.Err != "" || o.Err != "" {
			c.Bad(rule, p.name(), w.ErrPos, "not decided: %s%s", w.Err, o.Err)
			continue
		}
		n++
		shared := w.changed()
		for cell := range o.changed() {
			shared[cell] = true
		}
		if os.Getenv("OSMCHECK_DEBUG") != "" {
			for cell := range shared {
				fmt.Println("shared", p.name(), cell)
			}
		}
		// memory that stages change is different each time it is looked at
		q := *p
		q.St = p.St.clone()
		bad := map[*Term]string{}
		for cell := range shared {
			v := Sym(fmt.Sprintf("shared.%v", cell), nil, nil)
			if old := q.St.heap[cell]; old != nil {
				v = Sym(fmt.Sprintf("shared.%v", cell), old.T, nil)
			}
			q.St.heap[cell] = v
			bad[v] = fmt.Sprintf("%v, which the stages change", cell)
		}
		if len(p.Workers.Args) > 0 || p.Workers.K == KSym {
			bad[p.Workers] = "the number of workers"
		}
		for _, writer := range []bool{false, true} {
			s := c.stage(&q, writer, nil)
			if s.Err != "" {
				c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
				continue
			}
			d := newDepWalk(c, s.Outs)
			for t, why := range bad {
				d.bad[t] = why
			}
			if writer {
				c.writerSources(rule, s, d)
			} else {
				d.carried = s.receiveLoops()
				c.answers(rule, s, d)
			}
		}
	}
	c.Want(n > 5, rule, "pipelines", nil, "only %d pipelines with a writer", n)
}

func (c *Ctx) answers(rule string, s *Stage, d *depWalk) {
	k := &Ctx{P: c.P, seen: map[string]bool{}, stats: map[string]int{}}
	w := k.proto("protocol", s)
	n := 0
	for i, g := range w.segs {
		if g.Kind == OPanic {
			continue
		}
		d.stop[g.blk] = true
		name := fmt.Sprintf("%s path %d", s.name(), i)
		why := ""
		sends := 0
		eachEv(g.evs, func(e *Ev) {
			if e.Kind == "send" && e.Args[0] == s.ChOut {
				sends++
				if why == "" {
					if x := d.source(e.Args[1:]...); x != "" {
						why = "what is sent depends on " + x
					}
				}
			}
			if e.Kind == "makeblock" || e.Kind == "writemsg" || e.Kind == "put" {
				if x := d.source(e.Args...); x != "" && why == "" && e.Kind != "put" {
					why = "the data sent depend on " + x
				}
			}
		})
		if sends == 0 {
			continue
		}
		n++
		if why == "" {
			var fs []*Term
			for l := range g.St.lits {
				fs = append(fs, l)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
			if x := d.source(fs...); x != "" {
				why = "whether this is sent depends on " + x
			}
		}
		if why == "" {
			if x := c.heapSource(s, g, d); x != "" {
				why = x
			}
		}
		c.Want(why == "", rule, name, g.Pos, "%s", why)
	}
	c.Want(n > 0, rule, s.name(), s.Fn, "no answered block found")
}

// heapSource: memory made while the block is handled holds nothing that varies.
func (c *Ctx) heapSource(s *Stage, g *segment, d *depWalk) string {
	mark := 0
	for L := range d.carried {
		mark = max(mark, L.ObjMark)
	}
	for cell, v := range g.St.heap {
		root := rootOf(cell)
		if !isObj(root) || root.isOp("glob") || objNum(root) <= mark {
			continue
		}
		if x := d.source(v); x != "" {
			return fmt.Sprintf("memory used for the block (%v) depends on %s", cell, x)
		}
	}
	return ""
}

// writerSources: what is written depends on the blocks received only.
func (c *Ctx) writerSources(rule string, s *Stage, d *depWalk) {
	n := 0
	why := ""
	var pos any = s.Fn
	var visit func(evs []*Ev, st *State)
	visit = func(evs []*Ev, st *State) {
		for _, e := range evs {
			if op, args := ioOf(e); op != "" && op != "map" && op != "unmap" && op != "sync" && why == "" {
				n++
				if x := d.source(args...); x != "" {
					why, pos = op+" depends on "+x, e.Pos
				} else {
					for l := range st.lits {
						if x := d.source(l); x != "" && why == "" {
							why, pos = "whether there is a "+op+" depends on "+x, e.Pos
						}
					}
				}
			}
			if e.Loop != nil {
				for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
					visit(it.St.ev.list(), it.St)
				}
			}
		}
	}
	for _, o := range s.Outs {
		if o.Kind == ORet {
			visit(o.St.ev.list(), o.St)
		}
	}
	c.Want(why == "", rule, s.name(), pos, "%s", why)
	c.Want(n > 0, rule, s.name()+" writes", s.Fn, "no operation on the output found")
}

// ---- iteration order of maps ----

// mapOrder: no loop over a map does anything whose result depends on the order of its iterations.
func (c *Ctx) mapOrder(rule string) {
	n := 0
	for _, f := range c.P.Funcs() {
		if opaquePkg(fnPkg(f)) || c.displayOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						switch {
						case strings.HasPrefix(g.String(), "(*sync.Map).Range"), strings.HasPrefix(g.String(), "maps.Keys"), strings.HasPrefix(g.String(), "maps.Values"), strings.HasPrefix(g.String(), "maps.All"),
							strings.Contains(g.String(), "reflect.Value).MapRange"), strings.Contains(g.String(), "reflect.Value).MapKeys"), strings.HasPrefix(g.String(), "(reflect.Value).MapRange"):
							c.Bad(rule, g.Name()+" in "+fnName(f), ins, "the entries of a map are visited in an order that differs from run to run")
						}
					}
				}
				nx, ok := ins.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				n++
				why := c.orderFree(f, nx)
				c.Want(why == "", rule, "loop over a map in "+fnName(f), ins, "the result depends on the order in which the map is walked: %s", why)
			}
		}
	}
	c.Count("map loops", n)
	c.Min(rule, 1)
}

// displayOnly: a method of a type whose package does not take part in the processing (it imports no package of the repository
// and the function gives nothing back).
func (c *Ctx) displayOnly(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil || f.Signature.Results().Len() > 0 {
		return false
	}
	views := false
	for _, im := range f.Pkg.Pkg.Imports() {
		if strings.HasPrefix(im.Path(), modPath) {
			return false
		}
		views = views || strings.HasPrefix(im.Path(), "github.com/gdamore/tcell")
	}
	return views
}

// loopBlocks of the natural loop with the header.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{h: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if r[b] {
			return
		}
		r[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			up(p)
		}
	}
	return r
}

func (c *Ctx) orderFree(f *ssa.Function, nx *ssa.Next) string {
	h := nx.Block()
	in := loopBlocks(h)
	if len(in) == 1 {
		return "" // no iteration does anything
	}
	var key ssa.Value
	for _, r := range *nx.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	var ranged ssa.Value
	if r, ok := nx.Iter.(*ssa.Range); ok {
		ranged = r.X
	}
	// what is carried from one iteration to the next
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		if why := c.carriedPhi(phi, in, h); why != "" {
			return why
		}
	}
	for b := range in {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return "an iteration sends, or starts a goroutine"
			case *ssa.Store:
				if c.filledInTurn(ins, h, in) || c.collectedInVar(ins, h, in) {
					continue
				}
				if !c.localTo(ins.Addr, in) {
					return "memory is written (" + c.P.pos(ins.Pos()) + ")"
				}
			case *ssa.MapUpdate:
				k, isKey := ins.Key, false
				isKey = k == key && key != nil
				_, kc := ins.Value.(*ssa.Const)
				if !isKey && !kc && !c.localTo(ins.Map, in) {
					return "a map is filled with other keys (" + c.P.pos(ins.Pos()) + ")"
				}
				if isKey && c.usesHeaderPhi(ins.Value, h, in, map[ssa.Value]bool{}) {
					return "what a map is filled with depends on the iterations before (" + c.P.pos(ins.Pos()) + ")"
				}
			case *ssa.UnOp:
				if ins.Op.String() == "<-" {
					return "an iteration receives"
				}
			case ssa.CallInstruction:
				if why := c.callFree(ins, key, ranged, in); why != "" {
					return why
				}
			}
		}
	}
	// leaving the loop early: only with the same constants whichever entry is the reason
	var first []string
	have := false
	for b := range in {
		for _, s := range b.Succs {
			if in[s] || b == h {
				continue
			}
			// s is reached early
			sig, why := c.exitSig(b, s, in, h)
			if why != "" {
				return why
			}
			if have && fmt.Sprint(first) != fmt.Sprint(sig) {
				return "the loop is left early in several ways"
			}
			first, have = sig, true
		}
	}
	return ""
}

// exitSig: the values with which an early exit leaves the loop must be constants.
func (c *Ctx) exitSig(from, to *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, h *ssa.BasicBlock) ([]string, string) {
	var r []string
	if t := to.Instrs[len(to.Instrs)-1]; len(to.Succs) == 0 {
		if _, ok := t.(*ssa.Panic); ok {
			return nil, "" // the run fails, whichever entry is the reason
		}
	}
	for i, p := range to.Preds {
		if p != from {
			continue
		}
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				continue
			}
			k, ok := phi.Edges[i].(*ssa.Const)
			if !ok {
				if x, isIns := phi.Edges[i].(ssa.Instruction); isIns && !in[x.Block()] {
					continue // from before the loop
				}
				return nil, "the loop is left early with a value of one iteration"
			}
			r = append(r, k.String())
		}
	}
	// values of the loop used afterwards
	for b := range in {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() == nil || in[u.Block()] {
					continue
				}
				if _, ok := u.(*ssa.Phi); ok && b == h {
					continue
				}
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				if phi, ok := u.(*ssa.Phi); ok {
					_ = phi
					return nil, "the loop is left early with a value of one iteration"
				}
				return nil, "the loop is left early and a value of the iteration is used afterwards"
			}
		}
	}
	if len(to.Succs) == 0 {
		if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok {
			for _, x := range ret.Results {
				switch x := x.(type) {
				case *ssa.Const:
					r = append(r, x.String())
				case *ssa.Phi:
				case ssa.Instruction:
					if in[x.Block()] {
						return nil, "the loop is left early with a value of one iteration"
					}
				}
			}
		}
	}
	return r, ""
}

// localTo: the address belongs to memory made in the iteration.
func (c *Ctx) localTo(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return in[v.Block()]
	case *ssa.MakeMap:
		return in[v.Block()]
	case *ssa.MakeSlice:
		return in[v.Block()]
	case *ssa.FieldAddr:
		return c.localTo(v.X, in)
	case *ssa.IndexAddr:
		return c.localTo(v.X, in)
	case *ssa.Slice:
		return c.localTo(v.X, in)
	}
	return false
}

func (c *Ctx) usesHeaderPhi(v ssa.Value, h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
		return true
	}
	x, ok := v.(ssa.Instruction)
	if !ok || !in[x.Block()] {
		return false
	}
	for _, op := range x.Operands(nil) {
		if *op != nil && c.usesHeaderPhi(*op, h, in, seen) {
			return true
		}
	}
	return false
}

// carriedPhi: a sum, a flag, an extreme, or a list that is put in order before it is used.
func (c *Ctx) carriedPhi(phi *ssa.Phi, in map[*ssa.BasicBlock]bool, h *ssa.BasicBlock) string {
	var next []ssa.Value
	for i, e := range phi.Edges {
		if in[h.Preds[i]] {
			next = append(next, e)
		}
	}
	// all values that lead from the phi to the next iteration
	flow := map[ssa.Value]bool{}
	kind := ""
	set := func(k string) string {
		if kind != "" && kind != k {
			return phi.Comment + " is changed in several ways"
		}
		kind = k
		return ""
	}
	var trace func(v ssa.Value) string
	trace = func(v ssa.Value) string {
		if v == ssa.Value(phi) || flow[v] {
			return ""
		}
		flow[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !in[x.Block()] {
				return "unknown"
			}
			for _, e := range x.Edges {
				if why := trace(e); why != "" {
					return why
				}
			}
			return ""
		case *ssa.Const:
			return set("set to " + x.String())
		case *ssa.BinOp:
			other := x.Y
			a := x.X
			if c.usesHeaderPhi(x.Y, h, in, map[ssa.Value]bool{}) {
				a, other = x.Y, x.X
			}
			if c.usesHeaderPhi(other, h, in, map[ssa.Value]bool{}) {
				return phi.Comment + " depends on what the iterations before computed"
			}
			switch x.Op.String() {
			case "+", "*", "|", "&", "^":
				if !isIntType(x.Type()) {
					return phi.Comment + " is not a sum of integers"
				}
			case "-":
				if a != x.X || !isIntType(x.Type()) {
					return phi.Comment + " alternates"
				}
			default:
				return phi.Comment + " depends on the order"
			}
			op := x.Op.String()
			if op == "-" {
				op = "+"
			}
			if why := set("sum " + op); why != "" {
				return why
			}
			return trace(a)
		case *ssa.Call:
			if builtinName(&x.Call) == "append" {
				if why := set("list"); why != "" {
					return why
				}
				return trace(x.Call.Args[0])
			}
		}
		return phi.Comment + " takes a value of one iteration"
	}
	for _, v := range next {
		if why := trace(v); why != "" {
			return why
		}
	}
	if kind != "list" {
		// conditions of the loop may not look at it, apart from the sum itself
		if strings.HasPrefix(kind, "sum") || kind == "" || strings.HasPrefix(kind, "set") {
			for v := range flow {
				if why := c.looksAt(v, flow, in, phi); why != "" {
					return why
				}
			}
			return c.looksAt(phi, flow, in, phi)
		}
		return ""
	}
	flow[phi] = true
	// a list: within the loop only appended to; afterwards sorted before anything else
	return c.sortedFirst(flow, in, phi.Comment, 0)
}

// collectedInVar: the store appends to a list in a variable of the function (which a comparison function captures);
// the list is sorted before anything else looks at it.
func (c *Ctx) collectedInVar(st *ssa.Store, h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	al, ok := st.Addr.(*ssa.Alloc)
	if !ok || in[al.Block()] {
		return false
	}
	ap, ok := st.Val.(*ssa.Call)
	if !ok || builtinName(&ap.Call) != "append" {
		return false
	}
	old, ok := ap.Call.Args[0].(*ssa.UnOp)
	if !ok || old.X != ssa.Value(al) || onlyUse(old) != ssa.Instruction(ap) || onlyUse(ap) != ssa.Instruction(st) {
		return false
	}
	flow := map[ssa.Value]bool{}
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp:
			if in[u.Block()] {
				if u != old {
					return false
				}
				continue
			}
			flow[u] = true
		case *ssa.Store:
			if in[u.Block()] && u != st || u.Val == ssa.Value(al) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure: // only the comparison of a sort
			mc, ok := onlyUse(u).(ssa.CallInstruction)
			if !ok || !totalSort(mc.Common()) {
				return false
			}
		default:
			return false
		}
	}
	return c.sortedFirst(flow, in, "the list", 0) == ""
}

// onlyUse of a value; nil if there are more.
func onlyUse(v ssa.Value) ssa.Instruction {
	var r ssa.Instruction
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if r != nil {
			return nil
		}
		r = u
	}
	return r
}

// filledInTurn: the store fills the next place of a list made before the loop, which is sorted afterwards.
func (c *Ctx) filledInTurn(st *ssa.Store, h *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	x, ok := ia.X.(ssa.Instruction)
	if !ok || in[x.Block()] {
		return false
	}
	if _, ok := ia.X.(*ssa.MakeSlice); !ok {
		return false
	}
	k, ok := ia.Index.(*ssa.Phi)
	if !ok || k.Block() != h {
		return false
	}
	for i, e := range k.Edges {
		if !in[h.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op.String() != "+" || b.X != ssa.Value(k) || !st.Block().Dominates(b.Block()) || !st.Block().Dominates(h.Preds[i]) {
			return false
		}
		if n, ok := b.Y.(*ssa.Const); !ok || n.Int64() != 1 {
			return false
		}
	}
	for _, u := range *ia.X.Referrers() { // in the loop, only this store uses the list
		if in[u.Block()] && u != ssa.Instruction(ia) {
			return false
		}
	}
	if onlyUse(ia) != ssa.Instruction(st) {
		return false
	}
	return c.sortedFirst(map[ssa.Value]bool{ia.X: true, ia: true}, in, "the list", 0) == ""
}

func isIntType(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *Ctx) looksAt(v ssa.Value, flow map[ssa.Value]bool, in map[*ssa.BasicBlock]bool, phi *ssa.Phi) string {
	if v.Referrers() == nil {
		return ""
	}
	for _, u := range *v.Referrers() {
		if !in[u.Block()] {
			continue
		}
		if x, ok := u.(ssa.Value); ok && (flow[x] || x == ssa.Value(phi)) {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		if ia, ok := u.(*ssa.IndexAddr); ok && ia.Index == v {
			if st, ok := onlyUse(ia).(*ssa.Store); ok && c.filledInTurn(st, phi.Block(), in) {
				continue
			}
		}
		return "an iteration uses " + phi.Comment + " as the iterations before left it"
	}
	return ""
}

// totalSorts order their elements completely.
func totalSort(call *ssa.CallCommon) bool {
	g := call.StaticCallee()
	if g == nil {
		return false
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	switch g.String() {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "sort.Sort", "sort.Stable":
		if mi, ok := call.Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				return true
			}
		}
	case "sort.Slice", "sort.SliceStable":
		return len(call.Args) == 2 && elementOrder(call.Args[1], call.Args[0])
	}
	return false
}

// elementOrder: the comparison of sort.Slice is l[i] < l[j] (or >) on elements of a basic type.
func elementOrder(less, list ssa.Value) bool {
	g := funcOf(less)
	if g == nil || len(g.Blocks) != 1 || len(g.Params) != 2 {
		return false
	}
	ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	cmp, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || cmp.Op.String() != "<" && cmp.Op.String() != ">" {
		return false
	}
	idx := func(v ssa.Value) ssa.Value {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		if _, ok := under(u.Type()).(*types.Basic); !ok {
			return nil
		}
		return ia.Index
	}
	a, b := idx(cmp.X), idx(cmp.Y)
	return a != nil && b != nil && a != b && (a == ssa.Value(g.Params[0]) || a == ssa.Value(g.Params[1])) && (b == ssa.Value(g.Params[0]) || b == ssa.Value(g.Params[1]))
}

// sortedFirst: what is collected in the loop is sorted, completely, before anything else looks at it.
func (c *Ctx) sortedFirst(flow map[ssa.Value]bool, in map[*ssa.BasicBlock]bool, name string, depth int) string {
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	var visit func(v ssa.Value) string
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if in[u.Block()] {
				if x, ok := u.(ssa.Value); ok && (flow[x] || seen[x]) {
					continue
				}
				if call, ok := u.(*ssa.Call); ok && (builtinName(&call.Call) == "len" || builtinName(&call.Call) == "cap") {
					return "an iteration uses the length of " + name
				}
				return "an iteration uses " + name
			}
			switch x := u.(type) {
			case *ssa.Call:
				if b := builtinName(&x.Call); b == "len" || b == "cap" {
					continue
				}
				if totalSort(&x.Call) {
					sorts = append(sorts, x)
					continue
				}
			case *ssa.MakeInterface: // the argument of sort.Slice
				any := false
				for _, w := range *x.Referrers() {
					if call, ok := w.(*ssa.Call); ok && totalSort(&call.Call) && call.Call.Args[0] == ssa.Value(x) {
						sorts = append(sorts, call)
						any = true
						continue
					}
					uses = append(uses, w)
				}
				if any {
					continue
				}
			case *ssa.Store: // the variable that holds it, for a comparison function
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, w := range *al.Referrers() {
						switch w := w.(type) {
						case *ssa.UnOp:
							if why := visit(w); why != "" {
								return why
							}
						case *ssa.Store, *ssa.DebugRef:
						case *ssa.MakeClosure: // the comparison
						default:
							uses = append(uses, w)
						}
					}
					continue
				}
			case *ssa.Phi, *ssa.ChangeType:
				if why := visit(u.(ssa.Value)); why != "" {
					return why
				}
				continue
			}
			uses = append(uses, u)
		}
		return ""
	}
	for v := range flow {
		switch v.(type) {
		case *ssa.Const, *ssa.IndexAddr:
			continue
		}
		if why := visit(v); why != "" {
			return why
		}
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
		return false
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || before(s, u)
		}
		if ok {
			continue
		}
		// returned unsorted: the callers have to sort it
		if r, isRet := u.(*ssa.Return); isRet && depth < 3 {
			if why := c.sortedByCallers(r, seen, name, depth); why == "" {
				continue
			}
		}
		return name + " is used without having been sorted completely (" + c.P.pos(u.Pos()) + ")"
	}
	return ""
}

func (c *Ctx) sortedByCallers(r *ssa.Return, vals map[ssa.Value]bool, name string, depth int) string {
	f := r.Parent()
	t := c.threads()
	if t.valued[f] || len(t.callers[f]) == 0 || t.roots[f] != "" {
		return "some callers are not known"
	}
	for i, x := range r.Results {
		if !vals[x] {
			continue
		}
		for _, ci := range t.callers[f] {
			call, ok := ci.(*ssa.Call)
			if !ok {
				return "not a plain call"
			}
			flow := map[ssa.Value]bool{}
			if len(r.Results) == 1 {
				flow[call] = true
			} else {
				for _, u := range *call.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						flow[e] = true
					}
				}
			}
			if why := c.sortedFirst(flow, map[*ssa.BasicBlock]bool{}, name, depth+1); why != "" {
				return why
			}
		}
	}
	return ""
}

// callFree: a call in an iteration whose effect does not depend on the order.
func (c *Ctx) callFree(ins ssa.CallInstruction, key, ranged ssa.Value, in map[*ssa.BasicBlock]bool) string {
	call := ins.Common()
	switch builtinName(call) {
	case "":
	case "delete":
		if len(call.Args) == 2 && (call.Args[1] == key && key != nil) {
			return ""
		}
		return "other entries of a map are deleted (" + c.P.pos(ins.Pos()) + ")"
	case "append", "len", "cap", "min", "max", "recover", "ssa:wrapnilchk":
		return ""
	default:
		return "an iteration calls " + builtinName(call)
	}
	g := c.P.unbound(call.StaticCallee())
	if g == nil {
		return "an iteration calls a function that is not known (" + c.P.pos(ins.Pos()) + ")"
	}
	if g == stbMethod(c.P, "AddString") {
		return "" // adding strings in another order gives the same table (order-free table)
	}
	if why := c.pureFunc(g, map[*ssa.Function]bool{}); why != "" {
		return why
	}
	return ""
}

// pureFunc: the function only computes a result.
func (c *Ctx) pureFunc(g *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[g] {
		return ""
	}
	seen[g] = true
	if !c.P.repo(g) || len(g.Blocks) == 0 {
		if isPureFn(g.String()) {
			return ""
		}
		return "an iteration calls " + g.String()
	}
	fr := &freshness{t: c.threads(), memo: map[ssa.Value]bool{}}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if !fr.maker(ins.Addr, 0) {
					return g.Name() + " writes memory (" + c.P.pos(ins.Pos()) + ")"
				}
			case *ssa.MapUpdate:
				if !fr.maker(ins.Map, 0) {
					return g.Name() + " writes memory (" + c.P.pos(ins.Pos()) + ")"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return g.Name() + " has other effects"
			case *ssa.UnOp:
				if ins.Op.String() == "<-" {
					return g.Name() + " receives"
				}
			case *ssa.Call:
				if builtinName(&ins.Call) != "" {
					if builtinName(&ins.Call) == "delete" || builtinName(&ins.Call) == "close" || builtinName(&ins.Call) == "copy" {
						return g.Name() + " writes memory"
					}
					continue
				}
				h := c.P.unbound(ins.Call.StaticCallee())
				if h == nil {
					return g.Name() + " calls a function that is not known"
				}
				if why := c.pureFunc(h, seen); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// mainSources: what a command does to files depends on nothing that differs from run to run.
func (c *Ctx) mainSources(rule string) {
	files := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad(rule, "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		d := newDepWalk(c, k.Outs)
		for _, p := range k.Pipe {
			if len(p.Workers.Args) > 0 || p.Workers.K == KSym {
				d.bad[p.Workers] = "the number of workers"
			}
		}
		why := ""
		var pos any = k.Main
		n := 0
		var visit func(evs []*Ev, st *State)
		visit = func(evs []*Ev, st *State) {
			for _, e := range evs {
				op, args := ioOf(e)
				if e.Kind == "process" && len(e.Args) == 5 {
					op, args = "pipeline", []*Term{e.Args[1], e.Args[2], e.Args[3]}
				}
				if op != "" && op != "unmap" && op != "sync" && why == "" {
					n++
					if x := d.source(args...); x != "" {
						why, pos = op+" depends on "+x, e.Pos
						if os.Getenv("OSMCHECK_DEBUG") != "" {
							fmt.Println(k.Name, op, args)
						}
					}
					var fs []*Term
					for l := range st.lits {
						fs = append(fs, l)
					}
					sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
					if x := d.source(fs...); x != "" && x != "the number of workers" && why == "" { // the options are checked
						why, pos = "whether there is this "+op+" depends on "+x, e.Pos
					}
				}
				if e.Loop != nil {
					for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
						visit(it.St.ev.list(), it.St)
					}
				}
			}
		}
		for _, o := range k.Outs {
			if o.Kind == ORet {
				visit(o.St.ev.list(), o.St)
			}
		}
		c.Want(why == "", rule, k.Name, pos, "%s", why)
		files += n
	}
	c.Count("operations", files)
	c.Want(files > 20, rule, "operations", nil, "only %d operations on files found", files)
	c.Min(rule, 8)
}

// tableOrder: adding strings to a table in another order gives the same counts.
func (c *Ctx) tableOrder(rule string) {
	sh := c.stbType(rule)
	if sh == nil {
		return
	}
	newFn := c.P.Func("internal/t.NewStringTableBuilder")
	for _, out := range c.run(c.interp(), newFn, nil, newState()) {
		if out.Kind != ORet {
			continue
		}
		for _, i := range sh.maps() {
			m := sh.field(out.St, out.Rets[0], i)
			if isObj(m) && mapContentOf(out.St, m).isOp("mstore") {
				sh.freq = i
			}
		}
	}
	if sh.freq < 0 {
		c.Bad(rule, "new builder", newFn, "not decided: the map of counts of a builder")
		return
	}
	c.stbRun(rule, "AddString", func(in *Interp, stb *Term, a []*Term, out *Outcome) {
		if out.Kind != ORet {
			return
		}
		st, s := out.St, a[0]
		m := sh.field(newState(), stb, sh.freq)
		base := Op("mcont0", "", nil, m)
		own := func(t *Term) bool { // made of the count of this string, the string and constants
			var ok func(t *Term) bool
			ok = func(t *Term) bool {
				switch {
				case t.isOp("mget") && t.Args[0] == base && t.Args[1] == s, t.isOp("mhas") && t.Args[0] == base && t.Args[1] == s, t == s:
					return true
				case t.K == KSym:
					return false
				case t.isOp("mget"), t.isOp("mhas"), t.isOp("mcont0"), t.isOp("cont0"), t.isOp("load"):
					return false
				}
				for _, x := range t.Args {
					if !ok(x) {
						return false
					}
				}
				for _, p := range t.P {
					for _, x := range p.A {
						if !ok(x) {
							return false
						}
					}
				}
				return true
			}
			return ok(t)
		}
		for l := range st.lits {
			if !own(l) {
				c.Bad(rule, "AddString", out.Pos, "what is recorded depends on more than the count of the string: %v", l)
				return
			}
		}
		ct := mapContentOf(st, m)
		if ct == base {
			c.Ok(rule, "AddString unchanged", out.Pos, "")
			return
		}
		if !ct.isOp("mstore") || ct.Args[0] != base || ct.Args[1] != s {
			c.Bad(rule, "AddString", out.Pos, "more than the count of the string is changed")
			return
		}
		v := ct.Args[2]
		c.Want(own(v), rule, "AddString", out.Pos, "the new count of a string is made of more than its count: %v", v)
	})
	// the map is changed nowhere else before the table is finished: AddMap only calls AddString (C28)
}
