package main

// C32: the commands that count and find things.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C32", "abstract interpretation with loop summaries: the worker of every pipeline without a writer is interpreted for an arbitrary stream of blocks. For each shared counter the amount that one received block adds to it on each path is derived as a nested sum over loop summaries and compared with the quantity the counter is printed as (1 per block; over the groups of the decoded block the lengths of the lists of ids, ways and relations; over the ways the lengths of the reference lists), and each maximum likewise; counters start at zero, are only changed by atomic additions or compare-and-swap loops that keep the larger value (or the same under one hold of a lock), and are printed after the wait for the workers, with the label of their own quantity; the finding worker passes every node, way and relation to a complete comparison with the ids asked for and prints it on exactly the paths that found one",
		func(c *Ctx) { c.counting("count") },
		"ids are non-negative", "the block is what the decoder (C04) makes of the blob of the received data", "totals stay below 2^64")
}

func (c *Ctx) counting(rule string) {
	found := map[string]bool{}
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad(rule, "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		for _, p := range k.Pipe {
			if p.hasWriter() {
				continue
			}
			k := k
			c.Try(rule, k.Name, k.Main, func() {
				if k.Name == "entityfind" {
					found[k.Name] = true
					c.finding(rule, p)
					return
				}
				for q := range c.counted(rule, k) {
					found[k.Name+" "+q] = true
				}
			})
		}
	}
	for _, w := range []string{"blockcount blocks", "entitycount blocks", "entitycount nodes", "entitycount ways", "entitycount relations", "entitycount refs", "entitycount max nodes", "entitycount max ways", "entitycount max relations", "entitycount max refs", "entityfind"} {
		c.Want(found[w], rule, w, nil, "no command reports this")
	}
	c.Min(rule, 20)
}

// counted interprets a counting command with symbolic final values of the memory its workers can reach.
func (c *Ctx) counted(rule string, k *Command) map[string]bool {
	in := c.interp()
	domainHooks(in, nil)
	var pipe *Pipe
	var ret *Term
	type cell struct {
		addr *Term
		T    types.Type
	}
	var cells []cell
	set := func(st *State, what string) {
		for _, x := range cells {
			st.store(x.addr, Op(what, "", x.T, x.addr), x.T)
		}
	}
	if fn := c.P.Func("internal/pbf.ProcessFileAsync"); fn != nil {
		old := in.Hooks[fnName(fn)]
		in.Hooks[fnName(fn)] = func(in *Interp, cc *CallCtx) []*Outcome {
			outs := old(in, cc)
			for _, o := range outs {
				var e *Ev
				for _, x := range o.St.ev.list() {
					if x.Kind == "process" {
						e = x
					}
				}
				if e == nil || len(e.Args) != 5 {
					continue
				}
				if pipe != nil && pipe.Ev.Pos != e.Pos {
					panic(analysisError{"the command starts several pipelines"})
				}
				pipe = &Pipe{Cmd: k, Ev: e, Cx: e.Args[0], File: e.Args[1], Work: e.Args[2], Write: e.Args[3], Workers: e.Args[4], St: e.Snap}
				ret = e.Ret
				cells = nil
				for _, a := range reachable(o.St, e.Args[2]) {
					var scalars func(addr *Term, T types.Type)
					scalars = func(addr *Term, T types.Type) {
						if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
							return
						}
						switch u := under(T).(type) {
						case *types.Basic:
							if isInteger(u) {
								cells = append(cells, cell{addr, T})
							}
						case *types.Struct:
							for i := 0; i < u.NumFields(); i++ {
								scalars(FieldAddrT(addr, i, T), u.Field(i).Type())
							}
						}
					}
					if a.T != nil {
						scalars(a, a.T)
					}
				}
				set(o.St, "running")
			}
			return outs
		}
	}
	if fn := c.P.Func("internal/pbf.(*ProcessFileState).Wait"); fn != nil {
		old := in.Hooks[fnName(fn)]
		in.Hooks[fnName(fn)] = func(in *Interp, cc *CallCtx) []*Outcome {
			outs := old(in, cc)
			for _, o := range outs {
				if len(cc.Args) > 0 && cc.Args[0] == ret {
					set(o.St, "final")
				}
			}
			return outs
		}
	}
	outs := c.run(in, k.Main, in.SymArgs(k.Main), newState())
	c.visited(in)
	if pipe == nil {
		c.Bad(rule, k.Name, k.Main, "no pipeline is started")
		return nil
	}
	s := c.stage(pipe, false, func(in *Interp) {
		// what is added to a total while a lock is held counts as one atomic addition (C31: everyone uses the lock)
		// a value that was read under an earlier hold of the lock is not the total any more
		const during = "under the lock"
		holds := 0
		mark := func(x cell) *Term { return Op("hold of the lock", "", nil, x.addr) }
		in.Hooks["(*sync.Mutex).Lock"] = func(in *Interp, cc *CallCtx) []*Outcome {
			st := cc.St
			holds++
			for _, x := range cells {
				v := st.load(x.addr, x.T)
				if v == pipe.St.load(x.addr, x.T) {
					now := Op(during, fmt.Sprint(holds), x.T, x.addr, v)
					st.store(x.addr, now, x.T)
					st.heap[mark(x)] = now
				}
			}
			return retOne(st)
		}
		in.Hooks["(*sync.Mutex).Unlock"] = func(in *Interp, cc *CallCtx) []*Outcome {
			st := cc.St
			for _, x := range cells {
				v, old := st.load(x.addr, x.T), st.heap[mark(x)]
				if old == nil {
					continue
				}
				delete(st.heap, mark(x))
				stale := v.any(func(y *Term) bool { return y.isOp(during) && y.Args[0] == x.addr && y != old })
				d := Sub(v, old)
				switch {
				case stale:
					continue
				case v == old:
					st.emit(&Ev{Kind: "locked", Name: "locked.Load", Args: []*Term{x.addr}, Ret: old, Pos: cc.Pos, Fn: cc.In})
				case !v.contains(old):
					// the total is replaced, as by a comparison and a swap that cannot fail
					st.emit(&Ev{Kind: "atomic", Name: "locked.CompareAndSwap", Args: []*Term{x.addr, old, v}, Ret: tTrue, Pos: cc.Pos, Fn: cc.In})
				case d.contains(old):
					continue
				default:
					st.emit(&Ev{Kind: "atomic", Name: "locked.Add", Args: []*Term{x.addr, d}, Pos: cc.Pos, Fn: cc.In})
				}
				st.store(x.addr, old.Args[1], x.T)
			}
			return retOne(st)
		}
		for _, f := range []string{"Lock", "Unlock"} {
			in.Hooks["(*sync.RWMutex)."+f] = in.Hooks["(*sync.Mutex)."+f]
		}
	})
	if s.Err != "" {
		c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
		return nil
	}
	r := map[string]bool{}
	shown := map[*Term]string{}
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		n := 0
		for _, e := range o.St.ev.list() {
			if e.Kind == "process" {
				n++
			}
		}
		if n != 1 {
			c.Bad(rule, k.Name, k.Main, "the file is processed %d times", n)
			continue
		}
		here := map[string]bool{}
		for _, l := range labelled(o.St) {
			q, addr := l.quantity, c.counterOf(o.St, l.arg)
			if addr == nil {
				c.Want(q == "", rule, k.Name+" "+q, l.Pos, "what is printed as %s is %v, not the total once all workers are done", q, l.arg)
				continue
			}
			if q == "" {
				c.Bad(rule, k.Name, l.Pos, "not decided: what a total is printed as (%q)", l.text)
				continue
			}
			c.Want(shown[addr] == "" || shown[addr] == q, rule, k.Name+" "+q, l.Pos, "the same total is printed as %s and as %s", shown[addr], q)
			shown[addr] = q
			here[q] = true
			if r[q] {
				continue
			}
			r[q] = true
			a := &countAna{c: c, rule: rule, name: k.Name + " " + q, s: s, A: addr, q: q}
			init := pipe.St.load(addr, types.Typ[types.Uint64])
			c.Want(init == tZero, rule, a.name+" start", l.Pos, "the total starts as %v", init)
			a.check()
		}
		for q := range r {
			c.Want(here[q], rule, k.Name+" "+q, k.Main, "the total is not printed on every path")
		}
	}
	// nothing else is done to the totals
	for _, o := range s.Outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Kind == "atomic" && len(e.Args) > 0 && shown[e.Args[0]] == "" {
				c.Bad(rule, k.Name, e.Pos, "a total is made and not printed (%v)", e.Args[0])
			}
		})
		for _, x := range reachable(pipe.St, pipe.Work) {
			for cell, v := range o.St.heap {
				if (rootOf(cell) == x || cell.isOp("mapc") && cell.Args[0] == x) && v != pipe.St.heap[cell] && shown[cell] == "" {
					c.Bad(rule, k.Name+" shared", s.Fn, "the workers share %v and change it without an atomic operation", cell)
				}
			}
		}
		for addr, q := range shown {
			v := o.St.load(addr, types.Typ[types.Uint64])
			c.Want(v == pipe.St.load(addr, types.Typ[types.Uint64]), rule, k.Name+" "+q+" shared", s.Fn, "a worker writes the total without an atomic operation (%v)", v)
		}
	}
	return r
}

// reachable lists the objects that can be reached from a value through memory.
func reachable(st *State, from *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		t.any(func(x *Term) bool {
			if !isObj(x) || seen[x] {
				return false
			}
			seen[x] = true
			r = append(r, x)
			for cell, v := range st.heap {
				if v != nil && rootOf(cell) == x {
					visit(v)
				}
			}
			return false
		})
	}
	visit(from)
	return r
}

// counterOf is the shared counter whose final value this is.
func (c *Ctx) counterOf(st *State, v *Term) *Term {
	v = stripConv(stripIface(v), 64)
	if v.isOp("final") {
		return v.Args[0]
	}
	for _, e := range st.ev.list() {
		if e.Kind == "atomic" && e.Ret == v && strings.Contains(e.Name, ".Load") {
			if f := st.load(e.Args[0], types.Typ[types.Uint64]); f.isOp("final") && f.Args[0] == e.Args[0] {
				// the load comes after the wait
				for _, w := range st.ev.list() {
					if w == e {
						return nil
					}
					if w.Kind == "wait" {
						return e.Args[0]
					}
				}
			}
		}
	}
	return nil
}

type labelledValue struct {
	arg            *Term
	text, quantity string
	Pos            any
}

// labelled lists the values printed and what the text around them says they are.
func labelled(st *State) []labelledValue {
	var r []labelledValue
	add := func(vs []verb, pos any) {
		line := ""
		for _, v := range vs {
			text := v.after
			if !hasLetter(text) {
				text = v.before
			}
			text = strings.ToLower(strings.TrimSpace(text))
			q := ""
			for _, w := range [][2]string{{"ref", "refs"}, {"block", "blocks"}, {"blob", "blocks"}, {"node", "nodes"}, {"relation", "relations"}, {"way", "ways"}} {
				if strings.Contains(text, w[0]) {
					q = w[1]
					break
				}
			}
			if strings.Contains(v.before, "\n") && v.after != "" {
				line = ""
			}
			if q == "" {
				q = line
			}
			line = q
			if q != "" && strings.Contains(text, "max") {
				q = "max " + q
			}
			r = append(r, labelledValue{v.arg, text, q, pos})
		}
	}
	for _, e := range st.ev.list() {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "fmt.") {
			continue
		}
		switch e.Name {
		case "fmt.Printf", "fmt.Fprintf":
			i := 0
			if e.Name == "fmt.Fprintf" {
				i = 1
			}
			if len(e.Args) != i+2 || e.Args[i].K != KStr {
				continue
			}
			add(verbsOf(e.Args[i].S, listedArgs(st, e.Args[i+1])), e.Pos)
		case "fmt.Print", "fmt.Println", "fmt.Fprint", "fmt.Fprintln":
			i := 0
			if strings.HasPrefix(e.Name, "fmt.F") {
				i = 1
			}
			if len(e.Args) != i+1 {
				continue
			}
			var vs []verb
			text := ""
			for _, x := range listedArgs(st, e.Args[i]) {
				x = stripIface(x)
				switch {
				case x.K == KStr:
					text += x.S + " "
					if len(vs) > 0 {
						vs[len(vs)-1].after += x.S + " "
					}
				case x.isOp("pure") && x.S == "fmt.Sprintf" && len(x.Args) == 2 && x.Args[0].K == KStr && x.Args[1].isOp("list"):
					add(verbsOf(x.Args[0].S, x.Args[1].Args), e.Pos)
				default:
					vs = append(vs, verb{before: text, arg: x})
					text = ""
				}
			}
			add(vs, e.Pos)
		}
	}
	return r
}

func hasLetter(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool { return r|32 >= 'a' && r|32 <= 'z' }) >= 0
}

// listedArgs are the elements of a list of arguments whose length is known.
func listedArgs(st *State, l *Term) []*Term {
	var r []*Term
	n := Len(l)
	if !n.isConst() || n.I > 50 {
		return nil
	}
	for i := int64(0); i < n.I; i++ {
		r = append(r, stripIface(st.elem(l, Int(i), elemType(l.T))))
	}
	return r
}

// countAna decides what a worker adds to one counter.
type countAna struct {
	c          *Ctx
	rule, name string
	s          *Stage
	A          *Term
	q          string
	pb         *Ev // the decoded block
}

func (a *countAna) bad(pos any, f string, x ...any) { a.c.Bad(a.rule, a.name, pos, f, x...) }

func (a *countAna) check() {
	c := a.c
	n := 0
	for i, o := range a.s.Outs {
		if o.Kind != ORet {
			continue
		}
		evs := o.St.ev.list()
		var L *LoopInfo
		for _, e := range evs {
			if e.Loop == nil {
				continue
			}
			for _, it := range e.Loop.Iters {
				if a.recvIn(it) != nil {
					if L != nil && L != e.Loop {
						a.bad(e.Pos, "not decided: blocks are received in two loops")
						return
					}
					L = e.Loop
				}
			}
		}
		if L == nil {
			a.bad(o.Pos, "no loop receives the blocks")
			return
		}
		pn := fmt.Sprintf("%s path %d", a.name, i)
		if strings.HasPrefix(a.q, "max ") {
			v, why := a.merged(o, evs)
			if why == "" {
				why = a.maxRun(L, v)
			}
			c.Want(why == "", a.rule, pn, L.Pos, "%s", why)
		} else {
			why := a.sumRun(L, evs)
			c.Want(why == "", a.rule, pn, L.Pos, "%s", why)
		}
		n++
	}
	c.Want(n > 0, a.rule, a.name, a.s.Fn, "the worker never ends")
}

func (a *countAna) recvIn(it *Iter) *Ev {
	for _, e := range it.St.ev.list() {
		if e.Kind == "recv" && len(e.Args) > 0 && e.Args[0] == a.s.ChIn {
			return e
		}
	}
	return nil
}

// added lists the amounts added to the counter by the events themselves.
func (a *countAna) added(evs []*Ev) (r []*Term, why string) {
	for _, e := range evs {
		if e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0] == a.A {
			switch {
			case strings.Contains(e.Name, ".Add"):
				r = append(r, stripConv(e.Args[1], 64))
			case strings.Contains(e.Name, ".Load"):
			default:
				return nil, "the total is changed by " + e.Name
			}
		}
	}
	return r, ""
}

func (a *countAna) touches(L *LoopInfo) bool {
	t := false
	for _, it := range L.Iters {
		eachEv(it.St.ev.list(), func(e *Ev) { t = t || e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0] == a.A })
	}
	for _, it := range L.Exits {
		eachEv(it.St.ev.list(), func(e *Ev) { t = t || e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0] == a.A })
	}
	return t
}

// sumRun: what a run of the worker adds.
func (a *countAna) sumRun(L *LoopInfo, evs []*Ev) string {
	l, why := a.added(evs)
	if why != "" {
		return why
	}
	total := tZero
	for _, x := range l {
		total = Add(total, x)
	}
	rest := total
	var lvs []*LoopVar
	direct := false
	for _, m := range polyOf(total) {
		if len(m.A) == 0 {
			continue
		}
		if len(m.A) != 1 || m.C != 1 {
			return fmt.Sprintf("what is added at the end is %v", total)
		}
		if t := m.A[0]; t == L.K {
			direct = true
			rest = Sub(rest, t)
		} else if lv := L.Vars[t]; lv != nil {
			lvs = append(lvs, lv)
			rest = Add(Sub(rest, t), lv.Init)
		} else {
			return fmt.Sprintf("what is added at the end is %v", total)
		}
	}
	if rest != tZero {
		return fmt.Sprintf("what is added without a block is %v", rest)
	}
	for _, it := range L.Iters {
		e := a.recvIn(it)
		if e == nil {
			return "an iteration receives nothing"
		}
		delta := tZero
		if direct {
			delta = Int(1)
		}
		for _, lv := range lvs {
			delta = Add(delta, Sub(it.Next[lv.Sym], lv.Sym))
		}
		evs := it.St.ev.list()
		if a.q == "blocks" {
			if why := a.sum(it.St, evs, delta, "unit", nil); why != "" {
				return "a block counts wrong: " + why
			}
			continue
		}
		pb, why := a.block(it, e)
		if why != "" {
			return why
		}
		scope := "block"
		if pb == nil {
			scope = "nothing"
		}
		a.pb = pb
		if why := a.sum(it.St, evs, delta, scope, nil); why != "" {
			return why
		}
	}
	for _, it := range L.Exits {
		l, why := a.added(it.St.ev.list())
		if why != "" || len(l) > 0 {
			return "something is added when the input ends"
		}
	}
	return ""
}

// block finds the decoded block of an iteration of the receiving loop; there is none if the data are no map data.
func (a *countAna) block(it *Iter, recv *Ev) (*Ev, string) {
	pb, g, why := a.decodedIn(it, recv)
	if pb != nil && why == "" {
		a.c.wantDecoded(a.rule, a.name, pb, g, map[string]string{"nodes": "SkipDenseNodes", "ways": "SkipWays", "refs": "SkipWays", "relations": "SkipRelations"}[strings.TrimPrefix(a.q, "max ")])
	}
	return pb, why
}

// blockQuiet is block without a look at what is decoded.
func (a *countAna) blockQuiet(it *Iter, recv *Ev) (*Ev, string) {
	pb, _, why := a.decodedIn(it, recv)
	return pb, why
}

func (a *countAna) decodedIn(it *Iter, recv *Ev) (*Ev, *segment, string) {
	var blob, raw, pb *Ev
	blk := recv.Ret
	for _, e := range it.St.ev.list() {
		switch {
		case e.Kind == "readinto" && e.Name == "Blob":
			blob = e
		case e.Kind == "rawdata":
			raw = e
		case e.Kind == "readinto" && e.Name == "PrimitiveBlock":
			if pb != nil {
				return nil, nil, "not decided: two blocks are decoded"
			}
			pb = e
		}
	}
	g := &segment{blk: blk, evs: it.St.ev.list(), St: it.St, Kind: ORet, Pos: recv.Pos}
	if pb == nil {
		for _, p := range a.c.inputKinds("") {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				return nil, nil, "map data are not decoded"
			}
		}
		return nil, nil, ""
	}
	if blob == nil || raw == nil || !blob.Args[1].contains(dataOf(blk)) || raw.Args[0] != blob.Args[0] || pb.Args[1] != Field(raw.Ret, 0, tBytes) {
		return nil, nil, "what is counted is not the block received"
	}
	return pb, g, ""
}

// subList: what a quantity is summed over in a scope, the scope of its elements, and the amount the whole list
// stands for if that is known without visiting it; empty reports that there is nothing.
func (a *countAna) subList(st *State, scope string, at *Term) (list *Term, inner string, amount *Term, empty bool, why string) {
	field := func(p *Term, typ, name string) *Term {
		n := a.c.P.Named("internal/t." + typ)
		if n == nil {
			return nil
		}
		i := FieldIndex(n, name)
		if i < 0 {
			return nil
		}
		s := under(n).(*types.Struct)
		if p == nil {
			x := &reencode{read: a.pb}
			return x.msgVal(n, typ, i)
		}
		return newState().load(FieldAddrT(p, i, n), s.Field(i).Type())
	}
	q := strings.TrimPrefix(a.q, "max ")
	switch scope {
	case "block":
		list, inner = field(nil, "PrimitiveBlock", "PrimitiveGroup"), "group"
	case "group":
		switch q {
		case "nodes":
			d := field(at, "PrimitiveGroup", "Dense")
			if d == nil {
				break
			}
			if k, v := st.decide(Eq(d, tNil)); k && v {
				return nil, "", nil, true, ""
			}
			list, inner = field(d, "DenseNodes", "Id"), "unit"
		case "ways":
			list, inner = field(at, "PrimitiveGroup", "Ways"), "unit"
		case "relations":
			list, inner = field(at, "PrimitiveGroup", "Relations"), "unit"
		case "refs":
			list, inner = field(at, "PrimitiveGroup", "Ways"), "way"
		}
	case "way":
		list, inner = field(at, "Way", "Refs"), "unit"
	}
	if list == nil {
		return nil, "", nil, false, "not decided: what to count in a " + scope
	}
	if inner == "unit" {
		amount = Len(list)
	}
	return list, inner, amount, knownEmpty(st, list), ""
}

// sum checks that the amount (including what is added in loops among the events) is that of the scope.
func (a *countAna) sum(st *State, evs []*Ev, amount *Term, scope string, at *Term) string {
	l, why := a.added(evs)
	if why != "" {
		return why
	}
	for _, x := range l {
		amount = Add(amount, x)
	}
	// loops that contribute
	type part struct {
		L    *LoopInfo
		lvs  []*LoopVar
		step int64
	}
	var parts []*part
	partOf := func(L *LoopInfo) *part {
		for _, p := range parts {
			if p.L == L {
				return p
			}
		}
		p := &part{L: L}
		parts = append(parts, p)
		return p
	}
	for again := true; again; {
		again = false
		for _, m := range polyOf(amount) {
			if len(m.A) != 1 {
				continue
			}
			for _, e := range evs {
				if e.Loop != nil && e.Loop.K == m.A[0] {
					partOf(e.Loop).step += m.C
					amount = Sub(amount, Scale(m.A[0], m.C))
					again = true
				}
			}
			if again {
				break
			}
			if m.C != 1 {
				continue
			}
			lv := loopVarOf(m.A[0])
			if lv == nil {
				continue
			}
			if L := findLoop(evs, lv); L != nil {
				p := partOf(L)
				p.lvs = append(p.lvs, lv)
				amount = Add(Sub(amount, m.A[0]), lv.Init)
				again = true
				break
			}
		}
	}
	for _, e := range evs {
		if e.Loop != nil && a.touches(e.Loop) {
			partOf(e.Loop)
		}
	}
	switch scope {
	case "unit", "nothing":
		want := tZero
		if scope == "unit" {
			want = Int(1)
		}
		if amount != want || len(parts) > 0 {
			return fmt.Sprintf("%v is added where it should be %v", amount, want)
		}
		return ""
	}
	list, inner, whole, empty, why := a.subList(st, scope, at)
	if why != "" {
		return why
	}
	if len(parts) == 0 {
		if empty && amount == tZero || whole != nil && amount == whole {
			return ""
		}
		if empty && whole != nil {
			if k, v := st.decide(Eq(amount, tZero)); k && v {
				return ""
			}
		}
		return fmt.Sprintf("%v is added for a %s", amount, scope)
	}
	if len(parts) > 1 || amount != tZero {
		return fmt.Sprintf("what is added for a %s comes from %d loops, and %v", scope, len(parts), amount)
	}
	p := parts[0]
	if empty {
		return "something is added where there is nothing"
	}
	if p.L.Trip != Len(list) {
		return fmt.Sprintf("the loop over what a %s contains runs %v times", scope, p.L.Trip)
	}
	for _, it := range p.L.Iters {
		d := Int(p.step)
		for _, lv := range p.lvs {
			d = Add(d, Sub(it.Next[lv.Sym], lv.Sym))
		}
		if why := a.sum(it.St, it.St.ev.list(), d, inner, it.St.elem(list, p.L.K, elemType(list.T))); why != "" {
			return why
		}
	}
	for _, it := range p.L.Exits {
		if l, why := a.added(it.St.ev.list()); why != "" || len(l) > 0 {
			return "something is added when a list ends"
		}
	}
	return ""
}

func leq(st *State, x, y *Term) bool {
	for _, u := range []bool{false, true} {
		if k, v := st.decide(Le(x, y, u)); k && v {
			return true
		}
		if k, v := st.decide(Lt(x, y, u)); k && v {
			return true
		}
	}
	return false
}

// merged finds the value of a worker that is merged into a shared maximum and checks that it is.
func (a *countAna) merged(o *Outcome, evs []*Ev) (*Term, string) {
	// the candidate
	var v *Term
	conflict := false
	var look func(st *State, evs []*Ev)
	look = func(st *State, evs []*Ev) {
		for _, e := range evs {
			if e.Kind == "atomic" && len(e.Args) == 3 && e.Args[0] == a.A && strings.Contains(e.Name, ".CompareAndSwap") {
				if v != nil && v != e.Args[2] {
					conflict = true
				}
				v = e.Args[2]
			}
		}
	}
	each := func(evs []*Ev, f func(st *State, evs []*Ev)) {
		for _, e := range evs {
			if e.Loop == nil {
				continue
			}
			for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
				f(it.St, it.St.ev.list())
			}
		}
	}
	for _, x := range a.s.Outs {
		l := x.St.ev.list()
		look(x.St, l)
		each(l, look)
	}
	if v == nil || conflict {
		return nil, "no single value of a worker is merged into the maximum"
	}
	why := ""
	swaps := func(st *State, evs []*Ev) {
		for _, e := range evs {
			if e.Kind != "atomic" || len(e.Args) == 0 || e.Args[0] != a.A {
				continue
			}
			switch {
			case strings.Contains(e.Name, ".Load"):
			case strings.Contains(e.Name, ".CompareAndSwap") && len(e.Args) == 3:
				if !leq(st, e.Args[1], v) {
					why = "the maximum can be replaced by a smaller value"
				}
			default:
				why = "the maximum is changed by " + e.Name
			}
		}
	}
	done := func(st *State, evs []*Ev, extra ...*Term) bool {
		loads := append([]*Term{}, extra...)
		for _, e := range evs {
			if e.Kind != "atomic" && e.Kind != "locked" || len(e.Args) == 0 || e.Args[0] != a.A {
				continue
			}
			if strings.Contains(e.Name, ".Load") {
				loads = append(loads, e.Ret)
			}
			if strings.Contains(e.Name, ".CompareAndSwap") {
				if k, x := st.decide(e.Ret); k && x {
					return true
				}
			}
		}
		for _, r := range loads {
			if leq(st, v, r) {
				return true
			}
		}
		return false
	}
	swaps(o.St, evs)
	each(evs, swaps)
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, it := range e.Loop.Iters {
			l := it.St.ev.list()
			for _, x := range l {
				if x.Kind != "atomic" || len(x.Args) != 3 || x.Args[0] != a.A {
					continue
				}
				if old := e.Loop.Vars[x.Args[1]]; !a.isLoad(l, x.Args[1]) && (old == nil || !a.isLoad(l, it.Next[old.Sym])) {
					why = "the comparison is repeated with a value that is not read again"
				}
			}
		}
	}
	if why != "" {
		return nil, why
	}
	if done(o.St, evs) {
		return v, ""
	}
	for _, e := range evs {
		if e.Loop == nil || !a.touches(e.Loop) {
			continue
		}
		all := len(e.Loop.Exits) > 0
		// variables that hold what was loaded
		var held []*Term
		for _, lv := range e.Loop.Order {
			ok := a.isLoad(evs, lv.Init)
			for _, it := range e.Loop.Iters {
				ok = ok && a.isLoad(it.St.ev.list(), it.Next[lv.Sym])
			}
			if ok {
				held = append(held, lv.Sym)
			}
		}
		for _, x := range e.Loop.Exits {
			all = all && done(x.St, x.St.ev.list(), held...)
		}
		if all {
			return v, ""
		}
	}
	return nil, "the worker can end without its maximum having been merged"
}

func (a *countAna) isLoad(evs []*Ev, v *Term) bool {
	for _, e := range evs {
		if e.Kind == "atomic" && e.Ret == v && len(e.Args) > 0 && e.Args[0] == a.A && strings.Contains(e.Name, ".Load") {
			return true
		}
	}
	return false
}

// maxRun checks that the value is the maximum over all blocks.
func (a *countAna) maxRun(L *LoopInfo, v *Term) string {
	lv := L.Vars[stripConv(v, 64)]
	if lv == nil {
		return fmt.Sprintf("the value merged is %v", v)
	}
	if lv.Init != tZero {
		return fmt.Sprintf("the maximum starts as %v", lv.Init)
	}
	for _, it := range L.Iters {
		e := a.recvIn(it)
		if e == nil {
			return "an iteration receives nothing"
		}
		pb, why := a.block(it, e)
		if why != "" {
			return why
		}
		if pb == nil {
			if it.Next[lv.Sym] != lv.Sym {
				return fmt.Sprintf("other data make the maximum %v", it.Next[lv.Sym])
			}
			continue
		}
		a.pb = pb
		if why := a.maxOver(it.St, lv.Sym, it.Next[lv.Sym], "block", nil); why != "" {
			return why
		}
	}
	return ""
}

// maxOver checks that to is the maximum of from and the elements of the scope.
func (a *countAna) maxOver(st *State, from, to *Term, scope string, at *Term) string {
	list, inner, _, empty, why := a.subList(st, scope, at)
	if why != "" {
		return why
	}
	if empty {
		if to == from {
			return ""
		}
		return fmt.Sprintf("the maximum becomes %v although there is nothing", to)
	}
	scalar := inner != "group"
	found := "the maximum is not updated for every element of a " + scope
	for _, e := range st.ev.list() {
		if e.Loop == nil || e.Loop.Trip != Len(list) {
			continue
		}
		M := e.Loop
		for _, x := range M.Order {
			ok := x.Init == from && to == x.Sym ||
				x.Init == tZero && to == x.Sym && leq(st, from, to) ||
				x.Init == tZero && to == from && leq(st, x.Sym, to)
			if !ok {
				continue
			}
			why := ""
			for _, it := range M.Iters {
				el := it.St.elem(list, M.K, elemType(list.T))
				if !scalar {
					why = a.maxOver(it.St, x.Sym, it.Next[x.Sym], inner, el)
				} else {
					why = a.maxElem(it.St, x.Sym, it.Next[x.Sym], el)
				}
				if why != "" {
					break
				}
			}
			if why == "" {
				return ""
			}
			found = why
		}
	}
	return found
}

func (a *countAna) maxElem(st *State, from, to, el *Term) string {
	var v *Term
	load := func(typ, name string) *Term {
		n := a.c.P.Named("internal/t." + typ)
		if n == nil {
			return nil
		}
		i := FieldIndex(n, name)
		if i < 0 {
			return nil
		}
		return newState().load(FieldAddrT(el, i, n), under(n).(*types.Struct).Field(i).Type())
	}
	switch a.q {
	case "max nodes":
		v = el
	case "max ways":
		v = load("Way", "ID")
	case "max relations":
		v = load("Relation", "ID")
	case "max refs":
		if l := load("Way", "Refs"); l != nil {
			v = Len(l)
		}
	}
	if v == nil {
		return "not decided: what the maximum is of"
	}
	same := func(t *Term) bool { return stripConv(t, 64) == stripConv(v, 64) }
	le := func(x, y *Term) bool {
		cx := []*Term{x, stripConv(x, 64), Conv(x, types.Typ[types.Uint64])}
		cy := []*Term{y, stripConv(y, 64), Conv(y, types.Typ[types.Uint64])}
		for _, p := range cx {
			for _, q := range cy {
				if leq(st, p, q) {
					return true
				}
			}
		}
		return false
	}
	switch {
	case to == from && le(v, from):
	case same(to) && le(from, v):
	default:
		return fmt.Sprintf("an element makes the maximum %v", to)
	}
	return ""
}

// finding checks the worker that looks for objects with given ids.
func (c *Ctx) finding(rule string, p *Pipe) {
	s := c.stage(p, false, func(in *Interp) {
		objectHooks(in)
		in.KeepPaths = true
	})
	if s.Err != "" {
		c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
		return
	}
	w := c.proto("", s)
	n := 0
	for _, g := range w.segs {
		if g.Kind != ORet || g.blk == nil {
			continue
		}
		data := false
		for _, p := range c.inputKinds("") {
			if ok, _ := g.feasible(p); ok && p.kind == "OSMData" {
				data = true
			}
		}
		if !data {
			continue
		}
		n++
		c.findBlock(rule, s, g)
	}
	c.Want(n > 0, rule, s.name(), s.Fn, "no path looks at map data")
}

func (c *Ctx) findBlock(rule string, s *Stage, g *segment) {
	name := s.name()
	var blob, raw, pb *Ev
	objs := map[string]*Ev{}
	for _, e := range g.evs {
		switch {
		case e.Kind == "readinto" && e.Name == "Blob":
			blob = e
		case e.Kind == "rawdata":
			raw = e
		case e.Kind == "readinto" && e.Name == "PrimitiveBlock":
			pb = e
		case e.Kind == "toobjs":
			objs[e.Name] = e
		}
	}
	if blob == nil || raw == nil || pb == nil || !blob.Args[1].contains(dataOf(g.blk)) || raw.Args[0] != blob.Args[0] || pb.Args[1] != Field(raw.Ret, 0, tBytes) {
		c.Bad(rule, name, g.Pos, "what is searched is not the block received")
		return
	}
	c.wantDecoded(rule, name, pb, g, "SkipStringTable", "SkipDenseNodes", "SkipWays", "SkipRelations")
	for _, k := range []string{"Nodes", "Ways", "Relations"} {
		what := name + " " + strings.ToLower(k)
		e := objs[k]
		if e == nil || e.Args[0] != pb.Args[0] {
			c.Bad(rule, what, g.Pos, "the %s of the block are not looked at", strings.ToLower(k))
			continue
		}
		list := e.Ret
		loops := 0
		for _, l := range g.evs {
			if l.Loop == nil || l.Loop.Trip != Len(list) {
				continue
			}
			uses := false
			for _, it := range l.Loop.Iters {
				el := it.St.elem(list, l.Loop.K, elemType(list.T))
				for t := range it.St.lits {
					uses = uses || t.contains(el)
				}
				eachEv(it.St.ev.list(), func(x *Ev) {
					if x.Loop != nil {
						for _, in := range x.Loop.Iters {
							for t := range in.St.lits {
								uses = uses || t.contains(el)
							}
							for _, t := range in.Next {
								uses = uses || t != nil && t.contains(el)
							}
						}
					}
					for _, y := range x.Args {
						uses = uses || y.contains(el)
					}
				})
			}
			if !uses {
				continue
			}
			loops++
			for i, it := range l.Loop.Iters {
				pn := fmt.Sprintf("%s path %d", what, i)
				el := it.St.elem(list, l.Loop.K, elemType(list.T))
				id := c.idOf(el)
				if id == nil {
					c.Bad(rule, pn, l.Pos, "not decided: the id of an object")
					continue
				}
				printed := 0
				for _, x := range it.St.ev.list() {
					if x.Kind == "call" && strings.HasPrefix(x.Name, "fmt.") && strings.Contains(x.Name, "rint") && len(x.Args) > 0 {
						for _, y := range listedArgs(it.St, x.Args[len(x.Args)-1]) {
							if y == el || y.contains(el) {
								printed++
							}
						}
					}
				}
				yes, no := false, false
				a := &tagFilter{c: c, lookup: func(t *Term) string {
					if c.isIDs(s, t) || c.isIDSet(s, t) {
						return "ids"
					}
					return ""
				}}
				for _, key := range []*Term{id, Conv(id, types.Typ[types.Uint64])} {
					for _, r := range a.unwanted(it, key, true) {
						yes = yes || strings.HasSuffix(r, " ids")
					}
					for _, r := range a.unwanted(it, key, false) {
						no = no || strings.HasSuffix(r, " ids")
					}
				}
				switch {
				case printed > 1:
					c.Bad(rule, pn, l.Pos, "an object is printed more than once")
				case printed == 1:
					c.Want(yes, rule, pn, l.Pos, "an object is printed although its id is not known to be asked for")
				default:
					c.Want(no && !yes, rule, pn, l.Pos, "an object is skipped although its id has not been compared with every id asked for")
				}
			}
		}
		c.Want(loops == 1, rule, what, g.Pos, "%d loops look at every one of the %s, not one", loops, strings.ToLower(k))
	}
}

func (c *Ctx) idOf(el *Term) *Term {
	T := elemTypeOfPtr(el)
	if T == nil {
		return nil
	}
	for _, n := range []string{"Id", "ID"} {
		if i := FieldIndex(T, n); i >= 0 {
			return newState().load(FieldAddrT(el, i, T), under(T).(*types.Struct).Field(i).Type())
		}
	}
	return nil
}

// isIDSet: a look-up in a map that was made of the ids, before the workers were started.
func (c *Ctx) isIDSet(s *Stage, t *Term) bool {
	if !t.isOp("mhas") && !t.isOp("mget") {
		return false
	}
	lv := loopVarOf(t.Args[0])
	if lv == nil || !(lv.Init.isOp("mzero") || lv.Init.isOp("cont0") && lv.Init.Args[0].isOp("mapc") && isObj(lv.Init.Args[0].Args[0])) || findLoop(s.Pipe.St.ev.list(), lv) == nil {
		return false
	}
	L := lv.Loop
	if L.Trip == nil || !L.Trip.isOp("len") || !c.isIDs(s, L.Trip.Args[0]) {
		return false
	}
	ids := L.Trip.Args[0]
	for _, it := range L.Iters {
		n := it.Next[lv.Sym]
		if n == nil || !n.isOp("mstore") || n.Args[0] != lv.Sym || n.Args[1] != it.St.elem(ids, L.K, elemType(ids.T)) {
			return false
		}
		if t.isOp("mget") && n.Args[2] != tTrue {
			return false
		}
	}
	return true
}

// isIDs: the list of ids given on the command line.
func (c *Ctx) isIDs(s *Stage, t *Term) bool {
	if !(t.isOp("load") || t.isOp("loadx")) || !t.Args[0].isOp("fld") {
		return false
	}
	f := t.Args[0]
	T, _ := f.X.(types.Type)
	i := FieldIndex(T, "EntityID")
	return T != nil && i >= 0 && f.S == fmt.Sprint(i) && isObj(f.Args[0])
}
