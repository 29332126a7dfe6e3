package main

// C48: the display lists the workers that are running.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C48", "symbolic interpretation with an element-wise comparison of lists before and after: announcing a worker adds exactly that worker to the list of running workers, retracting takes exactly one entry away, which equals the one given, and keeps all others in their order, nothing changes if there is none; both advance the version afterwards; asking for the list gives a copy of all entries; refreshing takes all old widgets off the display and shows one widget for every listed worker, unless the version is the one seen last; and every stage whose command shows its workers announces one new state before it receives anything and retracts that state after its last block, on every path", checkC48,
		"a worker is announced at most once at a time (its state is new); the layout widgets show what is added and do not show what is removed")
}

// listAt gives the element i of a list as it is in st, nil if that is not known.
func listAt(st *State, sl, i *Term, T types.Type) *Term {
	switch {
	case sl == nil || sl == tNil:
		return nil
	case sl.isOp("app"):
		base := sl.Args[0]
		if sureLt(st, i, Len(base)) {
			return listAt(st, base, i, T)
		}
		for k, a := range sl.Args[1:] {
			if equal(st, i, Add(Len(base), Int(int64(k)))) {
				return a
			}
		}
		return nil
	case sl.isOp("appS") && len(sl.Args) == 2:
		base := sl.Args[0]
		if sureLt(st, i, Len(base)) {
			return listAt(st, base, i, T)
		}
		if sureLe(st, Len(base), i) {
			return frozenAt(sl.Args[1], Sub(i, Len(base)), T)
		}
		return nil
	case sl.isLoopVar():
		x := sl.X.(*LoopVar)
		if x.Loop.Trip == nil || !sureLt(st, i, x.Loop.Trip) || x.Init == nil || Len(x.Init) != tZero {
			return nil
		}
		var r *Term
		for _, n := range x.Next {
			if !n.isOp("app") || len(n.Args) != 2 || n.Args[0] != sl {
				return nil
			}
			v := subst(n.Args[1], x.Loop.K, i)
			if r != nil && r != v {
				return nil
			}
			r = v
		}
		return r
	}
	arr, lo := arrOf(sl)
	return contentAt(st, st.readCell(arr, T, true), Add(lo, i), T)
}

// frozenAt: an element of a list that was passed to append.
func frozenAt(sl, i *Term, T types.Type) *Term {
	if sl.isOp("seq") || sl.isOp("list") {
		return nil
	}
	arr, lo := arrOf(sl)
	return Select(Op("cont0", "", nil, arr), Add(lo, i), T)
}

func contentAt(st *State, c, i *Term, T types.Type) *Term {
	for {
		switch {
		case c.isOp("store"):
			if equal(st, c.Args[1], i) {
				return c.Args[2]
			}
			if !sureLt(st, c.Args[1], i) && !sureLt(st, i, c.Args[1]) {
				return nil
			}
			c = c.Args[0]
		case c.isOp("copyin"):
			lo, n := c.Args[1], c.Args[3]
			switch {
			case sureLt(st, i, lo) || sureLe(st, Add(lo, n), i):
				c = c.Args[0]
			case sureLe(st, lo, i) && sureLt(st, i, Add(lo, n)):
				return frozenAt(c.Args[2], Sub(i, lo), T)
			default:
				return nil
			}
		case c.isLoopVar():
			x := c.X.(*LoopVar) // a loop that stores entry K in iteration K
			if x.Loop.Trip == nil || !sureLe(st, tZero, i) || !sureLt(st, i, x.Loop.Trip) {
				return nil
			}
			var r *Term
			for _, n := range x.Next {
				if !n.isOp("store") || n.Args[0] != c || n.Args[1] != x.Loop.K {
					return nil
				}
				v := subst(n.Args[2], x.Loop.K, i)
				if r != nil && r != v {
					return nil
				}
				r = v
			}
			return r
		default:
			return Select(c, i, T)
		}
	}
}

type trackerShape struct {
	T             types.Type
	S             *types.Struct
	list, version int
	elem          types.Type
}

func checkC48(c *Ctx) {
	track := c.need("list", "internal/tracker.(*WorkerTracker).TrackWorker")
	un := c.need("list", "internal/tracker.(*WorkerTracker).UntrackWorker")
	get := c.need("list", "internal/tracker.(*WorkerTracker).WorkerStates")
	ver := c.need("list", "internal/tracker.(*WorkerTracker).Version")
	if track == nil || un == nil || get == nil || ver == nil {
		return
	}
	sh := &trackerShape{T: deref(track.Params[0].Type()), list: -1, version: -1}
	sh.S = under(sh.T).(*types.Struct)
	for i := 0; i < sh.S.NumFields(); i++ {
		if sl, ok := under(sh.S.Field(i).Type()).(*types.Slice); ok {
			sh.list, sh.elem = i, sl.Elem()
		}
	}
	if sh.list < 0 {
		c.Bad("list", "WorkerTracker", track, "no list of workers found")
		return
	}
	c.Try("list", "Version", ver, func() { sh.versionOf(c, ver) })
	if sh.version < 0 {
		c.Bad("list", "Version", ver, "the version is not kept in a field")
		return
	}
	c.Try("list", "TrackWorker", track, func() { sh.change(c, track, true) })
	c.Try("list", "UntrackWorker", un, func() { sh.change(c, un, false) })
	c.Try("list", "WorkerStates", get, func() { sh.copied(c, get) })
	c.Try("refresh", "RefreshStates", nil, func() { c.refreshing() })
	c.announcing("announced")
	c.Min("list", 6)
	c.Min("refresh", 4)
	c.Min("announced", 12)
}

func (sh *trackerShape) versionOf(c *Ctx, fn *ssa.Function) {
	in := c.interp()
	in.TraceMem = true
	as := in.SymArgs(fn)
	outs := c.run(in, fn, as, newState())
	for _, o := range outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if (e.Kind == "atomic" || e.Kind == "load") && e.Ret == o.Rets[0] && len(e.Args) > 0 {
				for i := 0; i < sh.S.NumFields(); i++ {
					a := FieldAddrT(as[0], i, sh.T)
					if e.Args[0] == a || rootOf(e.Args[0]) == as[0] && e.Args[0].contains(a) {
						sh.version = i
					}
				}
			}
		})
	}
	c.Want(len(outs) == 1 && sh.version >= 0, "list", "Version", fn, "the version reported is not a field of the tracker")
}

// change: what announcing and retracting does.
func (sh *trackerShape) change(c *Ctx, fn *ssa.Function, add bool) {
	in := c.interp()
	in.TraceMem = true
	in.AtomicMem = true
	in.KeepPaths = true
	in.TraceIdx = true
	as := in.SymArgs(fn)
	st0 := newState()
	LA := FieldAddrT(as[0], sh.list, sh.T)
	L := st0.load(LA, sh.S.Field(sh.list).Type())
	n := Len(L)
	pre := func(i *Term) *Term { return newState().elem(L, i, sh.elem) }
	outs := c.run(in, fn, as, newState())
	name := fn.Name()
	bad := func(o *Outcome, f string, a ...any) { c.Bad("list", name, o.Pos, f, a...) }
	changedPaths := 0
	for _, o := range outs {
		if o.Kind != ORet {
			continue // stops the run
		}
		L2 := o.St.load(LA, sh.S.Field(sh.list).Type())
		known := o.St.clone()
		for l, v := range o.St.lits {
			if x := sameAs(l, as[1]); x != nil && v {
				if at := indexIn(x, arrCell(L)); at != nil && sureLe(known, tZero, at) && sureLt(known, at, n) {
					known.assume(Le(Int(1), n, false), true)
				}
			}
		}
		sh.inside(c, name, o.St.ev.list(), known)
		// the version advances after the change
		last, adv := -1, -1
		for i, e := range o.St.ev.list() {
			switch {
			case e.Kind == "store" && len(e.Args) > 0 && (e.Args[0] == LA || rootOf(e.Args[0]) == rootOf(arrCell(L))):
				last = i
			case (e.Kind == "append" || e.Kind == "copy") && len(e.Args) > 0:
				last = i
			case e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0].contains(FieldAddrT(as[0], sh.version, sh.T)):
				if strings.Contains(e.Name, "Add") && e.Args[len(e.Args)-1].isConst() && e.Args[len(e.Args)-1].I != 0 {
					adv = i
				}
			case e.Kind == "store" && e.Args[0] == FieldAddrT(as[0], sh.version, sh.T):
				adv = i
			}
		}
		arr, _ := arrOf(L)
		content, touched := o.St.heap[arr]
		same := L2 == L && (!touched || content == Op("cont0", "", nil, arr))
		if add {
			changedPaths++
			j := in.fresh("j", types.Typ[types.Int], nil)
			s := o.St.clone()
			s.assume(Le(tZero, j, false), true)
			s.assume(Lt(j, n, false), true)
			ok := Len(L2) == Add(n, Int(1)) && listAt(o.St, L2, n, sh.elem) == as[1]
			c.Want(ok, "list", name+" adds", o.Pos, "the list afterwards is %v", L2)
			c.Want(listAt(s, L2, j, sh.elem) == pre(j), "list", name+" keeps", o.Pos, "other entries do not stay")
			c.Want(adv > last, "list", name+" version", o.Pos, "the version does not advance after the change")
			continue
		}
		// which entry equals the worker?
		var at *Term
		for l, v := range o.St.lits {
			if x := sameAs(l, as[1]); x != nil && v {
				if i := indexIn(x, arr); i != nil {
					at = i
				}
			}
		}
		if L2.isLoopVar() {
			if why := filtered(o.St, L2, L, as[1], pre); why != "" {
				bad(o, "%s", why)
			} else {
				c.Ok("list", name+" removes", o.Pos, "")
				c.Ok("list", name+" keeps", o.Pos, "")
				c.Want(adv > last, "list", name+" version", o.Pos, "the version does not advance after the change")
				changedPaths++
			}
			continue
		}
		if at == nil {
			c.Want(same, "list", name+" leaves the others", o.Pos, "the list changes though no entry is the worker")
			// all entries were looked at
			full := false
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Loop == nil {
					return
				}
				K := e.Loop.K
				all := len(e.Loop.Iters) > 0
				for _, it := range e.Loop.Iters {
					differs := false
					for l, v := range it.St.lits {
						if x := sameAs(l, as[1]); x != nil && !v && K != nil && x == pre(K) {
							differs = true
						}
					}
					all = all && differs
				}
				full = full || all && K != nil && sureLe(o.St, n, K)
			})
			c.Want(full, "list", name+" searches", o.Pos, "the end is reached before every entry was compared with the worker")
			continue
		}
		changedPaths++
		s := o.St.clone()
		s.assume(Le(tZero, at, false), true)
		s.assume(Lt(at, n, false), true)
		if !c.want(Len(L2) == Sub(n, Int(1)), "list", name+" removes", o.Pos, "the list has %v entries afterwards, must be one less than %v", Len(L2), n) {
			continue
		}
		j := in.fresh("j", types.Typ[types.Int], nil)
		before, behind := s.clone(), s.clone()
		before.assume(Le(tZero, j, false), true)
		before.assume(Lt(j, at, false), true)
		before.assume(Lt(j, Sub(n, Int(1)), false), true) // follows
		behind.assume(Lt(at, j, false), true)
		behind.assume(Lt(j, Sub(n, Int(1)), false), true)
		s.assume(Lt(at, Sub(n, Int(1)), false), true)
		b := listAt(s, L2, at, sh.elem)
		r := listAt(behind, L2, j, sh.elem)
		shift := b == pre(Add(at, Int(1))) && r == pre(Add(j, Int(1)))
		c.Want(listAt(before, L2, j, sh.elem) == pre(j) && b != nil && shift, "list", name+" keeps", o.Pos, "the entries left are not the other ones in their order")
		c.Want(adv > last, "list", name+" version", o.Pos, "the version does not advance after the change")
	}
	c.Want(changedPaths > 0, "list", name+" changes", fn, "the list is never changed")
}

// inside: what is read, written and cut is inside the list.
func (sh *trackerShape) inside(c *Ctx, name string, evs []*Ev, st *State) {
	for _, e := range evs {
		in := st
		if e.Snap != nil {
			in = e.Snap
		}
		switch {
		case e.Kind == "index" && len(e.Args) == 3:
			c.Want(sureLe(in, tZero, e.Args[1]) && sureLt(in, e.Args[1], e.Args[2]), "list", name+" inside", e.Pos, "entry %v of a list of %v entries", e.Args[1], e.Args[2])
		case e.Kind == "slice" && len(e.Args) == 4:
			c.Want(sureLe(in, tZero, e.Args[1]) && sureLe(in, e.Args[1], e.Args[2]) && sureLe(in, e.Args[2], e.Args[3]), "list", name+" inside", e.Pos, "entries %v to %v of a list of %v", e.Args[1], e.Args[2], e.Args[3])
		}
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				sh.inside(c, name, it.St.ev.list(), it.St)
			}
		}
	}
}

func (c *Ctx) want(ok bool, rule, construct string, pos any, f string, a ...any) bool {
	c.Want(ok, rule, construct, pos, f, a...)
	return ok
}

func arrCell(sl *Term) *Term {
	a, _ := arrOf(sl)
	return a
}

// sameAs: l says that something equals v; what?
func sameAs(l, v *Term) *Term {
	if !l.isOp("eq") || len(l.Args) != 2 {
		return nil
	}
	if l.Args[0] == v {
		return l.Args[1]
	}
	if l.Args[1] == v {
		return l.Args[0]
	}
	return nil
}

// indexIn: x is an element of the array as it was; which?
func indexIn(x, arr *Term) *Term {
	if x.isOp("select") && x.Args[0].isOp("cont0") && x.Args[0].Args[0] == arr {
		return x.Args[1]
	}
	return nil
}

// filtered: the list made by a loop has all entries other than the worker.
func filtered(st *State, L2, L, sw *Term, pre func(*Term) *Term) string {
	x := L2.X.(*LoopVar)
	if x.Init == nil || Len(x.Init) != tZero || x.Loop.Trip == nil || !equal(st, x.Loop.Trip, Len(L)) {
		return "the new list is not made of all entries"
	}
	for _, it := range x.Loop.Iters {
		known, is := false, false
		for l, v := range it.St.lits {
			if y := sameAs(l, sw); y != nil && y == pre(x.Loop.K) {
				known, is = true, v
			}
		}
		nx := it.Next[x.Sym]
		switch {
		case !known:
			return "an entry is not compared with the worker"
		case is && nx != L2:
			return "the worker stays in the list"
		case !is && !(nx.isOp("app") && len(nx.Args) == 2 && nx.Args[0] == L2 && nx.Args[1] == pre(x.Loop.K)):
			return "another entry is lost"
		}
	}
	return ""
}

// copied: asking for the list gives all entries, in memory of its own.
func (sh *trackerShape) copied(c *Ctx, fn *ssa.Function) {
	in := c.interp()
	in.KeepPaths = true
	as := in.SymArgs(fn)
	st0 := newState()
	L := st0.load(FieldAddrT(as[0], sh.list, sh.T), sh.S.Field(sh.list).Type())
	outs := c.run(in, fn, as, newState())
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad("list", fn.Name(), fn, "asking for the list can fail")
			continue
		}
		R := o.Rets[0]
		j := in.fresh("j", types.Typ[types.Int], nil)
		s := o.St.clone()
		s.assume(Le(tZero, j, false), true)
		s.assume(Lt(j, Len(L), false), true)
		n := Len(R)
		if R.isLoopVar() && R.X.(*LoopVar).Loop.Trip != nil && listAt(s, R, j, sh.elem) != nil {
			n = R.X.(*LoopVar).Loop.Trip
		}
		if R == tNil {
			n = tZero
		}
		c.Want(equal(o.St, n, Len(L)), "list", fn.Name()+" length", o.Pos, "%v entries are given, must be %v", n, Len(L))
		c.Want(sure(o.St, Eq(Len(L), tZero)) || listAt(s, R, j, sh.elem) == st0.elem(L, j, sh.elem), "list", fn.Name()+" entries", o.Pos, "the entries given are not those of the list")
		c.Want(R == tNil || arrCell(R) != arrCell(L), "list", fn.Name()+" copy", o.Pos, "the list itself is given away")
	}
	c.Want(len(outs) > 0, "list", fn.Name(), fn, "the list is never given")
}

// refreshing: the widgets shown afterwards are those of the listed workers.
func (c *Ctx) refreshing() {
	const rule = "refresh"
	fn := c.need(rule, "internal/tracker.(*WidgetWorkers).RefreshStates")
	if fn == nil {
		return
	}
	in := c.interp()
	in.KeepPaths = true
	in.AtomicMem = true
	as := in.SymArgs(fn)
	T := deref(fn.Params[0].Type())
	S := under(T).(*types.Struct)
	st0 := newState()
	states := -1
	var vers []int
	for i := 0; i < S.NumFields(); i++ {
		switch b := under(S.Field(i).Type()).(type) {
		case *types.Map:
			states = i
		case *types.Basic:
			if b.Info()&types.IsInteger != 0 {
				vers = append(vers, i)
			}
		}
	}
	if states < 0 {
		c.Bad(rule, "states", fn, "not decided: the widgets shown are not kept in a map")
		return
	}
	old := st0.load(FieldAddrT(as[0], states, T), S.Field(states).Type())
	oldC := Op("mcont0", "", nil, old)
	outs := c.run(in, fn, as, newState())
	full, skip := 0, 0
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		evs := o.St.ev.list()
		var list, version *Term
		removed, shown := -1, -1
		var shows *LoopInfo
		for i, e := range evs {
			if isCallOf(e, "StateProvider).WorkerStates") {
				list = e.Ret
			}
			if isCallOf(e, "StateProvider).Version") {
				version = e.Ret
			}
			if e.Loop != nil {
				r, a := 0, 0
				for _, it := range e.Loop.Iters {
					for _, x := range it.St.ev.list() {
						if isCallOf(x, ".RemoveWidget") && len(x.Args) == 2 && x.Args[1].isOp("rval") && x.Args[1].contains(old) && x.Args[1].contains(e.Loop.K) {
							r++
						}
						if isCallOf(x, ".AddWidget") {
							a++
						}
					}
				}
				all := len(e.Loop.Exits) > 0
				for _, it := range e.Loop.Exits { // only left when there are no more
					ended := false
					for l, v := range it.St.lits {
						if l.isOp("rok") && l.contains(e.Loop.K) && l.contains(old) && !v {
							ended = true
						}
					}
					all = all && ended
				}
				if r > 0 && r == len(e.Loop.Iters) && all {
					removed = i
				}
				if a > 0 {
					if shown >= 0 {
						c.Bad(rule, "shown once", e.Pos, "widgets are added in two loops")
					}
					shown, shows = i, e.Loop
				}
			} else if isCallOf(e, ".AddWidget") {
				c.Bad(rule, "shown once", e.Pos, "a widget is added that belongs to no listed worker")
			}
		}
		if list == nil {
			skip++
			same := false
			for _, f := range vers {
				v := st0.load(FieldAddrT(as[0], f, T), S.Field(f).Type())
				same = same || version != nil && sure(o.St, Eq(v, version))
			}
			c.Want(same, rule, "nothing new", o.Pos, "the list is not looked at though its version may be a new one")
			continue
		}
		full++
		noOld := sure(o.St, Eq(old, tNil))
		c.Want(removed >= 0 || noOld, rule, "old widgets go", o.Pos, "not every old widget is taken off the display")
		if !c.want(shown >= 0, rule, "workers shown", o.Pos, "the listed workers are not shown") {
			continue
		}
		c.Want(removed < shown, rule, "order", shows.Pos, "widgets are taken off after they were added")
		c.Want(shows.Trip != nil && equal(o.St, shows.Trip, Len(list)) || complete(shows, Len(list)), rule, "all workers", shows.Pos, "the display may lack listed workers")
		now := o.St.load(FieldAddrT(as[0], states, T), S.Field(states).Type())
		c.Want(now != old, rule, "new widgets kept", o.Pos, "the widgets shown are not remembered")
		for _, it := range shows.Iters {
			var add *Ev
			var made *Ev
			n := 0
			for _, e := range it.St.ev.list() {
				if isCallOf(e, ".AddWidget") {
					add = e
					n++
				}
				if e.Kind == "call" && e.Name == "dynamic" {
					made = e
				}
			}
			if !c.want(n == 1 && len(add.Args) >= 2, rule, "one widget", shows.Pos, "%d widgets are added for a worker", n) {
				continue
			}
			w := add.Args[1]
			var key *Term
			for l := range it.St.lits {
				if l.isOp("mhas") && l.Args[0] == oldC {
					key = l.Args[1]
				}
			}
			switch {
			case made != nil && w == made.Ret:
				c.Want(len(made.Args) == 2 && isEntry(made.Args[1], list, shows.K), rule, "widget of the worker", made.Pos, "the widget is made for %v", made.Args[1:])
				if key != nil {
					c.Want(!sure(it.St, Op("mhas", "", types.Typ[types.Bool], oldC, key)), rule, "widget kept", made.Pos, "a widget that exists is replaced")
				}
				key = made.Args[1]
			case w.isOp("mget") && w.Args[0] == oldC:
				key = w.Args[1]
				c.Want(isEntry(key, list, shows.K) && sure(it.St, Op("mhas", "", types.Typ[types.Bool], oldC, key)), rule, "widget of the worker", add.Pos, "the widget shown need not exist")
			default:
				c.Bad(rule, "widget of the worker", add.Pos, "the widget shown is %v", w)
				continue
			}
			kept := false
			for _, v := range it.Next {
				kept = kept || v.isOp("mstore") && v.Args[1] == key && v.Args[2] == w
			}
			kept = kept && isObj(now)
			c.Want(kept, rule, "widget remembered", add.Pos, "the widget shown is not remembered for its worker")
		}
	}
	c.Want(full > 0 && skip > 0, rule, "paths", fn, "the display is %s refreshed", map[bool]string{true: "always", false: "never"}[full > 0])
}

// complete: the loop is left only after n iterations.
func complete(L *LoopInfo, n *Term) bool {
	for _, it := range L.Exits {
		if L.K == nil || !sureLe(it.St, n, L.K) {
			return false
		}
	}
	return len(L.Exits) > 0
}

// isEntry: v is the entry k of the list.
func isEntry(v, list, k *Term) bool {
	return v.isOp("select") && v.Args[1] == k && (v.contains(list) || v.Args[0].any(func(t *Term) bool {
		x := loopVarOf(t)
		return x != nil && x.Cell != nil && x.Cell.contains(list)
	}))
}

// announcing: stages whose command shows its workers.
func (c *Ctx) announcing(rule string) {
	newCmd := c.need(rule, "internal/ui/widget.NewWidgetCmd")
	if newCmd == nil {
		return
	}
	for _, p := range c.pipes(rule) {
		var roots []*Term
		for _, o := range p.Cmd.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Kind == "call" && e.Name == fnName(newCmd) && len(e.Args) == 3 && e.Args[0].isOp("iface") {
					roots = append(roots, rootOf(e.Args[0].Args[0]))
				}
			})
		}
		for _, r := range roots {
			if !mentions(p.Ev.Snap, p.Work, r, 0) {
				continue
			}
			r := r
			c.Try(rule, p.name(), p.Ev.Pos, func() { c.announces(rule, p, r) })
			break
		}
	}
}

// mentions reports whether v mentions root, itself or through the variables that it captured.
func mentions(st *State, v, root *Term, depth int) bool {
	if v == nil || depth > 3 {
		return false
	}
	return v.any(func(x *Term) bool {
		if x == root {
			return true
		}
		if st == nil || x == v && depth > 0 || !isObj(x) {
			return false
		}
		in := st.heap[x]
		return in != nil && in != x && mentions(st, in, root, depth+1)
	})
}

func (c *Ctx) announces(rule string, p *Pipe, root *Term) {
	s := c.stage(p, false, nil)
	if s.Err != "" {
		c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
		return
	}
	recv := s.receiveLoops()
	rets := 0
	for _, o := range s.Outs {
		if o.Kind != ORet {
			continue
		}
		rets++
		evs := o.St.ev.list()
		var on, off *Ev
		non, noff := 0, 0
		eachEv(evs, func(e *Ev) {
			switch e.Kind {
			case "trackworker":
				on = e
				non++
			case "untrackworker":
				off = e
				noff++
			}
		})
		if !c.want(non == 1 && noff == 1, rule, s.name()+" once", s.Fn, "the worker is announced %d times and retracted %d times", non, noff) {
			continue
		}
		c.Want(len(on.Args) == 2 && rootOf(on.Args[0]) == root, rule, s.name()+" where", on.Pos, "the worker is announced to another list than the one that is shown")
		c.Want(len(off.Args) == 2 && on.Args[0] == off.Args[0] && on.Args[1] == off.Args[1], rule, s.name()+" same", off.Pos, "what is retracted is not what was announced")
		v := stripIface(on.Args[1])
		c.Want(isObj(v) && objNum(v) > s.ObjMark, rule, s.name()+" own state", on.Pos, "the state announced is not a new one for each worker")
		pos := func(f func(e *Ev) bool) (first, last int) {
			first, last = -1, -1
			for i, e := range evs {
				if f(e) {
					if first < 0 {
						first = i
					}
					last = i
				}
			}
			return
		}
		a, _ := pos(func(e *Ev) bool { return e == on })
		z, _ := pos(func(e *Ev) bool { return e == off })
		r0, r1 := pos(func(e *Ev) bool { return e.Kind == "recv" || e.Kind == "send" || e.Loop != nil && recv[e.Loop] })
		c.Want(a >= 0 && z >= 0 && (r0 < 0 || a < r0 && z > r1), rule, s.name()+" while running", on.Pos, "the worker is not on the list the whole time it works")
	}
	c.Want(rets > 0, rule, s.name(), s.Fn, "the worker never ends")
}
