package main

// C51: the life of the display.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C51", "symbolic interpretation of the functions that make, run, change and stop the display, in the state that making it leaves behind, and of every command: no display is made without an interval; otherwise one is returned once its event loop runs, and a goroutine posts one update per tick of the interval until the channel that stopping closes is closed; stopping closes it, waits for that goroutine, quits the event loop and waits for it, once each and in this order; the control-C key, and nothing else, calls the cancel function; changing the display takes every old part away and adds the given ones in order, in the event loop; an update reaches every line; and each command makes its display from its own interval and the cancel function of the context its pipelines run in, shows for each pipeline the progress of its file and of its stages, and stops it once, after the last pipeline and before it prints", checkC51,
		"the terminal library runs posted functions and delivers events in the order posted, passes an event to the children of a box until one reports it handled, and text widgets report none as handled")
}

const tcellPkg = "github.com/gdamore/tcell"

// uiShape is the display as NewUI leaves it.
type uiShape struct {
	u        *Term // the object
	T        types.Type
	st       *State
	interval *Term
	cancel   *Term
	app, box *Term
	evs      []*Ev
	shutdown *Term // channel
	joined   func(e *Ev) bool
	blocking bool // the goroutine waits for room among the events
}

// uiHooks: what a key event says does not change.
func uiHooks(in *Interp) {
	for _, m := range []string{"Key", "Modifiers", "Rune"} {
		m := m
		in.Hooks["(*"+tcellPkg+".EventKey)."+m] = func(in *Interp, cc *CallCtx) []*Outcome {
			return retOne(cc.St, Op("key", m, cc.Sig.Results().At(0).Type(), cc.Args[0]))
		}
	}
}

func checkC51(c *Ctx) {
	newUI := c.need("start", "internal/ui.NewUI")
	if newUI == nil {
		return
	}
	c.Try("start", "NewUI", newUI, func() {
		if sh := c.startUI(newUI); sh != nil {
			c.Try("ticks", "ticker", newUI, func() { sh.ticker(c) })
			c.Try("stop", "Stop", newUI, func() { sh.stop(c) })
			c.Try("start", "SetView", newUI, func() { sh.ready(c) })
			c.Try("keys", "HandleEvent", newUI, func() { sh.keys(c) })
			c.Try("replace", "ReplaceWidgets", newUI, func() { sh.replace(c) })
		}
	})
	c.Try("updates", "widgets", nil, func() { c.updatesReach() })
	n := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("commands", "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		k := k
		c.Try("commands", k.Name, k.Main, func() { n += c.uiOf(k) })
	}
	c.Want(n >= 6, "commands", "commands with a display", nil, "%d commands with a display found, 6 expected", n)
	c.Min("start", 6)
	c.Min("ticks", 3)
	c.Min("stop", 2)
	c.Min("keys", 4)
	c.Min("replace", 3)
	c.Min("updates", 10)
	c.Min("commands", 40)
}

// startUI decides NewUI.
func (c *Ctx) startUI(fn *ssa.Function) *uiShape {
	const rule = "start"
	in := c.interp()
	in.KeepPaths = true
	uiHooks(in)
	as := in.SymArgs(fn)
	if len(as) != 2 {
		c.Bad(rule, "NewUI", fn, "not decided: it takes %d arguments", len(as))
		return nil
	}
	var sh *uiShape
	shown, none := 0, 0
	for _, o := range c.run(in, fn, as, newState()) {
		var scr *Ev
		for _, e := range o.St.ev.list() {
			if isCallOf(e, "tcell.NewScreen") {
				scr = e
			}
		}
		if o.Kind != ORet {
			failed := scr != nil && scr.Ret != nil && scr.Ret.isOp("tuple") && sure(o.St, Not(Eq(scr.Ret.Args[1], tNil)))
			c.Want(failed, rule, "NewUI fails", o.Pos, "making the display fails though the terminal can be used")
			continue
		}
		if scr == nil {
			none++
			c.Want(sureLe(o.St, as[0], tZero), rule, "no display", o.Pos, "there is no display though an interval is given")
			c.idleUI(rule, o)
			continue
		}
		shown++
		c.Want(sure(o.St, Not(Eq(as[0], tZero))), rule, "display", o.Pos, "a display is made without an interval")
		r := o.Rets[0]
		if !r.isOp("iface") || !isObj(r.Args[0]) || len(scr.Ret.Args) != 2 {
			c.Bad(rule, "NewUI", o.Pos, "not decided: the display returned is %v", r)
			continue
		}
		s := &uiShape{u: r.Args[0], T: deref(r.T), st: o.St, interval: as[0], cancel: as[1], evs: o.St.ev.list()}
		S, ok := under(s.T).(*types.Struct)
		if !ok {
			c.Bad(rule, "NewUI", o.Pos, "not decided: the display is a %s", s.T)
			continue
		}
		for i := 0; i < S.NumFields(); i++ {
			v := o.St.load(FieldAddrT(s.u, i, s.T), S.Field(i).Type())
			switch {
			case strings.HasSuffix(S.Field(i).Type().String(), "views.Application"):
				s.app = v
			case strings.HasSuffix(S.Field(i).Type().String(), "views.BoxLayout"):
				s.box = v
			}
		}
		if s.app == nil || s.box == nil {
			c.Bad(rule, "NewUI", o.Pos, "not decided: the application or the box of the display was not found")
			continue
		}
		screen, root, start, wait := -1, -1, -1, -1
		for i, e := range s.evs {
			switch {
			case isCallOf(e, "Application).SetScreen") && e.Args[0] == s.app && stripIface(e.Args[1]) == stripIface(scr.Ret.Args[0]):
				screen = i
			case isCallOf(e, "Application).SetRootWidget") && e.Args[0] == s.app && stripIface(e.Args[1]) == s.u:
				root = i
			case isCallOf(e, "Application).Start") && e.Args[0] == s.app:
				if start >= 0 {
					c.Bad(rule, "started once", e.Pos, "the event loop is started twice")
				}
				start = i
			case start >= 0 && (e.Kind == "recv" || isCallOf(e, "WaitGroup).Wait")):
				wait = i
			}
		}
		c.Want(screen >= 0 && root >= 0 && start > screen && start > root, rule, "event loop", o.Pos, "the event loop is not started, or without the screen and this display")
		c.Want(wait > start, rule, "waits", o.Pos, "the display is returned before its event loop runs: what is posted then is lost")
		sh = s
	}
	c.Want(none > 0, rule, "without an interval", fn, "there is always a display")
	c.Want(shown > 0, rule, "with an interval", fn, "there is never a display")
	return sh
}

// idleUI: what is returned when there is no display does nothing.
func (c *Ctx) idleUI(rule string, o *Outcome) {
	r := o.Rets[0]
	if !r.isOp("iface") {
		c.Bad(rule, "no display", o.Pos, "not decided: what is returned without a display is %v", r)
		return
	}
	for _, m := range []string{"ReplaceWidgets", "Stop"} {
		fn := c.P.method(r.T, m)
		if fn == nil {
			c.Bad(rule, "no display "+m, o.Pos, "not decided: method not found")
			continue
		}
		in := c.interp()
		as := in.SymArgs(fn)
		as[0] = r.Args[0]
		st := o.St.clone()
		st.ev = nil
		for _, x := range c.run(in, fn, as, st) {
			quiet := x.Kind == ORet
			for _, e := range x.St.ev.list() {
				switch e.Kind {
				case "close", "send", "recv", "go", "select":
					quiet = false
				case "call":
					quiet = quiet && e.Name != "dynamic" && !strings.Contains(e.Name, "tcell") && !strings.Contains(e.Name, "WaitGroup")
				}
			}
			c.Want(quiet, rule, "no display "+m, fn, "without a display, %s fails or waits", m)
		}
	}
}

// inState runs a method of the display in the state NewUI leaves.
func (sh *uiShape) inState(c *Ctx, rule, name string, prep func(in *Interp, st *State, as []*Term)) (*ssa.Function, []*Term, []*Outcome) {
	fn := c.P.method(types.NewPointer(sh.T), name)
	if fn == nil {
		c.Bad(rule, name, nil, "not decided: the display has no method %s", name)
		return nil, nil, nil
	}
	in := c.interp()
	in.KeepPaths = true
	uiHooks(in)
	as := in.SymArgs(fn)
	as[0] = sh.u
	st := sh.st.clone()
	st.ev = nil
	if prep != nil {
		prep(in, st, as)
	}
	return fn, as, c.run(in, fn, as, st)
}

// ticker decides the goroutine that asks for updates.
func (sh *uiShape) ticker(c *Ctx) {
	const rule = "ticks"
	var start *Ev
	for _, e := range sh.evs {
		if e.Kind == "go" {
			if start != nil {
				c.Bad(rule, "one", e.Pos, "not decided: more than one goroutine is started")
				return
			}
			start = e
		}
	}
	if start == nil {
		c.Bad(rule, "started", nil, "nothing asks for updates of the display")
		return
	}
	var screen *Term
	var before []*Ev
	added := map[*Term]bool{}
	for _, e := range sh.evs {
		if e == start {
			break
		}
		before = append(before, e)
		if isCallOf(e, "tcell.NewScreen") {
			screen = e.Ret.Args[0]
		}
		if isCallOf(e, "WaitGroup).Add") && e.Args[1] == Int(1) {
			added[e.Args[0]] = true
		}
	}
	in := c.interp()
	in.KeepPaths = true
	st := sh.st.clone()
	st.ev = nil
	outs := in.callTerm(&CallCtx{St: st, Pos: start.Pos}, start.Args[0], start.Args[1:])
	c.visited(in)
	isTick := func(e *Ev, made map[*Term]bool) bool {
		return e.Kind == "recv" && e.Args[0].any(func(t *Term) bool { return made[t] })
	}
	var joins []func(e *Ev) bool
	iters := 0
	for _, o := range outs {
		evs := o.St.ev.list()
		if o.Kind != ORet {
			c.Bad(rule, "end", o.Pos, "the goroutine that asks for updates can fail")
			continue
		}
		made := map[*Term]bool{}
		for _, e := range append(append([]*Ev(nil), before...), evs...) {
			if (isCallOf(e, "time.NewTicker") || isCallOf(e, "time.Tick")) && len(e.Args) == 1 {
				if c.want(e.Args[0] == sh.interval, rule, "interval", e.Pos, "the ticks come every %v, not at the interval given", e.Args[0]) {
					made[e.Ret] = true
				}
			}
		}
		var L *LoopInfo
		ended := false
		var done []func(e *Ev) bool
		for _, e := range evs {
			switch {
			case e.Loop != nil:
				if L != nil {
					c.Bad(rule, "loop", e.Pos, "not decided: several loops")
					return
				}
				L = e.Loop
			case e.Kind == "recv" && !isTick(e, made):
				ended = true
				if sh.shutdown != nil && sh.shutdown != e.Args[0] {
					c.Bad(rule, "end", e.Pos, "not decided: the goroutine ends on several channels")
					return
				}
				sh.shutdown = e.Args[0]
			case isCallOf(e, "WaitGroup).Done"):
				wg := e.Args[0]
				if added[wg] {
					done = append(done, func(e *Ev) bool { return isCallOf(e, "WaitGroup).Wait") && e.Args[0] == wg })
				}
			case e.Kind == "close" || e.Kind == "send":
				ch := e.Args[0]
				done = append(done, func(e *Ev) bool { return e.Kind == "recv" && e.Args[0] == ch })
			}
		}
		c.Want(ended, rule, "end", o.Pos, "the goroutine that asks for updates ends without being told to")
		c.Want(len(done) == 1, rule, "signals", o.Pos, "the end of the goroutine is signalled %d times", len(done))
		joins = append(joins, done...)
		if L == nil {
			c.Bad(rule, "loop", o.Pos, "updates are not asked for again and again")
			continue
		}
		for _, it := range L.Iters {
			iters++
			tick, posts := 0, 0
			for _, e := range it.St.ev.list() {
				switch {
				case isTick(e, made):
					tick++
				case e.Kind == "call" && (strings.HasSuffix(e.Name, "Screen).PostEventWait") || strings.HasSuffix(e.Name, "Screen).PostEvent")):
					ok := stripIface(e.Args[0]) == stripIface(screen) && len(e.Args) == 2 && e.Args[1].T != nil && strings.HasSuffix(ifaceType(e.Args[1]), "internal/ui.EventUpdate")
					if c.want(ok, rule, "update", e.Pos, "what is posted is not an update for this display") {
						posts++
					}
					sh.blocking = sh.blocking || strings.HasSuffix(e.Name, "Wait")
				}
			}
			c.Want(tick == 1 && posts == 1, rule, "each tick", L.Pos, "%d updates are asked for on %d ticks", posts, tick)
		}
	}
	c.Want(iters > 0, rule, "updates", start.Pos, "updates are never asked for")
	if len(joins) > 0 {
		sh.joined = func(e *Ev) bool {
			for _, j := range joins {
				if !j(e) {
					return false
				}
			}
			return true
		}
	}
}

// ifaceType names the type of the value in an interface.
func ifaceType(t *Term) string {
	if t.isOp("iface") && t.T != nil {
		return strings.TrimPrefix(types.TypeString(t.T, nil), "*")
	}
	return ""
}

// stop decides Stop.
func (sh *uiShape) stop(c *Ctx) {
	const rule = "stop"
	fn, _, outs := sh.inState(c, rule, "Stop", nil)
	if fn == nil {
		return
	}
	rets := 0
	for _, o := range outs {
		var end, join, quit, wait []int
		var w *Ev
		evs := o.St.ev.list()
		for i, e := range evs {
			switch {
			case e.Kind == "close" && e.Args[0] == sh.shutdown, e.Kind == "send" && e.Args[0] == sh.shutdown:
				end = append(end, i)
			case sh.joined != nil && sh.joined(e):
				join = append(join, i)
			case isCallOf(e, "Application).Quit") && e.Args[0] == sh.app:
				quit = append(quit, i)
			case isCallOf(e, "Application).Wait") && e.Args[0] == sh.app:
				wait = append(wait, i)
				w = e
			}
		}
		if o.Kind != ORet {
			c.Want(w != nil && sure(o.St, Not(Eq(w.Ret, tNil))), rule, "fails", o.Pos, "stopping the display fails though its event loop ended without an error")
			continue
		}
		rets++
		c.Want(len(end) == 1, rule, "ends ticks", o.Pos, "the goroutine that asks for updates is told to end %d times", len(end))
		c.Want(len(join) == 1 && len(end) == 1 && join[0] > end[0], rule, "waits for ticks", o.Pos, "the goroutine that asks for updates is not awaited after it was told to end")
		c.Want(len(quit) == 1 && len(wait) == 1 && wait[0] > quit[0], rule, "ends the loop", o.Pos, "the event loop is not told to end and then awaited, once each")
		if sh.blocking && len(join) == 1 && len(quit) == 1 {
			c.Want(quit[0] > join[0], rule, "order", o.Pos, "the event loop may end while an update still waits to be posted: the goroutine that posts it never ends")
		}
		c.Want(w == nil || sure(o.St, Eq(w.Ret, tNil)), rule, "error", o.Pos, "an error of the display is lost")
	}
	c.Want(rets > 0, rule, "paths", fn, "stopping never succeeds")
}

// ready decides what is called when the event loop runs.
func (sh *uiShape) ready(c *Ctx) {
	const rule = "start"
	started := false
	var waits []*Ev
	for _, e := range sh.evs {
		if isCallOf(e, "Application).Start") {
			started = true
		}
		if started && (e.Kind == "recv" || isCallOf(e, "WaitGroup).Wait")) {
			waits = append(waits, e)
		}
	}
	once := map[*Term]bool{}
	prep := func(in *Interp) {
		in.Hooks["(*sync.Once).Do"] = func(in *Interp, cc *CallCtx) []*Outcome {
			if once[cc.Args[0]] {
				return retOne(cc.St)
			}
			once[cc.Args[0]] = true
			return in.callTerm(cc, cc.Args[1], nil)
		}
	}
	check := func(o *Outcome, v *Term, first bool) {
		if o.Kind != ORet {
			c.Bad(rule, "view", o.Pos, "taking the view can fail")
			return
		}
		for _, w := range waits {
			n := 0
			for _, e := range o.St.ev.list() {
				switch {
				case w.Kind == "recv" && (e.Kind == "close" || e.Kind == "send") && e.Args[0] == w.Args[0]:
					n++
				case w.Kind == "call" && isCallOf(e, "WaitGroup).Done") && e.Args[0] == w.Args[0]:
					n++
				}
			}
			if first {
				c.Want(n == 1, rule, "ready", o.Pos, "that the event loop runs is reported %d times", n)
			} else {
				c.Want(n == 0, rule, "ready once", o.Pos, "that the event loop runs is reported again with the next view")
			}
		}
		n := 0
		for _, e := range o.St.ev.list() {
			if isCallOf(e, "BoxLayout).SetView") && e.Args[0] == sh.box && e.Args[1] == v {
				n++
			}
		}
		c.Want(n >= 1, rule, "view", o.Pos, "the view is not passed on to the widgets")
	}
	var v *Term
	given := func(in *Interp, st *State, as []*Term) {
		prep(in)
		v = as[1]
		st.assume(Eq(v, tNil), false)
	}
	_, _, outs := sh.inState(c, rule, "SetView", given)
	for _, o := range outs {
		check(o, v, true)
		if o.Kind == ORet {
			next := *sh
			next.st = o.St
			_, _, again := next.inState(c, rule, "SetView", given)
			for _, x := range again {
				check(x, v, false)
			}
		}
	}
}

// keys decides HandleEvent.
func (sh *uiShape) keys(c *Ctx) {
	const rule = "keys"
	ctrlC, mod := c.constOf(tcellPkg, "KeyCtrlC"), c.constOf(tcellPkg, "ModCtrl")
	if ctrlC == nil || mod == nil {
		c.Bad(rule, "keys", nil, "not decided: the key is not known")
		return
	}
	fn, as, outs := sh.inState(c, rule, "HandleEvent", nil)
	if fn == nil {
		return
	}
	ev := as[1]
	cancels := 0
	for _, o := range outs {
		isKey, notKey := false, false
		var keyV, modV *Term
		for l, v := range o.St.lits {
			l.any(func(t *Term) bool {
				if t.isOp("istype") && t.Args[0] == ev && strings.HasSuffix(t.S, "tcell.EventKey") {
					isKey, notKey = isKey || l == t && v, notKey || l == t && !v
				}
				if t.isOp("key") && t.Args[0].contains(ev) {
					if t.S == "Key" {
						keyV = t
					} else if t.S == "Modifiers" {
						modV = t
					}
				}
				return false
			})
		}
		n, passed := 0, 0
		var pass *Ev
		for _, e := range o.St.ev.list() {
			if e.Kind == "call" && e.Name == "dynamic" && e.Args[0] == sh.cancel {
				n++
			}
			if isCallOf(e, "BoxLayout).HandleEvent") && e.Args[0] == sh.box && e.Args[1] == ev {
				passed++
				pass = e
			}
		}
		is := isKey && keyV != nil && sure(o.St, Eq(keyV, ctrlC))
		if n > 0 {
			cancels++
			c.Want(is, rule, "cancels", o.Pos, "the run is cancelled by something other than control-C")
		} else {
			not := notKey || keyV != nil && sure(o.St, Not(Eq(keyV, ctrlC))) || modV != nil && sure(o.St, Not(Eq(modV, mod)))
			c.Want(not, rule, "control-C", o.Pos, "control-C may be pressed without the run being cancelled")
		}
		if notKey {
			c.Want(o.Kind == ORet && passed == 1, rule, "others", o.Pos, "an event that is no key does not reach the widgets once")
			if o.Kind == ORet && passed == 1 {
				c.Want(o.Rets[0] == pass.Ret || o.Rets[0] == tFalse, rule, "others", o.Pos, "not decided: what is returned for an event that is no key is %v", o.Rets[0])
			}
		} else if o.Kind != ORet {
			c.Want(isKey && keyV != nil, rule, "fails", o.Pos, "an event makes the display fail")
		}
	}
	c.Want(cancels > 0, rule, "control-C", fn, "control-C never cancels the run")
}

// constOf: an integer constant of a package.
func (c *Ctx) constOf(pkg, name string) *Term {
	for _, p := range c.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if k, ok := p.Members[name].(*ssa.NamedConst); ok {
				return Int(k.Value.Int64())
			}
		}
	}
	return nil
}

// replace decides ReplaceWidgets.
func (sh *uiShape) replace(c *Ctx) {
	const rule = "replace"
	fn, as, outs := sh.inState(c, rule, "ReplaceWidgets", nil)
	if fn == nil {
		return
	}
	list := as[1]
	elem := elemType(list.T)
	changes := func(e *Ev) string {
		for _, m := range []string{"AddWidget", "RemoveWidget", "InsertWidget"} {
			if isCallOf(e, "BoxLayout)."+m) {
				return m
			}
		}
		return ""
	}
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad(rule, "fails", o.Pos, "changing the display can fail")
			continue
		}
		var posts []*Ev
		eachEv(o.St.ev.list(), func(e *Ev) {
			if isCallOf(e, "Application).PostFunc") && e.Args[0] == sh.app {
				posts = append(posts, e)
			}
			if m := changes(e); m != "" {
				c.Bad(rule, "in the event loop", e.Pos, "%s is called outside of the event loop, which draws at the same time", m)
			}
		})
		if !c.want(len(posts) == 1, rule, "posted", o.Pos, "%d changes are posted", len(posts)) {
			continue
		}
		in := c.interp()
		in.KeepPaths = true
		st := o.St.clone()
		st.ev = nil
		for _, x := range in.callTerm(&CallCtx{St: st, Pos: posts[0].Pos}, posts[0].Args[1], nil) {
			if x.Kind != ORet {
				c.Bad(rule, "fails", x.Pos, "changing the display can fail")
				continue
			}
			var old *Term
			removed, at := false, tZero
			add := func(st *State, e *Ev, want *Term) {
				if e.Args[0] != sh.box {
					c.Bad(rule, "adds", e.Pos, "the widget is added to something else than the display")
					return
				}
				if old == nil || !removed {
					c.Bad(rule, "order", e.Pos, "a widget is added before the old ones are taken away")
				}
				v := e.Args[1]
				ok := v.isOp("select") && v.Args[0].any(func(t *Term) bool {
					if l := loopVarOf(t); l != nil && l.Cell != nil && l.Cell.contains(list) {
						return true
					}
					return t == list
				}) && equal(st, v.Args[1], want)
				c.Want(ok || v == listAt(st, list, want, elem), rule, "adds", e.Pos, "the widget added is not the next of those given")
			}
			for _, e := range x.St.ev.list() {
				switch {
				case isCallOf(e, "BoxLayout).Widgets") && e.Args[0] == sh.box:
					old = e.Ret
				case e.Loop != nil:
					L := e.Loop
					adds, rems := 0, 0
					for _, it := range L.Iters {
						a, r := 0, 0
						for _, y := range it.St.ev.list() {
							switch changes(y) {
							case "RemoveWidget":
								r++
								if !(y.Args[0] == sh.box && old != nil && (isEntry(y.Args[1], old, L.K) || isEntry(y.Args[1], old, Sub(Sub(Len(old), Int(1)), L.K)))) {
									c.Bad(rule, "removes", y.Pos, "what is taken away is not the next of the old widgets")
								}
							case "AddWidget":
								a++
								add(it.St, y, Add(at, L.K))
							case "InsertWidget":
								c.Bad(rule, "adds", y.Pos, "not decided: a widget is inserted")
							}
						}
						if a+r != 1 && (a > 0 || r > 0 || adds > 0 || rems > 0) {
							c.Bad(rule, "each", L.Pos, "%d widgets are added and %d taken away for one of those given", a, r)
						}
						adds, rems = adds+a, rems+r
					}
					n := L.Trip
					switch {
					case rems > 0:
						c.Want(rems == len(L.Iters) && (n != nil && equal(x.St, n, Len(old)) || complete(L, Len(old))), rule, "removes", L.Pos, "not every old widget is taken away")
						removed = true
					case adds > 0:
						for _, d := range []int64{0, 1} {
							if x := Sub(Len(list), Int(d)); n == nil && complete(L, x) && onlyBelow(L, x) {
								n = x
							}
						}
						if !c.want(n != nil && adds == len(L.Iters), rule, "adds", L.Pos, "not every widget given is added") {
							n = tZero
						}
						at = Add(at, n)
					}
				case changes(e) == "AddWidget":
					add(x.St, e, at)
					at = Add(at, Int(1))
				case changes(e) != "":
					c.Bad(rule, "each", e.Pos, "not decided: %s is called", e.Name)
				}
			}
			c.Want(removed, rule, "old widgets", x.Pos, "the old widgets are not taken away")
			c.Want(equal(x.St, at, Len(list)), rule, "all widgets", x.Pos, "not all of the widgets given are shown, or some twice")
		}
		c.visited(in)
	}
}

// onlyBelow: the loop goes on only before iteration n.
func onlyBelow(L *LoopInfo, n *Term) bool {
	for _, it := range L.Iters {
		if L.K == nil || !sureLt(it.St, L.K, n) {
			return false
		}
	}
	return true
}

// updatesReach: an update event makes each line update.
func (c *Ctx) updatesReach() {
	const rule = "updates"
	line := c.P.Named("internal/ui/widget.WidgetCommonLine")
	newCmd := c.need(rule, "internal/ui/widget.NewWidgetCmd")
	refresh := c.need(rule, "internal/tracker.(*WidgetWorkers).RefreshStates")
	upd := c.P.Named("internal/ui.EventUpdate")
	if line == nil || upd == nil {
		c.Bad(rule, "lines", nil, "not decided: the type of lines or of updates was not found")
		return
	}
	if newCmd == nil || refresh == nil {
		return
	}
	event := func(in *Interp) *Term {
		return Op2iface(types.NewPointer(upd), in.newObj("alloc", upd, nil))
	}
	// lines
	for _, T := range c.P.lineTypes(line) {
		T := T
		c.Try(rule, T.Obj().Name(), nil, func() {
			fn := c.P.method(types.NewPointer(T), "HandleEvent")
			if fn == nil {
				c.Bad(rule, typeName(T), nil, "the line does not handle events")
				return
			}
			in := c.interp()
			in.KeepPaths = true
			as := in.SymArgs(fn)
			as[1] = event(in)
			for _, o := range c.run(in, fn, as, newState()) {
				n := 0
				var handled []*Term
				for _, e := range o.St.ev.list() {
					if e.Kind == "call" && e.Name == "dynamic" && len(e.Args) == 1 && e.Args[0].contains(as[0]) {
						n++
					}
					if e.Kind == "call" && strings.HasSuffix(e.Name, ".HandleEvent") {
						handled = append(handled, e.Ret)
					}
				}
				c.Want(o.Kind == ORet && n >= 1, rule, typeName(T), o.Pos, "the line is not updated when an update is asked for")
				if o.Kind == ORet {
					c.Want(passes(o.Rets[0], handled), rule, typeName(T)+" passes on", o.Pos, "the line reports the update as handled: those behind it are not updated")
				}
			}
		})
		c.Try(rule, T.Obj().Name(), nil, func() {
			fn := c.P.method(types.NewPointer(T), "SetView")
			if fn == nil {
				c.Bad(rule, typeName(T), nil, "the line takes no view")
				return
			}
			in := c.interp()
			in.KeepPaths = true
			as := in.SymArgs(fn)
			for _, o := range c.run(in, fn, as, newState()) {
				n := 0
				for _, e := range o.St.ev.list() {
					if e.Kind == "call" && strings.HasSuffix(e.Name, ".SetView") && len(e.Args) == 2 && e.Args[1] == as[1] {
						n++
					}
				}
				c.Want(o.Kind == ORet && n == 1, rule, typeName(T)+" view", o.Pos, "the line is not drawn on the view it is given")
			}
		})
	}
	// the display of a command
	in := c.interp()
	in.KeepPaths = true
	as := in.SymArgs(newCmd)
	for _, o := range c.run(in, newCmd, as, newState()) {
		if o.Kind != ORet || !o.Rets[0].isOp("iface") {
			c.Bad(rule, "command display", o.Pos, "not decided: what is made is %v", o.Rets)
			continue
		}
		u := o.Rets[0].Args[0]
		T := deref(o.Rets[0].T)
		var boxes []*Term // boxes made, and the ones that hold others
		inner := map[*Term]*Term{}
		for _, e := range o.St.ev.list() {
			if isCallOf(e, "views.NewBoxLayout") {
				boxes = append(boxes, e.Ret)
			}
			if isCallOf(e, "BoxLayout).AddWidget") {
				inner[stripIface(e.Args[1])] = e.Args[0]
			}
		}
		fn := c.P.method(types.NewPointer(T), "HandleEvent")
		if fn == nil {
			c.Bad(rule, "command display", newCmd, "not decided: the display handles no events")
			continue
		}
		in := c.interp()
		in.KeepPaths = true
		refreshed := 0
		in.Hooks[fnName(refresh)] = func(in *Interp, cc *CallCtx) []*Outcome {
			cc.St.emit(&Ev{Kind: "refresh", Args: cc.Args, Pos: cc.Pos, In: cc.In})
			return retOne(cc.St)
		}
		a := in.SymArgs(fn)
		a[0], a[1] = u, event(in)
		st := o.St.clone()
		st.ev = nil
		for _, x := range c.run(in, fn, a, st) {
			got := map[*Term]bool{}
			n := 0
			var handled []*Term
			for _, e := range x.St.ev.list() {
				switch {
				case e.Kind == "refresh":
					n++
				case isCallOf(e, "BoxLayout).HandleEvent") && e.Args[1] == a[1]:
					got[e.Args[0]] = true
					handled = append(handled, e.Ret)
				}
			}
			refreshed += n
			c.Want(x.Kind == ORet && n >= 1, rule, "workers", x.Pos, "the list of workers shown is not brought up to date")
			for _, b := range boxes {
				reached := false
				for y := b; y != nil; y = inner[y] {
					reached = reached || got[y]
				}
				c.Want(reached, rule, "boxes", x.Pos, "an update does not reach every line of the command's display")
			}
			if x.Kind == ORet {
				c.Want(passes(x.Rets[0], handled), rule, "command display passes on", x.Pos, "the command's display reports the update as handled: what is behind it is not updated")
			}
		}
		c.Want(len(boxes) > 0, rule, "boxes", newCmd, "not decided: the display has no boxes")
	}
}

// passes: what is returned comes from the library or says that the event was not handled.
func passes(r *Term, handled []*Term) bool {
	if r == tFalse {
		return true
	}
	for _, h := range handled {
		if h == r {
			return true
		}
	}
	return false
}

func typeName(T *types.Named) string {
	return strings.TrimPrefix(types.TypeString(T, nil), modPath+"/")
}

// lineTypes lists the type of lines and those that embed it.
func (p *Program) lineTypes(line *types.Named) []*types.Named {
	var r []*types.Named
	for _, pk := range p.Prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if T.Obj() == line.Obj() {
				r = append(r, T)
				continue
			}
			S, ok := under(T).(*types.Struct)
			for i := 0; ok && i < S.NumFields(); i++ {
				if f := S.Field(i); f.Embedded() {
					if N, isN := types.Unalias(deref(f.Type())).(*types.Named); isN && N.Obj() == line.Obj() {
						r = append(r, T)
					}
				}
			}
		}
	}
	return r
}

// uiOf decides how a command uses its display; 1 if it has one.
func (c *Ctx) uiOf(k *Command) int {
	const rule = "commands"
	wants := false // the command takes an interval
	for _, o := range k.Outs {
		for _, e := range o.St.ev.list() {
			if isCallOf(e, "go-flags.NewParser") && len(e.Args) > 0 {
				if a := e.Args[0]; a.isOp("iface") && a.T != nil {
					wants = wants || hasOption(deref(a.T), "refresh")
				}
			}
		}
	}
	has := false
	for _, o := range k.Outs {
		if !finishes(o) {
			continue
		}
		var ui *Ev
		ctxs := map[*Term]*Term{} // context -> cancel
		news, stop, lastWork := 0, -1, -1
		stops, works := 0, 0
		var walk func(l []*Ev, st *State, top int)
		walk = func(l []*Ev, st *State, top int) {
			deep := top >= 0
			shown := map[*Term]bool{}
			for i, e := range l {
				if deep {
					i = top
				}
				switch {
				case isCallOf(e, "context.WithCancel") && e.Ret.isOp("tuple"):
					ctxs[e.Ret.Args[0]] = e.Ret.Args[1]
				case isCallOf(e, "internal/ui.NewUI"):
					news++
					ui = e
					if deep {
						c.Bad(rule, k.Name+" one display", e.Pos, "a display is made in a loop")
					}
					c.Want(normOpts(e.Args[0]).isOp("opt") && normOpts(e.Args[0]).S == "refresh", rule, k.Name+" interval", e.Pos, "the interval of the display is not the one given")
				case e.Kind == "process":
					works++
					lastWork = i
					if ui == nil {
						if wants {
							c.Bad(rule, k.Name+" display", e.Pos, "a file is processed without the display")
						}
						break
					}
					c.Want(stop < 0, rule, k.Name+" shown", e.Pos, "a file is processed after the display was stopped")
					can := ctxs[e.Args[0]]
					c.Want(can != nil && c.callsOnly(ui.Snap, ui.Args[1], can), rule, k.Name+" cancels", e.Pos, "the display does not cancel the context that the pipeline runs in")
				case strings.HasSuffix(e.Name, "internal/ui.UI).ReplaceWidgets") && e.Kind == "call":
					if !c.want(ui != nil && e.Args[0] == ui.Ret && stop < 0, rule, k.Name+" widgets", e.Pos, "widgets are given to a display that does not run") {
						break
					}
					for _, w := range shownBy(e, st) {
						shown[w] = true
					}
				case e.Kind == "wait":
					lastWork = i
					if ui == nil {
						break
					}
					file, cmd := false, false
					for _, x := range l {
						if len(x.Args) == 2 && isCallOf(x, "widget.NewProcessFileStateWidget") && x.Args[1] == e.Args[0] && shown[x.Ret] {
							file = true
						}
						if isCallOf(x, "widget.NewWidgetCmd") && shown[x.Ret] {
							cmd = true
						}
					}
					c.Want(file, rule, k.Name+" file progress", e.Pos, "the progress of the file awaited is not shown")
					c.Want(cmd, rule, k.Name+" stage progress", e.Pos, "the stages at work are not shown")
				case strings.HasSuffix(e.Name, "internal/ui.UI).Stop") && e.Kind == "call":
					if c.want(ui != nil && e.Args[0] == ui.Ret && !deep, rule, k.Name+" stopped", e.Pos, "not decided: what is stopped is not the display, or in a loop") {
						stops++
						stop = i
					}
				case e.Kind == "print" || e.Kind == "call" && strings.HasPrefix(e.Name, "fmt.Print"):
					if ui != nil {
						c.Want(stop >= 0, rule, k.Name+" prints", e.Pos, "text is printed while the display uses the terminal")
					}
				}
				if e.Loop != nil {
					for _, it := range e.Loop.Iters {
						walk(it.St.ev.list(), it.St, i)
					}
				}
			}
		}
		walk(o.St.ev.list(), o.St, -1)
		if ui == nil {
			if wants && works > 0 {
				c.Bad(rule, k.Name+" display", o.Pos, "the command never makes the display it takes an interval for")
			}
			continue
		}
		has = true
		c.Want(news == 1, rule, k.Name+" one display", o.Pos, "%d displays are made", news)
		c.Want(stops == 1, rule, k.Name+" stops", o.Pos, "the display is stopped %d times before the command ends", stops)
		c.Want(stop > lastWork, rule, k.Name+" stops last", o.Pos, "the display is stopped before the pipelines end")
	}
	if has {
		return 1
	}
	return 0
}

// hasOption: the options have one with that name.
func hasOption(T types.Type, name string) bool {
	S, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < S.NumFields(); i++ {
		if longTag(S, i) == name || S.Field(i).Embedded() && hasOption(deref(S.Field(i).Type()), name) {
			return true
		}
	}
	return false
}

// shownBy: the widgets handed to the display.
func shownBy(e *Ev, st *State) []*Term {
	if e.Snap != nil {
		st = e.Snap
	}
	l := e.Args[1]
	n := Len(l)
	var r []*Term
	if n.K == KInt {
		for i := int64(0); i < n.I && i < 64; i++ {
			if v := listAt(st, l, Int(i), elemType(l.T)); v != nil {
				r = append(r, stripIface(v), v)
			}
		}
	}
	return r
}

// callsOnly: f is the function can, or does nothing but call it.
func (c *Ctx) callsOnly(st *State, f, can *Term) bool {
	if f == can {
		return true
	}
	if st == nil || !f.isOp("closure") {
		return false
	}
	in := c.interp()
	st = st.clone()
	st.ev = nil
	outs := in.callTerm(&CallCtx{St: st}, f, nil)
	for _, x := range outs {
		n := 0
		for _, e := range x.St.ev.list() {
			if e.Kind != "call" || e.Name != "dynamic" || e.Args[0] != can {
				return false
			}
			n++
		}
		if x.Kind != ORet || n == 0 {
			return false
		}
	}
	return len(outs) > 0
}
