package main

// C36: the progress display.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "Abstract interpretation of the display against the stages: the main function of each command gives the state provider and the two widget constructors it shows; the worker and writer functions of the same command's pipelines give the state objects they announce and every value they store into their state word; each constructor is interpreted on exactly such an object (a failing type assertion is a violation), and the update function it installs is interpreted once for each value the stage can store: on every path it must set a text, it must not be able to fail, and no two values may lead to the same text.  The generic display (tracker widgets, command widget) is shown to hand every announced state to the constructor meant for it.",
		checkC36, "a layout sets the view of a widget when the widget is added to it (as tcell does)")
}

func isCallOf(e *Ev, suffix string) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, suffix)
}

// method finds a method of the pointer type's method set, promoted ones included.
func (p *Program) method(T types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// stateWord finds the word of a state object that CurrentState reports.
func (c *Ctx) stateWord(T types.Type, addr *Term, st *State) (cell *Term, ct types.Type) {
	m := c.P.method(T, "CurrentState")
	if m == nil {
		return nil, nil
	}
	in := c.interp()
	in.TraceMem = true
	out := in.Run(m, []*Term{addr}, nil, st.clone())
	if len(out) != 1 || len(out[0].Rets) != 1 {
		return nil, nil
	}
	eachEv(out[0].St.ev.list(), func(e *Ev) {
		if (e.Kind == "atomic" || e.Kind == "load") && e.Ret == out[0].Rets[0] && len(e.Args) > 0 {
			cell = e.Args[0]
		}
	})
	return cell, out[0].Rets[0].T
}

// stageStates: the values a stage stores into a word; addr gives the word for the state object.
type statesOf struct {
	vals map[int64]tokenPos
	bad  bool
}

func (c *Ctx) storedValues(rule, name string, outs []*Outcome, isWord func(a *Term) bool) statesOf {
	r := statesOf{vals: map[int64]tokenPos{}}
	for _, o := range outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			var v *Term
			switch {
			case e.Kind == "atomic" && len(e.Args) >= 2 && isWord(e.Args[0]):
				v = e.Args[len(e.Args)-1]
				if !strings.Contains(e.Name, ".Store") && !strings.Contains(e.Name, ".Swap") && !strings.Contains(e.Name, ".CompareAndSwap") {
					v = nil
				}
			case e.Kind == "store" && len(e.Args) == 2 && isWord(e.Args[0]):
				v = e.Args[1]
			default:
				return
			}
			if v != nil {
				v = stripConv(v, 64)
			}
			if v == nil || v.K != KInt {
				c.Bad(rule, name+" state", e.Pos, "not decided: the state set here is not a constant (%v)", v)
				r.bad = true
				return
			}
			if _, ok := r.vals[v.I]; !ok {
				r.vals[v.I] = e.Pos
			}
		})
	}
	return r
}

// eachDisplay finds the lines that show the states of stages; what C36 decides about them is not reported again.
func (c *Ctx) eachDisplay(rule string, f func(d *display)) {
	c.onDisplay, c.dispRule = f, rule
	defer func() { c.onDisplay = nil }()
	n := len(c.Obls)
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad(rule, "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		cmds, _ := c.shownIn(k)
		for _, p := range k.Pipe {
			p := p
			c.Try(rule, p.name(), p.Ev.Pos, func() { c.displayOf(p, cmds) })
		}
	}
	c.Try(rule, "file reader", nil, func() { c.fileDisplay() })
	l := c.Obls[:n:n]
	for _, o := range c.Obls[n:] {
		if o.Rule != "display" && o.Rule != "state" {
			l = append(l, o)
		} else if !o.OK && strings.HasPrefix(o.Note, "not decided") {
			o.Rule = rule
			l = append(l, o)
		}
	}
	c.Obls = l
}

// shownIn: the command and file displays that a command shows.
func (c *Ctx) shownIn(k *Command) (cmds, files []*Ev) {
	newCmd := c.P.Func("internal/ui/widget.NewWidgetCmd")
	for _, o := range k.Outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if newCmd != nil && e.Kind == "call" && e.Name == fnName(newCmd) && len(e.Args) == 3 {
				for _, x := range cmds {
					if x.Pos == e.Pos && x.Args[0] == e.Args[0] && x.Args[1] == e.Args[1] && x.Args[2] == e.Args[2] {
						return
					}
				}
				cmds = append(cmds, e)
			}
			if isCallOf(e, "widget.NewProcessFileStateWidget") {
				files = append(files, e)
			}
		})
	}
	return
}

func checkC36(c *Ctx) {
	common := c.need("display", "internal/ui/widget.NewWidgetCommonLine")
	newCmd := c.need("display", "internal/ui/widget.NewWidgetCmd")
	if common == nil || newCmd == nil {
		return
	}
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("display", "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		cmds, files := c.shownIn(k)
		for _, p := range k.Pipe {
			p := p
			c.Try("display", p.name(), p.Ev.Pos, func() { c.displayOf(p, cmds) })
		}
		for _, e := range files {
			ok := false
			for _, p := range k.Pipe {
				ok = ok || len(e.Args) == 2 && e.Args[1] == p.Ev.Ret
			}
			for _, o := range k.Outs {
				eachEv(o.St.ev.list(), func(x *Ev) { ok = ok || x.Kind == "process" && len(e.Args) == 2 && e.Args[1] == x.Ret })
			}
			c.Want(ok, "display", "command "+k.Name+" file progress", e.Pos, "the progress shown is not that of a file being processed")
		}
	}
	c.Try("display", "file reader", nil, func() { c.fileDisplay() })
	c.Try("display", "pass progress", nil, func() { c.passDisplay() })
	c.Try("wiring", "NewWidgetCmd", newCmd, func() { c.displayWiring(newCmd) })
	c.Try("progress bar", "MarkupAsProgress", nil, func() { c.progressBar() })
	c.Min("display", 10)
	c.Min("state", 40)
	c.Min("wiring", 5)
	c.Min("progress bar", 2)
}

// displayOf decides the display of one pipeline.
func (c *Ctx) displayOf(p *Pipe, cmds []*Ev) {
	wk := c.stage(p, false, func(in *Interp) { in.TraceMem = true })
	if wk.Err != "" {
		c.Bad("display", wk.name(), wk.ErrPos, "not decided: %s", wk.Err)
		return
	}
	// the states announced by the workers
	type ann struct {
		addr, prov *Term
		T          types.Type
		pos        tokenPos
	}
	var anns []ann
	for _, o := range wk.Outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Kind != "trackworker" || len(e.Args) != 2 {
				return
			}
			a := ann{prov: rootOf(e.Args[0]), pos: e.Pos}
			if s := e.Args[1]; s.isOp("iface") {
				a.addr, a.T = s.Args[0], s.T
			}
			anns = append(anns, a)
		})
	}
	if len(anns) == 0 {
		c.Ok("display", wk.name(), wk.Fn, "announces no state")
		return
	}
	for _, a := range anns {
		if a.addr == nil {
			c.Bad("display", wk.name(), a.pos, "not decided: the state announced here is not known")
			return
		}
		var ev *Ev
		for _, e := range cmds {
			sp := e.Args[0]
			if sp.isOp("iface") && rootOf(sp.Args[0]) == a.prov {
				ev = e
			}
		}
		if ev == nil {
			c.Bad("display", wk.name(), a.pos, "the command does not show the states announced here")
			continue
		}
		c.Ok("display", wk.name(), a.pos, "")
		// the worker's widget
		st := p.St.clone()
		cell, _ := c.stateWord(a.T, a.addr, st)
		if cell == nil {
			c.Bad("display", wk.name(), a.pos, "not decided: the word that holds the current state was not found")
			continue
		}
		vals := c.storedValues("state", wk.name(), wk.Outs, func(x *Term) bool { return x == cell })
		c.disp = display{addr: a.addr, T: a.T, stage: wk.Outs, of: wk}
		c.widgetOf(wk.name(), ev.Pos, ev.Args[1], Op2iface(a.T, a.addr), cell, vals, st)
		// the writer's
		sp := ev.Args[0]
		m := c.P.method(sp.T, "WriterState")
		if m == nil {
			c.Bad("display", p.name()+" writer", ev.Pos, "the state provider has no writer state")
			continue
		}
		in := c.interp()
		var ws *Term
		for _, o := range in.Run(m, []*Term{sp.Args[0]}, nil, p.St.clone()) {
			if o.Kind == ORet && len(o.Rets) == 1 && o.Rets[0].isOp("iface") && ws == nil {
				ws = o.Rets[0]
			} else {
				c.Bad("display", p.name()+" writer", m, "not decided: the writer state is not a known object")
				return
			}
		}
		if ws == nil || !p.hasWriter() {
			continue
		}
		if types.IsInterface(ws.T) || elemType(ws.T) == nil {
			c.Bad("display", p.name()+" writer", m, "the writer state handed to the display is a copy (%s)", ws.T)
			continue
		}
		wr := c.stage(p, true, func(in *Interp) { in.TraceMem = true })
		if wr.Err != "" {
			c.Bad("display", wr.name(), wr.ErrPos, "not decided: %s", wr.Err)
			continue
		}
		cell, _ = c.stateWord(ws.T, ws.Args[0], st)
		if cell == nil {
			c.Bad("display", wr.name(), m, "not decided: the word that holds the current state was not found")
			continue
		}
		vals = c.storedValues("state", wr.name(), wr.Outs, func(x *Term) bool { return x == cell })
		c.Want(len(vals.vals) > 0, "display", wr.name(), wr.Fn, "the writer never sets the state that is displayed")
		c.disp = display{addr: ws.Args[0], T: ws.T, stage: wr.Outs, of: wr}
		c.widgetOf(wr.name(), ev.Pos, ev.Args[2], ws, cell, vals, st)
	}
}

func Op2iface(T types.Type, x *Term) *Term {
	return OpX("iface", types.TypeString(T, nil), T, nil, x)
}

// captureLines replaces the constructor of text lines; the update functions are collected.
func (c *Ctx) captureLines(in *Interp) *[]*Term {
	var r []*Term
	if fn := c.P.Func("internal/ui/widget.NewWidgetCommonLine"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, cc *CallCtx) []*Outcome {
			r = append(r, cc.Args[0])
			T := elemType(cc.Sig.Results().At(0).Type())
			o := in.newObj("alloc", T, nil)
			if st, ok := under(T).(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := under(st.Field(i).Type()).(*types.Signature); ok {
						cc.St.store(FieldAddrT(o, i, T), cc.Args[0], st.Field(i).Type()) // keeps what it captures alive
					}
					if strings.HasSuffix(st.Field(i).Type().String(), "tcell/views.View") { // set before or after
						cc.St.store(FieldAddrT(o, i, T), in.fresh("view", st.Field(i).Type(), nil), st.Field(i).Type())
					}
				}
			}
			return retOne(cc.St, o)
		}
	}
	return &r
}

// widgetOf decides the display of one state object by the widget that ctor makes for it.
func (c *Ctx) widgetOf(name string, pos tokenPos, ctor, state, cell *Term, vals statesOf, st *State) {
	initial := Int(0)
	if v := st.load(cell, types.Typ[types.Uint64]); v.K == KInt {
		initial = v
	}
	if _, ok := vals.vals[initial.I]; !ok {
		vals.vals[initial.I] = pos
	}
	in := c.interp()
	lines := c.captureLines(in)
	st = st.clone()
	st.ev = nil
	outs := in.callTerm(&CallCtx{St: st, Pos: pos}, ctor, []*Term{state})
	c.visited(in)
	if len(outs) == 0 {
		c.Bad("display", name+" widget", pos, "the constructor of the widget never returns")
		return
	}
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad("display", name+" widget", pos, "the constructor of the widget fails on the state announced by this stage (%s)", state.T)
			return
		}
	}
	if len(outs) != 1 || len(*lines) != 1 {
		c.Bad("display", name+" widget", pos, "not decided: the widget has %d lines on %d paths", len(*lines), len(outs))
		return
	}
	c.Ok("display", name+" widget", pos, "")
	c.texts(name, (*lines)[0], cell, vals, outs[0].St)
}

// texts interprets an update function for each state value.
func (c *Ctx) texts(name string, update, cell *Term, vals statesOf, st *State) {
	if c.onDisplay != nil {
		d := c.disp
		d.name, d.update, d.cell, d.vals, d.st = name, update, cell, vals, st
		for _, p := range vals.vals {
			d.pos = p
		}
		c.onDisplay(&d)
		return
	}
	var order []int64
	for v := range vals.vals {
		order = append(order, v)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	byText := map[string]int64{}
	for _, v := range order {
		pos := vals.vals[v]
		what := fmt.Sprintf("%s state %d", name, v)
		in := c.interp()
		in.AtomicMem = true
		in.KeepPaths = true
		s := st.clone()
		s.ev = nil
		s.store(cell, Int(v), types.Typ[types.Uint64])
		outs := in.callTerm(&CallCtx{St: s, Pos: pos}, update, nil)
		c.visited(in)
		ok := true
		for _, o := range outs {
			if o.Kind != ORet {
				c.Bad("state", what, pos, "displaying this state can fail")
				ok = false
				continue
			}
			var text *Term
			eachEv(o.St.ev.list(), func(e *Ev) {
				if (isCallOf(e, ".SetText") || isCallOf(e, ".SetMarkup")) && len(e.Args) >= 2 {
					text = e.Args[len(e.Args)-1]
				}
			})
			if text == nil {
				c.Bad("state", what, pos, "the widget shows nothing for this state: the text of the state before stays")
				ok = false
				continue
			}
			key := wording(text)
			if w, dup := byText[key]; dup && w != v {
				c.Bad("state", what, pos, "the widget shows the same text for this state as for state %d (%s)", w, key)
				ok = false
			}
			byText[key] = v
		}
		for fn := range in.Visited {
			if p := divisions(fn); p != 0 {
				c.Bad("state", what, p, "displaying this state can divide by zero")
				ok = false
			}
		}
		if ok {
			c.Ok("state", what, pos, "")
		}
	}
}

// wording is the constant text of a term.
func wording(t *Term) string {
	var l []string
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.K == KStr {
			l = append(l, t.S)
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return strings.Join(l, "|")
}

// divisions finds an integer division whose divisor is neither constant nor compared with anything.
func divisions(fn *ssa.Function) tokenPos {
	if !strings.HasPrefix(fnPkg(fn), modPath) {
		return 0
	}
	compared := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.BinOp); ok {
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
					compared[x.X], compared[x.Y] = true, true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.BinOp)
			if !ok || x.Op != token.QUO && x.Op != token.REM || !isInteger(x.Type()) {
				continue
			}
			if _, k := x.Y.(*ssa.Const); !k && !compared[x.Y] {
				return x.Pos()
			}
		}
	}
	return 0
}

// fileDisplay: the states of the file reader.
func (c *Ctx) fileDisplay() {
	ctor := c.need("display", "internal/ui/widget.NewProcessFileStateWidget")
	d := c.driver("display")
	if ctor == nil || d == nil {
		return
	}
	ps := d.Start.Rets[0]
	st := d.Start.St
	T := d.Entry.Signature.Results().At(0).Type()
	cell, _ := c.stateWord(T, ps, st)
	if cell == nil {
		c.Bad("display", "file reader", d.Entry, "not decided: the word that holds the current state was not found")
		return
	}
	vals := c.storedValues("state", "file reader", d.Outs, func(x *Term) bool { return x == cell })
	c.Want(len(vals.vals) > 1, "display", "file reader", d.Entry, "the reader never sets the state that is displayed")
	in := c.interp()
	lines := c.captureLines(in)
	s := st.clone()
	s.ev = nil
	outs := in.Run(ctor, []*Term{Sym("action", types.Typ[types.String], nil), ps}, nil, s)
	if len(outs) != 1 || outs[0].Kind != ORet || len(*lines) != 1 {
		c.Bad("display", "file reader widget", ctor, "not decided: the widget has %d lines on %d paths", len(*lines), len(outs))
		return
	}
	if v := st.load(cell, types.Typ[types.Uint64]); v.K == KInt {
		vals.vals[v.I] = d.Entry.Pos()
	}
	c.disp = display{addr: ps, T: T, stage: d.Outs}
	c.texts("file reader", (*lines)[0], cell, vals, outs[0].St)
}

// passDisplay: the progress over several passes cannot fail.
func (c *Ctx) passDisplay() {
	ctor := c.need("display", "internal/ui/widget.NewPassProgress")
	if ctor == nil {
		return
	}
	in := c.interp()
	lines := c.captureLines(in)
	outs := in.Run(ctor, in.SymArgs(ctor), nil, newState())
	if len(outs) != 1 || outs[0].Kind != ORet || len(*lines) != 1 {
		c.Bad("display", "pass progress", ctor, "not decided: the widget has %d lines on %d paths", len(*lines), len(outs))
		return
	}
	in = c.interp()
	st := outs[0].St.clone()
	st.ev = nil
	ok := true
	for _, o := range in.callTerm(&CallCtx{St: st, Pos: ctor.Pos()}, (*lines)[0], nil) {
		set := false
		eachEv(o.St.ev.list(), func(e *Ev) { set = set || isCallOf(e, ".SetText") || isCallOf(e, ".SetMarkup") })
		ok = ok && o.Kind == ORet && set
	}
	for fn := range in.Visited {
		ok = ok && divisions(fn) == 0
	}
	c.visited(in)
	c.Want(ok, "display", "pass progress", ctor, "displaying the pass can fail or shows nothing")
}

// displayWiring: the generic display hands each state to the constructor meant for it.
func (c *Ctx) displayWiring(newCmd *ssa.Function) {
	nw := c.need("wiring", "internal/tracker.NewWidgetWorkers")
	rs := c.need("wiring", "internal/tracker.(*WidgetWorkers).RefreshStates")
	if nw == nil || rs == nil {
		return
	}
	in := c.interp()
	in.Hooks[fnName(nw)] = func(in *Interp, cc *CallCtx) []*Outcome {
		e := &Ev{Kind: "workers", Args: cc.Args, Pos: cc.Pos, In: cc.In}
		r := in.fresh("workers", cc.Sig.Results().At(0).Type(), nil)
		e.Ret = r
		cc.St.emit(e)
		return retOne(cc.St, r)
	}
	args := in.SymArgs(newCmd)
	outs := in.Run(newCmd, args, nil, newState())
	c.visited(in)
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad("wiring", "command widget", newCmd, "making the widget can fail")
			continue
		}
		var state, made *Term
		workers := false
		added := false
		eachEv(o.St.ev.list(), func(e *Ev) {
			switch {
			case isCallOf(e, "StateProvider).WriterState") && e.Args[0] == args[0]:
				state = e.Ret
			case e.Kind == "call" && e.Name == "dynamic" && e.Args[0] == args[2]:
				if len(e.Args) == 2 && e.Args[1] == state && state != nil {
					made = e.Ret
				}
			case e.Kind == "call" && e.Name == "dynamic":
				c.Bad("wiring", "command widget", e.Pos, "a widget is made by %v, which is not the constructor for the writer's state", e.Args[0])
			case e.Kind == "workers":
				workers = len(e.Args) == 2 && e.Args[0] == args[0] && e.Args[1] == args[1]
				c.Want(workers, "wiring", "command widget workers", e.Pos, "the display of the workers is made from %v", e.Args)
			case isCallOf(e, ".AddWidget"):
				added = added || made != nil && len(e.Args) > 1 && e.Args[1] == made
			}
		})
		c.Want(made != nil && added, "wiring", "command widget writer", newCmd, "the widget for the provider's writer state is not made by the constructor for it, or not shown")
		c.Want(workers, "wiring", "command widget workers", newCmd, "the states of the workers are not shown")
	}
	// where the constructor and the provider are kept
	in = c.interp()
	a2 := in.SymArgs(nw)
	outs = in.Run(nw, a2, nil, newState())
	if len(outs) != 1 || outs[0].Kind != ORet {
		c.Bad("wiring", "worker widgets", nw, "not decided: %d paths", len(outs))
		return
	}
	prov, ctor := -1, -1
	T := elemType(nw.Signature.Results().At(0).Type())
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch outs[0].St.load(FieldAddrT(outs[0].Rets[0], i, T), s.Field(i).Type()) {
		case a2[0]:
			prov = i
		case a2[1]:
			ctor = i
		}
	}
	if prov < 0 || ctor < 0 {
		c.Bad("wiring", "worker widgets", nw, "the provider or the constructor is not kept")
		return
	}
	c.Ok("wiring", "worker widgets", nw, "")
	in = c.interp()
	in.KeepPaths = true
	wt := in.SymArgs(rs)
	st := newState()
	P := st.load(FieldAddrT(wt[0], prov, T), s.Field(prov).Type())
	K := st.load(FieldAddrT(wt[0], ctor, T), s.Field(ctor).Type())
	outs = in.Run(rs, wt, nil, st)
	c.visited(in)
	seen := false
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad("wiring", "refresh", rs, "refreshing the display can fail")
			continue
		}
		var version, list *Term
		order := true
		eachEv(o.St.ev.list(), func(e *Ev) {
			switch {
			case isCallOf(e, "StateProvider).Version"):
				if version == nil && list == nil && e.Args[0] == P {
					version = e.Ret
				} else {
					order = false
				}
			case isCallOf(e, "StateProvider).WorkerStates"):
				if e.Args[0] == P {
					list = e.Ret
				}
			case e.Kind == "call" && e.Name == "dynamic":
				ok := len(e.Args) == 2 && e.Args[0] == K && list != nil && fromList(e.Args[1], list)
				c.Want(ok, "wiring", "refresh new widget", e.Pos, "a widget is made by %v for %v", e.Args[0], e.Args[1:])
				seen = true
			}
		})
		if list == nil {
			continue
		}
		kept := false
		for i := 0; i < s.NumFields(); i++ {
			kept = kept || version != nil && o.St.load(FieldAddrT(wt[0], i, T), s.Field(i).Type()) == version
		}
		c.Want(kept && order, "wiring", "refresh version", rs, "the version remembered is not the one read before the list of workers")
	}
	c.Want(seen, "wiring", "refresh", rs, "no widget is made for a worker that was announced")
}

// fromList: v is an element of the list returned.
func fromList(v, list *Term) bool {
	return v.any(func(t *Term) bool { return t == list }) || v.isOp("select")
}

// progressBar: laying out the bar cannot fail.
func (c *Ctx) progressBar() {
	fn := c.need("progress bar", "internal/ui.MarkupAsProgress")
	if fn == nil {
		return
	}
	in := c.interp()
	in.KeepPaths = true
	outs := c.run(in, fn, in.SymArgs(fn), newState())
	sureLe := func(st *State, a, b *Term) bool { return sure(st, Le(a, b, false)) }
	for i, o := range outs {
		name := fmt.Sprintf("path %d", i)
		if o.Kind != ORet {
			c.Bad("progress bar", name, fn, "laying out the bar can fail")
			continue
		}
		ok := true
		o.Rets[0].any(func(t *Term) bool {
			switch {
			case t.isOp("substr"):
				n := Len(t.Args[0])
				if !(sureLe(o.St, Int(0), t.Args[1]) && sureLe(o.St, t.Args[1], t.Args[2]) && sureLe(o.St, t.Args[2], n)) {
					c.Bad("progress bar", name, fn, "the text is cut at %v..%v, which need not be inside it", t.Args[1], t.Args[2])
					ok = false
				}
			case t.isOp("pure") && strings.HasSuffix(t.S, "strings.Repeat"):
				if !sureLe(o.St, Int(0), t.Args[1]) {
					c.Bad("progress bar", name, fn, "the padding %v may be negative", t.Args[1])
					ok = false
				}
			}
			return false
		})
		if ok {
			c.Ok("progress bar", name, fn, "")
		}
	}
}
