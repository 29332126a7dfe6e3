package main

// The file reader: the goroutine that reads a file and drives the stages (started by pbf.ProcessFileAsync).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Driver struct {
	In    *Interp
	Entry *ssa.Function
	Fn    *ssa.Function
	Go    *Ev
	Args  []*Term // of ProcessFileAsync: ctx, file, work, write, workers
	Outs  []*Outcome
	Paths []*DriverPath
	Start *Outcome // of ProcessFileAsync
}

type DriverPath struct {
	O       *Outcome
	Threads []*Thread
}

// Thread is a goroutine started by the driver.
type Thread struct {
	Go   *Ev
	Loop *LoopInfo // the loop in which it is started, if any
	Iter *Iter
	Outs []*Outcome
	Err  string
	Ins  []*Term // channels it receives from
	Sent []*Term // channels it sends on
	Dyn  []*Ev   // calls of stage functions
	Role string  // worker, writer, other
}

func (c *Ctx) driver(rule string) *Driver {
	if c.P.drv != nil {
		c.visited(c.P.drv.In)
		return c.P.drv
	}
	entry := c.need(rule, "internal/pbf.ProcessFileAsync")
	if entry == nil {
		return nil
	}
	in := c.interp()
	domainHooks(in, nil)
	in.AtomicMem = true
	in.KeepPaths = true
	if c.prep != nil {
		c.prep(in)
	}
	d := &Driver{In: in, Entry: entry, Args: in.SymArgs(entry)}
	fail := func(pos any, f string, a ...any) *Driver {
		c.Bad(rule, "file reader", pos, f, a...)
		return nil
	}
	outs := c.run(in, entry, d.Args, newState())
	if len(outs) != 1 || outs[0].Kind != ORet {
		return fail(entry, "not decided: starting the pipeline has %d outcomes", len(outs))
	}
	d.Start = outs[0]
	for _, e := range outs[0].St.ev.list() {
		if e.Kind == "go" {
			if d.Go != nil {
				return fail(e.Pos, "not decided: more than one goroutine is started for a file")
			}
			d.Go = e
		}
	}
	if d.Go == nil {
		return fail(entry, "no goroutine processes the file")
	}
	st := outs[0].St.clone()
	st.ev = nil
	d.Fn = d.Go.Fn
	if f := d.Go.Args[0]; d.Fn == nil && (f.isOp("closure") || f.isOp("func")) {
		d.Fn = f.X.(*ssa.Function)
	}
	d.Outs = in.callTerm(&CallCtx{St: st, Pos: d.Go.Pos, In: entry}, d.Go.Args[0], d.Go.Args[1:])
	for _, o := range d.Outs {
		if o.Kind != ORet {
			continue
		}
		p := &DriverPath{O: o}
		var visit func(evs []*Ev, L *LoopInfo, it *Iter)
		visit = func(evs []*Ev, L *LoopInfo, it *Iter) {
			for _, e := range evs {
				if e.Loop != nil {
					for _, i := range e.Loop.Iters {
						visit(i.St.ev.list(), e.Loop, i)
					}
				}
				if e.Kind == "go" {
					p.Threads = append(p.Threads, c.thread(d, e, L, it))
				}
			}
		}
		visit(o.St.ev.list(), nil, nil)
		d.Paths = append(d.Paths, p)
	}
	c.visited(in)
	c.P.drv = d
	return d
}

func (c *Ctx) thread(d *Driver, e *Ev, L *LoopInfo, it *Iter) *Thread {
	t := &Thread{Go: e, Loop: L, Iter: it, Role: "other"}
	st := e.Snap.clone()
	st.ev = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				x, ok := r.(analysisError)
				if !ok {
					panic(r)
				}
				t.Err = x.msg
			}
		}()
		t.Outs = d.In.callTerm(&CallCtx{St: st, Pos: e.Pos, In: d.Fn}, e.Args[0], e.Args[1:])
	}()
	add := func(l *[]*Term, ch *Term) {
		if ch == tNil || ch.T != nil && ch == zeroOf(ch.T) {
			return
		}
		for _, x := range *l {
			if x == ch {
				return
			}
		}
		*l = append(*l, ch)
	}
	seenDyn := map[tokenPos]bool{}
	for _, o := range t.Outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			switch e.Kind {
			case "recv":
				add(&t.Ins, e.Args[0])
			case "send":
				add(&t.Sent, e.Args[0])
			case "call":
				if e.Name != "dynamic" {
					return
				}
				f := e.Args[0]
				sg, _ := under(f.T).(*types.Signature)
				if sg == nil {
					return
				}
				switch f {
				case d.Args[2]:
					t.Role = "worker"
				case d.Args[3]:
					t.Role = "writer"
				default:
					return
				}
				if !seenDyn[e.Pos] {
					seenDyn[e.Pos] = true
					t.Dyn = append(t.Dyn, e)
				}
				for i := 0; i < sg.Params().Len() && i+1 < len(e.Args); i++ {
					if ch, ok := under(sg.Params().At(i).Type()).(*types.Chan); ok {
						if ch.Dir() == types.SendOnly {
							add(&t.Sent, e.Args[i+1])
						} else {
							add(&t.Ins, e.Args[i+1])
						}
					}
				}
			}
		})
	}
	return t
}
