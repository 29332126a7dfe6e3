package main

// The checks on stages and their coordination.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pipeline: one command's stages with their protocol walks.
type flow struct {
	p            *Pipe
	work, write  *protoWalk
	workS, writS *Stage
	out          []*payload
}

func (c *Ctx) flows(rule string, report bool) []*flow { return c.flowsPrep(rule, report, nil) }

func (c *Ctx) flowsPrep(rule string, report bool, prep func(in *Interp)) []*flow {
	var r []*flow
	byPipe := map[*Pipe]*flow{}
	cc := c
	if !report {
		cc = &Ctx{P: c.P, seen: map[string]bool{}, stats: map[string]int{}}
	}
	in := cc.inputKinds(rule)
	for _, s := range c.stages(rule, prep) {
		f := byPipe[s.Pipe]
		if f == nil {
			f = &flow{p: s.Pipe}
			byPipe[s.Pipe] = f
			r = append(r, f)
		}
		w := cc.proto(rule, s)
		if s.Writer {
			f.write, f.writS = w, s
		} else {
			f.work, f.workS = w, s
			if s.ChOut != tNil {
				f.out = cc.produced(rule, w, in)
			}
		}
	}
	return r
}

// writesIn reports the file writes of a segment.
func writesIn(evs []*Ev) (r []*Ev) {
	eachEv(evs, func(e *Ev) {
		if op, _ := ioOf(e); op == "write" || op == "iocopy" || op == "copy" || op == "mapwrite" || op == "truncate" {
			r = append(r, e)
		}
	})
	return
}

// writerOn: for one payload, which segments write and which do not.
func writerOn(w *protoWalk, p payload) (write, skip []*segment) {
	for _, g := range w.segs {
		if g.blk == nil || g.Kind != ORet {
			continue
		}
		if ok, _ := g.feasible(p); !ok {
			continue
		}
		if len(writesIn(g.evs)) > 0 {
			write = append(write, g)
		} else {
			skip = append(skip, g)
		}
	}
	return
}

// nothingToWrite: the path has established that a list taken from the block is empty.
func nothingToWrite(g *segment) bool {
	for t, v := range g.St.lits {
		if v && t.isOp("eq") && t.contains(g.blk) && (t.Args[0] == tZero && t.Args[1].isOp("len") || t.Args[1] == tZero && t.Args[0].isOp("len")) {
			return true
		}
	}
	return false
}

var tZero = Int(0)
var pbfKinds = map[string]bool{"OSMHeader": true, "OSMData": true}

// isPBFOutput: all blocks with data that the workers make or pass on have kinds of the PBF format, or the workers
// make only such kinds.
func (f *flow) isPBFOutput() bool {
	made := 0
	for _, p := range f.out {
		if p.T != nil && !p.pass {
			made++
			if !pbfKinds[p.kind] {
				return false
			}
		}
	}
	return made > 0
}

// empty: every send of the payload happens on a path on which a list of the payload is known to be empty.
func (f *flow) empty(p *payload) bool {
	for _, s := range p.send {
		d := dataOf(s.val)
		if d == nil || !d.isOp("iface") {
			return false
		}
		v, ok := d.Args[0], false
		var lists []*Term
		switch u := under(p.T).(type) {
		case *types.Slice:
			lists = append(lists, v)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if _, sl := under(u.Field(i).Type()).(*types.Slice); sl {
					lists = append(lists, Field(v, i, u.Field(i).Type()))
				}
			}
		}
		for _, l := range lists {
			if l == tNil {
				ok = true
			}
			if k, v := s.St.decide(Eq(Len(l), tZero)); k && v {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(p.send) > 0
}

func init() {
	register("C17", "typestate over all paths: the functions that the commands pass to pbf.ProcessFileAsync as worker and writer are found by interpreting every main function; each is interpreted with symbolic channels and blocks, and an automaton {nothing received; received, unanswered; answered} runs over all paths and loop iterations: receiving is allowed only when nothing is unanswered, a send must carry the index term of the block received, an iteration must end answered, and stages without a successor never send. For fillers the set of (kind, payload type) that the workers can send for every input kind is computed, and the writer is simulated on each: kinds without data and foreign kinds reach no file write on any path, kinds carrying data reach one on every path.",
		func(c *Ctx) {
			for _, f := range c.flows("worker answers each block once", true) {
				c.Want(!f.work.bad, "worker answers each block once", f.workS.name(), f.workS.Fn, "protocol violated (see above)")
				c.Count("segments", len(f.work.segs))
				c.Count("sends", len(f.work.sends))
				if f.workS.NilOut {
					c.Want(len(f.work.sends) == 0, "no output, no send", f.workS.name(), f.workS.Fn, "sends although there is no writer")
					continue
				}
				c.Want(len(f.work.sends) > 0, "worker answers each block once", f.workS.name()+" sends", f.workS.Fn, "never sends")
				if f.write == nil {
					continue
				}
				c.Want(!f.write.bad, "writer only receives", f.writS.name(), f.writS.Fn, "protocol violated (see above)")
				isPBF := f.isPBFOutput()
				for _, p := range f.out {
					name := f.writS.name() + " on " + p.String()
					wr, sk := writerOn(f.write, *p)
					switch {
					case p.T != nil && !p.pass && f.empty(p):
						// lists that are known to be empty: nothing is lost if the block is skipped
						c.Ok("no filler is written", name, f.writS.Fn, "")
					case p.T == nil:
						for _, g := range wr {
							c.Bad("no filler is written", name, writesIn(g.evs)[0].Pos, "a block without data is written to the output")
						}
						c.Want(len(sk) > 0, "no filler is written", name, f.writS.Fn, "no path of the writer accepts this block quietly")
					case !isPBF && p.pass || pbfKinds[p.kind] && !isPBF:
						for _, g := range wr {
							c.Bad("no foreign block is written", name, writesIn(g.evs)[0].Pos, "a block that is not part of this output is written to it")
						}
						c.Ok("no foreign block is written", name, f.writS.Fn, "")
					default:
						n := 0
						for _, g := range sk {
							if nothingToWrite(g) {
								continue
							}
							n++
							pos := any(f.writS.Fn)
							if len(g.evs) > 0 {
								pos = g.evs[0].Pos
							}
							c.Bad("no data is dropped", name, pos, "there is a path of the writer on which a block carrying data is not written")
						}
						c.Want(len(wr) > 0 && n == 0, "no data is dropped", name, f.writS.Fn, "the data is not written")
					}
				}
			}
			c.Min("worker answers each block once", 14)
			c.Min("no filler is written", 3)
			c.Min("no data is dropped", 8)
		}, "the context passed to a stage has no effect on its channels")

	register("C20", "typestate over all paths: every worker and writer function (found by interpreting the main functions) and every other goroutine of pbf.ProcessFileAsync is interpreted with symbolic channels; on every path on which it returns, the last receive from its input has reported that the channel is closed, whatever the context does; on no path does it wait for anything but its own input and output (no receive from other channels, no select that could pass over them, no wait groups), and loops of a stage are left only after the close; wherever a pipeline is started the number of workers is known to be at least one. Only the file reader's send may be abandoned for the cancellation channel.",
		func(c *Ctx) {
			for _, f := range c.flows("stage drains its input", true) {
				c.Want(!f.work.bad, "stage drains its input", f.workS.name(), f.workS.Fn, "see above")
				if f.write != nil {
					c.Want(!f.write.bad, "stage drains its input", f.writS.name(), f.writS.Fn, "see above")
				}
			}
			d := c.driver("driver")
			if d == nil {
				return
			}
			n := 0
			for _, p := range d.Paths {
				for _, t := range p.Threads {
					if t.Err != "" {
						c.Bad("goroutine drains its input", c.P.pos(t.Go.Pos), t.Go.Pos, "not decided: %s", t.Err)
						continue
					}
					n++
					c.drains("goroutine drains its input", d, t)
				}
				// the reader: only its sends to the workers may be given up, and only for cancellation
				eachEv(p.O.St.ev.list(), func(e *Ev) {
					if e.Kind == "recv" && !isDone(e.Args[0]) {
						c.Bad("reader only sends", c.P.pos(e.Pos), e.Pos, "the file reader waits for a channel other than the cancellation channel")
					}
				})
			}
			c.Count("goroutines", n)
			// somebody receives: there is at least one worker
			for _, k := range c.commands() {
				c.eachState(k, func(e *Ev, st *State) {
					if e.Kind == "process" && len(e.Args) == 5 {
						c.Want(sureLe(normState(st), Int(1), normOpts(e.Args[4])), "at least one worker", k.Name, e.Pos, "a pipeline may be started with %v workers, which may be none", normOpts(e.Args[4]))
					}
				})
			}
			c.Min("at least one worker", 9)
			c.Min("stage drains its input", 14)
			c.Min("goroutine drains its input", 3)
		}, "goroutines are scheduled fairly")

	register("C21", "interprocedural type flow through channels: the kinds and dynamic payload types that the file reader sends are taken from its paths; each worker is simulated on each of them, giving the kinds and payload types of every block it can send; each writer is simulated on those. In a simulation the facts of each path are evaluated with the kind constant and the dynamic type substituted; an unchecked type assertion that the payload fails, or a path that rejects the block outright, is a violation. A worker may read a block as map data only on paths that the facts allow for map-data blocks alone. For outputs in PBF format every kind that reaches a file write must be a kind of that format.",
		func(c *Ctx) {
			in := c.inputKinds("kinds read")
			for _, p := range in {
				c.Want(pbfKinds[p.kind], "kinds read", p.String(), p.Ev.Pos, "a block of a kind outside the PBF format is handed to the workers")
			}
			for _, f := range c.flows("payload accepted", false) {
				for _, p := range in {
					c.accepts("payload accepted", f.work, p)
					for _, g := range f.work.segs {
						if ok, _ := g.feasible(p); !ok || g.blk == nil {
							continue
						}
						eachEv(g.evs, func(e *Ev) {
							if (e.Kind == "readinto" || e.Kind == "readonto") && e.Name == "PrimitiveBlock" {
								c.Want(p.kind == "OSMData", "read as what it is", f.workS.name()+" on "+p.String(), e.Pos, "a block of kind %s is read as map data", p.kind)
							}
						})
					}
				}
				if f.write == nil {
					continue
				}
				for _, p := range f.out {
					c.accepts("payload accepted", f.write, *p)
					wr, _ := writerOn(f.write, *p)
					if f.isPBFOutput() && len(wr) > 0 {
						c.Want(pbfKinds[p.kind], "kinds written", f.writS.name()+" on "+p.String(), p.Ev.Pos, "a block of a kind outside the PBF format is written to the output")
					}
				}
			}
			c.Min("payload accepted", 25)
			c.Min("kinds written", 4)
			c.Min("read as what it is", 6)
		})
}

func isDone(ch *Term) bool { return ch.isOp("pure") && strings.HasSuffix(ch.S, ".Done") }

// drains: a goroutine of the driver receives until its input is closed.
func (c *Ctx) drains(rule string, d *Driver, t *Thread) {
	name := fmt.Sprintf("goroutine at %s (%s)", c.P.pos(t.Go.Pos), t.Role)
	if len(t.Ins) != 1 {
		c.Bad(rule, name, t.Go.Pos, "receives from %d channels; exactly one expected", len(t.Ins))
		return
	}
	if t.Role != "other" {
		// the stage function is called exactly once on every path and nothing else is received
		for _, o := range t.Outs {
			if o.Kind != ORet {
				continue
			}
			n := 0
			for _, e := range o.St.ev.list() {
				if e.Kind == "call" && e.Name == "dynamic" && (e.Args[0] == d.Args[2] || e.Args[0] == d.Args[3]) {
					n++
				}
				if e.Kind == "recv" || e.Kind == "send" || e.Kind == "select" {
					c.Bad(rule, name, e.Pos, "a goroutine that runs a stage uses channels itself")
				}
			}
			c.Want(n == 1, rule, name, t.Go.Pos, "the stage function is called %d times on a path", n)
		}
		return
	}
	s := &Stage{Pipe: &Pipe{Cmd: &Command{Name: name}}, ChIn: t.Ins[0], Writer: true, Outs: t.Outs}
	if len(t.Sent) == 1 {
		s.ChOut = t.Sent[0]
	}
	w := &protoWalk{c: &Ctx{P: c.P, seen: map[string]bool{}, stats: map[string]int{}}, s: s, rule: rule}
	for _, o := range t.Outs {
		st := w.walkK(o.St.ev.list(), o.St, protoState{}, true, o.Kind, o.Pos)
		if o.Kind != ORet {
			continue
		}
		if st.idx == nil {
			c.Bad(rule, name, o.Pos, "returns without having received until its input was closed")
			continue
		}
		k, v := o.St.decide(st.ok)
		c.Want(k && !v, rule, name, o.Pos, "can return although its input has not been closed")
	}
	for _, o := range w.c.Obls {
		if !o.OK && !strings.Contains(o.Note, "sends although nothing") {
			c.Bad(rule, name, o.Pos, "%s", o.Note)
		}
	}
}

var _ = sort.Strings
var _ types.Type
var _ *ssa.Function
