package main

// C54: what the line of a stage shows is what the stage does.

import (
	"sort"
	"strings"
)

func init() {
	register("C54", "symbolic interpretation of the update function of every line that shows a stage, once for each state the stage can set, and typestate of the stage's state object along every path of the stage: the numbers shown are words of the displayed object, each of them set by the stage, none shown twice, and each word the stage sets is shown in some state; no such word is set to a fixed number other than zero; a word set to the index of a received block is set to nothing else, inside the round of that block only, and in each round that reaches a state whose line shows it, and a worker's line shows it in every state that shows numbers; the state word has the same value at each receive, and another one wherever the stage decodes a block, sends a decoded one or writes to a file, and a worker decodes and sends in different states", checkC54,
		"the words around the numbers are not judged; that the states are told apart is C36, and what a share is made of is C50")
}

func checkC54(c *Ctx) {
	c.eachDisplay("numbers", func(d *display) {
		if d.of != nil {
			dd := *d
			c.Try("numbers", d.name, d.pos, func() { c.shownWords(&dd) })
		}
	})
	c.Min("numbers", 20)
	c.Min("block", 10)
	c.Min("waiting", 10)
}

// shownFor: the words whose values the line shows in a state.
func (c *Ctx) shownFor(d *display, v int64) (words []*Term, twice bool) {
	in := c.interp()
	if bar := c.P.Func("internal/ui.MarkupAsProgress"); bar != nil {
		barHook(in, bar)
	}
	in.KeepPaths, in.TraceMem = true, true
	s := d.st.clone()
	s.ev = nil
	seen := map[*Term]bool{}
	for _, o := range in.callTerm(&CallCtx{St: s, Pos: d.pos}, d.update, nil) {
		if o.Kind != ORet {
			continue
		}
		at := loadsOf(o.St)
		here := true
		for val, w := range at {
			if w != d.cell {
				continue
			}
			if k, is := o.St.decide(Eq(val, Int(v))); k && !is {
				here = false
			} else if !k {
				here = here && o.St.clone().assume(Eq(val, Int(v)), true)
			}
		}
		if !here {
			continue
		}
		var text *Term
		eachEv(o.St.ev.list(), func(e *Ev) {
			if (isCallOf(e, ".SetText") || isCallOf(e, ".SetMarkup")) && len(e.Args) >= 2 {
				text = e.Args[len(e.Args)-1]
			}
		})
		if text == nil {
			continue // C36
		}
		if text.isOp("bar") {
			text = text.Args[0]
		}
		here1 := map[*Term]bool{}
		for _, n := range numbersIn(text) {
			w := at[noConvs(n)]
			if w == nil {
				continue // computed from words: C50
			}
			twice = twice || here1[w]
			here1[w] = true
			if !seen[w] {
				seen[w] = true
				words = append(words, w)
			}
		}
	}
	c.visited(in)
	return
}

func sortedStates(vals statesOf) []int64 {
	var order []int64
	for v := range vals.vals {
		order = append(order, v)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	return order
}

// wordWrite: an event writes a word of an object; set is false when it only adds to it.
func wordWrite(e *Ev, obj *Term) (word, val *Term, set bool) {
	if e.Kind != "atomic" && e.Kind != "store" || len(e.Args) < 2 || rootOf(e.Args[0]) != rootOf(obj) || strings.Contains(e.Name, ".Load") {
		return nil, nil, false
	}
	if e.Args[0] != obj && !inObject(e.Args[0], obj) {
		return nil, nil, false
	}
	return e.Args[0], stripConv(e.Args[len(e.Args)-1], 64), !strings.Contains(e.Name, ".Add")
}

// inObject: a lies inside the object at obj.
func inObject(a, obj *Term) bool {
	for a != obj {
		if !strings.HasPrefix(a.Op, "fld") || len(a.Args) == 0 {
			return false
		}
		a = a.Args[0]
	}
	return true
}

func (c *Ctx) shownWords(d *display) {
	shown := map[int64][]*Term{}
	all := map[*Term]bool{}
	for _, v := range sortedStates(d.vals) {
		ws, twice := c.shownFor(d, v)
		c.Want(!twice, "numbers", d.name, d.pos, "the line shows one number of the state twice")
		shown[v] = ws
		for _, w := range ws {
			all[w] = true
			c.Want(w != d.cell, "numbers", d.name, d.pos, "shows its state word as a number")
			c.Want(w == d.cell || inObject(w, d.addr), "numbers", d.name, d.pos, "shows %v, which is not part of the state of the stage", w)
		}
	}
	// what the stage writes
	set := map[*Term]bool{}
	pos := map[*Term]tokenPos{}
	for _, o := range d.stage {
		eachEv(o.St.ev.list(), func(e *Ev) {
			w, val, is := wordWrite(e, d.addr)
			if w == nil || w == d.cell {
				return
			}
			set[w], pos[w] = set[w] || !is || val.K != KInt, e.Pos
			if is && val.K == KInt && val.I != 0 {
				c.Bad("numbers", d.name, e.Pos, "the number the line shows is set to %d here, whatever the stage does", val.I)
			}
		})
	}
	for w := range all {
		if w != d.cell {
			c.Want(set[w], "numbers", d.name, d.pos, "shows a number (%v) that the stage never sets", fieldPath(w, d.addr))
		}
	}
	for w, p := range pos {
		c.Want(all[w], "numbers", d.name, p, "sets a number (%v) that the line shows in none of its states", fieldPath(w, d.addr))
	}
	c.shownBlock(d, shown)
	c.shownWaiting(d)
}

func fieldPath(w, obj *Term) string {
	s := ""
	for w != obj && len(w.Args) > 0 {
		s = "." + w.S + s
		w = w.Args[0]
	}
	return "word" + s
}

func (c *Ctx) roundsOf(rule string, s *Stage) *protoWalk {
	return (&Ctx{P: c.P, seen: map[string]bool{}, stats: map[string]int{}}).proto(rule, s)
}

// shownBlock: the block that the line shows is the one at hand.
func (c *Ctx) shownBlock(d *display, shown map[int64][]*Term) {
	w := c.roundsOf("block", d.of)
	if len(w.segs) == 0 {
		c.Bad("block", d.name, d.of.Fn, "not decided: no rounds were found")
		return
	}
	blk := map[*Term]bool{}
	for _, sg := range w.segs {
		if sg.blk == nil {
			continue
		}
		idx := blockIndex(sg.blk)
		eachEv(sg.evs, func(e *Ev) {
			wd, val, is := wordWrite(e, d.addr)
			if wd == nil || wd == d.cell {
				return
			}
			if is && val == idx {
				blk[wd] = true
			} else if val.contains(idx) {
				c.Bad("block", d.name, e.Pos, "shows %v instead of the block's index", val)
			}
		})
	}
	if !d.of.Writer {
		c.Want(len(blk) > 0, "block", d.name, d.of.Fn, "the worker's line never shows the block at hand")
	}
	for wd := range blk {
		for v, ws := range shown {
			has := len(ws) == 0 || d.of.Writer
			for _, x := range ws {
				has = has || x == wd
			}
			c.Want(has, "block", d.name, d.pos, "the line shows numbers in state %d, but not the block", v)
		}
		rounds := map[*Ev]bool{}
		for _, sg := range w.segs {
			if sg.blk == nil {
				c.Bad("block", d.name, sg.Pos, "not decided: the block of a round is not one value")
				continue
			}
			idx := blockIndex(sg.blk)
			stored, shows := false, tokenPos(0)
			eachEv(sg.evs, func(e *Ev) {
				x, val, is := wordWrite(e, d.addr)
				switch {
				case x == wd:
					rounds[e] = true
					stored = true
					c.Want(is && val == idx, "block", d.name, e.Pos, "shows %v instead of the index of the block at hand", val)
				case x == d.cell && val.K == KInt:
					for _, y := range shown[val.I] {
						if y == wd {
							shows = e.Pos
						}
					}
				}
			})
			if shows != 0 {
				c.Want(stored, "block", d.name, shows, "a round reaches a state whose line shows a block without having set it to the block at hand")
			}
		}
		for _, o := range d.stage {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if x, val, is := wordWrite(e, d.addr); x == wd && !(is && val == tZero) {
					c.Want(rounds[e], "block", d.name, e.Pos, "sets the block shown outside of a block's round")
				}
			})
		}
	}
}

// shownWaiting: the state while the stage waits is one of its own, in which it does nothing else.
func (c *Ctx) shownWaiting(d *display) {
	recv := map[int64]tokenPos{}
	type at struct {
		what string
		pos  tokenPos
		vals map[int64]bool
	}
	work := map[*Ev]*at{}
	decode := map[int64]bool{}
	send := map[int64]bool{}
	bad := false
	var walk func(evs []*Ev, in map[int64]bool) map[int64]bool
	clone := func(m map[int64]bool) map[int64]bool {
		r := map[int64]bool{}
		for k := range m {
			r[k] = true
		}
		return r
	}
	decoded := false
	walk = func(evs []*Ev, in map[int64]bool) map[int64]bool {
		s := clone(in)
		for _, e := range evs {
			what := ""
			switch {
			case e.Kind == "loop":
				for {
					n := len(s)
					for _, it := range e.Loop.Iters {
						for v := range walk(it.St.ev.list(), s) {
							s[v] = true
						}
					}
					if len(s) == n {
						break
					}
				}
			case e.Kind == "recv" && e.Args[0] == d.of.ChIn:
				for v := range s {
					recv[v] = e.Pos
				}
				decoded = false
			case e.Kind == "readinto", e.Kind == "rawdata":
				what, decoded = "decodes a block", true
				for v := range s {
					decode[v] = true
				}
			case e.Kind == "send" && e.Args[0] == d.of.ChOut:
				if decoded {
					what = "sends a block"
					for v := range s {
						send[v] = true
					}
				}
			}
			if d.of.Writer {
				if op, args := ioOf(e); op == "Write" && len(args) > 0 {
					what = "writes"
				}
			}
			if what != "" {
				a := work[e]
				if a == nil {
					a = &at{what, e.Pos, map[int64]bool{}}
					work[e] = a
				}
				for v := range s {
					a.vals[v] = true
				}
			}
			if x, val, is := wordWrite(e, d.addr); x == d.cell {
				if !is || val.K != KInt {
					bad = true
					continue
				}
				s = map[int64]bool{val.I: true}
			}
		}
		return s
	}
	for _, o := range d.stage {
		decoded = false
		walk(o.St.ev.list(), map[int64]bool{0: true})
	}
	if bad {
		c.Bad("waiting", d.name, d.of.Fn, "not decided: the state is not set to a constant")
		return
	}
	if !c.Want(len(recv) == 1, "waiting", d.name, d.of.Fn, "the line shows %d different states while the stage waits for a block", len(recv)) {
		return
	}
	for v, p := range recv {
		c.Ok("waiting", d.name, p, "")
		for _, a := range work {
			c.Want(!a.vals[v], "waiting", d.name, a.pos, "%s while the line shows the state in which the stage waits", a.what)
		}
	}
	for v := range send {
		c.Want(!decode[v], "waiting", d.name, d.of.Fn, "the line shows the same state while the stage decodes a block and while it sends one")
	}
}
