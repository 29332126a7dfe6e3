package main

// C18 (output order) and C19 (shutdown order): the file reader and the goroutines it starts.

import (
	"fmt"
	"go/types"
	"strings"
)

// counts returns (base, step) if the term is consecutive over the iterations of the loop: base in iteration 0 and
// one more in each iteration.
func consecutive(L *LoopInfo, t *Term) (base *Term, ok bool) {
	if t == nil {
		return nil, false
	}
	d := Sub(t, L.K)
	if !d.contains(L.K) && !d.any(func(x *Term) bool { return L.Vars[x] != nil }) {
		return d, true
	}
	// a loop variable plus something fixed
	for _, lv := range L.Order {
		d := Sub(t, lv.Sym)
		if d.any(func(x *Term) bool { return L.Vars[x] != nil || x == L.K }) {
			continue
		}
		for _, n := range lv.Next {
			if n != Add(lv.Sym, Int(1)) {
				return nil, false
			}
		}
		return Add(lv.Init, d), len(lv.Next) > 0
	}
	return nil, false
}

func init() {
	register("C18", "abstract interpretation with loop induction: the goroutine started by pbf.ProcessFileAsync and every goroutine it starts are interpreted for an arbitrary file, worker and writer; the index of every block sent to the workers is the iteration number of the reading loop (closed form from the loop's recurrence), one send per iteration; exactly one re-ordering goroutine connects the workers' output channel with the writer's input channel; in it each received block is put under its own index, and only blocks found under the next expected index are sent, the expected index starting at zero and growing by one per send, until that index is absent; it returns only when nothing is left over, and aborts otherwise.",
		func(c *Ctx) {
			d := c.driver("driver")
			if d == nil {
				return
			}
			withWriter := 0
			for i, p := range d.Paths {
				name := fmt.Sprintf("path %d", i)
				c.numbered(d, p, name)
				c.connected(d, p, name, &withWriter)
			}
			c.Min("blocks are numbered from zero", 2)
			c.Min("reorder sends in order", 1)
			c.Want(withWriter > 0, "connected", "paths with a writer", d.Fn, "no path with a writer was found")
			c.Count("paths", len(d.Paths))
		}, "channels are first-in first-out (language)", "each worker answers each block once (C17) and stages drain their input (C20)")

	register("C19", "happens-before analysis of the shutdown sequence: on every path on which the file-reading goroutine returns, the goroutines it has started, their wait groups and their channels are collected from its trace and from the traces of the goroutines themselves; for each goroutine the closing of its input precedes waiting for it, and waiting for it precedes the closing of the channel it sends on, the release of the input mapping and file, and the completion signal; every channel made is closed exactly once on every path, after the last send on it; every goroutine signals its own wait group exactly once as its last action and the group's count is the number of goroutines started.",
		func(c *Ctx) {
			d := c.driver("driver")
			if d == nil {
				return
			}
			for i, p := range d.Paths {
				c.shutdown(d, p, fmt.Sprintf("path %d", i))
			}
			c.Count("paths", len(d.Paths))
			c.Min("input closed before waiting", 6)
			c.Min("waited before release", 6)
			c.Min("closed once", 6)
			// nobody but the reader closes channels, and completion is awaited by the caller
			w := c.need("wait", "internal/pbf.(*ProcessFileState).Wait")
			if w != nil {
				in := c.interp()
				a := in.SymArgs(w)
				outs := c.run(in, w, a, newState())
				pos := any(w)
				ok := false
				for _, o := range outs {
					for _, e := range o.St.ev.list() {
						if e.Kind == "recv" {
							ok = true
							// it must be the field that holds the channel which the reader closes last
							f := fieldOfChan(e.Args[0])
							for _, p := range d.Paths {
								evs := p.O.St.ev.list()
								var last *Ev
								for _, e := range evs {
									if e.Kind == "close" {
										last = e
									}
								}
								good := last != nil && f != "" && (fieldOfChan(last.Args[0]) == f || d.fieldHolds(f, last.Args[0]))
								c.Want(good, "wait", "Wait", e.Pos, "waits for a channel that the reader does not close last")
							}
						}
					}
				}
				c.Want(ok && len(outs) == 1, "wait", "Wait blocks", pos, "does not wait for the completion signal on every path")
			}
		}, "every pipeline is started with at least one worker (option validation, C35)")
}

func fieldOfChan(t *Term) string {
	if t.isOp("load") && t.Args[0].isOp("fld") {
		return t.Args[0].S
	}
	return ""
}

// fieldHolds: the state object made by ProcessFileAsync holds this channel in the field.
func (d *Driver) fieldHolds(f string, ch *Term) bool {
	if len(d.Start.Rets) != 1 {
		return false
	}
	for cell, v := range d.Start.St.heap {
		if v == ch && cell.isOp("fld") && cell.S == f && cell.Args[0] == d.Start.Rets[0] {
			return true
		}
	}
	return false
}

// numbered: blocks sent by the reader carry consecutive indices.
func (c *Ctx) numbered(d *Driver, p *DriverPath, name string) {
	const rule = "blocks are numbered from zero"
	evs := p.O.St.ev.list()
	loops := 0
	var K *Term
	for _, e := range evs {
		if e.Kind == "send" && c.isBlock(e.Args[1].T) {
			// a partial iteration that ends with a send
			c.Want(K != nil && blockIndex(e.Args[1]) == K, rule, name+" last block", e.Pos, "the block is not numbered consecutively")
		}
		if e.Loop == nil {
			continue
		}
		has := false
		for _, it := range e.Loop.Iters {
			eachEv(it.St.ev.list(), func(e *Ev) { has = has || e.Kind == "send" && c.isBlock(e.Args[1].T) })
		}
		if !has {
			continue
		}
		loops++
		L := e.Loop
		K = nil
		for _, it := range L.Iters {
			n := 0
			for _, e := range it.St.ev.list() {
				if e.Loop != nil {
					eachEv([]*Ev{e}, func(x *Ev) {
						if x.Kind == "send" && c.isBlock(x.Args[1].T) {
							c.Bad(rule, name, x.Pos, "not decided: a nested loop sends blocks")
						}
					})
				}
				if e.Kind == "send" && c.isBlock(e.Args[1].T) {
					n++
					b, ok := consecutive(L, blockIndex(e.Args[1]))
					c.Want(ok && b == tZero, rule, name, e.Pos, "the index sent is %v, which is not 0, 1, 2, ... over the iterations of the reading loop", blockIndex(e.Args[1]))
					if ok && b == tZero {
						K = blockIndex(e.Args[1])
					}
				}
			}
			c.Want(n == 1, rule, name+" one block per iteration", L.Pos, "an iteration of the reading loop sends %d blocks", n)
		}
	}
	c.Want(loops == 1, rule, name, d.Fn, "blocks are sent from %d loops", loops)
}

func (c *Ctx) connected(d *Driver, p *DriverPath, name string, withWriter *int) {
	var work, write, other []*Thread
	for _, t := range p.Threads {
		if t.Err != "" {
			c.Bad("connected", name, t.Go.Pos, "not decided: %s", t.Err)
			return
		}
		switch t.Role {
		case "worker":
			work = append(work, t)
		case "writer":
			write = append(write, t)
		default:
			other = append(other, t)
		}
	}
	var src []*Term
	eachEv(p.O.St.ev.list(), func(e *Ev) {
		if e.Kind == "send" && c.isBlock(e.Args[1].T) {
			for _, s := range src {
				if s == e.Args[0] {
					return
				}
			}
			src = append(src, e.Args[0])
		}
	})
	if len(work) == 0 {
		c.Bad("connected", name, d.Fn, "no worker is started")
		return
	}
	for _, t := range work {
		c.Want(len(src) == 0 || len(src) == 1 && len(t.Ins) == 1 && t.Ins[0] == src[0], "connected", name+" reader to worker", t.Go.Pos, "the workers do not receive from the channel that the reader sends on")
	}
	if len(write) == 0 {
		for _, t := range work {
			c.Want(len(t.Sent) == 0, "connected", name+" no writer", t.Go.Pos, "workers get an output channel although nothing receives from it")
		}
		k, v := p.O.St.decide(Eq(d.Args[3], tNil))
		c.Want(k && v, "connected", name+" no writer", d.Fn, "no writer is started although one is given")
		return
	}
	*withWriter++
	if len(write) != 1 || write[0].Loop != nil {
		c.Bad("connected", name, write[0].Go.Pos, "more than one writer goroutine")
		return
	}
	if len(other) != 1 || other[0].Loop != nil {
		c.Bad("connected", name, d.Fn, "not decided: %d re-ordering goroutines (exactly one expected)", len(other))
		return
	}
	r := other[0]
	for _, t := range work {
		c.Want(len(t.Sent) == 1 && len(r.Ins) == 1 && t.Sent[0] == r.Ins[0], "connected", name+" worker to reorder", t.Go.Pos, "the workers do not send to the re-ordering stage")
	}
	c.Want(len(r.Sent) == 1 && len(write[0].Ins) == 1 && r.Sent[0] == write[0].Ins[0], "connected", name+" reorder to writer", r.Go.Pos, "the re-ordering stage does not send to the writer")
	c.Try("reorder sends in order", "re-ordering stage", r.Go.Pos, func() { c.reorders(r) })
}

// mapBase strips deletions and stores from a map term.
func mapBase(m *Term, keys *[]*Term, stores *[][2]*Term) *Term {
	for {
		switch {
		case m.isOp("mdel"):
			*keys = append(*keys, m.Args[1])
			m = m.Args[0]
		case m.isOp("mstore"):
			*stores = append(*stores, [2]*Term{m.Args[1], m.Args[2]})
			m = m.Args[0]
		default:
			return m
		}
	}
}

// reorders verifies the re-ordering stage.
func (c *Ctx) reorders(t *Thread) {
	const rule = "reorder sends in order"
	name := "re-ordering stage"
	rets, panics := 0, 0
	for _, o := range t.Outs {
		if o.Kind == OPanic || o.Kind == OExit {
			panics++
			continue
		}
		rets++
		var outer *LoopInfo
		for _, e := range o.St.ev.list() {
			if e.Kind == "send" {
				c.Bad(rule, name, e.Pos, "sends outside of the receiving loop")
			}
			if e.Loop == nil {
				continue
			}
			has := false
			for _, it := range e.Loop.Iters {
				for _, x := range it.St.ev.list() {
					has = has || x.Kind == "recv" && x.Args[0] == t.Ins[0]
				}
				if !has {
					eachEv(it.St.ev.list(), func(x *Ev) {
						if x.Kind == "send" {
							c.Bad(rule, name, x.Pos, "sends outside of the receiving loop")
						}
					})
				}
			}
			if has {
				if outer != nil {
					c.Bad(rule, name, e.Pos, "not decided: two receiving loops")
				}
				outer = e.Loop
			}
		}
		if outer == nil {
			c.Bad(rule, name, t.Go.Pos, "not decided: no receiving loop")
			return
		}
		r := &reorderer{c: c, rule: rule, name: name, L: outer}
		r.run()
		if r.bad {
			continue
		}
		if r.mem != nil {
			k, v := o.St.decide(Eq(Op("mlen", "", types.Typ[types.Int], r.mem.Sym), tZero))
			c.Want(k && v, "nothing is left over", name, o.Pos, "the stage can end quietly although blocks are left over")
		}
	}
	c.Want(rets > 0, rule, name, t.Go.Pos, "never returns")
	c.Want(panics > 0, "nothing is left over", name+" aborts", t.Go.Pos, "does not abort when blocks are left over")
}

type reorderer struct {
	c          *Ctx
	rule, name string
	L          *LoopInfo
	next, mem  *LoopVar
	bad        bool
}

func (r *reorderer) fail(pos any, f string, a ...any) {
	r.bad = true
	r.c.Bad(r.rule, r.name, pos, f, a...)
}

// sendKey: the index under which the sent value was found, given the loop it is sent in (nil: the outer one).
func (r *reorderer) sendKey(v *Term, L *LoopInfo, st *State, blk *Term) (key *Term, why string) {
	if v == blk {
		return blockIndex(blk), ""
	}
	if v.isOp("mget") {
		if k, b := st.decide(Op("mhas", "", types.Typ[types.Bool], v.Args[0], v.Args[1])); !k || !b {
			return nil, "is taken from the map without knowing that it is there"
		}
		return v.Args[1], ""
	}
	if L != nil {
		vars := L.Order
		if lv := structVar(L, v); lv != nil {
			vars = append(append([]*LoopVar{}, vars...), lv)
		}
		for _, lv := range vars {
			if lv.Sym != v || !lv.Init.isOp("mget") {
				continue
			}
			// the companion that says whether it was found
			for _, ok := range L.Order {
				if !ok.Init.isOp("mhas") || ok.Init.Args[0] != lv.Init.Args[0] || ok.Init.Args[1] != lv.Init.Args[1] || len(ok.Next) != len(lv.Next) {
					continue
				}
				good := true
				key0 := lv.Init.Args[1]
				for i, n := range lv.Next {
					m := ok.Next[i]
					if !n.isOp("mget") || !m.isOp("mhas") || n.Args[0] != m.Args[0] || n.Args[1] != m.Args[1] || n.Args[1] != Add(Add(key0, L.K), Int(1)) {
						good = false
					}
				}
				if k, b := st.decide(ok.Sym); !k || !b {
					good = false
				}
				if good {
					return Add(key0, L.K), ""
				}
			}
			return nil, "is a loop variable that does not always hold the block under the next index, or may be absent"
		}
	}
	return nil, fmt.Sprintf("is %v, which is not a block found under the expected index", v)
}

func (r *reorderer) run() {
	L := r.L
	// the expected index and the map are found from the sends
	for _, it := range L.Iters {
		var blk *Term
		var sends int
		cnt := Int(0) // number of blocks sent so far in this iteration
		var keys []*Term
		var memNow *Term
		check := func(e *Ev, in *LoopInfo, st *State, at *Term) {
			sends++
			key, why := r.sendKey(e.Args[1], in, st, blk)
			if why != "" {
				r.fail(e.Pos, "the block sent %s", why)
				return
			}
			keys = append(keys, key)
			want := Sub(key, at)
			if e.Args[1] == blk {
				// sent at once: its index is the expected one
				for _, lv := range L.Order {
					if k, v := st.decide(Eq(key, Add(lv.Sym, at))); k && v {
						want = lv.Sym
					}
				}
			}
			if r.next == nil {
				if lv := L.Vars[want]; lv != nil {
					r.next = lv
				}
			}
			if r.next == nil || want != r.next.Sym {
				r.fail(e.Pos, "the block sent is the one with index %v; expected is the next index in order", key)
			}
		}
		var lastOk *Term // condition of the last look-up
		for _, e := range it.St.ev.list() {
			switch e.Kind {
			case "recv":
				blk = e.Ret
			case "send":
				if blk == nil {
					r.fail(e.Pos, "sends before receiving")
					continue
				}
				check(e, nil, it.St, cnt)
				cnt = Add(cnt, Int(1))
			case "loop":
				n := 0
				for _, i2 := range e.Loop.Iters {
					m := 0
					for _, x := range i2.St.ev.list() {
						if x.Kind == "send" {
							m++
							if blk == nil {
								r.fail(x.Pos, "sends before receiving")
								continue
							}
							check(x, e.Loop, i2.St, Add(cnt, e.Loop.K))
						}
						if x.Loop != nil {
							eachEv([]*Ev{x}, func(y *Ev) {
								if y.Kind == "send" {
									r.fail(y.Pos, "not decided: sends in a nested loop")
								}
							})
						}
					}
					if m > 1 {
						r.fail(e.Loop.Pos, "not decided: %d sends in one iteration", m)
					}
					n += m
				}
				if n > 0 && n != len(e.Loop.Iters) {
					r.fail(e.Loop.Pos, "an iteration of the sending loop sends nothing")
				}
				if n > 0 {
					cnt = Add(cnt, e.Loop.K)
					for _, lv := range e.Loop.Order {
						if lv.Init.isOp("mhas") {
							lastOk = lv.Sym
						}
						if lv.Cell != nil && lv.Cell.isOp("mapc") {
							var k2 []*Term
							var st2 [][2]*Term
							for _, nx := range lv.Next {
								if mapBase(nx, &k2, &st2) != lv.Sym || len(st2) > 0 {
									r.fail(e.Loop.Pos, "the sending loop changes the waiting blocks otherwise than by removing the ones sent")
								}
							}
							for _, k := range k2 {
								if b, ok := consecutive(e.Loop, k); !ok || !r.isNext(b) {
									r.fail(e.Loop.Pos, "a block other than the ones sent is removed from the waiting blocks (index %v)", k)
								}
							}
							memNow = lv.Init
						}
					}
				}
			}
		}
		if blk == nil {
			r.fail(L.Pos, "an iteration receives nothing")
			continue
		}
		// the map
		for _, lv := range L.Order {
			if lv.Cell != nil && lv.Cell.isOp("mapc") {
				if r.mem == nil {
					r.mem = lv
				} else if r.mem != lv {
					r.fail(L.Pos, "not decided: two maps")
				}
				if memNow == nil {
					memNow = it.Next[lv.Sym]
				}
			}
		}
		if r.mem == nil {
			r.fail(L.Pos, "not decided: the waiting blocks are not kept in a map")
			return
		}
		var dels []*Term
		var stores [][2]*Term
		if b := mapBase(memNow, &dels, &stores); b != r.mem.Sym {
			r.fail(L.Pos, "the waiting blocks are replaced: %v", memNow)
			continue
		}
		direct := false
		for _, e := range it.St.ev.list() {
			direct = direct || e.Kind == "send" && e.Args[1] == blk
		}
		r.removed(it, blk)
		okStore := len(stores) == 1 && stores[0][0] == blockIndex(blk) && stores[0][1] == blk
		if direct && len(stores) == 0 {
			okStore = true
		}
		if !okStore {
			r.fail(L.Pos, "a received block is not kept under its own index (exactly once)")
		}
		for _, k := range dels {
			if r.next != nil && !r.isNext(k) && !has(keys, k) {
				r.fail(L.Pos, "a block with index %v is removed from the waiting blocks without being sent", k)
			}
		}
		if r.next == nil {
			// this path sends nothing; the expected index is found on the others
			continue
		}
		// the expected index advances with every send
		if nx := it.Next[r.next.Sym]; nx != Add(r.next.Sym, cnt) {
			r.fail(L.Pos, "after sending %v block(s) the expected index goes from %v to %v", cnt, r.next.Sym, nx)
		}
		// everything that could be sent has been sent
		done := false
		nx := it.Next[r.next.Sym]
		for f, v := range it.St.lits {
			if f.isOp("mhas") && f.Args[1] == nx && !v {
				done = true
			}
			if f == lastOk && !v {
				done = true
			}
		}
		if nx == r.next.Sym {
			// nothing sent: the expected index was absent before (induction) and the block received has another one
			if k, v := it.St.decide(Eq(blockIndex(blk), nx)); k && !v {
				done = true
			}
		}
		if !done {
			r.fail(L.Pos, "an iteration can end although the block with the expected index is waiting")
		}
	}
	if r.next == nil {
		r.fail(L.Pos, "nothing is ever sent")
		return
	}
	for _, it := range L.Iters {
		n := 0
		eachEv(it.St.ev.list(), func(e *Ev) {
			if e.Kind == "send" {
				n++
			}
		})
		if n == 0 && it.Next[r.next.Sym] != r.next.Sym {
			r.fail(L.Pos, "the expected index changes without a send")
		}
	}
	if r.next.Init != tZero {
		r.fail(L.Pos, "the expected index starts at %v", r.next.Init)
	}
	if !(r.mem.Init.isOp("cont0") && strings.HasPrefix(rootOf(r.mem.Init.Args[0]).String(), "mapc(obj:map")) {
		r.fail(L.Pos, "the waiting blocks do not start empty: %v", r.mem.Init)
	}
	if !r.bad {
		r.c.Ok(r.rule, r.name, L.Pos, "")
	}
}

// removed: a block taken from the waiting ones is removed when it is sent, so that none is left in the end.
func (r *reorderer) removed(it *Iter, blk *Term) {
	const rule = "sent blocks do not wait"
	// everything removed outside of the sending loops
	var dels []*Term
	inner := map[*Term]*LoopVar{}
	for _, e := range it.St.ev.list() {
		if e.Loop != nil {
			for _, lv := range e.Loop.Order {
				if lv.Cell != nil && lv.Cell.isOp("mapc") {
					inner[lv.Sym] = lv
				}
			}
		}
	}
	for m := it.Next[r.mem.Sym]; m != nil; {
		var st [][2]*Term
		m = mapBase(m, &dels, &st)
		lv := inner[m]
		if lv == nil {
			break
		}
		m = lv.Init
	}
	one := func(e *Ev, L *LoopInfo, i2 *Iter, st *State) {
		if e.Args[1] == blk {
			var d2 []*Term
			var stores [][2]*Term
			mapBase(it.Next[r.mem.Sym], &d2, &stores)
			ok := len(stores) == 0 || has(dels, blockIndex(blk))
			for _, k := range dels {
				ok = ok || equal(st, k, blockIndex(blk))
			}
			r.c.Want(ok, rule, r.name, e.Pos, "the block sent at once is also kept")
			return
		}
		key, why := r.sendKey(e.Args[1], L, st, blk)
		if why != "" {
			return // reported already
		}
		ok := has(dels, key)
		if L != nil {
			for _, lv := range L.Order {
				if lv.Cell == nil || !lv.Cell.isOp("mapc") {
					continue
				}
				var d, d0 []*Term
				var s [][2]*Term
				mapBase(i2.Next[lv.Sym], &d, &s)
				if has(d, key) {
					ok = true
					continue
				}
				// removed when it was looked up, before the iteration
				mapBase(lv.Init, &d0, &s)
				first := has(d0, Sub(key, L.K))
				for _, i3 := range L.Iters {
					var d3 []*Term
					base := mapBase(i3.Next[lv.Sym], &d3, &s)
					nk := Add(key, Int(1))
					if has(d3, nk) {
						continue
					}
					if k, v := i3.St.decide(Op("mhas", "", types.Typ[types.Bool], base, nk)); !k || v {
						first = false
					}
				}
				ok = ok || first || len(d0) == 0 && absent(st, L, lv.Init, Sub(key, L.K))
			}
		}
		r.c.Want(ok, rule, r.name, e.Pos, "the block with index %v is sent but stays among the waiting ones", key)
	}
	for _, e := range it.St.ev.list() {
		if e.Kind == "send" {
			one(e, nil, nil, it.St)
		}
		if e.Loop != nil {
			for _, i2 := range e.Loop.Iters {
				for _, x := range i2.St.ev.list() {
					if x.Kind == "send" {
						one(x, e.Loop, i2, i2.St)
					}
				}
			}
		}
	}
}

// absent: the loop is not entered, because there is no such block.
func absent(st *State, L *LoopInfo, m, key *Term) bool {
	k, v := st.decide(Op("mhas", "", types.Typ[types.Bool], m, key))
	return k && !v
}

func (r *reorderer) isNext(k *Term) bool {
	if r.next == nil || k == nil {
		return r.next == nil
	}
	d := Sub(k, r.next.Sym)
	return d.K == KInt && d.I >= 0 && d.I <= 1 || !d.contains(r.next.Sym)
}

func has(l []*Term, x *Term) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ---- shutdown ----

func (c *Ctx) shutdown(d *Driver, p *DriverPath, name string) {
	evs := p.O.St.ev.list()
	at := map[*Ev]int{}
	for i, e := range evs {
		at[e] = i
		if e.Loop != nil {
			eachEv([]*Ev{e}, func(x *Ev) {
				if x != e {
					at[x] = i
				}
			})
		}
	}
	type wgInfo struct {
		adds []*Ev
		wait []int
	}
	wgs := map[*Term]*wgInfo{}
	wg := func(t *Term) *wgInfo {
		if wgs[t] == nil {
			wgs[t] = &wgInfo{}
		}
		return wgs[t]
	}
	closes := map[*Term][]int{}
	var made []*Ev
	var release []*Ev
	inLoop := map[*Ev]bool{}
	for _, e := range evs {
		if e.Loop != nil {
			eachEv([]*Ev{e}, func(x *Ev) { inLoop[x] = x != e })
		}
	}
	eachEv(evs, func(e *Ev) {
		i := at[e]
		switch e.Kind {
		case "makechan":
			made = append(made, e)
			if inLoop[e] {
				c.Bad("closed once", name, e.Pos, "not decided: a channel is made in a loop")
			}
		case "close":
			closes[e.Args[0]] = append(closes[e.Args[0]], i)
			if inLoop[e] {
				c.Bad("closed once", name, e.Pos, "a channel is closed in a loop")
			}
		case "call":
			switch e.Name {
			case "(*sync.WaitGroup).Add":
				wg(e.Args[0]).adds = append(wg(e.Args[0]).adds, e)
			case "(*sync.WaitGroup).Wait":
				wg(e.Args[0]).wait = append(wg(e.Args[0]).wait, i)
			case "(*sync.WaitGroup).Done":
				c.Bad("signals its wait group", name, e.Pos, "the reader itself signals a wait group")
			}
		}
		if op, _ := ioOf(e); op == "unmap" || op == "close" {
			release = append(release, e)
		}
	})
	// the completion signal: a channel that is not made here and is closed here
	var doneAt []int
	for ch, at := range closes {
		mine := false
		for _, m := range made {
			mine = mine || m.Args[0] == ch
		}
		if !mine {
			doneAt = append(doneAt, at...)
		}
	}
	c.Want(len(doneAt) == 1 && doneAt[0] == len(evs)-1, "completion is signalled last", name, p.O.Pos, "the completion signal is given %d times or is not the last action", len(doneAt))
	nUnmap, nClose := 0, 0
	for _, e := range release {
		if op, _ := ioOf(e); op == "unmap" {
			nUnmap++
		} else {
			nClose++
		}
	}
	c.Want(nUnmap == 1 && nClose == 1, "waited before release", name+" releases", p.O.Pos, "the input is unmapped %d and closed %d times", nUnmap, nClose)
	for _, m := range made {
		ch := m.Args[0]
		c.Want(len(closes[ch]) == 1, "closed once", fmt.Sprintf("%s channel made at %s", name, c.P.pos(m.Pos)), m.Pos, "the channel is closed %d times", len(closes[ch]))
	}
	// sends precede the close
	eachEv(evs, func(e *Ev) {
		if e.Kind == "send" || e.Kind == "select" {
			for _, ch := range e.Args {
				for _, x := range closes[ch] {
					c.Want(at[e] < x, "no send after close", name+" "+c.P.pos(e.Pos), e.Pos, "a send on the channel can follow its close")
				}
			}
		}
	})
	users := map[*Term][]*Thread{}
	for _, t := range p.Threads {
		tn := fmt.Sprintf("%s goroutine at %s (%s)", name, c.P.pos(t.Go.Pos), t.Role)
		if t.Err != "" {
			c.Bad("signals its wait group", tn, t.Go.Pos, "not decided: %s", t.Err)
			continue
		}
		// the wait group it signals
		var mine *Term
		ok := len(t.Outs) > 0
		for _, o := range t.Outs {
			if o.Kind != ORet {
				continue
			}
			n := 0
			l := o.St.ev.list()
			eachEv(l, func(e *Ev) {
				switch {
				case e.Kind == "close":
					c.Bad("closed once", tn, e.Pos, "a stage closes a channel")
				case e.Kind == "call" && e.Name == "(*sync.WaitGroup).Done":
					n++
					if mine != nil && mine != e.Args[0] {
						ok = false
					}
					mine = e.Args[0]
				case e.Kind == "call" && (e.Name == "(*sync.WaitGroup).Add" || e.Name == "(*sync.WaitGroup).Wait"):
					c.Bad("signals its wait group", tn, e.Pos, "a stage calls %s", e.Name)
				case e.Kind == "go":
					c.Bad("signals its wait group", tn, e.Pos, "a stage starts another goroutine")
				}
			})
			if n != 1 || len(l) == 0 {
				ok = false
				continue
			}
			// the last action (atomics aside)
			for i := len(l) - 1; i >= 0; i-- {
				if l[i].Kind == "atomic" {
					continue
				}
				if !(l[i].Kind == "call" && l[i].Name == "(*sync.WaitGroup).Done") {
					ok = false
				}
				break
			}
		}
		if !c.Want(ok && mine != nil, "signals its wait group", tn, t.Go.Pos, "the goroutine does not signal its wait group exactly once as its last action") {
			continue
		}
		users[mine] = append(users[mine], t)
		w := wg(mine)
		if !c.Want(len(w.wait) == 1, "waited for", tn, t.Go.Pos, "the goroutine is awaited %d times", len(w.wait)) {
			continue
		}
		wait := w.wait[0]
		c.Want(at[t.Go] < wait, "waited for", tn, t.Go.Pos, "started after it was awaited")
		for _, ch := range t.Ins {
			if len(closes[ch]) == 0 {
				c.Bad("input closed before waiting", tn, t.Go.Pos, "its input channel is never closed")
			}
			for _, x := range closes[ch] {
				c.Want(x < wait, "input closed before waiting", tn, t.Go.Pos, "it is awaited before its input is closed")
			}
		}
		for _, ch := range t.Sent {
			for _, x := range closes[ch] {
				c.Want(wait < x, "waited before its output is closed", tn, t.Go.Pos, "the channel it sends on is closed before it has finished")
			}
		}
		for _, e := range release {
			c.Want(wait < at[e], "waited before release", tn+" "+c.P.pos(e.Pos), e.Pos, "the input is released before the goroutine has finished")
		}
		for _, x := range doneAt {
			c.Want(wait < x, "waited before release", tn+" completion", t.Go.Pos, "completion is signalled before the goroutine has finished")
		}
	}
	for w, ts := range users {
		c.groupCount(name, w, wgs[w].adds, ts, at, p)
	}
	for w, i := range wgs {
		if len(users[w]) == 0 {
			c.Want(len(i.adds) == 0, "group count", name, p.O.Pos, "a wait group is counted up but no goroutine signals it")
		}
	}
}

// groupCount: the count of the wait group equals the number of goroutines that signal it.
func (c *Ctx) groupCount(name string, w *Term, adds []*Ev, ts []*Thread, at map[*Ev]int, p *DriverPath) {
	total := Int(0)
	loops := map[*LoopInfo]*Term{}
	pos := ts[0].Go.Pos
	loopOf := func(e *Ev) *LoopInfo {
		var r *LoopInfo
		for _, x := range p.O.St.ev.list() {
			if x.Loop == nil {
				continue
			}
			for _, it := range x.Loop.Iters {
				for _, y := range it.St.ev.list() {
					if y == e {
						r = x.Loop
					}
				}
			}
		}
		return r
	}
	for _, a := range adds {
		if L := loopOf(a); L != nil {
			if loops[L] == nil {
				loops[L] = Int(0)
			}
			loops[L] = Add(loops[L], a.Args[1])
		} else {
			total = Add(total, a.Args[1])
		}
	}
	want := Int(0)
	for _, t := range ts {
		for _, a := range adds {
			if !(at[a] < at[t.Go] || at[a] == at[t.Go]) {
				c.Bad("group count", name, a.Pos, "the wait group is counted up after the goroutine was started")
			}
		}
		if t.Loop == nil {
			want = Add(want, Int(1))
			continue
		}
		// once per iteration
		for _, it := range t.Loop.Iters {
			n := 0
			for _, e := range it.St.ev.list() {
				if e.Kind == "go" {
					n++
				}
			}
			c.Want(n == 1, "group count", name+" loop", t.Go.Pos, "an iteration starts %d goroutines", n)
		}
		if n := loops[t.Loop]; n != nil {
			c.Want(n == Int(1), "group count", name+" loop", t.Go.Pos, "the group is counted up by %v per goroutine", n)
			continue
		}
		// K iterations where K < W holds in each iteration and fails afterwards: max(0, W) iterations
		W := loopBound(t.Loop, p.O.St)
		if W == nil {
			c.Bad("group count", name, t.Go.Pos, "not decided: the number of goroutines started is not known")
			return
		}
		want = Add(want, W)
	}
	c.Want(total == want, "group count", name, pos, "the group is counted up by %v but %v goroutine(s) signal it", total, want)
}

// loopBound: the loop runs while K < W, so that it makes max(0, W) iterations.
func loopBound(L *LoopInfo, after *State) *Term {
	if L.Trip != nil {
		return L.Trip
	}
	for f, v := range after.lits {
		// not (K - W < 0)
		if v || !f.isOp("lt") || f.Args[1] != tZero {
			continue
		}
		W := Sub(L.K, f.Args[0])
		if W.contains(L.K) {
			continue
		}
		all := true
		for _, it := range L.Iters {
			if x, ok := it.St.lits[f]; !ok || !x {
				all = false
			}
		}
		if all {
			return W
		}
	}
	return nil
}

// structVar combines the loop variables of a struct's fields into one variable.
func structVar(L *LoopInfo, v *Term) *LoopVar {
	if !v.isOp("struct") {
		return nil
	}
	whole := func(fs []*Term) *Term {
		var x *Term
		for i, f := range fs {
			if !f.isOp("field") || f.S != fmt.Sprint(i) || x != nil && f.Args[0] != x {
				return nil
			}
			x = f.Args[0]
		}
		return x
	}
	var lvs []*LoopVar
	var inits []*Term
	for _, a := range v.Args {
		lv := L.Vars[a]
		if lv == nil {
			return nil
		}
		lvs = append(lvs, lv)
		inits = append(inits, lv.Init)
	}
	r := &LoopVar{Loop: L, Sym: v, Init: whole(inits)}
	if r.Init == nil {
		return nil
	}
	for i := range lvs[0].Next {
		var ns []*Term
		for _, lv := range lvs {
			if i >= len(lv.Next) {
				return nil
			}
			ns = append(ns, lv.Next[i])
		}
		n := whole(ns)
		if n == nil {
			return nil
		}
		r.Next = append(r.Next, n)
	}
	return r
}
