package main

// C33: the framing of blobs, on the reading and on the writing side.

import (
	"fmt"
)

// piece of a byte sequence: one byte, or a run of bytes.
type piece struct {
	b   *Term // a single byte
	run *Term // a run of bytes (a slice value)
}

// flatten decomposes a byte-slice value into pieces; nil if the shape is not known.
func flatten(t *Term) ([]piece, bool) {
	switch {
	case t == tNil, t.isOp("empty"), Len(t) == tZero:
		return nil, true
	case t.isOp("appS"):
		a, ok1 := flatten(t.Args[0])
		b, ok2 := flatten(t.Args[1])
		return append(append([]piece{}, a...), b...), ok1 && ok2
	case t.isOp("app"):
		a, ok := flatten(t.Args[0])
		for _, e := range t.Args[1:] {
			a = append(a, piece{b: e})
		}
		return a, ok
	case t.isOp("seq"):
		// stores over a base content
		content, lo, n := t.Args[0], t.Args[1], t.Args[2]
		over := map[int64]*Term{}
		for content.isOp("store") && content.Args[1].K == KInt {
			if _, dup := over[content.Args[1].I]; !dup {
				over[content.Args[1].I] = content.Args[2]
			}
			content = content.Args[0]
		}
		if lo != tZero {
			return []piece{{run: t}}, len(over) == 0
		}
		var l []piece
		switch {
		case content.isOp("zeroc"):
			if n.K != KInt || n.I > 64 {
				return []piece{{run: t}}, len(over) == 0
			}
			for i := int64(0); i < n.I; i++ {
				l = append(l, piece{b: tZero})
			}
		case content.isOp("cont0") && content.Args[0].isOp("arr"):
			x := content.Args[0].Args[0]
			var ok bool
			l, ok = flatten(x)
			if !ok || Len(x) != n {
				if len(over) == 0 {
					return []piece{{run: t}}, true
				}
				return nil, false
			}
		default:
			return []piece{{run: t}}, len(over) == 0
		}
		for i, v := range over {
			if i >= int64(len(l)) || l[i].b == nil && !allBytes(l[:i+1]) {
				return nil, false
			}
			for _, p := range l[:i+1] {
				if p.b == nil {
					return nil, false
				}
			}
			l[i] = piece{b: v}
		}
		return l, true
	case t.isOp("slice") && t.Args[1] == tZero && t.Args[2].K == KInt && t.Args[2].I <= 64:
		var l []piece
		for i := int64(0); i < t.Args[2].I; i++ {
			l = append(l, piece{b: Op("old", fmt.Sprint(i), tByte, t)})
		}
		return l, true
	}
	return []piece{{run: t}}, true
}

func allBytes(l []piece) bool {
	for _, p := range l {
		if p.b == nil {
			return false
		}
	}
	return true
}

// isBE32 reports whether the four bytes are the big-endian form of v.
func isBE32(st *State, b []piece, v *Term) (ok bool) {
	if len(b) != 4 || !allBytes(b) {
		return false
	}
	e := newBitEval(st)
	vb := e.bits(v)
	for i := 0; i < 4; i++ {
		x := e.bits(b[i].b)
		for j := 0; j < 8; j++ {
			if !bvEq(x[j], vb[8*(3-i)+j]) {
				return false
			}
		}
	}
	return true
}

// msgOf returns the event that wrote a message.
func msgOf(t *Term, T string) *Ev {
	if t == nil || !t.isOp("msg") || t.S != T || len(t.Args) != 2 {
		return nil
	}
	e, _ := t.Args[1].X.(*Ev)
	return e
}

func (c *Ctx) memberIndex(T, field string) int {
	n := c.P.Named("internal/t." + T)
	if n == nil {
		return -1
	}
	return FieldIndex(n, field)
}

// frame checks that the pieces are one framed blob; it returns the data pieces.
func (c *Ctx) frame(st *State, l []piece, kind *Term, sub func(*Term) *Term) (data []piece, why string) {
	if len(l) < 5 || !allBytes(l[:4]) {
		return nil, "does not start with a length of 4 bytes followed by the blob header"
	}
	h := msgOf(l[4].run, "BlobHeader")
	if h == nil {
		return nil, "has no blob header after its first 4 bytes"
	}
	if !isBE32(st, l[:4], Len(l[4].run)) {
		return nil, "does not start with the big-endian length of the blob header"
	}
	ti, di := c.memberIndex("BlobHeader", "Type"), c.memberIndex("BlobHeader", "DataSize")
	if ti < 0 || di < 0 {
		return nil, "blob header members not found"
	}
	typ := sub(Field(h.Args[1], ti, tString))
	if typ != kind {
		return nil, fmt.Sprintf("names the blob type %v, not that of the block (%v)", typ, kind)
	}
	sum := Int(0)
	for _, p := range l[5:] {
		if p.b != nil {
			sum = Add(sum, Int(1))
		} else {
			sum = Add(sum, Len(p.run))
		}
	}
	sizeT := Field(h.Args[1], di, nil)
	if got := sub(stripConv(sizeT, 32)); got != sub(sum) && sub(sizeT) != sub(sum) {
		return nil, fmt.Sprintf("announces a data size of %v, but the data has %v bytes", got, sum)
	}
	return l[5:], ""
}

func init() {
	register("C33", "abstract interpretation with symbolic byte sequences: the reading loop of the file reader is summarised by its recurrence; in every iteration the header length is the big-endian value of the 4 bytes at the position, the header is parsed from exactly that many bytes after them, the data handed on is exactly the announced number of bytes after the header, and the next position is the sum of the three parts; the loop starts at 0 and is left only at the end of the file or on cancellation. For every command that writes PBF output, the bytes written for one block - the concatenation of all write arguments on each path of the writer, with the payloads its workers can send substituted - are a 4-byte big-endian length (bit-level comparison) of a blob header, this header with the block's type and the exact length of what follows, and the data.",
		func(c *Ctx) {
			c.frameReader()
			for _, f := range c.flows("frame", false) {
				if f.write == nil || !f.isPBFOutput() {
					continue
				}
				c.frameWriter(f)
			}
			c.Min("reader advances by header and data", 2)
			c.Min("written blob is framed", 4)
		}, "a blob header and its data are shorter than 2 GiB")
}

func (c *Ctx) frameWriter(f *flow) { c.frameWriterOf(f, "written blob is framed", false) }

// frameWriterOf checks what a writer writes for each payload; with onlyPass, for those that the worker passes on.
func (c *Ctx) frameWriterOf(f *flow, rule string, onlyPass bool) {
	for _, p := range f.out {
		if onlyPass && !p.pass {
			continue
		}
		for _, g := range f.write.segs {
			if g.Kind != ORet || g.blk == nil {
				continue
			}
			if ok, _ := g.feasible(*p); !ok {
				continue
			}
			ws := writesIn(g.evs)
			if len(ws) == 0 {
				continue
			}
			name := f.writS.name() + " on " + p.String()
			good := true
			var file *Term
			for _, w := range ws {
				op, args := ioOf(w)
				if op != "write" || len(args) != 2 {
					c.Bad(rule, name, w.Pos, "not decided: output is written by %s", op)
					good = false
					break
				}
				if file != nil && args[0] != file {
					c.Bad(rule, name, w.Pos, "one block is written to two files")
					good = false
				}
				file = args[0]
			}
			// writes in nested loops
			top := 0
			for _, e := range g.evs {
				if op, _ := ioOf(e); op == "write" {
					top++
				}
			}
			if top != len(ws) {
				c.Bad(rule, name, ws[0].Pos, "not decided: a block is written in a loop")
				continue
			}
			if !good {
				continue
			}
			payT := dataOf(g.blk)
			for _, s := range p.send {
				var pv *Term
				if !p.pass {
					if d := dataOf(s.val); d != nil && d.isOp("iface") {
						pv = d.Args[0]
					}
				}
				sub := func(t *Term) *Term {
					t = rewrite(t, func(x *Term) *Term {
						if x == Field(g.blk, 2, tString) {
							return Str(p.kind)
						}
						if pv != nil && x.isOp("tassert") && x.Args[0] == payT {
							return pv
						}
						return nil
					})
					if s.cur != nil {
						t = subst(t, Field(s.cur, 2, tString), Str(p.kind))
					}
					return t
				}
				var l []piece
				ok := true
				for _, w := range ws {
					a := w.Args[1]
					// the message tokens are kept: only the payload is substituted
					x, k := flatten(sub(a))
					ok = ok && k
					l = append(l, x...)
				}
				if !ok {
					c.Bad(rule, name, ws[0].Pos, "not decided: the bytes written are not known")
					continue
				}
				data, why := c.frame(g.St, l, Str(p.kind), sub)
				if why != "" {
					c.Bad(rule, name, ws[0].Pos, "what is written %s", why)
					continue
				}
				if len(data) == 0 {
					c.Bad(rule, name, ws[0].Pos, "the data of the block is not written")
					continue
				}
				// the data is the payload, or (if the worker framed it) the blob the worker built
				okData := true
				for _, d := range data {
					if d.run == nil {
						okData = false
						continue
					}
					isPay := d.run.isOp("tassert") && d.run.Args[0] == payT && len(data) == 1
					isPv := pv != nil && len(data) == 1 && d.run == pv
					isBlob := msgOf(d.run, "Blob") != nil
					if onlyPass {
						okData = okData && isPay
						continue
					}
					if !isPay && !isPv && !isBlob && !(pv != nil && pv.contains(d.run)) {
						okData = false
					}
				}
				c.Want(okData, rule, name, ws[0].Pos, "the data written is not the data of the block")
			}
		}
	}
}

func (c *Ctx) frameReader() {
	const rule = "reader advances by header and data"
	d := c.driver("driver")
	if d == nil {
		return
	}
	for i, p := range d.Paths {
		name := fmt.Sprintf("file reader path %d", i)
		var loop *LoopInfo
		var input *Term
		var tail []*Ev
		for j, e := range p.O.St.ev.list() {
			if op, _ := ioOf(e); op == "map" {
				input = e.Ret
			}
			if e.Loop == nil {
				continue
			}
			h := false
			for _, it := range e.Loop.Iters {
				for _, x := range it.St.ev.list() {
					h = h || x.Kind == "read" && x.Name == "BlobHeader"
				}
			}
			if h {
				loop = e.Loop
				tail = p.O.St.ev.list()[j+1:]
			}
		}
		if loop == nil || input == nil {
			c.Bad(rule, name, d.Fn, "not decided: no loop reads blob headers")
			continue
		}
		var pos *LoopVar
		for _, it := range loop.Iters {
			var hdr, send *Ev
			for _, x := range it.St.ev.list() {
				if x.Kind == "read" && x.Name == "BlobHeader" {
					if hdr != nil {
						c.Bad(rule, name, x.Pos, "two headers are read for one blob")
					}
					hdr = x
				}
				if x.Kind == "send" && c.isBlock(x.Args[1].T) {
					send = x
				}
			}
			if hdr == nil || send == nil {
				c.Bad(rule, name, loop.Pos, "an iteration does not read a header and hand on its blob")
				continue
			}
			arr, off := arrOf(hdr.Args[0])
			inArr, _ := arrOf(input)
			size := Len(hdr.Args[0])
			for _, lv := range loop.Order {
				if Sub(off, lv.Sym) == Int(4) {
					pos = lv
				}
			}
			if pos == nil || arr != inArr {
				c.Bad(rule, name, hdr.Pos, "the header is not parsed from 4 bytes after the position in the input")
				continue
			}
			if pos.Init != tZero {
				c.Bad(rule, name, loop.Pos, "reading starts at %v, not at the beginning of the file", pos.Init)
			}
			// big-endian length
			var l []piece
			var content *Term
			size.any(func(x *Term) bool {
				if x.isOp("select") && x.Args[1] == pos.Sym {
					content = x.Args[0]
				}
				return false
			})
			okLen := content != nil && content.any(func(x *Term) bool { return x == inArr })
			if okLen {
				for j := int64(0); j < 4; j++ {
					l = append(l, piece{b: Select(content, Add(pos.Sym, Int(j)), tByte)})
				}
				okLen = isBE32(it.St, l, size) && upperZero(it.St, size)
			}
			c.Want(okLen, rule, name+" header length", hdr.Pos, "the header length is not the big-endian value of the 4 bytes at the position")
			// data
			data := dataOf(send.Args[1])
			if data == nil || !data.isOp("iface") {
				c.Bad(rule, name, send.Pos, "not decided: the data handed on is not known")
				continue
			}
			darr, doff := arrOf(data.Args[0])
			dlen := Len(data.Args[0])
			c.Want(darr == inArr && doff == Add(off, size), rule, name+" data position", send.Pos, "the data handed on does not start right after the header")
			c.Want(dlen.isOp("msgf") && dlen.S == "BlobHeader.DataSize" && dlen.Args[0] == hdr.Args[0] || isMsgf(dlen, "BlobHeader.DataSize", hdr.Args[0]), rule, name+" data size", send.Pos, "the data handed on does not have the size announced in the header")
			kind := Field(send.Args[1], 2, tString)
			c.Want(isMsgf(kind, "BlobHeader.Type", hdr.Args[0]), rule, name+" type", send.Pos, "the block does not carry the type given in its header")
			c.Want(it.Next[pos.Sym] == Add(doff, dlen), rule, name+" next position", send.Pos, "the next position is %v", it.Next[pos.Sym])
			// only while input is left
			held := false
			for _, q := range twins(loop, pos) {
				k, v := it.St.decide(Lt(q.Sym, Len(input), true))
				held = held || k && v
			}
			c.Want(held, rule, name+" guard", loop.Pos, "an iteration can start at or after the end of the file")
		}
		if pos == nil {
			continue
		}
		// the loop is left at the end or on cancellation only
		cancelled := false
		for _, x := range tail {
			if x.Kind == "recv" && isDone(x.Args[0]) {
				cancelled = true
			}
		}
		end := false
		for _, q := range twins(loop, pos) {
			k, v := p.O.St.decide(Lt(q.Sym, Len(input), true))
			end = end || k && !v
		}
		c.Want(cancelled || end, "read to the end", name, loop.Pos, "reading can stop before the end of the file without cancellation")
	}
}

func isMsgf(t *Term, name string, buf *Term) bool {
	t = stripConv(t, 32)
	return t.isOp("msgf") && t.S == name && t.Args[0] == buf
}

func upperZero(st *State, t *Term) bool {
	b := newBitEval(st).bits(t)
	for i := 32; i < 64; i++ {
		if !bvEq(b[i], b0) {
			return false
		}
	}
	return true
}

// twins lists the loop variables that have the same value as the given one in every iteration: they start the same
// and, as long as they are the same, get the same next value.
func twins(loop *LoopInfo, v *LoopVar) []*LoopVar {
	r := []*LoopVar{v}
	for _, w := range loop.Order {
		if w == v || w.Init != v.Init {
			continue
		}
		same := len(loop.Iters) > 0
		for _, it := range loop.Iters {
			a, b := it.Next[w.Sym], it.Next[v.Sym]
			if a == nil {
				a = w.Sym
			}
			if b == nil {
				b = v.Sym
			}
			same = same && subst(a, w.Sym, v.Sym) == subst(b, w.Sym, v.Sym)
		}
		if same {
			r = append(r, w)
		}
	}
	return r
}
