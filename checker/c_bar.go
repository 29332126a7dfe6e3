package main

// C50: progress lines.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C50", "symbolic interpretation of the layout of a progress line on every path: the markup consists of the text, padded to the width, with every percent sign doubled, either whole (only if there is no width, or the share of the width lies outside the line) or cut between two characters at the share of the width, the part before the cut highlighted and the part behind it not; of the update function of every widget: markup is set only from such a line, made for the width of the view the widget is drawn on, with the amount done divided by the total as its share, the two amounts being the ones the text shows and words of the state that is displayed (over several passes: the passes done and the share of the current one, divided by their number)", checkC50,
		"a line that takes markup treats a doubled percent sign as one, and %S and %N as switching the highlight on and off, as tcell documents", "the text around the numbers is not judged")
}

func checkC50(c *Ctx) {
	bar := c.need("line", "internal/ui.MarkupAsProgress")
	esc := c.need("line", "internal/ui.EscapePercent")
	if bar == nil || esc == nil {
		return
	}
	c.Try("line", "EscapePercent", esc, func() { c.escaping("line", esc) })
	c.Try("line", "MarkupAsProgress", bar, func() { c.barLayout("line", bar, esc) })
	seen := map[tokenPos]bool{}
	c.eachDisplay("share", func(d *display) {
		c.Try("share", d.name, d.pos, func() { c.barUse("share", d, bar, seen) })
	})
	c.Try("share", "pass progress", nil, func() { c.passShare("share", bar, seen) })
	c.markupOrigin("origin", seen)
	c.Min("line", 8)
	c.Min("share", 8)
	c.Min("counts", 6)
	c.Min("origin", 5)
}

// escaping: each percent sign is doubled.
func (c *Ctx) escaping(rule string, fn *ssa.Function) {
	in := c.interp()
	args := in.SymArgs(fn)
	for _, o := range c.run(in, fn, args, newState()) {
		c.Want(o.Kind == ORet && escaped(o.Rets[0]) == args[0], rule, "EscapePercent", fn, "percent signs are not doubled: the result is %v", rets0(o))
	}
}

func rets0(o *Outcome) *Term {
	if len(o.Rets) == 0 {
		return nil
	}
	return o.Rets[0]
}

// escaped: the text that t is the escaped form of.
func escaped(t *Term) *Term {
	lit := func(x *Term, s string) bool { return x.K == KStr && x.S == s }
	switch {
	case t.isOp("esc"):
		return t.Args[0]
	case t.isOp("pure") && strings.HasSuffix(t.S, "strings.ReplaceAll") && len(t.Args) == 3 && lit(t.Args[1], "%") && lit(t.Args[2], "%%"),
		t.isOp("pure") && strings.HasSuffix(t.S, "strings.Replace") && len(t.Args) == 4 && lit(t.Args[1], "%") && lit(t.Args[2], "%%") && t.Args[3].K == KInt && t.Args[3].I < 0:
		return t.Args[0]
	case t.K == KStr && !strings.Contains(t.S, "%"):
		return t
	}
	return nil
}

func runes(s *Term) *Term { return Op("s2r", "", types.NewSlice(types.Typ[types.Rune]), s) }

// widthIn is the number of characters of a text.
func widthIn(x *Term) *Term {
	if x.isOp("r2s") {
		return Len(x.Args[0])
	}
	return Len(runes(x))
}

func (c *Ctx) barLayout(rule string, fn, esc *ssa.Function) {
	if fn.Signature.Params().Len() != 3 || fn.Signature.Results().Len() != 1 {
		c.Bad(rule, "MarkupAsProgress", fn, "not decided: another signature")
		return
	}
	in := c.interp()
	in.KeepPaths = true
	in.Hooks[fnName(esc)] = func(in *Interp, cc *CallCtx) []*Outcome {
		return retOne(cc.St, Op("esc", "", types.Typ[types.String], cc.Args[0]))
	}
	for _, n := range []string{"unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount"} {
		in.Hooks[n] = func(in *Interp, cc *CallCtx) []*Outcome {
			return retOne(cc.St, Len(runes(cc.Args[0])))
		}
	}
	args := in.SymArgs(fn)
	s, w, pct := args[0], args[1], args[2]
	whole, cut, plain, padded := 0, 0, 0, 0
	for _, o := range c.run(in, fn, args, newState()) {
		if o.Kind != ORet {
			c.Bad(rule, "MarkupAsProgress", o.Pos, "laying out the line can fail")
			continue
		}
		st := o.St
		parts := textParts(st, o.Rets[0])
		// the position of the cut
		isShare := func(t *Term) bool {
			high := false
			for t.isOp("pure") && len(t.Args) == 2 {
				a, b := t.Args[0], t.Args[1]
				if a.isOp("float") {
					a, b = b, a
				}
				if !b.isOp("float") {
					return false
				}
				switch {
				case strings.HasSuffix(t.S, "math.Min") && b.S == "1":
					high = true
				case strings.HasSuffix(t.S, "math.Max") && b.S == "0":
				default:
					return false
				}
				t = a
			}
			lit := func(a, b *Term) (bool, bool) { return st.decide(Op("xlt", "", types.Typ[types.Bool], a, b)) }
			zero, one := Op("float", "0", pct.T), Op("float", "1", pct.T)
			kl, low := lit(pct, zero)
			kh, above := lit(one, pct)
			switch {
			case t == pct:
				return high || kh && !above
			case t.isOp("float") && t.S == "1":
				return kh && above
			case t.isOp("float") && t.S == "0":
				return kl && low
			}
			return false
		}
		isCut := func(t *Term) bool {
			if t == tZero {
				kl, low := st.decide(Op("xlt", "", types.Typ[types.Bool], pct, Op("float", "0", pct.T)))
				return kl && low
			}
			if t == w {
				kh, above := st.decide(Op("xlt", "", types.Typ[types.Bool], Op("float", "1", pct.T), pct))
				return kh && above
			}
			if !t.isOp("convert") || !t.Args[0].isOp("bin*") {
				return false
			}
			a, b := t.Args[0].Args[0], t.Args[0].Args[1]
			isW := func(t *Term) bool { return t.isOp("convert") && t.Args[0] == w }
			return isW(a) && isShare(b) || isW(b) && isShare(a)
		}
		// filled: a line that blanks are added to, one by one, until it is as wide as the view
		filled := func(x *Term) bool {
			lv := loopVarOf(x)
			if lv == nil || len(lv.Next) == 0 || !(lv.Init == s || lv.Init == runes(s)) || len(lv.Loop.Iters) == 0 {
				return false
			}
			for _, n := range lv.Next {
				if n == x {
					return false
				}
				blank := n.isOp("app") && len(n.Args) == 2 && n.Args[0] == x && n.Args[1] == Conv(Int(' '), n.Args[1].T) ||
					n.isOp("strcat") && len(n.Args) == 2 && n.Args[0] == x && n.Args[1].K == KStr && n.Args[1].S == " "
				if !blank {
					return false
				}
			}
			n := Len(x)
			if isString(x.T) {
				n = Len(runes(x))
			}
			for _, it := range lv.Loop.Iters {
				if !sureLt(it.St, n, w) {
					return false
				}
			}
			return sureLe(st, w, n)
		}
		line := func(x *Term) string {
			if x.isOp("r2s") && filled(x.Args[0]) || filled(x) {
				padded++
				return ""
			}
			if x == s || x == Op("r2s", "", x.T, runes(s)) {
				if !sureLe(st, w, Len(runes(s))) {
					return "the text is not padded to the width"
				}
				return ""
			}
			if x.isOp("strcat") && len(x.Args) == 2 && x.Args[0] == s {
				if p := x.Args[1]; p.isOp("pure") && strings.HasSuffix(p.S, "strings.Repeat") && p.Args[0].K == KStr && p.Args[0].S == " " {
					if equal(st, p.Args[1], Sub(w, Len(runes(s)))) && sureLe(st, Len(runes(s)), w) {
						padded++
						return ""
					}
					return "the text is padded by another number of characters than are missing"
				}
			}
			return "it is not the text, padded to the width"
		}
		switch {
		case len(parts) == 1:
			x := escaped(parts[0])
			if x == nil {
				c.Bad(rule, "MarkupAsProgress whole", o.Pos, "the text is shown without its percent signs being escaped")
				continue
			}
			if sure(st, Eq(w, tZero)) {
				plain++
				c.Want(x == s, rule, "MarkupAsProgress without a width", o.Pos, "it is not the text")
				continue
			}
			whole++
			if x.isOp("r2s") && x.Args[0].isOp("s2r") {
				x = x.Args[0].Args[0]
			}
			msg := line(x)
			c.Want(msg == "", rule, "MarkupAsProgress whole", o.Pos, "what is shown is wrong: %s", msg)
			out := false
			for l := range st.lits {
				l.any(func(t *Term) bool {
					if isCut(t) && (sureLt(st, t, tZero) || sureLe(st, widthIn(x), t) || equal(st, t, tZero)) {
						out = true
					}
					return false
				})
			}
			c.Want(out, rule, "MarkupAsProgress not highlighted", o.Pos, "nothing is highlighted though the share of the width lies inside the line")
		default:
			var ts []*Term
			for i, p := range parts {
				if i%2 == 0 {
					ok := p.K == KStr && (i == 0 && p.S == "%S" || i == 2 && p.S == "%N")
					if !ok {
						ts = nil
						break
					}
				} else {
					ts = append(ts, escaped(p))
				}
			}
			if len(parts) != 4 || len(ts) != 2 || ts[0] == nil || ts[1] == nil {
				c.Bad(rule, "MarkupAsProgress cut", o.Pos, "the line is not the escaped part before the cut, highlighted, and the escaped part behind it, not highlighted: %v", o.Rets[0])
				continue
			}
			cut++
			from := func(t *Term) (x, lo, hi *Term) {
				if !t.isOp("r2s") {
					return
				}
				arr, off := arrOf(t.Args[0])
				a := arr
				if a.isOp("arr") {
					a = a.Args[0]
				}
				if loopVarOf(a) != nil {
					return Op("r2s", "", s.T, a), off, Add(off, Len(t.Args[0]))
				}
				if !a.isOp("s2r") {
					return
				}
				return a.Args[0], off, Add(off, Len(t.Args[0]))
			}
			x, lo, mid := from(ts[0])
			y, mid2, hi := from(ts[1])
			if x == nil || x != y {
				c.Bad(rule, "MarkupAsProgress cut", o.Pos, "the parts are not cut from the characters of one line")
				continue
			}
			msg := line(x)
			c.Want(msg == "", rule, "MarkupAsProgress cut", o.Pos, "what is shown is wrong: %s", msg)
			c.Want(equal(st, lo, tZero) && equal(st, mid, mid2) && equal(st, hi, widthIn(x)), rule, "MarkupAsProgress cut complete", o.Pos, "the parts are %v..%v and %v..%v, which is not the whole line", lo, mid, mid2, hi)
			c.Want(sureLe(st, tZero, mid) && sureLe(st, mid, widthIn(x)), rule, "MarkupAsProgress cut inside", o.Pos, "the line is cut at %v, which need not be inside it", mid)
			c.Want(isCut(mid), rule, "MarkupAsProgress cut position", o.Pos, "the line is cut at %v, which is not the share (between 0 and 1) of the width", mid)
		}
	}
	c.Want(whole > 0 || cut > 0, rule, "MarkupAsProgress paths", fn, "no line is laid out")
	c.Want(cut > 0, rule, "MarkupAsProgress highlights", fn, "no part is ever highlighted")
	c.Want(padded > 0, rule, "MarkupAsProgress pads", fn, "no line is ever padded")
}

// textParts: the literals and values that a text is made of.
func textParts(st *State, t *Term) (r []*Term) {
	add := func(x *Term) {
		if n := len(r); n > 0 && x.K == KStr && r[n-1].K == KStr {
			r[n-1] = Str(r[n-1].S + x.S)
		} else if x.K != KStr || x.S != "" {
			r = append(r, x)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.isOp("strcat"):
			for _, a := range t.Args {
				walk(a)
			}
			return
		case t.isOp("pure") && strings.HasSuffix(t.S, "fmt.Sprintf") && len(t.Args) == 2 && t.Args[0].K == KStr:
			vs := listedArgs(st, t.Args[1])
			if t.Args[1].isOp("list") {
				vs = nil
				for _, a := range t.Args[1].Args {
					vs = append(vs, stripIface(a))
				}
			}
			plain := strings.Count(t.Args[0].S, "%") == strings.Count(t.Args[0].S, "%%")*2+strings.Count(t.Args[0].S, "%s")+strings.Count(t.Args[0].S, "%v")
			for _, v := range vs {
				plain = plain && v.T != nil && isString(v.T)
			}
			var l []*Term
			if plain && formatted(t.Args[0].S, vs, func(s string) { l = append(l, Str(s)) }, func(v *Term) { l = append(l, v) }) {
				for _, x := range l {
					walk(x)
				}
				return
			}
		}
		add(t)
	}
	walk(t)
	if len(r) == 0 {
		r = []*Term{t}
	}
	return r
}

// display is a line that shows the state of a stage.
type display struct {
	name   string
	pos    tokenPos
	update *Term // the function that updates the line
	addr   *Term // the state
	T      types.Type
	cell   *Term // its state word
	vals   statesOf
	st     *State
	stage  []*Outcome // paths of the stage that sets the state
	of     *Stage     // nil for the file reader
}

// barEv replaces the layout of a line by an event.
func barHook(in *Interp, bar *ssa.Function) {
	in.Hooks[fnName(bar)] = func(in *Interp, cc *CallCtx) []*Outcome {
		r := OpX("bar", "", types.Typ[types.String], nil, cc.Args...)
		cc.St.emit(&Ev{Kind: "bar", Args: cc.Args, Ret: r, Pos: cc.Pos, In: cc.In})
		return retOne(cc.St, r)
	}
}

func noConvs(t *Term) *Term {
	for t.isOp("convert") || t.isOp("conv") {
		t = t.Args[0]
	}
	return t
}

// fraction is a sum of quotients; each part holds its factors.
type fraction struct{ num, den []*Term }

// fractions writes t as a sum of quotients; ok is false if it is not one.
func fractions(t *Term) []fraction {
	switch {
	case t.isOp("bin+"):
		return append(fractions(t.Args[0]), fractions(t.Args[1])...)
	case t.isOp("bin/"):
		r := fractions(t.Args[0])
		d := fractions(t.Args[1])
		if len(d) != 1 || len(d[0].den) > 0 {
			return []fraction{{num: []*Term{t}}}
		}
		for i := range r {
			r[i].den = append(append([]*Term{}, r[i].den...), d[0].num...)
		}
		return r
	case t.isOp("bin*"):
		var r []fraction
		for _, a := range fractions(t.Args[0]) {
			for _, b := range fractions(t.Args[1]) {
				r = append(r, fraction{append(append([]*Term{}, a.num...), b.num...), append(append([]*Term{}, a.den...), b.den...)})
			}
		}
		return r
	case t.isOp("float") && t.S == "1":
		return []fraction{{}}
	case t.isOp("convert") && t.Args[0].T != nil && (isInteger(t.Args[0].T) || t.Args[0].isOp("convert")):
		return fractions(t.Args[0])
	}
	return []fraction{{num: []*Term{t}}}
}

// loadsOf: which words of the state the results of the loads on a path come from.
func loadsOf(st *State) map[*Term]*Term {
	r := map[*Term]*Term{}
	eachEv(st.ev.list(), func(e *Ev) {
		if (e.Kind == "atomic" || e.Kind == "load") && e.Ret != nil && len(e.Args) > 0 {
			r[e.Ret] = e.Args[0]
		}
	})
	return r
}

// shownBy runs an update function with the layout of lines replaced.
func (c *Ctx) shownBy(in *Interp, update *Term, st *State, pos tokenPos) []*Outcome {
	in.KeepPaths = true
	in.TraceMem = true
	s := st.clone()
	s.ev = nil
	outs := in.callTerm(&CallCtx{St: s, Pos: pos}, update, nil)
	c.visited(in)
	return outs
}

// widthOf: w is the width of a view that the line is drawn on.
func widthOf(st *State, w *Term) bool {
	ok := false
	eachEv(st.ev.list(), func(e *Ev) {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "View).Size") && e.Ret != nil && e.Ret.isOp("tuple") && e.Ret.Args[0] == w {
			ok = true
		}
	})
	return ok
}

// numbersIn: the numbers that a text shows, in order.
func numbersIn(text *Term) (r []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.isOp("iface") && t.T != nil && isNumber(t.T) {
			r = append(r, t.Args[0])
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(text)
	return r
}

func isNumber(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// barUse: the lines of one display.
func (c *Ctx) barUse(rule string, d *display, bar *ssa.Function, seen map[tokenPos]bool) {
	in := c.interp()
	barHook(in, bar)
	for _, o := range c.shownBy(in, d.update, d.st, d.pos) {
		if o.Kind != ORet {
			continue // C36
		}
		words := loadsOf(o.St)
		eachEv(o.St.ev.list(), func(e *Ev) {
			if isCallOf(e, ".SetMarkup") {
				seen[e.Pos] = true
				m := e.Args[len(e.Args)-1]
				c.Want(m.isOp("bar") || escaped(m) != nil, rule, d.name+" markup", e.Pos, "markup is set from a text that is not escaped: %v", m)
				return
			}
			if e.Kind != "bar" || len(e.Args) != 3 {
				return
			}
			c.Want(widthOf(o.St, e.Args[1]), rule, d.name+" width", e.Pos, "the line is made for the width %v, which is not that of the view", e.Args[1])
			f := fractions(e.Args[2])
			var done, total *Term
			if len(f) == 1 && len(f[0].num) == 1 && len(f[0].den) == 1 {
				done, total = noConvs(f[0].num[0]), noConvs(f[0].den[0])
			}
			dw, tw := words[done], words[total]
			if !c.want(dw != nil && tw != nil && dw != tw && rootOf(dw) == rootOf(d.addr) && rootOf(tw) == rootOf(d.addr), rule, d.name+" share", e.Pos, "the share %v is not the quotient of two words of the state that is displayed", e.Args[2]) {
				return
			}
			shown := 0
			for _, n := range numbersIn(e.Args[0]) {
				if shown == 0 && n == done || shown == 1 && n == total {
					shown++
				}
			}
			c.Want(shown == 2, rule, d.name+" numbers", e.Pos, "the text does not show the amount done and the total that the share is made of")
			c.barWords(rule, d, e.Pos, dw, tw)
			c.barCounts("counts", d, e.Pos, dw, tw)
		})
	}
}

// barWords: which of two words counts and which is the total.
func (c *Ctx) barWords(rule string, d *display, pos tokenPos, done, total *Term) {
	adds, totals := 0, 0
	kept, inTotal := map[*LoopInfo]bool{}, map[*LoopInfo]bool{} // the loops whose variables the words are set from
	for _, o := range d.stage {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Kind != "atomic" || len(e.Args) < 2 {
				return
			}
			add := strings.Contains(e.Name, ".Add")
			switch {
			case e.Args[0] == done && add:
				adds++
			case e.Args[0] == total && add:
				c.Bad(rule, d.name+" total", e.Pos, "the total changes step by step")
			case e.Args[0] == total:
				totals++
				e.Args[1].any(func(y *Term) bool {
					if lv := carried(y); lv != nil {
						inTotal[lv.Loop] = true
					}
					return false
				})
			case e.Args[0] == done:
				// a position that is kept by the loop and shown after every step counts as well
				v := e.Args[1]
				v.any(func(y *Term) bool {
					if lv := carried(y); lv != nil {
						if lo, _ := o.St.bounds(Sub(v, y)); lo >= 0 {
							kept[lv.Loop] = true
						}
					}
					return false
				})
			}
		})
	}
	for L := range kept {
		if !inTotal[L] {
			adds++
		}
	}
	c.Want(adds > 0 && totals > 0, rule, d.name+" words", pos, "the share is not made of a word that counts what is done and a word that is set to the total")
}

// carried: the loop variable that a symbol stands for.
func carried(t *Term) *LoopVar {
	if t.K != KSym {
		return nil
	}
	lv, _ := t.X.(*LoopVar)
	return lv
}

// carriedCopy: the loop variable that holds what the round before has copied.
func carriedCopy(L *LoopInfo) *Term {
	for _, v := range L.Order {
		ok := len(L.Iters) > 0
		for _, it := range L.Iters {
			var n *Term
			for _, e := range it.St.ev.list() {
				if op, _ := ioOf(e); op == "copy" {
					n = e.Ret
				}
			}
			ok = ok && n != nil && it.Next[v.Sym] == n
		}
		if ok {
			return v.Sym
		}
	}
	return nil
}

// copyTotal: the total of a copy is the size of what was written to the file that is copied, counted in a loop
// before: in bytes, in units of a power of two of bytes, or in items of the lists written.
func copyTotal(total *Term, before, rest []*Ev) string {
	t := noConvs(total)
	var from *Term
	eachEv(rest, func(x *Ev) {
		if op, a := ioOf(x); op == "copy" && len(a) > 1 {
			from = a[1]
		}
	})
	var lv *LoopVar
	many := false
	t.any(func(x *Term) bool {
		if v := loopVarOf(x); v != nil {
			many = many || lv != nil && lv != v
			lv = v
		}
		return false
	})
	if lv == nil || many || lv.Init != tZero {
		return "it is not counted from zero over the blocks"
	}
	t = asShift(t)
	if z := noConvs(subst(t, lv.Sym, tZero)); z != tZero && !(z.isOp("shl") && z.Args[0] == tZero) {
		return "it is not zero if nothing was written"
	}
	for _, it := range lv.Loop.Iters {
		diff := noConvs(Sub(it.Next[lv.Sym], lv.Sym))
		eachEvIn := it.St.ev.list()
		for _, x := range eachEvIn {
			op, a := ioOf(x)
			if op != "write" || len(a) < 2 || a[0] != from || a[1].T == nil {
				continue
			}
			sl, ok := under(a[1].T).(*types.Slice)
			if !ok {
				continue
			}
			size := intWidth(sl.Elem()) / 8
			n := Len(a[1])
			want := Mul(Int(int64(size)), lv.Sym)
			if size == 1 {
				if sh := shiftOf(diff, n); sh != nil {
					want = Op("shl", "", t.T, lv.Sym, sh)
				}
			}
			if t != want && !sameShift(t, want) {
				return fmt.Sprintf("it is %v, what was written takes %v bytes", t, want)
			}
		}
	}
	return ""
}

// asShift writes a product with a power of two given by a shift as a shift.
func asShift(t *Term) *Term {
	if t.K == KPoly && len(t.P) == 1 {
		for i, f := range t.P[0].A {
			if g := noConvs(f); g.isOp("shl") && g.Args[0] == Int(1) {
				v := Int(t.P[0].C)
				for j, a := range t.P[0].A {
					if j != i {
						v = Mul(v, a)
					}
				}
				return Op("shl", "", t.T, noConvs(v), g.Args[1])
			}
		}
	}
	return t
}

// sameShift compares shifts without the conversions around their parts.
func sameShift(a, b *Term) bool {
	return a.isOp("shl") && b.isOp("shl") && stripConv(a.Args[0], 64) == stripConv(b.Args[0], 64) && stripConv(a.Args[1], 64) == stripConv(b.Args[1], 64)
}

// barCounts: what is done is counted once for each thing that the total counts, or byte for byte.
func (c *Ctx) barCounts(rule string, d *display, pos tokenPos, done, total *Term) {
	if d.of == nil {
		return // C33 decides the positions of the reader
	}
	isAtomic := func(e *Ev, w *Term, op string) bool {
		return e.Kind == "atomic" && len(e.Args) > 1 && e.Args[0] == w && strings.Contains(e.Name, op)
	}
	seen := 0
	var walk func(evs []*Ev, st *State, in *LoopInfo)
	// copying: every amount added is what a copy made before in the same round, and each is added
	// (carried: what the round before has copied, if this round adds it)
	copying := func(evs []*Ev, carried *Term) (used bool, why string) {
		n := carried
		adds := 0
		for _, e := range evs {
			if op, _ := ioOf(e); op == "copy" {
				if carried != nil && adds == 0 {
					return true, "what the round before has copied is not added"
				}
				n, adds, carried = e.Ret, 0, nil
				continue
			}
			if isAtomic(e, done, ".Add") {
				adds++
				used = true
				if n == nil || noConvs(e.Args[1]) != n || adds > 1 {
					return true, "what is added is not the amount copied"
				}
			}
		}
		return used, ""
	}
	walk = func(evs []*Ev, st *State, in *LoopInfo) {
		for i, e := range evs {
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.St.ev.list(), it.St, e.Loop)
				}
				for _, it := range e.Loop.Exits {
					walk(it.St.ev.list(), it.St, nil)
				}
			}
			if !isAtomic(e, total, ".Store") {
				continue
			}
			// what is counted after the total was set
			rest := evs[i+1:]
			copies := false
			for _, x := range rest {
				eachEv([]*Ev{x}, func(x *Ev) {
					op, _ := ioOf(x)
					copies = copies || op == "copy"
				})
			}
			if copies {
				seen++
				if why := copyTotal(e.Args[1], evs[:i], rest); why != "" {
					c.Bad(rule, d.name+" total", e.Pos, "the total is not the size of what is copied: %s", why)
				} else {
					c.Ok(rule, d.name+" total", e.Pos, "")
				}
				for _, x := range rest {
					if x.Loop == nil {
						continue
					}
					carry := carriedCopy(x.Loop)
					for k, its := range [][]*Iter{x.Loop.Iters, x.Loop.Exits} {
						for _, it := range its {
							l := it.St.ev.list()
							used, why := copying(l, carry)
							copied := false
							for _, y := range l {
								op, _ := ioOf(y)
								copied = copied || op == "copy"
							}
							if why == "" && k == 0 && copied && !used {
								why = "what is copied in a round that is followed by another is not added"
							}
							c.Want(why == "", rule, d.name+" copied", x.Pos, "the amount done does not follow the copying: %s", why)
						}
					}
				}
				continue
			}
			// objects of the block received
			var recv *Ev
			var it *Iter
			for _, x := range evs[:i] {
				if x.Kind == "recv" && len(x.Args) > 0 && x.Args[0] == d.of.ChIn {
					recv = x
				}
			}
			if in != nil {
				for _, y := range in.Iters {
					if y.St == st {
						it = y
					}
				}
			}
			if recv == nil || it == nil {
				c.Bad(rule, d.name+" total", e.Pos, "not decided: what the total counts")
				continue
			}
			seen++
			// the amount done starts at nothing
			reset := false
			var work []*Ev
			for j, x := range evs {
				if isAtomic(x, done, ".Store") {
					reset = noConvs(x.Args[1]) == tZero
					if j > i {
						for _, y := range evs[i:j] {
							reset = reset && y.Loop == nil && !isAtomic(y, done, ".Add")
						}
					}
					if !reset {
						break
					}
					continue
				}
				work = append(work, x)
			}
			c.Want(reset, rule, d.name+" reset", e.Pos, "the amount done does not start at nothing for each block")
			why := "it is none of the numbers of objects in the block"
			agreed := false
			for _, q := range []string{"nodes", "ways", "relations", "refs"} {
				a := &countAna{c: c, rule: rule, name: d.name + " " + q, s: d.of, A: total, q: q}
				// the decoded block
				pb, w := a.blockQuiet(it, recv)
				if w != "" || pb == nil {
					continue
				}
				a.pb = pb
				a.A = nil
				if w := a.sum(it.St, work, noConvs(e.Args[1]), "block", nil); w != "" {
					continue
				}
				a.A = done
				if w := a.sum(it.St, work, tZero, "block", nil); w != "" {
					why = "what is done is not counted once for each of the " + q + " that the total counts: " + w
					continue
				}
				agreed = true
			}
			c.Want(agreed, rule, d.name+" counts", e.Pos, "the total: %s", why)
		}
	}
	for _, o := range d.stage {
		walk(o.St.ev.list(), o.St, nil)
	}
	c.Want(seen > 0, rule, d.name+" set", pos, "the total is never set")
}

// passShare: progress over several passes.
func (c *Ctx) passShare(rule string, bar *ssa.Function, seen map[tokenPos]bool) {
	ctor := c.need(rule, "internal/ui/widget.NewPassProgress")
	if ctor == nil {
		return
	}
	in := c.interp()
	lines := c.captureLines(in)
	args := in.SymArgs(ctor)
	outs := in.Run(ctor, args, nil, newState())
	if len(outs) != 1 || outs[0].Kind != ORet || len(*lines) != 1 || len(args) != 3 {
		c.Bad(rule, "pass progress", ctor, "not decided: the widget has %d lines on %d paths", len(*lines), len(outs))
		return
	}
	pass, count, pfs := args[0], args[1], args[2]
	in = c.interp()
	barHook(in, bar)
	get := func(name string) *Term { return c.getterWord(pfs, name) }
	at, max := get("At"), get("Max")
	if at == nil || max == nil || at == max {
		c.Bad(rule, "pass progress", ctor, "the position in the file and its size are not two words of the state")
		return
	}
	n := 0
	for _, o := range c.shownBy(in, (*lines)[0], outs[0].St, ctor.Pos()) {
		words := loadsOf(o.St)
		eachEv(o.St.ev.list(), func(e *Ev) {
			if isCallOf(e, ".SetMarkup") {
				seen[e.Pos] = true
				m := e.Args[len(e.Args)-1]
				c.Want(m.isOp("bar") || escaped(m) != nil, rule, "pass progress markup", e.Pos, "markup is set from a text that is not escaped: %v", m)
				return
			}
			if e.Kind != "bar" || len(e.Args) != 3 {
				return
			}
			n++
			c.Want(widthOf(o.St, e.Args[1]), rule, "pass progress width", e.Pos, "the line is made for another width than that of the view")
			is := func(l []*Term, t *Term) bool { return len(l) == 1 && noConvs(l[0]) == t }
			isPos := func(t *Term) bool {
				t = noConvs(t)
				return t.isOp("bin/") && words[noConvs(t.Args[0])] == at && words[noConvs(t.Args[1])] == max
			}
			// what is known about the share of the file
			var q *Term
			find := func(t *Term) bool {
				if isPos(t) {
					q = t
				}
				return false
			}
			for l := range o.St.lits {
				l.any(find)
			}
			e.Args[2].any(find)
			known := func(a, b *Term) (bool, bool) { return o.St.decide(Op("xlt", "", types.Typ[types.Bool], a, b)) }
			passes, part, bad := 0, "", false
			for _, f := range fractions(e.Args[2]) {
				if !is(f.den, count) && !(len(f.den) == 2) {
					bad = true
					continue
				}
				switch {
				case is(f.den, count) && is(f.num, pass):
					passes++
				case is(f.den, count) && len(f.num) == 0:
					part += "1"
				case is(f.den, count) && len(f.num) == 1 && f.num[0].isOp("float") && f.num[0].S == "0":
					part += "0"
				case len(f.num) == 1 && len(f.den) == 2 && words[noConvs(f.num[0])] == at:
					a, b := noConvs(f.den[0]), noConvs(f.den[1])
					if a == count {
						a, b = b, a
					}
					bad = bad || b != count || words[a] != max
					part += "p"
				default:
					bad = true
				}
			}
			ok := !bad && passes == 1
			if ok && q != nil {
				zero, one := Op("float", "0", q.T), Op("float", "1", q.T)
				kl, low := known(q, zero)
				kh, high := known(one, q)
				nan := false
				for l, v := range o.St.lits {
					nan = nan || l.isOp("pure") && strings.HasSuffix(l.S, "math.IsNaN") && l.Args[0] == q && v
					nan = nan || l.isOp("eq") && l.Args[0] == l.Args[1] && l.Args[0] == q && !v
				}
				switch part {
				case "p":
					ok = !nan
				case "1":
					ok = kh && high
				case "0":
					ok = kl && low || nan
				case "":
					ok = nan || kl && low
					for l, v := range o.St.lits { // comparisons of the clamped value
						ok = ok || l.isOp("pure") && strings.HasSuffix(l.S, "math.IsNaN") && v
					}
				default:
					ok = false
				}
			} else if ok {
				ok = false
			}
			c.Want(ok, rule, "pass progress share", e.Pos, "the share %v is not the number of passes done and the share of the current one, divided by the number of passes", e.Args[2])
		})
	}
	c.Want(n > 0, rule, "pass progress", ctor, "no progress is shown")
}

// getterWord: the word that a method without arguments reports.
func (c *Ctx) getterWord(recv *Term, name string) *Term {
	if recv.T == nil {
		return nil
	}
	m := c.P.method(recv.T, name)
	if m == nil {
		return nil
	}
	in := c.interp()
	in.TraceMem = true
	out := in.Run(m, []*Term{recv}, nil, newState())
	if len(out) != 1 || len(out[0].Rets) != 1 {
		return nil
	}
	return loadsOf(out[0].St)[noConvs(out[0].Rets[0])]
}

// markupOrigin: every place that sets markup was seen by the analysis of a display.
func (c *Ctx) markupOrigin(rule string, seen map[tokenPos]bool) {
	for _, fn := range c.P.Funcs() {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if s := ci.Common().StaticCallee(); s != nil {
					name = s.Name()
				} else if ci.Common().Method != nil {
					name = ci.Common().Method.Name()
				}
				if name == "SetMarkup" {
					c.Want(seen[ins.Pos()], rule, fnName(fn), ins.Pos(), "not decided: markup is set here, but no display of a stage was seen to reach it")
				}
			}
		}
	}
}
