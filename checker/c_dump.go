package main

// C47: the commands that show an index show what it holds.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C47", "symbolic interpretation of the commands that show an index: on every path that is not a refusal, the index named by the input option is opened and the part named by the options (all of it without them) is looked at; the loops over elements and positions start at the first and end exactly behind the last one asked for; in every iteration, the lines printed are exactly those that the options ask for, made of the location that the index stores for that element and position, of the id, and of what the search of that id returned; and a line more exactly if the two differ", checkC47,
		"the search of an index is as C14 decides, the accessors of packed entries as C09, decoding of locations as C07, decoding of lists as C03", "the text around the values is not judged")
}

// printed is one line of output.
type printed struct {
	vals []*Term
	text string
}

// linesOf: what the calls on a path print, line by line; ok is false if that is not known.
func linesOf(st *State, evs []*Ev) (r []printed, ok bool) {
	var cur printed
	open := false
	str := func(s string) {
		for {
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				break
			}
			cur.text += s[:i]
			r = append(r, cur)
			cur, open = printed{}, false
			s = s[i+1:]
		}
		if s != "" {
			cur.text += s
			open = true
		}
	}
	val := func(t *Term) {
		cur.vals = append(cur.vals, t)
		open = true
	}
	for _, e := range evs {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "fmt.") {
			continue
		}
		args := e.Args
		switch e.Name {
		case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
			if len(args) == 0 || !isStdout(args[0]) {
				continue
			}
			args = args[1:]
		case "fmt.Printf", "fmt.Print", "fmt.Println":
		default:
			continue
		}
		if strings.HasSuffix(e.Name, "f") {
			if len(args) != 2 || args[0].K != KStr {
				return nil, false
			}
			vs := listedArgs(st, args[1])
			if vs == nil && !sure(st, Eq(Len(args[1]), tZero)) {
				return nil, false
			}
			if !formatted(args[0].S, vs, str, val) {
				return nil, false
			}
			continue
		}
		vs := listedArgs(st, args[0])
		if vs == nil && !sure(st, Eq(Len(args[0]), tZero)) {
			return nil, false
		}
		for i, v := range vs {
			if i > 0 && e.Name[len(e.Name)-2:] == "ln" {
				str(" ")
			}
			v = stripIface(v)
			switch {
			case v.K == KStr:
				str(v.S)
			case v.isOp("pure") && v.S == "fmt.Sprintf" && len(v.Args) == 2 && v.Args[0].K == KStr && v.Args[1].isOp("list"):
				if !formatted(v.Args[0].S, v.Args[1].Args, str, val) {
					return nil, false
				}
			case v.isOp("pure") && v.S == "fmt.Sprintf" && len(v.Args) == 2 && v.Args[0].K == KStr && v.Args[1] == tNil:
				str(v.Args[0].S)
			default:
				val(v)
			}
		}
		if strings.HasSuffix(e.Name, "ln") {
			str("\n")
		}
	}
	return r, !open
}

// formatted gives the pieces of a formatted text.
func formatted(f string, vs []*Term, str func(string), val func(*Term)) bool {
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			str(f[i:])
			break
		}
		str(f[i : i+j])
		i += j + 1
		if i < len(f) && f[i] == '%' {
			str("%")
			i++
			continue
		}
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || f[i] == '[' || f[i] == '*' || n >= len(vs) {
			return false
		}
		i++
		v := stripIface(vs[n])
		if v.K == KStr {
			str(v.S)
		} else {
			val(v)
		}
		n++
	}
	return n == len(vs)
}

func isStdout(t *Term) bool {
	t = stripIface(t)
	return t.isOp("load") && t.Args[0].isOp("glob") && strings.HasSuffix(t.Args[0].S, "os.Stdout")
}

type dumper struct {
	c    *Ctx
	rule string
	name string
	in   *Interp
	node bool
	ix   *Ev
	sub  *Ev
}

func checkC47(c *Ctx) {
	const rule = "shown"
	c.nodeAccessors("accessors")
	n := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad(rule, k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		opens, tags := false, map[string]*option{}
		for _, o := range k.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) { opens = opens || e.Kind == "openindex" })
			eachEv(o.St.ev.list(), func(e *Ev) {
				if e.Kind == "call" && strings.HasSuffix(e.Name, "go-flags.NewParser") && len(e.Args) > 0 {
					if a := stripIface(e.Args[0]); a.T != nil {
						if p, ok := under(a.T).(*types.Pointer); ok {
							optionsOf(p.Elem(), true, tags)
						}
					}
				}
			})
		}
		if sc := k.Pkg.Pkg.Scope(); len(tags) == 0 {
			for _, nm := range sc.Names() {
				if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && optsStruct(tn.Type()) != nil {
					optionsOf(tn.Type(), true, tags)
				}
			}
		}
		if !opens || tags["print-locations"] == nil || tags["search-index"] == nil {
			continue
		}
		n++
		c.Try(rule, k.Name, k.Main, func() { c.dumps(rule, k) })
	}
	c.Want(n == 2, rule, "commands", nil, "%d commands that show an index found, must be 2", n)
	c.Min("accessors", 3)
	c.Min(rule, 30)
}

// nodeAccessors: elements and locations of a part of a node index are what it holds.
func (c *Ctx) nodeAccessors(rule string) {
	for _, n := range []string{"Element", "ElementCount", "Location"} {
		fn := c.need(rule, "internal/nodeindex.(*NodeSubIndex)."+n)
		if fn == nil {
			continue
		}
		c.Try(rule, n, fn, func() {
			in := c.interp()
			as := in.SymArgs(fn)
			outs := c.run(in, fn, as, newState())
			S, _ := under(deref(fn.Params[0].Type())).(*types.Struct)
			rets := 0
			for _, o := range outs {
				if o.Kind != ORet {
					continue
				}
				rets++
				ok := false
				for i := 0; S != nil && i < S.NumFields(); i++ {
					sl, isSl := under(S.Field(i).Type()).(*types.Slice)
					if !isSl {
						continue
					}
					_, plain := under(sl.Elem()).(*types.Basic)
					if !plain != (n != "Location") {
						continue
					}
					st := newState()
					l := st.load(FieldAddrT(as[0], i, deref(fn.Params[0].Type())), S.Field(i).Type())
					if n == "ElementCount" {
						ok = ok || o.Rets[0] == Len(l)
					} else {
						ok = ok || o.Rets[0] == st.elem(l, as[1], sl.Elem())
					}
				}
				c.Want(ok, rule, n, o.Pos, "%s gives %v, which is not what the index holds there", n, o.Rets[0])
			}
			c.Want(rets == 1, rule, n+" returns", fn, "%d ways to return", rets)
		})
	}
}

// dumps decides one command.
func (c *Ctx) dumps(rule string, k *Command) {
	in := c.interp()
	domainHooks(in, nil)
	in.KeepPaths = true
	hook := func(name, op string) {
		fn := c.need(rule, name)
		if fn == nil {
			return
		}
		in.Hooks[fnName(fn)] = func(in *Interp, cc *CallCtx) []*Outcome {
			args := append([]*Term{}, cc.Args...)
			var rs []*Term
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				rs = append(rs, Op(op, fmt.Sprint(i), fn.Signature.Results().At(i).Type(), args...))
			}
			return retOne(cc.St, rs...)
		}
	}
	hook("internal/morton.DecodeLocation", "decoded")
	hook("internal/pb.DecodeS64PackedDeltaZero", "declist")
	outs := c.run(in, k.Main, in.SymArgs(k.Main), newState())
	d := &dumper{c: c, rule: rule, name: k.Name, in: in}
	rets := 0
	for _, o := range outs {
		if !finishes(o) {
			continue
		}
		opens := o.Kind == ORet
		eachEv(o.St.ev.list(), func(e *Ev) { opens = opens || e.Kind == "openindex" })
		if !opens {
			continue // help
		}
		rets++
		d.path(o)
	}
	c.Want(rets > 0, rule, k.Name+" runs", k.Main, "there is no way to the end of the command")
}

func (d *dumper) bad(pos any, f string, a ...any) { d.c.Bad(d.rule, d.name, pos, f, a...) }
func (d *dumper) want(ok bool, what string, pos any, f string, a ...any) bool {
	d.c.Want(ok, d.rule, d.name+" "+what, pos, f, a...)
	return ok
}

// opt: the fact that a boolean option is set.
func optSet(st *State, tag string) (known, val bool) {
	for l, v := range st.lits {
		if optionOf(l) == tag {
			return true, v
		}
	}
	return false, false
}

// given: the fact that an option was given.
func optGiven(st *State, tag string) (known, val bool) {
	n := normState(st)
	for l, v := range n.lits {
		if l.isOp("eq") && len(l.Args) == 2 {
			for i := 0; i < 2; i++ {
				if l.Args[i] == tNil && l.Args[1-i].isOp("opt") && l.Args[1-i].S == tag {
					return true, !v
				}
			}
		}
	}
	return false, false
}

// optValue: the term is the value of the option (which is given through a pointer).
func isOptValue(t *Term, tag string) bool {
	t = normOpts(t)
	for t.isOp("conv") {
		t = t.Args[0]
	}
	return t.isOp("load") && t.Args[0].isOp("opt") && t.Args[0].S == tag || t.isOp("opt") && t.S == tag
}

func (d *dumper) path(o *Outcome) {
	evs := o.St.ev.list()
	d.ix, d.sub = nil, nil
	for _, e := range evs {
		switch e.Kind {
		case "openindex":
			d.want(d.ix == nil, "one index", e.Pos, "two indices are opened")
			d.ix = e
		case "subindex":
			d.want(d.sub == nil, "one part", e.Pos, "two parts are looked at")
			d.sub = e
		}
	}
	if !d.want(d.ix != nil && d.sub != nil, "opens", o.Pos, "no index is opened or no part of it is chosen") {
		return
	}
	d.node = strings.Contains(d.ix.Name, "/nodeindex.")
	d.want(optionOf(d.ix.Args[0]) == "input-file", "input", d.ix.Pos, "the index opened is %v", d.ix.Args[0])
	// the part
	known, given := optGiven(o.St, "sub-index-index")
	if !known {
		known, given = optGiven(o.St, "sub-index-count")
	}
	a := d.sub.Args
	switch {
	case len(a) != 3 || a[0] != d.ix.Ret:
		d.want(false, "part", d.sub.Pos, "the part is not one of the index")
	case !known:
		d.want(false, "part", d.sub.Pos, "the part does not depend on the options")
	case given:
		d.want(isOptValue(a[1], "sub-index-index") && isOptValue(a[2], "sub-index-count"), "part", d.sub.Pos, "the part is %v of %v, must be the one of the options", a[1], a[2])
	default:
		d.want(a[1] == tZero && a[2].isConst() && a[2].I == 1, "whole", d.sub.Pos, "the part is %v of %v, must be all", a[1], a[2])
	}
	if !d.node && !strings.HasSuffix(d.sub.Name, "ScaledPass") {
		d.bad(d.sub.Pos, "the part is not chosen as the options say")
	}
	// what is printed outside of the loops is not known
	var loop *Ev
	for _, e := range evs {
		if e.Kind == "loop" && d.prints(e.Loop) {
			if !d.want(loop == nil, "loop", e.Pos, "two loops print") {
				return
			}
			loop = e
		}
	}
	st := o.St
	if silent(st) {
		return
	}
	if !d.want(loop != nil, "loop", o.Pos, "nothing is printed") {
		return
	}
	if d.node {
		d.nodes(st, loop)
	} else {
		d.ways(st, loop)
	}
	// the lines outside
	if ls, ok := linesOf(st, evs); !ok || len(ls) > 0 {
		d.want(false, "nothing else", loop.Pos, "more is printed than the elements")
	}
}

// silent: neither kind of output was asked for.
func silent(st *State) bool {
	pk, p := optSet(st, "print-locations")
	sk, s := optSet(st, "search-index")
	return pk && sk && !p && !s
}

func (d *dumper) prints(L *LoopInfo) bool {
	r := false
	for _, it := range append(append([]*Iter{}, L.Iters...), L.Exits...) {
		eachEv(it.St.ev.list(), func(e *Ev) {
			r = r || e.Kind == "call" && strings.HasPrefix(e.Name, "fmt.") || e.Kind == "find"
		})
	}
	return r
}

// accessor: what a method of the index gives.
func (d *dumper) accessor(st *State, name string, args ...*Term) *Term {
	fn := d.c.P.Func(name)
	if fn == nil {
		panic(analysisError{name + " not found"})
	}
	outs := d.in.callFn(&CallCtx{Fn: fn, Args: args, St: st.clone(), Pos: fn.Pos()})
	for _, o := range outs {
		if o.Kind == ORet && len(o.Rets) == 1 {
			return o.Rets[0]
		}
	}
	panic(analysisError{name + " gives nothing"})
}

// exact: the loop runs over from..to.
func (d *dumper) exact(what string, L *LoopInfo, from, to *Term) {
	for _, it := range L.Exits {
		if L.K != nil {
			d.want(sureLe(it.St, to, Add(from, L.K)) || d.empty(it.St, L, from, to), what+" reaches the end", L.Pos, "the loop may end before the last one")
		}
	}
	d.want(L.K != nil && len(L.Exits) > 0, what+" ends", L.Pos, "the loop does not end")
	for _, it := range L.Iters {
		d.want(L.K != nil && sureLt(it.St, Add(from, L.K), to), what+" stays inside", L.Pos, "the loop may go on behind the last one")
	}
}

// empty: with a trip count, the loop ends after exactly that many iterations.
func (d *dumper) empty(st *State, L *LoopInfo, from, to *Term) bool {
	return L.Trip != nil && equal(st, Add(from, L.Trip), to)
}

const nIE = "internal/nodeindex.(IndexElement)."

func (d *dumper) nodes(st *State, e *Ev) {
	L := e.Loop
	si := d.sub.Ret
	from := tZero
	if k, g := optGiven(st, "start-element"); k && g {
		from = d.value(st, "start-element")
	} else if !k {
		d.want(false, "start", e.Pos, "the first element does not depend on the option")
		return
	}
	to := d.accessor(st, "internal/nodeindex.(*NodeSubIndex).ElementCount", si)
	if k, g := optGiven(st, "end-element"); k && g {
		x := d.value(st, "end-element")
		switch {
		case x == nil:
			d.want(false, "end", e.Pos, "the end option is not used")
			return
		case sureLt(st, x, to):
			to = x
		case sureLe(st, to, x):
		default:
			d.want(false, "end", e.Pos, "the end option is not compared with the number of elements")
			return
		}
	} else if !k {
		d.want(false, "end", e.Pos, "the last element does not depend on the option")
		return
	}
	if from == nil {
		d.want(false, "start", e.Pos, "the start option is not used")
		return
	}
	d.exact("elements", L, from, to)
	for _, it := range L.Iters {
		ist := it.St
		evs := ist.ev.list()
		if ls, ok := linesOf(ist, evs); !ok || len(ls) > 0 {
			d.want(false, "lines of an element", e.Pos, "something is printed for an element that was not asked for")
		}
		if silent(ist) {
			none := true
			eachEv(evs, func(x *Ev) { none = none && !(x.Kind == "call" && strings.HasPrefix(x.Name, "fmt.Print")) })
			d.want(none, "silent", e.Pos, "something is printed that was not asked for")
			continue
		}
		el := d.accessor(ist, "internal/nodeindex.(*NodeSubIndex).Element", si, Add(from, L.K))
		count := d.accessor(ist, d.method("Count"), d.recv("Count", ist, el))
		var inner *Ev
		for _, x := range evs {
			if x.Kind == "loop" && d.prints(x.Loop) {
				if inner != nil {
					d.want(false, "positions", x.Pos, "an element is shown twice")
				}
				inner = x
			}
		}
		if !d.want(inner != nil, "positions", e.Pos, "an element is not shown") {
			continue
		}
		I := inner.Loop
		d.exact("positions", I, tZero, count)
		for _, jt := range I.Iters {
			d.position(jt.St, si, el, I)
		}
	}
}

// method finds a method of index elements, of values or of pointers.
func (d *dumper) method(n string) string {
	for _, r := range []string{"IndexElement", "*IndexElement"} {
		if s := "internal/nodeindex.(" + r + ")." + n; d.c.P.Func(s) != nil {
			return s
		}
	}
	return nIE + n
}

// recv is the receiver for a method of an index element.
func (d *dumper) recv(n string, st *State, el *Term) *Term {
	fn := d.c.P.Func(d.method(n))
	if fn != nil && len(fn.Params) > 0 {
		if _, ok := under(fn.Params[0].Type()).(*types.Pointer); ok {
			p := d.in.fresh("element", fn.Params[0].Type(), nil)
			st.store(p, el, deref(fn.Params[0].Type()))
			return p
		}
	}
	return el
}

func (d *dumper) of(st *State, n string, el *Term) *Term {
	st = st.clone()
	return d.accessor(st, d.method(n), d.recv(n, st, el))
}

// value of an option that is given, as the code reads it.
func (d *dumper) value(st *State, tag string) *Term {
	for l := range st.lits {
		var r *Term
		l.any(func(x *Term) bool {
			if r == nil && optionOf(x) == tag && x != nil {
				if p, ok := under(x.T).(*types.Pointer); ok {
					r = st.load(x, p.Elem())
				}
			}
			return r != nil
		})
		if r != nil {
			return r
		}
	}
	return nil
}

func isPrint(e *Ev) bool { return e.Kind == "call" && strings.HasPrefix(e.Name, "fmt.") }

// has: the line shows the values, in this order.
func (p printed) has(st *State, vals ...*Term) bool {
	i := 0
	for _, v := range p.vals {
		if i < len(vals) && sameVal(st, v, vals[i]) {
			i++
		}
	}
	return i == len(vals)
}

func sameVal(st *State, a, b *Term) bool {
	a, b = noConv(a), noConv(b)
	return a == b || equal(st, a, b)
}

func noConv(t *Term) *Term {
	for t.isOp("conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// degrees: the coordinates of a location, longitude first.
func (d *dumper) degrees(loc *Term) func(st *State, p printed) bool {
	return func(st *State, p printed) bool {
		next := 0
		for _, v := range p.vals {
			if next < 2 && isDegrees(v, loc, next) {
				next++
			}
		}
		return next == 2
	}
}

// isDegrees: float(coordinate)/10^7.
func isDegrees(v, loc *Term, i int) bool {
	v = stripIface(v)
	if !v.isOp("bin/") || !v.Args[1].isOp("float") || v.Args[1].S != "10000000" {
		return false
	}
	x := v.Args[0]
	for x.isOp("convert") || x.isOp("conv") {
		x = x.Args[0]
	}
	return x.isOp("decoded") && x.S == fmt.Sprint(i) && noConv(x.Args[0]) == noConv(loc)
}

func (d *dumper) position(st *State, si, el *Term, L *LoopInfo) {
	evs := st.ev.list()
	lines, ok := linesOf(st, evs)
	if !d.want(ok, "lines", L.Pos, "what is printed for a position is not decided") {
		return
	}
	pk, p := optSet(st, "print-locations")
	sk, s := optSet(st, "search-index")
	if !pk || !sk {
		d.want(false, "options", L.Pos, "what is printed does not depend on the options")
		return
	}
	id := Add(d.of(st, "FirstID", el), L.K)
	stored := d.accessor(st, "internal/nodeindex.(*NodeSubIndex).Location", si, Add(d.of(st, "Offset", el), L.K))
	want := 0
	plain := 0 // lines without values
	var matched []bool = make([]bool, len(lines))
	take := func(what string, f func(l printed) bool) {
		want++
		for i, l := range lines {
			if !matched[i] && f(l) {
				matched[i] = true
				d.want(true, what, L.Pos, "")
				return
			}
		}
		d.want(false, what, L.Pos, "%s is not printed", what)
	}
	take0 := func() { plain++ }
	if p {
		zero, isZero := st.decide(Eq(stored, tZero))
		switch {
		case !zero:
			d.want(false, "stored location", L.Pos, "what is printed does not depend on whether the index has the location")
			return
		case isZero:
			take0()
		default:
			deg := d.degrees(stored)
			take("stored location", func(l printed) bool {
				return l.has(st, stored) && l.has(st, id) && deg(st, l)
			})
		}
	}
	var find *Ev
	for _, e := range evs {
		if e.Kind == "find" {
			d.want(find == nil && s, "one search", e.Pos, "a search that was not asked for")
			find = e
		}
	}
	if s {
		if !d.want(find != nil, "search", L.Pos, "the search is not made") {
			return
		}
		d.want(find.Args[0] == si && sameVal(st, find.Args[1], id), "search", find.Pos, "the search is for %v, must be for the id of the position", find.Args[1])
		loc, okT := find.Ret.Args[0], find.Ret.Args[2]
		k, found := st.decide(okT)
		switch {
		case !k:
			d.want(false, "found location", L.Pos, "what is printed does not depend on whether the search succeeded")
			return
		case !found:
			take0()
		default:
			deg := d.degrees(loc)
			take("found location", func(l printed) bool { return l.has(st, loc) && deg(st, l) })
		}
		if p {
			k, same := st.decide(Eq(noConv(stored), noConv(loc)))
			if !d.want(k, "comparison", L.Pos, "the stored and the found location are not compared") {
				return
			}
			if !same {
				take0()
			}
		}
	}
	n := 0
	for i, l := range lines {
		if !matched[i] && len(l.vals) == 0 {
			n++
		}
	}
	d.want(n == plain, "missing and mismatch", L.Pos, "%d lines without a location, must be %d (location missing, search failed, mismatch)", n, plain)
	d.want(len(lines) == want+plain, "lines", L.Pos, "%d lines, must be %d", len(lines), want+plain)
}

func (d *dumper) ways(st *State, e *Ev) {
	L := e.Loop
	pt, _ := under(d.ix.Ret.T).(*types.Pointer)
	if pt == nil {
		panic(analysisError{"the index is no pointer"})
	}
	field := func(st *State, n string) *Term {
		S := under(pt.Elem()).(*types.Struct)
		for i := 0; i < S.NumFields(); i++ {
			if S.Field(i).Name() == n {
				return st.load(FieldAddrT(d.ix.Ret, i, pt.Elem()), S.Field(i).Type())
			}
		}
		panic(analysisError{"way index without " + n})
	}
	ids := field(st, "Ids")
	d.exact("ways", L, tZero, Len(ids))
	for _, it := range L.Iters {
		ist := it.St
		evs := ist.ev.list()
		lines, ok := linesOf(ist, evs)
		if !d.want(ok, "lines", e.Pos, "what is printed for a way is not decided") {
			continue
		}
		pk, p := optSet(ist, "print-locations")
		sk, s := optSet(ist, "search-index")
		if !pk || !sk {
			d.want(false, "options", e.Pos, "what is printed does not depend on the options")
			continue
		}
		el := ist.elem(ids, L.K, elemType(ids.T))
		id := d.way(ist, "WayID", el)
		want := 0
		next := func(what string, f func(l printed) bool) {
			if len(lines) > want {
				d.want(f(lines[want]), what, e.Pos, "the line printed for a way is not the %s", what)
			} else {
				d.want(false, what, e.Pos, "no line for the %s", what)
			}
			want++
		}
		if p {
			arr, lo := arrOf(field(ist, "Loc"))
			at := Add(lo, d.shifted(d.way(ist, "Offset", el), field(ist, "AlignmentShift")))
			next("stored list", func(l printed) bool {
				if len(l.vals) != 2 || !sameVal(ist, l.vals[0], id) || !l.vals[1].isOp("declist") {
					return false
				}
				a2, lo2 := arrOf(l.vals[1].Args[0])
				return a2 == arr && sameVal(ist, lo2, at)
			})
		}
		var find *Ev
		for _, x := range evs {
			if x.Kind == "find" {
				d.want(find == nil && s, "one search", x.Pos, "a search that was not asked for")
				find = x
			}
		}
		if s {
			if !d.want(find != nil, "search", e.Pos, "the search is not made") {
				continue
			}
			d.want(find.Args[0] == d.sub.Ret && sameVal(ist, find.Args[1], id), "search", find.Pos, "the search is for %v, must be for the id of the way", find.Args[1])
			k, found := ist.decide(find.Ret.Args[2])
			switch {
			case !k:
				d.want(false, "found list", e.Pos, "what is printed does not depend on whether the search succeeded")
			case found:
				next("found list", func(l printed) bool {
					return len(l.vals) == 2 && sameVal(ist, l.vals[0], id) && l.vals[1] == find.Ret.Args[0]
				})
			default:
				next("failed search", func(l printed) bool { return len(l.vals) == 1 && sameVal(ist, l.vals[0], id) })
			}
		}
		d.want(len(lines) == want, "lines", e.Pos, "%d lines, must be %d", len(lines), want)
	}
}

func (d *dumper) way(st *State, n string, el *Term) *Term {
	for _, r := range []string{"WayIndexData", "*WayIndexData"} {
		s := "internal/wayindex.(" + r + ")." + n
		fn := d.c.P.Func(s)
		if fn == nil {
			continue
		}
		st = st.clone()
		if _, ok := under(fn.Params[0].Type()).(*types.Pointer); ok {
			p := d.in.fresh("entry", fn.Params[0].Type(), nil)
			st.store(p, el, deref(fn.Params[0].Type()))
			el = p
		}
		return d.accessor(st, s, el)
	}
	panic(analysisError{"no method " + n + " of the entries of a way index"})
}

// shifted: offset << shift.
func (d *dumper) shifted(off, shift *Term) *Term {
	return noConv(Conv(bitOp("shl", off, shift, types.Typ[types.Uint64]), types.Typ[types.Uint64]))
}
