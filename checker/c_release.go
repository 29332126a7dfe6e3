package main

// C53: mapped files stay mapped while they are read.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C53", "typestate analysis of mappings over the interpreted paths of all commands, of their stages and of the reader of input files: a mapping (or an index that owns one) is released at most once on a path, with exactly the slice that was mapped, not by an iteration of a loop outside of which it was made, and not while a pipeline that was started has not been waited for; after the release no load, call, store or argument reaches memory of the mapping (a reference analysis on the terms: views, sub-slices, parts of the index, its sub-indexes); what is mapped in a loop, or in the reader, is released on every normal path; the reader waits for every goroutine it has started before it releases its input. Constructors of indexes keep the whole mapping and its file, and Close releases exactly these two, once. Every call that makes or ends a mapping is on a path analysed",
		checkC53, "Wait returns only after the reader has signalled completion (decided with C19)")
}

type release53 struct {
	c     *Ctx
	seen  map[tokenPos]bool
	parts map[string]map[int]bool // per constructor: fields that refer to the mapping
	made  int
}

// held is the state of one mapping on a path.
type held struct {
	ev    *Ev
	index bool
	depth int
	gone  *Ev
}

type mapState struct {
	m     map[*Term]*held
	order []*Term
	from  map[*Term]*Term // sub-indexes
	run   map[*Term]*Ev   // pipelines that have not been waited for
}

func (s *mapState) clone() *mapState {
	n := &mapState{m: map[*Term]*held{}, from: map[*Term]*Term{}, run: map[*Term]*Ev{}}
	for k, v := range s.m {
		h := *v
		n.m[k] = &h
	}
	n.order = append(n.order, s.order...)
	for k, v := range s.from {
		n.from[k] = v
	}
	for k, v := range s.run {
		n.run[k] = v
	}
	return n
}

func newMapState() *mapState {
	return &mapState{m: map[*Term]*held{}, from: map[*Term]*Term{}, run: map[*Term]*Ev{}}
}

func scalarType(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer && b.Kind() != types.UntypedNil
}

// refs lists the mappings that t refers to (not those a number was once read from).
func (s *mapState) refs(t *Term) *Term {
	if t == nil {
		return nil
	}
	if s.m[t] != nil {
		return t
	}
	if x := s.from[t]; x != nil {
		return x
	}
	switch t.Op {
	case "idx", "fld", "arr", "view", "conv": // an address, whatever the type of what is there
	default:
		if t.T != nil && scalarType(t.T) {
			return nil
		}
	}
	switch t.Op {
	case "len", "cap", "eq", "lt", "ult", "not", "select":
		if t.Op != "select" || t.T != nil && scalarType(t.T) {
			return nil
		}
	case "app", "appS": // a list of its own: its elements are copies
		if len(t.Args) > 0 {
			if b, ok := under(t.T).(*types.Slice); ok && scalarType(b.Elem()) {
				return s.refs(t.Args[0])
			}
		}
	}
	for _, a := range t.Args {
		if x := s.refs(a); x != nil {
			return x
		}
	}
	return nil
}

// fieldOnly: addr is a field of the index itself that does not refer to the mapping.
func (r *release53) fieldOnly(addr *Term, s *mapState) bool {
	if !addr.isOp("fld") || len(addr.Args) != 1 {
		return false
	}
	h := s.m[addr.Args[0]]
	return h != nil && h.index && !r.parts[h.ev.Name][atoi(addr.S)]
}

// harmless: a method of an index that does not look at the mapping.
func (r *release53) harmless(e *Ev, s *mapState) bool {
	if e.Fn == nil || e.Fn.Signature.Recv() == nil || len(e.Args) == 0 {
		return false
	}
	h := s.m[e.Args[0]]
	if h == nil || !h.index {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var reads func(fn *ssa.Function) bool
	reads = func(fn *ssa.Function) bool {
		if seen[fn] || len(fn.Blocks) == 0 {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if types.Identical(x.X.Type(), e.Fn.Signature.Recv().Type()) && r.parts[h.ev.Name][x.Field] {
						return true
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && fnPkg(f) == fnPkg(e.Fn) && reads(f) {
						return true
					}
				}
			}
		}
		return false
	}
	return !reads(e.Fn)
}

func (r *release53) drop(name string, x *Term, e *Ev, s *mapState, depth int) {
	h := s.m[x]
	switch {
	case h == nil:
		return
	case h.gone != nil:
		r.c.Bad("once", name, e.Pos, "the mapping made at %s is released a second time", r.c.P.pos(h.ev.Pos))
	case h.depth < depth:
		r.c.Bad("once", name, e.Pos, "the mapping made at %s, outside of the loop, is released by an iteration that may be followed by another one", r.c.P.pos(h.ev.Pos))
	case len(s.run) > 0:
		r.c.Bad("after", name, e.Pos, "the mapping made at %s is released while a pipeline may still be running", r.c.P.pos(h.ev.Pos))
	default:
		r.c.Ok("once", fmt.Sprintf("%s mapping at %s", name, r.c.P.pos(h.ev.Pos)), e.Pos, "")
	}
	h.gone = e
}

// walk follows one path.
func (r *release53) walk(name string, evs []*Ev, s *mapState, depth int, gos bool) {
	c := r.c
	use := func(e *Ev, t *Term) {
		x := s.refs(t)
		if x == nil {
			return
		}
		h := s.m[x]
		if h.gone != nil {
			c.Bad("after", name, e.Pos, "memory of the mapping made at %s is used after it was released at %s", c.P.pos(h.ev.Pos), c.P.pos(h.gone.Pos))
			h.gone = e
		}
	}
	for _, e := range evs {
		op, args := ioOf(e)
		switch {
		case op == "map" || op == "mapwrite" || e.Kind == "openindex":
			x := fileRet(e)
			if x == nil {
				c.Bad("once", name, e.Pos, "not decided: what is mapped")
				continue
			}
			r.made++
			r.seen[e.Pos] = true
			s.m[x] = &held{ev: e, index: e.Kind == "openindex", depth: depth}
			s.order = append(s.order, x)
		case op == "unmap" && len(args) > 0:
			r.seen[e.Pos] = true
			x := fileArg(args[0])
			if h := s.m[x]; h == nil || h.index {
				c.Bad("whole", name, e.Pos, "what is released (%v) is not a whole mapping that was made before", x)
				continue
			}
			r.drop(name, x, e, s, depth)
		case e.Kind == "closeindex" && len(e.Args) > 0:
			x := e.Args[0]
			if h := s.m[x]; h == nil || !h.index {
				c.Bad("whole", name, e.Pos, "not decided: the index that is closed")
				continue
			}
			r.drop(name, x, e, s, depth)
		case e.Kind == "process" && e.Ret != nil:
			for _, a := range e.Args {
				use(e, a)
			}
			s.run[e.Ret] = e
		case e.Kind == "wait" && len(e.Args) > 0:
			delete(s.run, e.Args[0])
		case e.Loop != nil:
			for _, it := range e.Loop.Iters {
				in := s.clone()
				r.walk(name, it.St.ev.list(), in, depth+1, gos)
				r.left(name, in, depth+1, e.Pos, "the iteration")
				for k, v := range in.run {
					s.run[k] = v
				}
			}
		case e.Kind == "load" || e.Kind == "store":
			for i, a := range e.Args {
				if i == 0 && r.fieldOnly(a, s) {
					continue
				}
				use(e, a)
			}
		case r.harmless(e, s):
		default:
			if e.Kind == "go" && !gos {
				bad := false
				for _, a := range e.Args {
					bad = bad || s.refs(a) != nil
				}
				if bad {
					c.Bad("after", name, e.Pos, "not decided: mapped memory is used by a goroutine")
				}
			}
			for _, a := range e.Args {
				use(e, a)
			}
			if e.Kind == "subindex" && len(e.Args) > 0 && e.Ret != nil {
				if x := s.refs(e.Args[0]); x != nil {
					s.from[e.Ret] = x
				}
			}
		}
	}
}

// left: what was mapped in this scope has been released at its end.
func (r *release53) left(name string, s *mapState, depth int, pos any, what string) {
	for _, x := range s.order {
		h := s.m[x]
		if h.depth == depth {
			r.c.Want(h.gone != nil, "released", name+" mapping at "+r.c.P.pos(h.ev.Pos), pos, "the mapping made here is not released when %s ends", what)
		}
	}
}

func checkC53(c *Ctx) {
	r := &release53{c: c, seen: map[tokenPos]bool{}, parts: map[string]map[int]bool{}}
	for _, k := range []string{"nodeindex.NodeIndex", "wayindex.WayIndex"} {
		c.Try("owner", k, nil, func() { r.owner(k) })
	}
	trace := func(in *Interp) { in.TraceMem = true }
	c.prepared(trace, func() {
		for _, k := range c.commands() {
			if k.Err != "" {
				c.Bad("after", k.Name, k.Main, "not decided: %s", k.Err)
				continue
			}
			paths := 0
			for _, o := range k.Outs {
				if !finishes(o) {
					continue
				}
				paths++
				r.walk(k.Name, o.St.ev.list(), newMapState(), 0, false)
			}
			c.Want(paths > 0, "path", k.Name, k.Main, "no path of the command ends normally")
			for _, p := range k.Pipe {
				for _, w := range []bool{false, true} {
					if w && !p.hasWriter() {
						continue
					}
					s := c.stage(p, w, trace)
					if s.Err != "" {
						c.Bad("after", s.name(), s.ErrPos, "not decided: %s", s.Err)
						continue
					}
					for _, o := range s.Outs {
						if finishes(o) {
							st := newMapState()
							r.walk(s.name(), o.St.ev.list(), st, 0, false)
							r.left(s.name(), st, 0, o.Pos, "the stage")
						}
					}
				}
			}
		}
		if d := c.driver("after"); d != nil {
			sub := *c
			sub.Obls, sub.seen = nil, map[string]bool{}
			for i, p := range d.Paths {
				sub.shutdown(d, p, fmt.Sprintf("path %d", i))
			}
			for _, o := range sub.Obls {
				if o.Rule == "waited before release" {
					c.add(o)
				}
			}
			for _, o := range d.Outs {
				if finishes(o) {
					st := newMapState()
					r.walk("file reader", o.St.ev.list(), st, 0, true)
					r.left("file reader", st, 0, o.Pos, "the reader")
				}
			}
		}
	})
	// every call that makes or ends a mapping was seen
	for _, fn := range c.P.Funcs() {
		if fnPkg(fn) == pkgIIO {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				callee := call.Common().StaticCallee()
				op := rawIO[fnName(callee)]
				if fnPkg(callee) == pkgIIO {
					op = ioOps[callee.Name()]
				}
				if op == "map" || op == "mapwrite" || op == "unmap" {
					c.Want(r.seen[ins.Pos()], "site", fn.String(), ins.Pos(), "this call makes or ends a mapping but is on no analysed path")
				}
			}
		}
	}
	for _, s := range wrapSpecs {
		if ioOps[s.name] == "map" || ioOps[s.name] == "unmap" {
			c.Try("wrapper", s.name, nil, func() { c.wrapper("wrapper", s) })
		}
	}
	c.Min("once", 3)
	c.Min("released", 2)
	c.Min("site", 5)
	c.Min("waited before release", 6)
	c.Min("owner", 6)
}

// owner: the constructor of an index keeps the mapping and its file, Close releases these.
func (r *release53) owner(kind string) {
	c := r.c
	T := c.P.Named("internal/" + kind)
	pk, tn := splitDot(kind)
	mk := c.need("owner", "internal/"+pk+".New"+tn)
	cl := c.need("owner", "internal/"+pk+".(*"+tn+").Close")
	if T == nil || mk == nil || cl == nil {
		return
	}
	S, ok := under(T).(*types.Struct)
	if !ok {
		c.Bad("owner", kind, mk, "not decided: the type of the index")
		return
	}
	prep := func() *Interp {
		in := c.interp()
		ioHooks(in)
		viewHooks(in)
		in.TraceMem = true
		return in
	}
	parts := map[int]bool{}
	whole, file := -1, -1
	in := prep()
	rets := 0
	for _, o := range c.run(in, mk, in.SymArgs(mk), newState()) {
		if o.Kind != ORet {
			continue
		}
		rets++
		s := newMapState()
		r.walk(mk.Name(), o.St.ev.list(), s, 0, false)
		if !c.Want(len(s.order) == 1 && len(o.Rets) == 1, "owner", kind+" maps", o.Pos, "%d mappings are made for an index, not one", len(s.order)) {
			continue
		}
		mem := s.order[0]
		h := s.m[mem]
		c.Want(h.gone == nil, "owner", kind+" keeps", o.Pos, "the mapping is released before the index is returned")
		_, margs := ioOf(h.ev)
		w, f := -1, -1
		for i := 0; i < S.NumFields(); i++ {
			v := o.St.load(FieldAddrT(o.Rets[0], i, T), S.Field(i).Type())
			if s.refs(v) != nil {
				parts[i] = true
			}
			if fileArg(v) == mem && types.Identical(S.Field(i).Type(), mem.T) {
				w = i
			}
			if len(margs) > 0 && fileArg(v) == fileArg(margs[0]) {
				f = i
			}
		}
		c.Want(w >= 0 && (whole < 0 || whole == w), "owner", kind+" mapping", o.Pos, "the index does not keep the whole mapping, which is what has to be released")
		c.Want(f >= 0 && (file < 0 || file == f), "owner", kind+" file", o.Pos, "the index does not keep the file that is mapped")
		whole, file = w, f
		for _, e := range o.St.ev.list() {
			if op, _ := ioOf(e); op == "close" {
				c.Bad("owner", kind+" file", e.Pos, "the file is closed by the constructor, and again by Close")
			}
		}
	}
	c.Want(rets > 0, "owner", kind, mk, "no path returns an index")
	r.parts[fnName(mk)] = parts
	if whole < 0 || file < 0 {
		return
	}
	in = prep()
	args := in.SymArgs(cl)
	st := newState()
	mem := st.load(FieldAddrT(args[0], whole, T), S.Field(whole).Type())
	f := st.load(FieldAddrT(args[0], file, T), S.Field(file).Type())
	outs := c.run(in, cl, args, st)
	rets = 0
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		rets++
		unmaps, closes := 0, 0
		gone := false
		eachEv(o.St.ev.list(), func(e *Ev) {
			op, a := ioOf(e)
			if e.Loop != nil {
				eachEv([]*Ev{e}, func(x *Ev) {
					if op, _ := ioOf(x); op != "" {
						c.Bad("owner", kind+" close", x.Pos, "not decided: files are released in a loop")
					}
				})
			}
			switch op {
			case "unmap":
				r.seen[e.Pos] = true
				unmaps++
				gone = true
				c.Want(len(a) > 0 && fileArg(a[0]) == mem, "owner", kind+" close mapping", e.Pos, "what is released is %v, not the mapping that the index keeps", a)
			case "close":
				closes++
				c.Want(len(a) > 0 && fileArg(a[0]) == f, "owner", kind+" close file", e.Pos, "what is closed is %v, not the file that the index keeps", a)
			case "":
				if gone && e.Kind == "load" && e.Args[0].contains(mem) {
					c.Bad("owner", kind+" close", e.Pos, "mapped memory is read after the mapping was released")
				}
			default:
				c.Bad("owner", kind+" close", e.Pos, "closing an index does something else with files (%s)", op)
			}
		})
		c.Want(unmaps == 1 && closes == 1, "owner", kind+" close once", o.Pos, "closing an index releases %d mappings and closes %d files, not one each", unmaps, closes)
	}
	c.Want(rets > 0, "owner", kind+" close", cl, "Close never returns")
}

func splitDot(s string) (string, string) {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[:i], s[i+1:]
		}
	}
	return "", s
}
