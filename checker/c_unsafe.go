package main

// C37: reinterpreted memory views.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "Abstract interpretation with a model of slice and interface headers: every function of the module that reinterprets memory (converts to or from unsafe.Pointer) either takes a slice and returns a slice, or takes a slice and a pointer to a slice held by an interface; on every returning path the result's first element, length and capacity are derived as terms and compared with 'same memory, as many whole elements as fit'.  Every call that fills a slice through an interface is checked for an element type of one or two fixed 64-bit words, and no other code of the module uses package unsafe.",
		checkC37, "the host is little-endian with 64-bit words", "the layout of slice and interface headers is the one of the Go runtime")
}

// usesUnsafe: fn converts between pointers and unsafe.Pointer, or uses a builtin of package unsafe.
func usesUnsafe(fn *ssa.Function) ssa.Instruction {
	isU := func(T types.Type) bool {
		b, ok := under(T).(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Convert:
				if isU(ins.Type()) || isU(ins.X.Type()) {
					return ins
				}
			case *ssa.ChangeType:
				if isU(ins.Type()) || isU(ins.X.Type()) {
					return ins
				}
			case *ssa.Call:
				if bi, ok := ins.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "Slice", "SliceData", "String", "StringData", "Add":
						return ins
					}
				}
				if f := ins.Call.StaticCallee(); f != nil && fnPkg(f) == "reflect" && strings.Contains(f.String(), "NewAt") {
					return ins
				}
			}
		}
	}
	return nil
}

var wordSizes = []types.Sizes{types.SizesFor("gc", "amd64"), types.SizesFor("gc", "386")}

// fixedWords: values of the type are n 64-bit words on every platform, without holes or pointers.
func fixedWords(T types.Type) int {
	switch u := under(T).(type) {
	case *types.Basic:
		if u.Kind() == types.Int64 || u.Kind() == types.Uint64 {
			return 1
		}
	case *types.Array:
		if n := fixedWords(u.Elem()); n > 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := fixedWords(u.Field(i).Type())
			if k == 0 {
				return 0
			}
			n += k
		}
		return n
	}
	return 0
}

func sliceElem(T types.Type) types.Type {
	if s, ok := under(T).(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// sizeTerm scales a count of A elements to B elements: what fits, as a set of acceptable terms.
func fits(n *Term, a, b int64) *Term {
	if a%b == 0 {
		return Scale(n, a/b)
	}
	return bitOp("udiv", Scale(n, a), Int(b), types.Typ[types.Int])
}

func checkC37(c *Ctx) {
	// the functions that reinterpret memory, and those that call them for it
	users := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs() {
		if usesUnsafe(fn) != nil {
			users[fn] = true
		}
	}
	covered := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs() {
		if fn.Parent() != nil || fn.Blocks == nil {
			continue
		}
		name := strings.TrimPrefix(fn.String(), modPath+"/")
		sig := fn.Signature
		shape := 0
		if sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && sliceElem(sig.Params().At(0).Type()) != nil && sliceElem(sig.Results().At(0).Type()) != nil {
			shape = 1
		}
		if sig.Recv() == nil && sig.Params().Len() == 2 && sig.Results().Len() == 0 && sliceElem(sig.Params().At(0).Type()) != nil && types.IsInterface(sig.Params().At(1).Type()) {
			shape = 2
		}
		if shape == 0 || !reachesUnsafe(fn, users, map[*ssa.Function]bool{}) {
			continue
		}
		if fnPkg(fn) != modPath+"/internal/iunsafe" && !users[fn] {
			continue // an ordinary function that uses a view
		}
		fn := fn
		c.Try("view", name, fn, func() {
			in := c.interp()
			args := in.SymArgs(fn)
			n := 0
			for _, o := range c.run(in, fn, args, newState()) {
				if o.Kind == ORet {
					n++
					if shape == 1 {
						c.viewResult(name, fn, args[0], o)
					} else {
						c.viewThrough(name, fn, args[0], args[1], o)
					}
				}
			}
			c.Want(n > 0, "view", name+" returns", fn, "the function never returns")
			for f := range in.Visited {
				covered[f] = true
			}
		})
		if shape == 2 {
			c.viewTargets(name, fn)
		}
	}
	c.Min("view", 4)
	c.entryWords("layout")
	c.Min("layout", 5)
	for _, fn := range c.P.Funcs() {
		if users[fn] {
			c.Want(covered[fn], "unsafe-elsewhere", strings.TrimPrefix(fn.String(), modPath+"/"), fn, "reinterprets memory outside the functions whose views are decided")
		}
	}
	for _, n := range []string{"ByteSliceAsInt64Slice", "Int64SliceAsByteSlice", "Uint64SliceAsByteSlice", "ByteSliceAsArbSlice"} {
		c.need("view", "internal/iunsafe."+n)
	}
}

func reachesUnsafe(fn *ssa.Function, users, seen map[*ssa.Function]bool) bool {
	if users[fn] {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && fnPkg(f) == fnPkg(fn) && reachesUnsafe(f, users, seen) {
					return true
				}
			}
		}
	}
	return false
}

// header gives the parts of a slice value.
func header(t *Term) (data, n, cp *Term) {
	if t.isOp("slice") && t.Args[0].isOp("arr") && t.Args[0].Args[0].isOp("hdr") && t.Args[1] == Int(0) {
		return t.Args[0].Args[0].Args[0], t.Args[2], t.Args[3]
	}
	return slicePtr(t), Len(t), capOf(t)
}

func (c *Ctx) viewResult(name string, fn *ssa.Function, in *Term, o *Outcome) {
	A, B := sliceElem(in.T), sliceElem(fn.Signature.Results().At(0).Type())
	sz := wordSizes[0]
	a, b := sz.Sizeof(A), sz.Sizeof(B)
	for _, E := range []types.Type{A, B} {
		if !types.Identical(under(E), tByte) {
			c.Want(fixedWords(E) == 1, "layout", fmt.Sprintf("%s %s", name, E), fn, "elements of type %s are not single 64-bit words on every platform", E)
		}
	}
	data, n, cp := header(o.Rets[0])
	if o.Rets[0] == tNil {
		c.Want(sure(o.St, Eq(Len(in), Int(0))), "view", name+" nil", fn, "returns nil for a slice that need not be empty")
		return
	}
	c.Want(samePtr(data, in), "view", name+" memory", fn, "the result starts at %v instead of the first element of the argument", data)
	c.Want(equal(o.St, n, fits(Len(in), a, b)), "view", name+" length", fn, "the length is %v; %v elements fit", n, fits(Len(in), a, b))
	c.Want(equal(o.St, cp, fits(capOf(in), a, b)) || equal(o.St, cp, fits(Len(in), a, b)), "view", name+" capacity", fn, "the capacity is %v; between %v and %v elements fit", cp, fits(Len(in), a, b), fits(capOf(in), a, b))
}

// samePtr: p is the address of the first element of s.
func samePtr(p, s *Term) bool {
	p = unconv(p)
	if p == slicePtr(s) {
		return true
	}
	arr, lo := arrOf(s)
	return p.isOp("idx") && p.Args[0] == arr && p.Args[1] == lo
}

func (c *Ctx) viewThrough(name string, fn *ssa.Function, in, out *Term, o *Outcome) {
	a := wordSizes[0].Sizeof(sliceElem(in.T))
	// the words written through the interface
	var w [3]*Term
	for cell, v := range o.St.heap {
		if cell.isOp("fld") {
			T, _ := cell.X.(types.Type)
			p := unconv(cell.Args[0])
			if T != nil && headerShape(T, 3) && p.isOp("ifdata") && p.Args[0] == out {
				w[cell.S[0]-'0'] = v
			}
		}
	}
	if w[0] == nil || w[1] == nil || w[2] == nil {
		c.Bad("view", name+" words", fn, "a path returns without setting address, length and capacity of the target")
		return
	}
	// the size of an element, as reflection gives it
	kinds := 0
	var size *Term
	is := func(t *Term, f string) bool {
		return t.isOp("pure") && strings.HasSuffix(t.S, f)
	}
	typ := func(t *Term) bool { return is(t, "reflect.TypeOf") && t.Args[0] == out }
	ptr := func(t *Term) bool { return is(t, "(reflect.Type).Elem") && typ(t.Args[0]) }
	elem := func(t *Term) bool { return is(t, "(reflect.Type).Elem") && ptr(t.Args[0]) }
	isSize := func(t *Term) bool { return is(t, "(reflect.Type).Size") && elem(t.Args[0]) }
	for cond, val := range o.St.lits {
		if !val || !cond.isOp("eq") {
			continue
		}
		for i := 0; i < 2; i++ {
			k, n := cond.Args[i], cond.Args[1-i]
			if is(k, "(reflect.Type).Kind") {
				switch {
				case typ(k.Args[0]) && n == Int(22):
					kinds |= 1
				case ptr(k.Args[0]) && n == Int(23):
					kinds |= 2
				}
			}
		}
	}
	c.Want(kinds == 3, "view", name+" target", fn, "the target is not known to be a pointer to a slice when it is written")
	w[1].any(func(t *Term) bool {
		if isSize(t) {
			size = t
		}
		return false
	})
	c.Want(samePtr(w[0], in), "view", name+" memory", fn, "the result starts at %v instead of the first element of the argument", w[0])
	if size == nil {
		c.Bad("view", name+" length", fn, "the length %v is not a number of elements of the target", w[1])
		return
	}
	want := func(n *Term) []*Term {
		n = Scale(n, a)
		return []*Term{bitOp("udiv", n, size, types.Typ[types.Int]), bitOp("div", n, size, types.Typ[types.Int])}
	}
	ok := func(t *Term, n *Term) bool {
		for _, x := range want(n) {
			if equal(o.St, t, x) {
				return true
			}
		}
		return false
	}
	c.Want(ok(w[1], Len(in)), "view", name+" length", fn, "the length is %v; %v elements fit", w[1], want(Len(in))[0])
	c.Want(ok(w[2], Len(in)) || ok(w[2], capOf(in)), "view", name+" capacity", fn, "the capacity is %v; %v elements fit", w[2], want(Len(in))[0])
}

// viewTargets: what is viewed through fn has the layout of the file formats.
func (c *Ctx) viewTargets(name string, fn *ssa.Function) {
	for _, g := range c.P.Funcs() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != fn {
					continue
				}
				at := strings.TrimPrefix(g.String(), modPath+"/")
				mi, ok := call.Common().Args[1].(*ssa.MakeInterface)
				if !ok {
					c.Bad("layout", at, call, "not decided: the target of the view is not known here")
					continue
				}
				pt, ok := under(mi.X.Type()).(*types.Pointer)
				if !ok || sliceElem(pt.Elem()) == nil {
					c.Bad("layout", at, call, "the target of the view is a %s, not a pointer to a slice", mi.X.Type())
					continue
				}
				E := sliceElem(pt.Elem())
				n := fixedWords(E)
				c.Want(n == 1 || n == 2, "layout", fmt.Sprintf("%s %s", at, E), call, "elements of type %s are not one or two 64-bit words on every platform", E)
			}
		}
	}
}

// entryWords: the first word of a node index entry is the first id, the second its count and offset.
func (c *Ctx) entryWords(rule string) {
	E := c.P.Named("internal/nodeindex.IndexElement")
	if E == nil {
		c.Bad(rule, "IndexElement", nil, "the type of the entries was not found")
		return
	}
	var w []*Term
	var build func(T types.Type) *Term
	build = func(T types.Type) *Term {
		if s, ok := under(T).(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, build(s.Field(i).Type()))
			}
			return Struct(T, fs)
		}
		y := Sym(fmt.Sprintf("word%d", len(w)), T, nil)
		w = append(w, y)
		return y
	}
	e := build(E)
	if a, ok := under(E).(*types.Array); ok {
		w = nil
		for i := int64(0); i < a.Len(); i++ {
			w = append(w, Select(e, Int(i), a.Elem()))
		}
	}
	c.Try(rule, "words of an entry", E.Obj(), func() {
		if len(w) != 2 {
			c.Bad(rule, "words of an entry", E.Obj(), "an entry has %d words", len(w))
			return
		}
		for _, n := range []string{"FirstID", "Count", "Offset"} {
			f := c.accessor("internal/nodeindex.IndexElement." + n)
			if f == nil {
				c.Bad(rule, "words of an entry", E.Obj(), "%s not found", n)
				continue
			}
			v := f(e)
			uses := func(x *Term) bool { return v.any(func(t *Term) bool { return t == x }) }
			if n == "FirstID" {
				c.Want(v == w[0], rule, n+" word", E.Obj(), "the first id is read as %v instead of the first word of the entry", v)
			} else {
				c.Want(uses(w[1]) && !uses(w[0]), rule, n+" word", E.Obj(), "%s is not read from the second word of the entry (%v)", n, v)
			}
		}
	})
}
