package main

// C04, C05, C06 (block half): the PBF messages against the published schema.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// SchemaField is one field of the OSM PBF format.
type SchemaField struct {
	Num    int
	Wire   int      // 0 varint, 2 length-delimited
	Kind   string   // varint, bytes, string, packed, msg, skip
	Codec  string   // packed: kind of the elements
	Bits   int      // significant bits of the value
	Msg    string   // nested message
	Rep    bool     // repeated (one field per element)
	Def    int64    // default of an integer field
	Member []string // customary names of the members holding it, in this code base
}

func (f *SchemaField) key() int64 { return int64(f.Num<<3 | f.Wire) }

// pbfSchema is taken from the OSM PBF format definition (fileformat.proto, osmformat.proto).
var pbfSchema = map[string][]*SchemaField{
	"BlobHeader": {
		{Num: 1, Wire: 2, Kind: "string", Member: []string{"Type"}},
		{Num: 3, Wire: 0, Kind: "varint", Bits: 32, Member: []string{"DataSize"}},
	},
	"Blob": {
		{Num: 1, Wire: 2, Kind: "bytes", Member: []string{"Raw"}},
		{Num: 2, Wire: 0, Kind: "varint", Bits: 32, Member: []string{"RawSize"}},
		{Num: 3, Wire: 2, Kind: "bytes", Member: []string{"ZLibData"}},
	},
	"PrimitiveBlock": {
		{Num: 1, Wire: 2, Kind: "msg", Msg: "StringTable", Member: []string{"StringTable", "StringTableRaw"}},
		{Num: 2, Wire: 2, Kind: "msg", Msg: "PrimitiveGroup", Rep: true, Member: []string{"PrimitiveGroup"}},
		{Num: 17, Wire: 0, Kind: "varint", Bits: 32, Def: 100, Member: []string{"Granularity"}},
		{Num: 18, Wire: 0, Kind: "varint", Bits: 32, Def: 1000, Member: []string{"DateGranularity"}},
		{Num: 19, Wire: 0, Kind: "varint", Bits: 64, Member: []string{"LatOffset"}},
		{Num: 20, Wire: 0, Kind: "varint", Bits: 64, Member: []string{"LonOffset"}},
	},
	"PrimitiveGroup": {
		{Num: 2, Wire: 2, Kind: "msg", Msg: "DenseNodes", Member: []string{"Dense", "RawDense"}},
		{Num: 3, Wire: 2, Kind: "msg", Msg: "Way", Rep: true, Member: []string{"Ways", "RawWays"}},
		{Num: 4, Wire: 2, Kind: "msg", Msg: "Relation", Rep: true, Member: []string{"Relations", "RawRelations"}},
		{Num: 5, Wire: 2, Kind: "skip"},
	},
	"DenseNodes": {
		{Num: 1, Wire: 2, Kind: "packed", Codec: "zigzag-delta", Bits: 64, Member: []string{"Id"}},
		{Num: 5, Wire: 2, Kind: "skip"},
		{Num: 8, Wire: 2, Kind: "packed", Codec: "zigzag-delta", Bits: 64, Member: []string{"Lat"}},
		{Num: 9, Wire: 2, Kind: "packed", Codec: "zigzag-delta", Bits: 64, Member: []string{"Lon"}},
		{Num: 10, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"KeyVals"}},
	},
	"Way": {
		{Num: 1, Wire: 0, Kind: "varint", Bits: 64, Member: []string{"ID"}},
		{Num: 2, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"Keys"}},
		{Num: 3, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"Vals"}},
		{Num: 4, Wire: 2, Kind: "skip"},
		{Num: 8, Wire: 2, Kind: "packed", Codec: "zigzag-delta", Bits: 64, Member: []string{"Refs"}},
	},
	"Relation": {
		{Num: 1, Wire: 0, Kind: "varint", Bits: 64, Member: []string{"ID"}},
		{Num: 2, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"Keys"}},
		{Num: 3, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"Vals"}},
		{Num: 4, Wire: 2, Kind: "skip"},
		{Num: 8, Wire: 2, Kind: "packed", Codec: "varint", Bits: 32, Member: []string{"RolesSID"}},
		{Num: 9, Wire: 2, Kind: "packed", Codec: "zigzag-delta", Bits: 64, Member: []string{"MemIDs"}},
		{Num: 10, Wire: 2, Kind: "packed", Codec: "varint", Bits: 2, Member: []string{"MemberType"}},
	},
	"StringTable": {
		{Num: 1, Wire: 2, Kind: "string", Rep: true, Member: []string{"S"}},
	},
}

var schemaNames = []string{"Blob", "BlobHeader", "DenseNodes", "PrimitiveBlock", "PrimitiveGroup", "Relation", "StringTable", "Way"}

func init() {
	register("C04", "Abstract interpretation of every message reader and writer of package t against the published schema: on each path of an arbitrary iteration of the reader the field numbers and wire types accepted are computed from the path facts, and the member changed and its encoding must be the schema's; each path of the writer must append exactly the schema's key and encoding of the member that the reader fills from that key, or leave the field out only where the path facts imply that the member has the value the reader gives an absent field.",
		checkC04, "the codecs, embedders and length-delimited fields are as C01, C02, C03 and C40 decide")
	register("C05", "Abstract interpretation of every message reader of package t: the loop over the message must start at its first byte and may only end at its end, each iteration consumes exactly one field, a path that accepts a field must store it or be one of the documented drops, an occurrence of a repeated field is appended to the ones before it with a message object of its own, and every field number and wire type outside of the schema must abort.",
		checkC05, "the codecs and length-delimited fields are as C01, C03 and C40 decide")
}

// readerPath is one path of the reader's iteration.
type readerPath struct {
	It     *Iter
	Field  *SchemaField
	Keys   []int64
	P1     *Term         // cursor behind the key
	Change map[int]*Term // member index -> new value
	Old    map[int]*Term // member index -> loop variable
	Next   *Term         // cursor at the end
	Name   string
}

type readerInfo struct {
	M     *Message
	In    *Interp
	L     *LoopInfo
	Buf   *Term
	Cur   *Term
	Init  map[int]*Term // value of a member before the loop
	Final map[int]*Term // value returned
	Paths []*readerPath
	Outs  []*Outcome
	Key   *Term
	S     *types.Struct
	Ptr   *Term
	Args  []*Term
}

// testKeys are the key values tried on each path: all small ones and some that differ beyond 32 bits.
func testKeys() []int64 {
	var r []int64
	for k := int64(0); k < 1024; k++ {
		r = append(r, k)
	}
	for _, f := range []int64{1 << 8, 1 << 16, 1 << 29, 1 << 31, 1 << 32, 1 << 35, -1 << 63} {
		for k := int64(0); k < 256; k++ {
			r = append(r, f+k)
		}
	}
	return r
}

// keyConsistent reports whether the facts of st allow key == k.
func keyConsistent(st *State, key *Term, k int64) bool {
	for c, v := range st.lits {
		if !c.contains(key) {
			continue
		}
		x := subst(c, key, Int(k))
		if x.K == KBool && (x == tTrue) != v {
			return false
		}
	}
	if b, ok := st.ivs[key]; ok && (k < b.lo || k > b.hi) {
		return false
	}
	return true
}

func readerOf(c *Ctx, rule string, m *Message) *readerInfo {
	in := c.interp()
	in.KeepPaths = true
	wireHooks(in)
	msgHooks(in, map[string]bool{m.Name: true})
	fn := m.Read
	args := in.SymArgs(fn)
	st := newState()
	r := &readerInfo{M: m, In: in, Args: args, Buf: args[m.BufArg], Init: map[int]*Term{}, Final: map[int]*Term{}, S: under(m.T).(*types.Struct)}
	if m.PtrArg >= 0 {
		r.Ptr = args[m.PtrArg]
	}
	r.Outs = c.run(in, fn, args, st)
	var ret *Outcome
	for _, o := range r.Outs {
		if o.Kind != ORet {
			continue
		}
		if ret != nil {
			c.Bad(rule, "t."+m.Name+" reader", o.Pos, "returns in more than one way")
			return nil
		}
		ret = o
	}
	if ret == nil {
		c.Bad(rule, "t."+m.Name+" reader", fn, "never returns")
		return nil
	}
	n := 0
	for e := ret.St.ev; e != nil; e = e.Prev {
		if e.Kind == "loop" {
			n++
			r.L = e.Loop
		}
	}
	if n != 1 {
		c.Bad(rule, "t."+m.Name+" reader", fn, "%d loops over the message instead of one", n)
		return nil
	}
	// final values
	for i := 0; i < r.S.NumFields(); i++ {
		var v *Term
		if r.Ptr != nil {
			v = ret.St.load(FieldAddrT(r.Ptr, i, m.T), r.S.Field(i).Type())
		} else {
			v = Field(ret.Rets[0], i, r.S.Field(i).Type())
		}
		r.Final[i] = v
	}
	// cursor: the variable that starts at 0 and is used to read the key
	for _, lv := range r.L.Order {
		if lv.Init != Int(0) {
			continue
		}
		if k, v := ret.St.decide(Lt(lv.Sym, Len(r.Buf), false)); !k || v {
			continue
		}
		key := dvi(r.Buf, lv.Sym)
		used := len(r.L.Iters) > 0
		for _, it := range r.L.Iters {
			u := false
			for f := range it.St.lits {
				if f.contains(key) {
					u = true
				}
			}
			used = used && u
		}
		if used {
			r.Cur, r.Key = lv.Sym, key
		}
	}
	if r.Cur == nil {
		c.Bad(rule, "t."+m.Name+" reader", r.L.Pos, "no cursor that starts at the first byte, reads a key in every iteration and has reached the end of the message when the loop is left")
		return nil
	}
	mem := map[*Term]int{}
	for i, v := range r.Final {
		if lv := loopVarOf(v); lv != nil && lv.Loop == r.L {
			if j, dup := mem[v]; dup {
				c.Bad(rule, "t."+m.Name+" reader", fn, "members %s and %s get the same value", r.S.Field(i).Name(), r.S.Field(j).Name())
			}
			mem[v] = i
			r.Init[i] = lv.Init
		} else {
			r.Init[i] = v
		}
	}
	keys := testKeys()
	for _, it := range r.L.Iters {
		p := &readerPath{It: it, Change: map[int]*Term{}, Old: map[int]*Term{}}
		for _, k := range keys {
			if keyConsistent(it.St, r.Key, k) {
				p.Keys = append(p.Keys, k)
			}
		}
		if len(p.Keys) == 1 {
			for _, f := range pbfSchema[m.Name] {
				if f.key() == p.Keys[0] {
					p.Field = f
				}
			}
		}
		p.P1 = Add(r.Cur, vlen(r.Buf, r.Cur))
		p.Next = it.Next[r.Cur]
		for v, i := range mem {
			if n := it.Next[v]; n != v {
				p.Change[i] = n
				p.Old[i] = v
			}
		}
		switch {
		case p.Field != nil:
			p.Name = fmt.Sprintf("t.%s reader, field %d", m.Name, p.Field.Num)
		case len(p.Keys) == 1:
			p.Name = fmt.Sprintf("t.%s reader, key %d", m.Name, p.Keys[0])
		default:
			p.Name = fmt.Sprintf("t.%s reader, %d keys", m.Name, len(p.Keys))
		}
		r.Paths = append(r.Paths, p)
	}
	return r
}

func (r *readerInfo) member(i int) string { return r.S.Field(i).Name() }

func (p *readerPath) members() []int {
	var l []int
	for i := range p.Change {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

// classify describes what a member gets from the field at p1: the stored value without the repetition.
func (r *readerInfo) classify(p *readerPath, i int) (kind, detail string, rep bool, obj *Term, next *Term) {
	v := p.Change[i]
	T := r.S.Field(i).Type()
	if v.isOp("app") && len(v.Args) == 2 && v.Args[0] == p.Old[i] {
		rep = true
		v = v.Args[1]
		T = elemType(T)
	}
	fb, end := fbytes(r.Buf, p.P1), fend(r.Buf, p.P1)
	dv := dvi(r.Buf, p.P1)
	vend := Add(p.P1, vlen(r.Buf, p.P1))
	switch {
	case v == fb:
		return "bytes", "", rep, nil, end
	case v.isOp("b2s") && v.Args[0] == fb:
		return "string", "", rep, nil, end
	case v.isOp("dec") && v.Args[0] == fb:
		for _, l := range r.In.P.listCodecs() {
			if l.Name == v.S && l.Decode {
				return "packed", fmt.Sprintf("%s/%d", l.kind(), l.Bits), rep, nil, end
			}
		}
		return "packed", v.S, rep, nil, end
	case isInteger(T) && v == Conv(dv, T):
		return "varint", fmt.Sprint(intWidth(T)), rep, nil, vend
	case isInteger(T) && v == Conv(unzz(dv), T):
		return "zigzag varint", fmt.Sprint(intWidth(T)), rep, nil, vend
	}
	if pt, ok := under(T).(*types.Pointer); ok && isObj(v) {
		el := pt.Elem()
		if isInteger(el) && p.It.St.load(v, el) == Conv(dv, el) {
			return "varint", fmt.Sprint(intWidth(el)), rep, v, vend
		}
		if n, ok := el.(*types.Named); ok {
			s, ok := n.Underlying().(*types.Struct)
			if ok {
				good := s.NumFields() > 0
				for j := 0; j < s.NumFields(); j++ {
					f := p.It.St.load(FieldAddrT(v, j, n), s.Field(j).Type())
					if !f.isOp("msgf") || f.S != n.Obj().Name()+"."+s.Field(j).Name() || f.Args[0] != fb {
						good = false
					}
				}
				if good {
					return "msg", n.Obj().Name(), rep, v, end
				}
			}
		}
	}
	return fmt.Sprintf("%v", v), "", rep, nil, nil
}

// schemaMatch reports whether what a member receives is what the schema says.
func schemaMatch(f *SchemaField, kind, detail string) bool {
	switch f.Kind {
	case "varint":
		if kind != "varint" {
			return false
		}
		w := 0
		fmt.Sscan(detail, &w)
		return w >= f.Bits
	case "bytes", "string":
		return kind == "bytes" || kind == "string"
	case "msg":
		return kind == "msg" && detail == f.Msg || kind == "bytes"
	case "packed":
		if kind != "packed" || !strings.HasPrefix(detail, f.Codec+"/") {
			return false
		}
		w := 0
		fmt.Sscan(detail[len(f.Codec)+1:], &w)
		return w >= f.Bits
	}
	return false
}

func checkC04(c *Ctx) {
	ms := c.P.messages()
	for _, name := range schemaNames {
		m := ms[name]
		if m == nil || m.Read == nil || m.Write == nil {
			c.Bad("anchor", "t."+name, nil, "message type, its reader or its writer not found")
			continue
		}
		var reads map[int64]map[string]bool
		c.Try("schema-read", "t."+name+" reader", m.Read, func() { reads = c04Reader(c, m) })
		c.Try("schema-write", "t."+name+" writer", m.Write, func() { c04Writer(c, m, reads) })
	}
	c.Min("schema-read", 25)
	c.Min("schema-write", 25)
}

// c04Reader returns for every key the members filled from it.
func c04Reader(c *Ctx, m *Message) map[int64]map[string]bool {
	r := readerOf(c, "schema-read", m)
	if r == nil {
		return nil
	}
	res := map[int64]map[string]bool{}
	owner := map[int]int64{}
	for _, p := range r.Paths {
		if p.Field == nil || p.Field.Kind == "skip" {
			continue // C05
		}
		f := p.Field
		ms := p.members()
		if len(ms) != 1 {
			if len(ms) > 1 {
				c.Bad("schema-read", p.Name, r.L.Pos, "one field changes %d members", len(ms))
			}
			continue // C05
		}
		i := ms[0]
		kind, detail, rep, _, next := r.classify(p, i)
		ok := schemaMatch(f, kind, detail)
		c.Want(ok, "schema-read", p.Name+" encoding", r.L.Pos, "%s.%s gets %s %s; the schema has %s %s", m.Name, r.member(i), kind, detail, f.Kind, f.Codec+f.Msg)
		if ok {
			c.Want(rep == f.Rep, "schema-read", p.Name+" repetition", r.L.Pos, "repeated is %v in the schema", f.Rep)
			c.Want(p.Next == next, "schema-read", p.Name+" extent", r.L.Pos, "the cursor moves to %v, the field ends at %v", p.Next, next)
		}
		if k, dup := owner[i]; dup && k != f.key() {
			c.Bad("schema-read", p.Name+" member", r.L.Pos, "%s.%s is filled from two different fields", m.Name, r.member(i))
		}
		owner[i] = f.key()
		if res[f.key()] == nil {
			res[f.key()] = map[string]bool{}
		}
		res[f.key()][r.member(i)] = true
		customary(c, "schema-read", p.Name+" member", m, f, r.member(i), r.L.Pos)
		// default of an absent field
		if f.Kind == "varint" {
			T := r.S.Field(i).Type()
			if isInteger(T) {
				init := r.Init[i]
				isDef := init == Int(f.Def)
				if f.Def == 0 && r.Ptr != nil {
					isDef = isDef || init == newState().load(FieldAddrT(r.Ptr, i, m.T), T)
				}
				c.Want(isDef, "schema-read", p.Name+" default", r.L.Pos, "an absent field reads as %v, its default is %d", init, f.Def)
			}
		}
	}
	for _, f := range pbfSchema[m.Name] {
		if f.Kind == "skip" {
			continue
		}
		c.Want(len(res[f.key()]) > 0, "schema-read", fmt.Sprintf("t.%s reader, field %d", m.Name, f.Num), r.L.Pos, "the field is not read with wire type %d", f.Wire)
	}
	// members of absent fields stay as the caller gave them
	for _, i := range sortedKeys(r.Init) {
		if _, ok := owner[i]; ok || r.Ptr == nil {
			continue
		}
		was := newState().load(FieldAddrT(r.Ptr, i, m.T), r.S.Field(i).Type())
		c.Want(r.Final[i] == was, "schema-read", "t."+m.Name+" reader, member "+r.member(i), r.L.Pos, "is set to %v without a field", r.Final[i])
	}
	return res
}

func sortedKeys[V any](m map[int]V) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// customary: where the struct has a member of the field's customary name, that member holds the field.
func customary(c *Ctx, rule, cons string, m *Message, f *SchemaField, got string, pos any) {
	for _, n := range f.Member {
		if n == got {
			return
		}
	}
	for _, n := range f.Member {
		if FieldIndex(m.T, n) >= 0 {
			c.Bad(rule, cons, pos, "field %d (%s) is kept in member %s", f.Num, strings.Join(f.Member, "/"), got)
			return
		}
	}
	// also not in the member of another field
	for _, g := range pbfSchema[m.Name] {
		for _, n := range g.Member {
			if g != f && n == got {
				c.Bad(rule, cons, pos, "field %d is kept in member %s, which is field %d", f.Num, got, g.Num)
			}
		}
	}
}

// ---- C05 ----

func checkC05(c *Ctx) {
	ms := c.P.messages()
	for _, name := range schemaNames {
		m := ms[name]
		if m == nil || m.Read == nil {
			c.Bad("anchor", "t."+name, nil, "message type or its reader not found")
			continue
		}
		c.Try("field-kept", "t."+name+" reader", m.Read, func() { c05Reader(c, m) })
	}
	for fl, at := range sectionOf {
		name := fmt.Sprintf("t.%s reader, field %d", at.Msg, at.Num)
		sec := c.sections()[fl]
		if sec == nil || sec.err != "" {
			c.Bad("section-selected", name, ms[at.Msg].Read, "not decided: which option leaves the section undecoded")
			continue
		}
		// an option of the customary name means what it says
		c.Want(sec.always || !sec.never && (sec.name != fl || sec.rawWhen), "section-selected", name, sec.pos, "the section is kept undecoded although the reader is to decode it (%s)", fl)
		c.Want(sec.always || !c.readerHas(ms[at.Msg], fl) || sec.name == fl, "section-selected", name+" option", sec.pos, "whether the section is decoded depends on %s, not on %s", sec.name, fl)
	}
	c.Min("section-selected", 4)
	c.readsIntoEmpty("empty-message", "")
	c.Min("empty-message", 10)
	c.Min("field-kept", 25)
	c.Min("unknown-aborts", 8)
	c.Min("whole-message", 8)
}

// readerHas reports whether the receiver of the message's reader has a member of this name.
func (c *Ctx) readerHas(m *Message, member string) bool {
	r := m.Read.Signature.Recv()
	if r == nil {
		return false
	}
	T := r.Type()
	if pt, ok := under(T).(*types.Pointer); ok {
		T = pt.Elem()
	}
	return FieldIndex(T, member) >= 0
}

// readsIntoEmpty: the stages read messages (of type only, if given) into empty ones. A reader adds to what the
// message holds; parts of an earlier message would be taken for parts of this one.
func (c *Ctx) readsIntoEmpty(rule, only string) {
	for _, s := range c.stages(rule, nil) {
		if s.Err != "" {
			c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
			continue
		}
		for _, o := range s.Outs {
			eachEv(o.St.ev.list(), func(e *Ev) {
				if only != "" && e.Name != only {
					return
				}
				switch e.Kind {
				case "readinto":
					c.Ok(rule, s.name()+" "+e.Name, e.Pos, "")
				case "readonto":
					c.Bad(rule, s.name()+" "+e.Name, e.Pos, "the message read into still holds parts of an earlier one")
				}
			})
		}
	}
}

func c05Reader(c *Ctx, m *Message) {
	r := readerOf(c, "whole-message", m)
	if r == nil {
		return
	}
	name := "t." + m.Name + " reader"
	c.Ok("whole-message", name, r.L.Pos, "from byte 0 to the end")
	for _, lp := range r.L.Iters {
		k, v := lp.St.decide(Lt(r.Cur, Len(r.Buf), false))
		c.Want(k && v, "whole-message", name+" bound", r.L.Pos, "a field is read although the message may have ended")
	}
	for i := range r.Final {
		// nothing is taken back after the loop
		if lv := loopVarOf(r.Final[i]); lv != nil && lv.Loop == r.L {
			continue
		}
		touched := false
		for _, lv := range r.L.Order {
			if lv.Cell != nil && r.Ptr != nil && lv.Cell == FieldAddrT(r.Ptr, i, m.T) {
				touched = true
			}
		}
		c.Want(!touched, "field-kept", name+", member "+r.member(i), r.L.Pos, "what was read into it is replaced by %v after the loop", r.Final[i])
	}
	for _, p := range r.Paths {
		if p.Field == nil {
			c.Bad("unknown-aborts", p.Name, r.L.Pos, "a field that is not part of the message is accepted (keys %v%s)", trunc(p.Keys, 6), map[bool]string{true: " ...", false: ""}[len(p.Keys) > 6])
			continue
		}
		ms := p.members()
		if p.Field.Kind == "skip" {
			c.Want(len(ms) == 0, "field-kept", p.Name+" skipped", r.L.Pos, "a dropped field changes a member")
			c.Want(p.Next == fend(r.Buf, p.P1), "field-kept", p.Name+" extent", r.L.Pos, "the cursor moves to %v", p.Next)
			continue
		}
		if !c.Want(len(ms) == 1, "field-kept", p.Name, r.L.Pos, "the field is accepted but stored in %d members", len(ms)) {
			continue
		}
		kind, _, rep, obj, next := r.classify(p, ms[0])
		if next == nil {
			c.Bad("field-kept", p.Name+" value", r.L.Pos, "%s.%s becomes %s, which is not the field's content", m.Name, r.member(ms[0]), kind)
			continue
		}
		c.Want(p.Next == next, "field-kept", p.Name+" extent", r.L.Pos, "the cursor moves to %v, the field ends at %v", p.Next, next)
		if p.Field.Rep {
			c.Want(rep, "field-kept", p.Name+" repetition", r.L.Pos, "an occurrence of a repeated field replaces the ones before it")
		}
		if obj != nil {
			c.Want(objNum(obj) > r.L.ObjMark, "field-kept", p.Name+" own object", r.L.Pos, "every occurrence is read into the same object")
		}
	}
	// unknown keys abort, known ones do not
	known := map[int64]bool{}
	for _, p := range r.Paths {
		for _, k := range p.Keys {
			known[k] = true
		}
	}
	ab := 0
	for _, o := range r.Outs {
		if o.Kind == ORet {
			continue
		}
		ab++
		for _, f := range pbfSchema[m.Name] {
			if keyConsistent(o.St, r.Key, f.key()) {
				c.Bad("field-kept", fmt.Sprintf("%s, field %d", name, f.Num), o.Pos, "the run may abort on this field")
			}
		}
	}
	c.Want(ab > 0, "unknown-aborts", name, r.L.Pos, "no path aborts: a field with an unknown number or wire type must stop the run")
}

func trunc(l []int64, n int) []int64 {
	if len(l) > n {
		return l[:n]
	}
	return l
}

// ---- writers ----

// wField is one field written: its key and payload, or a loop writing one field per element.
type wField struct {
	Key   *Term
	Val   *Term // vi value, bytes value, or lp item
	Lp    bool
	Bytes bool
	LenOK bool
	List  *Term // repeated: the list
	Err   string
}

// parseFields splits what was appended to base.
func parseFields(in *Interp, st *State, t, base *Term, elemT func(*Term) types.Type) ([]*wField, string) {
	var items []any // *Term or *LoopVar
	for t != base {
		switch {
		case t.isOp("appS"):
			items = append(items, t.Args[1])
			t = t.Args[0]
		case loopVarOf(t) != nil:
			lv := loopVarOf(t)
			items = append(items, lv)
			t = lv.Init
			if t == nil {
				return nil, "unknown start of a loop"
			}
		default:
			return nil, fmt.Sprintf("not a sequence of fields appended to the buffer: %v", t)
		}
	}
	for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
		items[i], items[j] = items[j], items[i]
	}
	var res []*wField
	for i := 0; i < len(items); i++ {
		if lv, ok := items[i].(*LoopVar); ok {
			fs, err := loopFields(in, lv)
			if err != "" {
				return nil, err
			}
			res = append(res, fs...)
			continue
		}
		k := items[i].(*Term)
		if !k.isOp("vi") {
			return nil, fmt.Sprintf("no key where a field starts: %v", k)
		}
		f := &wField{Key: k.Args[0]}
		at := func(j int) *Term {
			if j < len(items) {
				t, _ := items[j].(*Term)
				return t
			}
			return nil
		}
		v := at(i + 1)
		switch {
		case v == nil:
			return nil, "a key without a value"
		case v.isOp("lp"):
			f.Val, f.Lp = v, true
			i++
		case v.isOp("vi"):
			if k.Args[0].K == KInt && k.Args[0].I&7 == 2 {
				w := at(i + 2)
				if w != nil && v.Args[0] == Len(w) && !w.isOp("vi") {
					f.Val, f.Bytes = w, true
					i += 2
				} else if v.Args[0] == Int(0) {
					f.Val, f.Bytes = tNil, true
					i++
				} else {
					return nil, fmt.Sprintf("length %v is not that of the bytes after it (%v)", v.Args[0], w)
				}
			} else {
				f.Val = v.Args[0]
				i++
			}
		default:
			return nil, fmt.Sprintf("unexpected value %v", v)
		}
		res = append(res, f)
	}
	return res, ""
}

// loopFields: one field per element of a list.
func loopFields(in *Interp, lv *LoopVar) ([]*wField, string) {
	L := lv.Loop
	var out *wField
	for _, it := range L.Iters {
		n := it.Next[lv.Sym]
		if n == nil {
			return nil, "lost loop value"
		}
		fs, err := parseFields(in, it.St, n, lv.Sym, nil)
		if err != "" {
			return nil, err
		}
		if len(fs) != 1 {
			return nil, fmt.Sprintf("an iteration writes %d fields", len(fs))
		}
		if out != nil && (out.Key != fs[0].Key || out.Val != fs[0].Val) {
			return nil, "iterations write different fields"
		}
		out = fs[0]
	}
	if out == nil {
		return nil, "a loop without iterations"
	}
	// the list: trip == len(list) and the payload is its element K
	if L.Trip == nil || !L.Trip.isOp("len") {
		return nil, fmt.Sprintf("the loop does not run once per element of a list (%v times)", L.Trip)
	}
	out.List = L.Trip.Args[0]
	return []*wField{out}, ""
}

func c04Writer(c *Ctx, m *Message, reads map[int64]map[string]bool) {
	in := c.interp()
	in.KeepPaths = true
	wireHooks(in)
	msgHooks(in, map[string]bool{m.Name: true})
	args := in.SymArgs(m.Write)
	self, buf := args[0], args[1]
	S := under(m.T).(*types.Struct)
	outs := c.run(in, m.Write, args, newState())
	st0 := newState()
	mem := map[*Term]int{}
	for i := 0; i < S.NumFields(); i++ {
		mem[st0.load(FieldAddrT(self, i, m.T), S.Field(i).Type())] = i
	}
	val := func(i int) *Term { return st0.load(FieldAddrT(self, i, m.T), S.Field(i).Type()) }
	bykey := map[int64]*SchemaField{}
	for _, f := range pbfSchema[m.Name] {
		bykey[f.key()] = f
	}
	writes := map[int64]map[int]bool{} // key -> members
	type pathW struct {
		o *Outcome
		w map[int64][]int
	}
	var paths []pathW
	for k, o := range outs {
		pn := fmt.Sprintf("t.%s writer, path %d", m.Name, k)
		if o.Kind != ORet {
			c.Bad("schema-write", pn, o.Pos, "aborts for some message")
			continue
		}
		fs, err := parseFields(in, o.St, o.Rets[0], buf, nil)
		if err != "" {
			c.Bad("schema-write", pn, o.Pos, "%s", err)
			continue
		}
		pw := pathW{o, map[int64][]int{}}
		for _, f := range fs {
			if f.Key.K != KInt {
				c.Bad("schema-write", pn, o.Pos, "a key that is not fixed: %v", f.Key)
				continue
			}
			sf := bykey[f.Key.I]
			if sf == nil || sf.Kind == "skip" {
				c.Bad("schema-write", fmt.Sprintf("t.%s writer, key %d", m.Name, f.Key.I), o.Pos, "writes a field that is not part of the message (number %d, wire type %d)", f.Key.I>>3, f.Key.I&7)
				continue
			}
			cons := fmt.Sprintf("t.%s writer, field %d", m.Name, sf.Num)
			i, what, ok := writerMember(in, o.St, m, S, f, sf, mem)
			if !c.Want(ok, "schema-write", cons+" encoding", o.Pos, "writes %s; the schema has %s %s", what, sf.Kind, sf.Codec+sf.Msg) {
				continue
			}
			if len(pw.w[f.Key.I]) > 0 && !sf.Rep {
				c.Bad("schema-write", cons+" twice", o.Pos, "is written twice")
			}
			pw.w[f.Key.I] = append(pw.w[f.Key.I], i)
			if writes[f.Key.I] == nil {
				writes[f.Key.I] = map[int]bool{}
			}
			writes[f.Key.I][i] = true
		}
		paths = append(paths, pw)
	}
	for i := 0; i < S.NumFields(); i++ {
		if !S.Field(i).Exported() {
			continue
		}
		w := false
		for _, is := range writes {
			w = w || is[i]
		}
		c.Want(w, "schema-write", fmt.Sprintf("t.%s writer, member %s", m.Name, S.Field(i).Name()), m.Write, "what is kept in %s.%s is never written", m.Name, S.Field(i).Name())
	}
	for _, f := range pbfSchema[m.Name] {
		if f.Kind == "skip" {
			continue
		}
		cons := fmt.Sprintf("t.%s writer, field %d", m.Name, f.Num)
		if !c.Want(len(writes[f.key()]) > 0, "schema-write", cons, m.Write, "the field is never written") {
			continue
		}
		// the members written are those read
		for n := range reads[f.key()] {
			i := FieldIndex(m.T, n)
			c.Want(writes[f.key()][i], "schema-write", cons+" member "+n, m.Write, "what the reader keeps in %s.%s is not what the writer writes to this field", m.Name, n)
		}
		for i := range writes[f.key()] {
			n := S.Field(i).Name()
			for k, r := range reads {
				if k != f.key() && r[n] {
					c.Bad("schema-write", cons+" member "+n, m.Write, "the reader fills %s.%s from a different field", m.Name, n)
				}
			}
			if _, isFn := under(S.Field(i).Type()).(*types.Signature); !isFn {
				customary(c, "schema-write", cons+" member", m, f, n, m.Write)
			}
		}
		// left out only at the default
		for k, pw := range paths {
			pn := fmt.Sprintf("%s absent on path %d", cons, k)
			for _, i := range sortedKeys(writes[f.key()]) {
				written := false
				for _, j := range pw.w[f.key()] {
					if j == i {
						written = true
					}
				}
				if written {
					continue
				}
				ok := isDefault(pw.o.St, val(i), S.Field(i).Type(), f)
				for _, j := range pw.w[f.key()] {
					if j != i && nonEmptyKnown(pw.o.St, val(j)) {
						ok = true
					}
				}
				c.Want(ok, "schema-write", pn+" "+S.Field(i).Name(), pw.o.Pos, "the field is left out although %s.%s need not have the default", m.Name, S.Field(i).Name())
			}
		}
	}
}

func nonEmptyKnown(st *State, v *Term) bool {
	if k, b := st.decide(Eq(tNil, v)); k && !b {
		return true
	}
	if k, b := st.decide(Eq(Len(v), Int(0))); k && !b {
		return true
	}
	if k, b := st.decide(Lt(Int(0), Len(v), false)); k && b {
		return true
	}
	return false
}

func isDefault(st *State, v *Term, T types.Type, f *SchemaField) bool {
	yes := func(t *Term) bool { k, b := st.decide(t); return k && b }
	if isInteger(T) {
		return yes(Eq(v, Int(f.Def)))
	}
	if isString(T) {
		return yes(Eq(v, Str(""))) || yes(Eq(Len(v), Int(0))) || emptyLen(st, v)
	}
	if _, ok := under(T).(*types.Slice); ok {
		return yes(Eq(v, tNil)) || yes(Eq(Len(v), Int(0))) || emptyLen(st, v)
	}
	return yes(Eq(v, tNil))
}

func emptyLen(st *State, v *Term) bool {
	_, hi := st.bounds(Len(v))
	return hi <= 0
}

// writerMember identifies the member behind a written field and checks the encoding.
func writerMember(in *Interp, st *State, m *Message, S *types.Struct, f *wField, sf *SchemaField, mem map[*Term]int) (int, string, bool) {
	v := f.Val
	find := func(t *Term) int {
		if i, ok := mem[t]; ok {
			return i
		}
		return -1
	}
	src := v
	if f.List != nil {
		// the payload must be the element with the iteration's index
		i := find(f.List)
		if i < 0 {
			return -1, fmt.Sprintf("the elements of %v", f.List), false
		}
		if !sf.Rep {
			return -1, "a repeated field", false
		}
		el := elemType(S.Field(i).Type())
		L := (*LoopInfo)(nil)
		v.any(func(t *Term) bool {
			if t.isOp("ivar") {
				if l, ok := t.X.(*LoopInfo); ok {
					L = l
				}
			}
			return false
		})
		if L == nil {
			return -1, fmt.Sprintf("%v, not the element", v), false
		}
		want := L.Iters[0].St.elem(f.List, L.K, el)
		return writerValue(in, i, v, want, el, f, sf)
	}
	if sf.Rep {
		return -1, "a single field", false
	}
	// single: try every member
	for t, i := range mem {
		if !v.contains(t) && v != t {
			if !(f.Lp && v.Args[0].isOp("after")) {
				continue
			}
		}
		if j, w, ok := writerValue(in, i, v, t, S.Field(i).Type(), f, sf); ok {
			return j, w, ok
		}
	}
	_ = src
	return -1, fmt.Sprintf("%v", v), false
}

func writerValue(in *Interp, i int, v, want *Term, T types.Type, f *wField, sf *SchemaField) (int, string, bool) {
	bad := fmt.Sprintf("%v", v)
	switch sf.Kind {
	case "varint":
		if f.Lp || f.Bytes {
			return i, bad, false
		}
		if pt, ok := under(T).(*types.Pointer); ok {
			x := newState().load(want, pt.Elem())
			return i, bad, v == Conv(x, tU64)
		}
		return i, bad, v == Conv(want, tU64)
	case "packed":
		if !f.Lp {
			return i, bad, false
		}
		e := v.Args[0]
		if !e.isOp("enc") || e.Args[0] != want {
			return i, bad, false
		}
		for _, l := range in.P.listCodecs() {
			if l.Name == e.S && !l.Decode {
				return i, fmt.Sprintf("%s/%d", l.kind(), l.Bits), l.kind() == sf.Codec && l.Bits >= sf.Bits
			}
		}
		return i, bad, false
	case "bytes", "string", "msg":
		if f.Bytes {
			if v == want {
				return i, "", true
			}
			if v.isOp("s2b") && v.Args[0] == want {
				return i, "", true
			}
			return i, bad, false
		}
		if !f.Lp {
			return i, bad, false
		}
		e := v.Args[0]
		if e.isOp("msg") && e.Args[0] == want {
			return i, "message " + e.S, sf.Kind == "msg" && e.S == sf.Msg
		}
		// content produced by a function held in a member
		if e.isOp("after") && sf.Kind != "msg" {
			if cr, ok := e.Args[1].X.(*CallRes); ok && cr != nil && cr.Ev != nil && len(cr.Ev.Args) > 0 && cr.Ev.Args[0] == want {
				return i, "", true
			}
		}
	}
	return i, bad, false
}
