package main

// Summaries of the wire layer (package pb) used when other code is analysed.  Each summary is justified by
// the check named with it; functions that are not listed here are interpreted.

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ListCodec describes one packed list codec by what its name and signature promise.
type ListCodec struct {
	Fn     *ssa.Function
	Name   string
	Decode bool
	Zig    bool
	Delta  bool
	Zero   bool // zero-terminated instead of length-prefixed
	Func   bool // returns the encoder as a function
	Bits   int
	Elem   types.Type
}

// kind of the wire format of the elements.
func (l *ListCodec) kind() string {
	k := "varint"
	if l.Zig {
		k = "zigzag"
	}
	if l.Delta {
		k += "-delta"
	}
	if l.Zero {
		k += "-zero"
	}
	return k
}

var listName = regexp.MustCompile(`^(Encode|Decode)([SIU])(32|64)Packed(Delta)?(Zero)?(Func)?$`)

func (p *Program) listCodecs() []*ListCodec {
	sp := p.SSA[modPath+"/internal/pb"]
	if sp == nil {
		return nil
	}
	var r []*ListCodec
	for name, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		g := listName.FindStringSubmatch(name)
		if g == nil {
			continue
		}
		l := &ListCodec{Fn: fn, Name: name, Decode: g[1] == "Decode", Zig: g[2] == "S", Delta: g[4] != "", Zero: g[5] != "", Bits: 64}
		if g[3] == "32" {
			l.Bits = 32
		}
		sg := fn.Signature
		if sg.Results().Len() != 1 {
			continue
		}
		if l.Decode {
			if s, ok := under(sg.Results().At(0).Type()).(*types.Slice); ok {
				l.Elem = s.Elem()
			}
		} else {
			for i := 0; i < sg.Params().Len(); i++ {
				if s, ok := under(sg.Params().At(i).Type()).(*types.Slice); ok && !types.Identical(s.Elem(), tByte) {
					l.Elem = s.Elem()
				}
			}
			_, l.Func = under(sg.Results().At(0).Type()).(*types.Signature)
		}
		if l.Elem == nil {
			continue
		}
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// fbytes is the payload of the length-delimited field whose length starts at position at of s.
func fbytes(s, at *Term) *Term { return Op("fbytes", "", tBytes, s, at) }
func fend(s, at *Term) *Term   { return Op("fend", "", tInt, s, at) }
func dvi(s, at *Term) *Term    { return Op("dvi", "", tU64, s, at) }
func vlen(s, at *Term) *Term   { return Op("vlen", "", tInt, s, at) }

// bytesHooks: ReadBytes, DecodeBytes and SkipBytes (C40).
func bytesHooks(in *Interp) {
	for _, n := range []string{"ReadBytes", "DecodeBytes"} {
		in.Hooks[pbp+n] = func(in *Interp, c *CallCtx) []*Outcome {
			at := c.St.load(c.Args[1], tInt)
			s := c.St.snap(c.Args[0], tByte)
			c.St.store(c.Args[1], fend(s, at), tInt)
			return retOne(c.St, fbytes(s, at))
		}
	}
	in.Hooks[pbp+"SkipBytes"] = func(in *Interp, c *CallCtx) []*Outcome {
		at := c.St.load(c.Args[1], tInt)
		s := c.St.snap(c.Args[0], tByte)
		c.St.store(c.Args[1], fend(s, at), tInt)
		return []*Outcome{{Kind: ORet, St: c.St}}
	}
}

// listHooks: the packed list codecs (C03).
func listHooks(in *Interp) {
	for _, l := range in.P.listCodecs() {
		l := l
		switch {
		case l.Decode && l.Zero:
			in.Hooks[pbp+l.Name] = func(in *Interp, c *CallCtx) []*Outcome {
				return retOne(c.St, Op("dec", l.Name, c.Sig.Results().At(0).Type(), c.St.snap(c.Args[0], tByte)))
			}
		case l.Decode:
			in.Hooks[pbp+l.Name] = func(in *Interp, c *CallCtx) []*Outcome {
				if len(c.Args) != 2 {
					return nil
				}
				at := c.St.load(c.Args[1], tInt)
				s := c.St.snap(c.Args[0], tByte)
				c.St.store(c.Args[1], fend(s, at), tInt)
				return retOne(c.St, Op("dec", l.Name, c.Sig.Results().At(0).Type(), fbytes(s, at)))
			}
		case l.Func:
			in.Hooks[pbp+l.Name] = func(in *Interp, c *CallCtx) []*Outcome {
				return retOne(c.St, Op("encfn", l.Name, c.Sig.Results().At(0).Type(), c.St.snap(c.Args[0], l.Elem)))
			}
		default:
			in.Hooks[pbp+l.Name] = func(in *Interp, c *CallCtx) []*Outcome {
				if len(c.Args) != 2 {
					return nil
				}
				e := encTerm(l.Name, c.St.snap(c.Args[1], l.Elem))
				b := in.appBase(c.St, c.Args[0], tByte)
				if !l.Zero {
					b = AppS(b, viItem(Len(e)))
				}
				return retOne(c.St, AppS(b, e))
			}
		}
	}
}

// encTerm is the byte sequence of a packed list.
func encTerm(codec string, values *Term) *Term { return Op("enc", codec, tBytes, values) }

// embedders lists the functions that embed a nested message.
func (p *Program) embedders() []*ssa.Function {
	emb := p.Named("internal/pb.Embedder")
	var r []*ssa.Function
	if emb == nil {
		return nil
	}
	sp := p.SSA[modPath+"/internal/pb"]
	for _, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Results().Len() != 1 || !fn.Object().Exported() {
			continue
		}
		for _, q := range fn.Params {
			if types.Identical(q.Type(), emb) || types.Identical(q.Type(), emb.Underlying()) {
				r = append(r, fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// embedHooks: a nested message becomes lp(payload), the payload being what the embedder appends (C02).
func embedHooks(in *Interp) {
	for _, fn := range in.P.embedders() {
		fn := fn
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			var buf, id, e *Term
			for i, q := range fn.Params {
				switch u := under(q.Type()).(type) {
				case *types.Signature:
					e = c.Args[i]
				case *types.Slice:
					buf = c.Args[i]
				case *types.Basic:
					_ = u
					id = c.Args[i]
				}
			}
			if buf == nil || id == nil || e == nil {
				return nil
			}
			key := Add(Scale(id, 8), Int(2))
			out := in.appBase(c.St, buf, tByte)
			pre := AppS(out, viItem(key))
			if e.isOp("encfn") {
				return retOne(c.St, AppS(pre, lpItem(fn.Name(), encTerm(e.S, e.Args[0]))))
			}
			base := Sym("payload", tBytes, fn)
			os := in.callTerm(c, e, []*Term{base})
			var res []*Outcome
			for _, o := range os {
				if o.Kind != ORet {
					res = append(res, o)
					continue
				}
				pl := payloadOf(o.Rets[0], base)
				res = append(res, &Outcome{Kind: ORet, St: o.St, Rets: []*Term{AppS(pre, lpItem(fn.Name(), pl))}})
			}
			return res
		}
	}
}

// payloadOf is what was appended to base.
func payloadOf(r, base *Term) *Term {
	if r.isOp("appS") && r.Args[0] == base {
		return r.Args[1]
	}
	return Op("after", "", tBytes, base, r)
}

func lpItem(how string, payload *Term) *Term { return Op("lp", how, tBytes, payload) }

// callTerm calls a function value.
func (in *Interp) callTerm(c *CallCtx, callee *Term, args []*Term) []*Outcome {
	var fn *ssa.Function
	if callee.isOp("func") || callee.isOp("closure") {
		fn = callee.X.(*ssa.Function)
	}
	cc := &CallCtx{Fn: fn, Args: args, St: c.St, Pos: c.Pos, In: c.In, Instr: c.Instr, Depth: c.Depth + 1}
	if callee.isOp("closure") {
		cc.Binds = callee.Args
	}
	if fn != nil {
		cc.Name = fnName(fn)
		cc.Sig = fn.Signature
		if h, ok := in.Hooks[cc.Name]; ok {
			if os := h(in, cc); os != nil {
				return os
			}
		}
		if in.P.body(fn) {
			return in.callFn(cc)
		}
	}
	if h, ok := in.Hooks["dynamic"]; ok {
		cc.Name = "dynamic"
		if callee.T != nil {
			cc.Sig, _ = under(callee.T).(*types.Signature)
		}
		cc.Args = append([]*Term{callee}, args...)
		if os := h(in, cc); os != nil {
			return os
		}
	}
	cc.Name = "dynamic"
	if callee.T != nil {
		cc.Sig, _ = under(callee.T).(*types.Signature)
	}
	if cc.Sig == nil {
		in.fail(c.Pos, "call of an unknown function value")
	}
	return in.external(cc, callee)
}

// wireHooks installs all summaries of package pb.
func wireHooks(in *Interp) {
	codecHooks(in, "EncodeVarInt", "DecodeVarInt", "EncodeZigZag", "DecodeZigZag")
	bytesHooks(in)
	listHooks(in)
	embedHooks(in)
}

// msgHooks replaces the readers and writers of nested messages (package t), other than those of T, by
// summaries: a reader fills its message with the parts of the bytes, a writer appends the message.
func msgHooks(in *Interp, except map[string]bool) {
	for T, m := range in.P.messages() {
		if except[T] {
			continue
		}
		T, m := T, m
		if m.Write != nil {
			in.Hooks[fnName(m.Write)] = func(in *Interp, c *CallCtx) []*Outcome {
				msg := Op("msg", T, tBytes, c.Args[0])
				r := AppS(in.appBase(c.St, c.Args[1], tByte), msg)
				c.St.emitIf(keepIdentity, &Ev{Kind: "append", Args: []*Term{c.Args[1], msg, r}, Ret: r, Pos: c.Pos, In: c.In})
				return retOne(c.St, r)
			}
		}
		if m.Read != nil {
			in.Hooks[fnName(m.Read)] = func(in *Interp, c *CallCtx) []*Outcome {
				buf := c.St.snap(c.Args[m.BufArg], tByte)
				cfg := Op("noreader", "", nil)
				if m.CfgArg >= 0 {
					cfg = c.Args[m.CfgArg]
				}
				val := msgValue(c.St, m, buf, cfg)
				var flags *Term // the configuration of the reader at the time of the call
				if m.CfgArg >= 0 {
					if pt, ok := under(m.Read.Params[m.CfgArg].Type()).(*types.Pointer); ok {
						flags = c.St.load(cfg, pt.Elem())
					}
				}
				c.St.emit(&Ev{Kind: "read", Name: T, Args: []*Term{buf, cfg}, Ret: flags, Pos: c.Pos, In: c.In})
				if m.PtrArg < 0 {
					return retOne(c.St, val)
				}
				c.St.emit(&Ev{Kind: "readinto", Name: T, Args: []*Term{c.Args[m.PtrArg], buf, cfg}, Ret: flags, Pos: c.Pos, In: c.In})
				// a reader adds to what the message holds already
				if prior, zero := c.St.load(c.Args[m.PtrArg], m.T), zeroOf(m.T); prior != zero {
					s := under(m.T).(*types.Struct)
					fs := make([]*Term, s.NumFields())
					for i := range fs {
						T := s.Field(i).Type()
						fs[i] = Field(val, i, T)
						if p := Field(prior, i, T); p != Field(zero, i, T) {
							fs[i] = Op("readonto", m.Name+"."+s.Field(i).Name(), T, fs[i], p)
						}
					}
					val = Struct(m.T, fs)
					c.St.emit(&Ev{Kind: "readonto", Name: T, Args: []*Term{c.Args[m.PtrArg], prior}, Pos: c.Pos, In: c.In})
				}
				c.St.store(c.Args[m.PtrArg], val, m.T)
				return []*Outcome{{Kind: ORet, St: c.St}}
			}
		}
	}
}

func msgValue(st *State, m *Message, buf, cfg *Term) *Term {
	s := under(m.T).(*types.Struct)
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		fs[i] = Op("msgf", m.Name+"."+s.Field(i).Name(), s.Field(i).Type(), buf, cfg)
	}
	return Struct(m.T, fs)
}

// Message is a message type of package t with its reader and writer.
type Message struct {
	Name                   string
	T                      *types.Named
	Read, Write            *ssa.Function
	BufArg, PtrArg, CfgArg int // argument positions of the reader (receiver included)
}

// messages finds the message types: struct types of package t with a method Write(buf) []byte or a reader
// Read<T>.
func (p *Program) messages() map[string]*Message {
	if p.msgs != nil {
		return p.msgs
	}
	p.msgs = map[string]*Message{}
	tp := p.Types[modPath+"/internal/t"]
	if tp == nil {
		return p.msgs
	}
	get := func(n *types.Named) *Message {
		name := n.Obj().Name()
		if p.msgs[name] == nil {
			p.msgs[name] = &Message{Name: name, T: n, BufArg: -1, PtrArg: -1, CfgArg: -1}
		}
		return p.msgs[name]
	}
	for _, nm := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		if f := p.Func("internal/t.(*" + nm + ").Write"); f != nil && len(f.Params) == 2 && isBytes(f.Params[1].Type()) && f.Signature.Results().Len() == 1 && isBytes(f.Signature.Results().At(0).Type()) {
			get(n).Write = f
		}
	}
	for _, fn := range p.Funcs() {
		if fn.Parent() != nil || fnPkg(fn) != tp.Path() || !strings.HasPrefix(fn.Name(), "Read") {
			continue
		}
		buf, ptr, cfg := -1, -1, -1
		var T *types.Named
		for i, q := range fn.Params {
			if isBytes(q.Type()) {
				buf = i
			} else if pt, ok := under(q.Type()).(*types.Pointer); ok {
				n, _ := pt.Elem().(*types.Named)
				if n == nil {
					continue
				}
				if "Read"+n.Obj().Name() == fn.Name() {
					ptr, T = i, n
				} else if i == 0 && fn.Signature.Recv() != nil {
					cfg = i
				}
			}
		}
		if T == nil && fn.Signature.Results().Len() == 1 {
			n, _ := fn.Signature.Results().At(0).Type().(*types.Named)
			if n != nil && "Read"+n.Obj().Name() == fn.Name() {
				T = n
			}
		}
		if T == nil || buf < 0 {
			continue
		}
		m := get(T)
		m.Read, m.BufArg, m.PtrArg, m.CfgArg = fn, buf, ptr, cfg
	}
	return p.msgs
}

func isBytes(T types.Type) bool {
	s, ok := under(T).(*types.Slice)
	return ok && types.Identical(s.Elem(), tByte)
}
