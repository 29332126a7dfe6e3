package main

// The commands: their main functions, and the pipelines (worker and writer functions) that they start.
// Everything here is found from types and from interpreting the main functions, not from names of
// unexported things.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgIIO  = modPath + "/internal/iio"
	pkgPBF  = modPath + "/internal/pbf"
	pkgT    = modPath + "/internal/t"
	pkgPool = modPath + "/internal/pool"
)

// ioOps gives the operation of each wrapper of package iio; C24 verifies that each wrapper performs exactly
// that operation on its arguments and aborts when it fails.
var ioOps = map[string]string{
	"OsOpen": "open", "OsCreate": "create", "OsRemove": "remove", "OsRemoveTry": "tryremove", "OsRename": "rename",
	"FWrite": "write", "FWriteSliceI64": "write", "FWriteSliceU64": "write", "FRead": "read", "FSeek": "seek", "FClose": "close", "FCopy": "copy",
	"MMapMap": "map", "MMapMapRegion": "map", "MMapMapWrite": "mapwrite", "MMapUnmap": "unmap", "IoCopy": "iocopy",
}

// rawIO gives the operation of functions outside the repository.
var rawIO = map[string]string{
	"os.Open": "open", "os.Create": "create", "os.OpenFile": "create", "os.CreateTemp": "create", "os.Remove": "remove", "os.RemoveAll": "remove", "os.Rename": "rename", "os.WriteFile": "create",
	"os.ReadFile": "open", "os.Truncate": "truncate", "os.Link": "rename", "os.Symlink": "rename", "os.Chmod": "chmod", "os.Mkdir": "create", "os.MkdirAll": "create",
	"(*os.File).Write": "write", "(*os.File).WriteString": "write", "(*os.File).WriteAt": "write", "(*os.File).Read": "read", "(*os.File).ReadAt": "read",
	"(*os.File).Seek": "seek", "(*os.File).Close": "close", "(*os.File).Truncate": "truncate", "(*os.File).Sync": "sync",
	"github.com/edsrzf/mmap-go.Map": "map", "github.com/edsrzf/mmap-go.MapRegion": "map", "(*github.com/edsrzf/mmap-go.MMap).Unmap": "unmap", "(github.com/edsrzf/mmap-go.MMap).Unmap": "unmap",
	"io.Copy": "iocopy", "io.CopyBuffer": "iocopy", "io.CopyN": "iocopy",
	"os/exec.Command": "exec", "syscall.Exec": "exec",
}

// ioHooks replaces the wrappers of package iio by events of kind "io".
func ioHooks(in *Interp) {
	sp := in.P.SSA[pkgIIO]
	if sp == nil {
		return
	}
	for name, op := range ioOps {
		fn := sp.Func(name)
		if fn == nil {
			continue
		}
		name, op := name, op
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "io", Name: op, Pos: c.Pos, In: c.In, Fn: fn, Stack: name}
			for _, a := range c.Args {
				if s, ok := under(a.T).(*types.Slice); ok && s != nil && op == "write" {
					a = c.St.snap(a, s.Elem())
				}
				e.Args = append(e.Args, a)
			}
			rs := in.results(c, e, false)
			if len(rs) == 1 {
				e.Ret = rs[0]
				if op == "open" || op == "create" {
					c.St.assume(Eq(rs[0], tNil), false) // a file that has been opened is not nil
				}
				if op == "read" || op == "copy" {
					c.St.assume(Lt(rs[0], tZero, false), false) // a number of bytes
				}
			}
			c.St.emit(e)
			if op == "read" || op == "copy" {
				in.havocFrom(c.St, c.Args[len(c.Args)-1:])
			}
			return retOne(c.St, rs...)
		}
	}
}

// ioOf classifies an event as a file operation.
func ioOf(e *Ev) (op string, args []*Term) {
	if e.Kind == "io" {
		return e.Name, e.Args
	}
	if e.Kind == "call" {
		if op, ok := rawIO[e.Name]; ok {
			return op, e.Args
		}
	}
	return "", nil
}

// opaquePkgs are not interpreted when pipelines and commands are analysed (they have no effect on files,
// channels of the pipeline or blocks; checked separately where a property needs it).
func opaquePkg(pk string) bool {
	return strings.HasPrefix(pk, modPath+"/internal/ui") || strings.HasSuffix(pk, "/widget")
}

// domainHooks: what the analysis of pipelines needs.
func domainHooks(in *Interp, except map[string]bool) {
	wireHooks(in)
	msgHooks(in, except)
	ioHooks(in)
	p := in.P
	event := func(fn *ssa.Function, kind string, f func(in *Interp, c *CallCtx, e *Ev) []*Term) {
		if fn == nil {
			return
		}
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: kind, Name: fnName(fn), Args: c.Args, Pos: c.Pos, In: c.In, Fn: fn}
			var rs []*Term
			if f != nil {
				rs = f(in, c, e)
			}
			if rs == nil {
				rs = in.results(c, e, false)
			}
			if len(rs) == 1 {
				e.Ret = rs[0]
			} else if len(rs) > 1 {
				e.Ret = Op("tuple", "", nil, rs...)
			}
			c.St.emit(e)
			return retOne(c.St, rs...)
		}
	}
	viewHooks(in)
	// the display and the widgets given to it
	if fn := p.Func("internal/ui.NewUI"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "call", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Fn: fn, Snap: c.St.clone()}
			e.Ret = in.fresh("ui.NewUI", c.Sig.Results().At(0).Type(), e)
			c.St.emit(e)
			return retOne(c.St, e.Ret)
		}
	}
	in.Hooks["invoke ("+modPath+"/internal/ui.UI).ReplaceWidgets"] = func(in *Interp, c *CallCtx) []*Outcome {
		c.St.emit(&Ev{Kind: "call", Name: c.Name, Args: c.Args, Pos: c.Pos, In: c.In, Snap: c.St.clone()})
		return retOne(c.St)
	}
	// written messages: a copy of the message and of memory at that time is kept
	for T, m := range p.messages() {
		if except[T] || m.Write == nil {
			continue
		}
		T, m := T, m
		in.Hooks[fnName(m.Write)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "writemsg", Name: T, Args: []*Term{c.Args[0], c.St.load(c.Args[0], m.T)}, Pos: c.Pos, In: c.In, Fn: m.Write}
			tok := in.fresh("msg."+T, tBytes, e)
			e.Ret = tok
			e.Snap = c.St.clone()
			c.St.emit(e)
			msg := Op("msg", T, tBytes, c.Args[0], tok)
			r := AppS(in.appBase(c.St, c.Args[1], tByte), msg)
			c.St.emitIf(keepIdentity, &Ev{Kind: "append", Args: []*Term{c.Args[1], msg, r}, Ret: r, Pos: c.Pos, In: c.In})
			return retOne(c.St, r)
		}
	}
	// blob data
	event(p.Func("internal/t.(*Blob).GetRawData"), "rawdata", func(in *Interp, c *CallCtx, e *Ev) []*Term {
		T := c.Sig.Results().At(0).Type()
		bt := p.Named("internal/t.Blob")
		e.Args = []*Term{c.Args[0], c.St.load(c.Args[0], bt)}
		s, ok := under(T).(*types.Struct)
		if !ok {
			return nil
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := in.fresh("raw."+s.Field(i).Name(), s.Field(i).Type(), e)
			if e.Args[1].any(func(x *Term) bool { return x.isOp("readonto") }) { // parts of an earlier blob may be used
				f = Op("readonto", "raw."+s.Field(i).Name(), f.T, f, e.Args[1])
			}
			fs = append(fs, f)
		}
		return []*Term{Struct(T, fs)}
	})
	// the pool
	event(p.Func("internal/pool.(*ByteSlicePool).Put"), "put", nil)
	event(p.Func("internal/pool.(*ByteSlicePool).Get"), "get", func(in *Interp, c *CallCtx, e *Ev) []*Term {
		T := c.Sig.Results().At(0).Type()
		s, ok := under(T).(*types.Struct)
		if !ok {
			return nil
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, in.fresh("got."+s.Field(i).Name(), s.Field(i).Type(), e))
		}
		return []*Term{Struct(T, fs)}
	})
	// conversions between blocks and objects
	pb := p.Named("internal/t.PrimitiveBlock")
	for _, n := range []string{"ToNodes", "ToWays", "ToRelations"} {
		event(p.Func("internal/t.(*PrimitiveBlock)."+n), "conv", func(in *Interp, c *CallCtx, e *Ev) []*Term {
			e.Args = []*Term{c.St.load(c.Args[0], pb)}
			return nil
		})
	}
	event(p.Func("internal/t.MakePrimitiveBlock"), "makeblock", func(in *Interp, c *CallCtx, e *Ev) []*Term {
		for i, a := range c.Args {
			if s, ok := under(a.T).(*types.Slice); ok && s != nil {
				e.Args[i] = c.St.snap(a, s.Elem())
			}
		}
		return nil
	})
	// the indices
	for _, n := range []string{"internal/nodeindex.(*NodeSubIndex).FindNode", "internal/wayindex.(*SubWayIndex).FindLocations"} {
		event(p.Func(n), "find", nil)
	}
	for _, n := range []string{"internal/nodeindex.NewNodeIndex", "internal/wayindex.NewWayIndex"} {
		event(p.Func(n), "openindex", nil)
	}
	for _, n := range []string{"internal/nodeindex.(*NodeIndex)", "internal/wayindex.(*WayIndex)"} {
		event(p.Func(n+".Close"), "closeindex", nil)
		event(p.Func(n+".PrintStats"), "print", nil)
		event(p.Func(n+".SubIndex"), "subindex", nil)
		event(p.Func(n+".SubIndexWithScaledPass"), "subindex", nil)
		event(p.Func(n+".LocationCount"), "loccount", nil)
	}
	// the pipeline
	event(p.Func("internal/pbf.ProcessFileAsync"), "process", func(in *Interp, c *CallCtx, e *Ev) []*Term {
		e.Snap = c.St.clone()
		return nil
	})
	event(p.Func("internal/pbf.(*ProcessFileState).Wait"), "wait", nil)
	for _, n := range []string{"TrackWorker", "UntrackWorker"} {
		event(p.Func("internal/tracker.(*WorkerTracker)."+n), strings.ToLower(n), nil)
	}
	event(p.Func("internal/system.Setup"), "setup", nil)
	validateHooks(in)
	in.Opaque = func(fn *ssa.Function) bool { return opaquePkg(fnPkg(fn)) }
}

// Command is one program of the repository.
type Command struct {
	Name string
	Pkg  *ssa.Package
	Main *ssa.Function
	In   *Interp
	Outs []*Outcome
	Pipe []*Pipe
	Err  string
}

// Pipe is one pipeline started by a command.
type Pipe struct {
	Cmd                            *Command
	Ev                             *Ev
	File, Work, Write, Workers, Cx *Term
	St                             *State
	Index                          int
}

func (p *Pipe) name() string {
	if len(p.Cmd.Pipe) > 1 {
		return fmt.Sprintf("%s#%d", p.Cmd.Name, p.Index)
	}
	return p.Cmd.Name
}

// hasWriter reports whether the pipeline has a writer stage.
func (p *Pipe) hasWriter() bool { return p.Write != tNil }

// commands interprets the main function of every command.
func (c *Ctx) commands() []*Command {
	if c.P.cmds != nil {
		for _, k := range c.P.cmds {
			c.visited(k.In)
		}
		return c.P.cmds
	}
	var r []*Command
	for _, pk := range c.P.Pkgs {
		sp := c.P.SSA[pk.PkgPath]
		if sp == nil || sp.Pkg.Name() != "main" || sp.Func("main") == nil {
			continue
		}
		k := &Command{Name: pk.PkgPath[strings.LastIndexByte(pk.PkgPath, '/')+1:], Pkg: sp, Main: sp.Func("main")}
		k.In = c.interp()
		domainHooks(k.In, nil)
		k.In.KeepPaths = true
		if c.prep != nil {
			c.prep(k.In)
		}
		func() {
			defer func() {
				if e, ok := recover().(analysisError); ok {
					k.Err = e.msg
				}
			}()
			k.Outs = c.run(k.In, k.Main, k.In.SymArgs(k.Main), newState())
		}()
		k.Pipe = pipesOf(k, k.Outs)
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	c.P.cmds = r
	return r
}

// prepared runs f with interpretations of the commands and of the reader of input files that prep has set up.
func (c *Ctx) prepared(prep func(in *Interp), f func()) {
	cmds, drv := c.P.cmds, c.P.drv
	c.P.cmds, c.P.drv, c.prep = nil, nil, prep
	defer func() { c.P.cmds, c.P.drv, c.prep = cmds, drv, nil }()
	f()
}

// pipesOf lists the pipelines started on the paths of a command.
func pipesOf(k *Command, outs []*Outcome) []*Pipe {
	var r []*Pipe
	seen := map[string]bool{}
	for _, o := range outs {
		eachEv(o.St.ev.list(), func(e *Ev) {
			if e.Kind != "process" || len(e.Args) != 5 {
				return
			}
			key := fmt.Sprint(e.Pos, e.Args[2].ID, e.Args[3].ID)
			if seen[key] {
				return
			}
			seen[key] = true
			r = append(r, &Pipe{Cmd: k, Ev: e, Cx: e.Args[0], File: e.Args[1], Work: e.Args[2], Write: e.Args[3], Workers: e.Args[4], St: e.Snap, Index: len(r)})
		})
	}
	return r
}

// pipes lists the pipelines of all commands; failures are violations of the rule.
func (c *Ctx) pipes(rule string) []*Pipe {
	var r []*Pipe
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad(rule, "command "+k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		r = append(r, k.Pipe...)
	}
	return r
}

// eachEv visits events, also those inside loops.
func eachEv(l []*Ev, f func(e *Ev)) {
	for _, e := range l {
		f(e)
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				eachEv(it.St.ev.list(), f)
			}
		}
	}
}

// Stage is an interpreted worker or writer.
type Stage struct {
	Pipe              *Pipe
	In                *Interp
	Fn                *ssa.Function
	Outs              []*Outcome
	ChIn              *Term
	ChOut             *Term // nil for writers
	Ctx               *Term
	NilOut            bool
	Writer            bool
	Err               string
	ErrPos            any
	Section           map[string]*Term
	TermMark, ObjMark int // terms and objects made by the stage have higher numbers
}

func (s *Stage) name() string {
	k := "worker"
	if s.Writer {
		k = "writer"
	}
	return s.Pipe.name() + " " + k
}

// stage interprets the worker (or writer) function of a pipeline on symbolic channels.
func (c *Ctx) stage(p *Pipe, writer bool, prep func(in *Interp)) *Stage {
	f := p.Work
	if writer {
		f = p.Write
	}
	s := &Stage{Pipe: p, Writer: writer}
	if f.isOp("closure") || f.isOp("func") {
		s.Fn = f.X.(*ssa.Function)
	} else {
		s.Err = fmt.Sprintf("the function of the stage is not known statically (%v)", f)
		s.ErrPos = p.Ev.Pos
		return s
	}
	s.ErrPos = s.Fn
	in := c.interp()
	s.In = in
	domainHooks(in, nil)
	if prep != nil {
		prep(in)
	}
	st := p.St.clone()
	st.ev = nil
	s.TermMark, s.ObjMark = termCount, objCount
	st.lits, st.ivs = map[*Term]bool{}, map[*Term]iv{}
	sg, _ := under(f.T).(*types.Signature)
	if sg == nil {
		sg = s.Fn.Signature
	}
	var args []*Term
	for i := 0; i < sg.Params().Len(); i++ {
		T := sg.Params().At(i).Type()
		a := in.fresh(fmt.Sprintf("stage.%d", i), T, nil)
		if ch, ok := under(T).(*types.Chan); ok {
			if ch.Dir() == types.SendOnly {
				s.ChOut = a
				if !p.hasWriter() {
					a = tNil
					s.ChOut = tNil
					s.NilOut = true
				}
			} else {
				s.ChIn = a
			}
		} else {
			s.Ctx = a
		}
		args = append(args, a)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(analysisError)
				if !ok {
					panic(r)
				}
				s.Err = e.msg
			}
		}()
		cc := &CallCtx{St: st, Pos: p.Ev.Pos, In: p.Cmd.Main}
		s.Outs = in.callTerm(cc, f, args)
	}()
	c.visited(in)
	return s
}

// stages interprets all workers and writers.
func (c *Ctx) stages(rule string, prep func(in *Interp)) []*Stage {
	var r []*Stage
	for _, p := range c.pipes(rule) {
		for _, w := range []bool{false, true} {
			if w && !p.hasWriter() {
				continue
			}
			s := c.stage(p, w, prep)
			if s.Err != "" {
				c.Bad(rule, s.name(), s.ErrPos, "not decided: %s", s.Err)
				continue
			}
			r = append(r, s)
		}
	}
	return r
}

// viewHooks: reinterpreted views of memory (C37).
func viewHooks(in *Interp) {
	p := in.P
	for _, n := range []string{"ByteSliceAsInt64Slice", "Int64SliceAsByteSlice", "Uint64SliceAsByteSlice"} {
		if fn := p.Func("internal/iunsafe." + n); fn != nil {
			in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
				x := c.Args[0]
				if s, ok := under(x.T).(*types.Slice); ok && s != nil {
					x = c.St.snap(x, s.Elem())
				}
				return retOne(c.St, Op("view", "", c.Sig.Results().At(0).Type(), x))
			}
		}
	}
	if fn := p.Func("internal/iunsafe.ByteSliceAsArbSlice"); fn != nil {
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			dst := c.Args[1]
			if !dst.isOp("iface") {
				return nil
			}
			T := elemType(dst.T)
			if T == nil {
				return nil
			}
			c.St.store(dst.Args[0], Op("view", "", T, c.St.snap(c.Args[0], tByte)), T)
			return []*Outcome{{Kind: ORet, St: c.St}}
		}
	}
}

// eachState visits the events of a command, with a state whose path conditions hold where the event happens.
func (c *Ctx) eachState(k *Command, f func(e *Ev, st *State)) {
	var walk func(l []*Ev, st *State)
	walk = func(l []*Ev, st *State) {
		for _, e := range l {
			f(e, st)
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.St.ev.list(), it.St)
				}
			}
		}
	}
	for _, o := range k.Outs {
		walk(o.St.ev.list(), o.St)
	}
}
