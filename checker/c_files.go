package main

// C25: output files are closed. C26: inputs stay, temporary files go, passes chain.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "typestate analysis of files (open, closed) over the interpreted paths of every command's main function and of every stage that it starts: each file created is closed exactly once on every path to a normal return, in the iteration that created it if that is in a loop, the result of closing is checked, and no operation takes a closed file; every call in the module that creates a file is on an analysed path", checkC25,
		"files are told apart by the call that opened them")
	register("C26", "effect analysis of file names over the interpreted paths of every command: no creating, renaming, truncating or removing operation takes a name that is an input option; names are output options or are derived from them; a derived file is removed after its last use; in pass loops, with pass number K and count N, the file read is the one written by pass K-1 and the file written is the output option exactly if K+1 >= N, every intermediate file is removed after the pass that reads it and none is left behind", checkC26,
		"the names given for inputs and outputs are different files, and none has the form of a temporary name", "options do not change after the command line was parsed (verified by C35)")
}

// ---- options ----

// longTag is the long name of an option, "" if the field is none.
func longTag(S *types.Struct, i int) string {
	if S == nil || i < 0 || i >= S.NumFields() {
		return ""
	}
	return reflect.StructTag(S.Tag(i)).Get("long")
}

// normOpts replaces every read of an option by a term naming the option.
func normOpts(t *Term) *Term {
	if t == nil {
		return nil
	}
	return rewrite(t, func(x *Term) *Term {
		switch {
		case x.isOp("load") || x.isOp("loadx"):
			a := x.Args[0]
			if a.isOp("fld") {
				if T, ok := a.X.(types.Type); ok {
					if S, ok := under(T).(*types.Struct); ok {
						if tag := longTag(S, atoi(a.S)); tag != "" {
							return Op("opt", tag, x.T)
						}
					}
				}
			}
		case x.isOp("field"):
			if a := x.Args[0]; a.T != nil {
				if S, ok := under(a.T).(*types.Struct); ok {
					if tag := longTag(S, atoi(x.S)); tag != "" {
						return Op("opt", tag, x.T)
					}
				}
			}
		}
		return nil
	})
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// optionOf names the option that t is the value of.
func optionOf(t *Term) string {
	t = normOpts(t)
	if t.isOp("opt") {
		return t.S
	}
	return ""
}

// optsIn lists the options in a term.
func optsIn(t *Term) []string {
	m := map[string]bool{}
	normOpts(t).any(func(x *Term) bool {
		if x.isOp("opt") {
			m[x.S] = true
		}
		return false
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// normState: the path conditions of st, about options.
func normState(st *State) *State {
	n := newState()
	for _, p := range []bool{true, false} {
		for l, v := range st.lits {
			if v == p {
				n.assume(normOpts(l), v)
			}
		}
	}
	return n
}

// ---- C25 ----

const (
	fOpen = 1 + iota
	fClosed
)

type fileState map[*Term]int

func (s fileState) clone() fileState {
	n := fileState{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

type fileWalk struct {
	c     *Ctx
	rule  string
	name  string
	made  map[tokenPos]bool
	out   map[*Term]*Ev // created files
	sub   func(e *Ev, st fileState)
	errs  []*Term // errors that have to be nil
	quiet bool
}

func fileArg(a *Term) *Term {
	for a != nil && (a.isOp("iface") || a.isOp("changetype")) {
		a = a.Args[0]
	}
	return a
}

func fileRet(e *Ev) *Term {
	if e.Ret != nil && e.Ret.isOp("tuple") {
		return e.Ret.Args[0]
	}
	return e.Ret
}

func (w *fileWalk) walk(evs []*Ev, st fileState) {
	for _, e := range evs {
		op, _ := ioOf(e)
		if e.Kind != "loop" && op != "create" && op != "open" {
			for _, a := range e.Args {
				if f := fileArg(a); f != nil && st[f] == fClosed {
					w.c.Bad("use", w.name, e.Pos, "%s takes a file that was closed before", e.Name)
				}
			}
		}
		switch {
		case op == "create" || op == "open":
			f := fileRet(e)
			if f == nil {
				continue
			}
			st[f] = fOpen
			if op == "create" {
				w.made[e.Pos] = true
				w.out[f] = e
			}
		case op == "close":
			if len(e.Args) > 0 {
				f := fileArg(e.Args[0])
				if w.out[f] != nil && st[f] == fOpen {
					w.c.Ok("use", w.name+" "+"close", e.Pos, "")
				}
				if st[f] != 0 {
					st[f] = fClosed
				}
				if e.Kind == "call" { // not the wrapper, which checks it
					if e.Ret != nil && w.out[f] != nil {
						w.errs = append(w.errs, e.Ret)
					}
				}
			}
		case e.Kind == "go" || e.Kind == "defer":
			for _, a := range e.Args {
				a.any(func(x *Term) bool {
					if w.out[x] != nil {
						w.c.Bad("use", w.name, e.Pos, "not decided: a created file is used in a goroutine")
						return true
					}
					return false
				})
			}
		case e.Kind == "process" && w.sub != nil:
			w.sub(e, st)
		case e.Loop != nil:
			for _, it := range e.Loop.Iters {
				in := st.clone()
				w.walk(it.St.ev.list(), in)
				w.end(it.St, in, st, e.Pos, "the iteration")
			}
		}
	}
}

// finishes: the run goes on or ends successfully.
func finishes(o *Outcome) bool {
	return o.Kind == ORet || o.Kind == OExit && o.Val == tZero
}

// end: at the end of a scope the files created in it are closed, those of the outer scope unchanged.
func (w *fileWalk) end(st *State, now, outer fileState, pos any, what string) {
	for f, s := range now {
		o := outer[f]
		mk := w.out[f]
		if mk == nil {
			continue
		}
		cons := w.name + " file at " + w.c.P.pos(mk.Pos)
		switch {
		case o == 0:
			w.c.Want(s == fClosed, w.rule, cons, pos, "the file created here is not closed when %s ends", what)
		case o != s:
			w.c.Bad(w.rule, cons, pos, "the file is closed by an iteration of a loop that may run again")
		}
	}
	for _, e := range w.errs {
		if st != nil {
			w.c.Want(sure(st, Eq(e, tNil)), "checked", w.name, pos, "the result of closing an output file is not checked")
		}
	}
	w.errs = nil
}

func checkC25(c *Ctx) {
	made := map[tokenPos]bool{}
	files := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("close", k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		stages := map[string][2]*Stage{}
		key := func(e *Ev) string { return fmt.Sprint(e.Pos, e.Args[2].ID, e.Args[3].ID) }
		for _, p := range k.Pipe {
			var two [2]*Stage
			for i, w := range []bool{false, true} {
				if w && !p.hasWriter() {
					continue
				}
				s := c.stage(p, w, nil)
				if s.Err != "" {
					c.Bad("close", s.name(), s.ErrPos, "not decided: %s", s.Err)
					continue
				}
				two[i] = s
			}
			stages[key(p.Ev)] = two
		}
		w := &fileWalk{c: c, rule: "close", name: k.Name, made: made, out: map[*Term]*Ev{}}
		w.sub = func(e *Ev, st fileState) {
			for _, s := range stages[key(e)] {
				if s == nil {
					continue
				}
				var first fileState
				for _, o := range s.Outs {
					if !finishes(o) {
						continue
					}
					ws := &fileWalk{c: c, rule: "close", name: s.name(), made: made, out: map[*Term]*Ev{}}
					for f, ev := range w.out {
						ws.out[f] = ev
					}
					now := st.clone()
					ws.walk(o.St.ev.list(), now)
					for f := range now {
						if st[f] != 0 && w.out[f] != nil { // created by main: the stage may close it, if always
							if first != nil && first[f] != now[f] {
								c.Bad("close", s.name(), o.Pos, "the output file is closed on some paths only")
							}
							if now[f] != st[f] && !s.Writer {
								c.Bad("close", s.name(), o.Pos, "a worker closes the output file")
							}
						}
					}
					first = now.clone()
					for f := range st {
						delete(now, f)
					}
					ws.end(o.St, now, fileState{}, o.Pos, "the stage")
					files += len(ws.out) - len(w.out)
				}
				for f := range st {
					if first != nil && w.out[f] != nil {
						st[f] = first[f]
					}
				}
			}
		}
		for _, o := range k.Outs {
			if !finishes(o) {
				continue
			}
			w.out = map[*Term]*Ev{}
			st := fileState{}
			w.walk(o.St.ev.list(), st)
			w.end(o.St, st, fileState{}, o.Pos, "the command")
			files += len(w.out)
			if o.Kind == ORet {
				c.teardown(k, o)
			}
		}
	}
	c.Try("close", "system.Setup", nil, func() { c.setupFiles(made) })
	// every creating call was seen
	n := 0
	for _, fn := range c.P.Funcs() {
		if fnPkg(fn) == pkgIIO {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				callee := call.Common().StaticCallee()
				op := rawIO[fnName(callee)]
				if fnPkg(callee) == pkgIIO {
					op = ioOps[callee.Name()]
				}
				if op == "create" {
					n++
					c.Want(made[ins.Pos()], "site", fn.String(), ins.Pos(), "this call creates a file but is on no analysed path of a command")
				}
			}
		}
	}
	for _, s := range wrapSpecs {
		if s.name == "FClose" {
			c.Try("wrapper", s.name, nil, func() { c.wrapper("wrapper", s) })
		}
	}
	c.Want(files >= 8, "close", "files", nil, "only %d created files found on the paths of all commands", files)
	c.Min("close", 8)
	c.Min("site", 8)
}

// teardown: what system.Setup returned is called once at the end.
func (c *Ctx) teardown(k *Command, o *Outcome) {
	evs := o.St.ev.list()
	for i, e := range evs {
		if e.Kind != "setup" || e.Ret == nil {
			continue
		}
		n := 0
		for j, x := range evs {
			if x.Kind == "call" && x.Name == "dynamic" && len(x.Args) > 0 && x.Args[0] == e.Ret {
				n++
				if j < i {
					n = 2
				}
			}
		}
		inLoop := false
		for _, x := range evs {
			if x.Loop != nil {
				eachEv([]*Ev{x}, func(y *Ev) {
					inLoop = inLoop || y.Kind == "call" && y.Name == "dynamic" && len(y.Args) > 0 && y.Args[0] == e.Ret
				})
			}
		}
		c.Want(n == 1 && !inLoop, "teardown", k.Name, e.Pos, "the function returned by Setup, which closes the profile, is called %d times before the command returns", n)
	}
}

// setupFiles: the profile files.
func (c *Ctx) setupFiles(made map[tokenPos]bool) {
	fn := c.P.Func("internal/system.Setup")
	if fn == nil {
		return
	}
	in := c.interp()
	ioHooks(in)
	n := 0
	for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
		if o.Kind != ORet {
			continue
		}
		var outs []*Outcome
		if len(o.Rets) == 1 && under(o.Rets[0].T) != nil {
			if _, ok := under(o.Rets[0].T).(*types.Signature); ok {
				outs = in.callTerm(&CallCtx{St: o.St, Pos: fn.Pos(), In: fn}, o.Rets[0], nil)
			}
		}
		if outs == nil {
			outs = []*Outcome{o}
		}
		for _, q := range outs {
			if q.Kind != ORet {
				continue
			}
			w := &fileWalk{c: c, rule: "close", name: "system.Setup", made: made, out: map[*Term]*Ev{}}
			st := fileState{}
			w.walk(q.St.ev.list(), st)
			w.end(q.St, st, fileState{}, q.Pos, "the teardown")
			n++
		}
	}
	c.Want(n > 0, "close", "system.Setup", fn, "no path found")
}

// ---- C26 ----

// fileUse is an operation on a file name.
type fileUse struct {
	op   string // read, create, remove, tryremove, rename, ...
	name *Term  // normalised
	pos  tokenPos
	at   int   // position in the list of events
	last int   // position of the last use of the file opened by this operation
	file *Term // the file, for open and create
	st   *State
	by   string
}

// usesOf lists the operations on file names in evs (not inside loops), with those of the stages started.
func (c *Ctx) usesOf(k *Command, evs []*Ev, st *State, stage func(e *Ev) [][]fileUse) []fileUse {
	var r []fileUse
	for i, e := range evs {
		op, args := ioOf(e)
		add := func(op string, name *Term) {
			r = append(r, fileUse{op: op, name: normOpts(fileArg(name)), pos: e.Pos, at: i, last: i, file: fileRet(e), st: st, by: k.Name})
		}
		switch {
		case op == "open":
			add("read", args[0])
		case op == "create" || op == "remove" || op == "tryremove" || op == "truncate" || op == "chmod":
			add(op, args[0])
		case op == "rename":
			add("rename", args[0])
			if len(args) > 1 {
				add("create", args[1])
			}
		case op == "exec":
			c.Bad("input", k.Name, e.Pos, "not decided: what another program does to files")
		case e.Kind == "process" && len(e.Args) == 5:
			add("read", e.Args[1])
			r[len(r)-1].file = e.Ret
			if stage != nil {
				for _, u := range stage(e) {
					for _, x := range u {
						x.at, x.last = i, i
						r = append(r, x)
					}
				}
			}
		case e.Kind == "openindex" && len(e.Args) > 0:
			add("index", e.Args[0])
		}
	}
	for i := range r {
		if r[i].file == nil {
			continue
		}
		for j, e := range evs {
			used := false
			eachEv([]*Ev{e}, func(x *Ev) {
				for _, a := range x.Args {
					used = used || fileArg(a) == r[i].file
				}
			})
			if used && j > r[i].last {
				r[i].last = j
			}
		}
	}
	return r
}

func (u fileUse) plain() string {
	if u.name.isOp("opt") {
		return u.name.S
	}
	return ""
}

func (u fileUse) derived() bool { return u.plain() == "" && len(optsIn(u.name)) > 0 }

// nonOption: constants and profile names are not options of this kind.
func removal(op string) bool { return op == "remove" || op == "tryremove" || op == "rename" }

type files26 struct {
	c      *Ctx
	k      *Command
	inputs map[string]bool
	stage  map[string][][]fileUse
	all    []fileUse
}

func checkC26(c *Ctx) {
	chains := 0
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("input", k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		f := &files26{c: c, k: k, inputs: map[string]bool{}, stage: map[string][][]fileUse{}}
		for _, p := range k.Pipe {
			for _, w := range []bool{false, true} {
				if w && !p.hasWriter() {
					continue
				}
				s := c.stage(p, w, nil)
				if s.Err != "" {
					c.Bad("input", s.name(), s.ErrPos, "not decided: %s", s.Err)
					continue
				}
				for _, o := range s.Outs {
					if !finishes(o) {
						continue
					}
					u := f.scope(s.name(), o.St.ev.list(), o.St, nil)
					f.stage[procKey(p.Ev)] = append(f.stage[procKey(p.Ev)], u)
				}
			}
		}
		for _, o := range k.Outs {
			if !finishes(o) {
				continue
			}
			chains += f.command(o)
		}
		for _, u := range f.all {
			if t := u.plain(); t != "" && (u.op == "read" || u.op == "index") {
				f.inputs[t] = true
			}
		}
		for _, u := range f.all {
			t := u.plain()
			switch {
			case u.op == "read" || u.op == "index":
			case t != "" && f.inputs[t]:
				c.Bad("input", k.Name, u.pos, "the operation %q is applied to the file named by the input option --%s", u.op, t)
			case t != "" && u.op != "create":
				c.Bad("name", k.Name+" --"+t, u.pos, "the operation %q is applied to the user's output file", u.op)
			case t == "" && !u.derived():
				c.Bad("name", k.Name, u.pos, "the operation %q is applied to a file that is neither an output option nor named after one", u.op)
			default:
				c.Ok("input", fmt.Sprintf("%s %s %v", k.Name, u.op, u.name), u.pos, "")
			}
		}
	}
	c.Want(chains >= 2, "chain", "pass loops", nil, "%d commands with several passes found, 2 expected", chains)
	c.Min("input", 8)
	c.Min("temporary", 2)
}

func procKey(e *Ev) string { return fmt.Sprint(e.Pos, e.Args[2].ID, e.Args[3].ID) }

func (f *files26) stagesOf(e *Ev) [][]fileUse { return f.stage[procKey(e)] }

// scope checks the operations of one list of events; temporary files made and removed in it are dropped from
// the result.
func (f *files26) scope(name string, evs []*Ev, st *State, skip *Ev) []fileUse {
	c := f.c
	for i, e := range evs { // nothing is written through an input
		op, args := ioOf(e)
		if op == "open" && fileRet(e) != nil {
			eachEv(evs, func(x *Ev) {
				xo, xa := ioOf(x)
				if len(xa) > 0 && fileArg(xa[0]) == fileRet(e) && (xo == "write" || xo == "mapwrite" || xo == "truncate") {
					c.Bad("input", name, x.Pos, "%s on a file that was opened as input", x.Name)
				}
			})
		}
		if (op == "copy" || op == "iocopy") && len(args) > 1 {
			for _, y := range evs[:i] {
				if yo, _ := ioOf(y); yo == "open" && fileRet(y) == fileArg(args[0]) {
					c.Bad("input", name, e.Pos, "%s to a file that was opened as input", e.Name)
				}
			}
		}
	}
	us := c.usesOf(f.k, evs, st, f.stagesOf)
	f.all = append(f.all, us...)
	var r []fileUse
	gone := map[int]bool{}
	for i, u := range us {
		if u.op != "create" || !u.derived() {
			continue
		}
		for j, x := range us {
			if gone[j] || !removal(x.op) || x.name != u.name || x.at < u.at {
				continue
			}
			if x.op != "rename" || x.at < u.last {
				c.Want(x.at >= u.last, "temporary", fmt.Sprintf("%s %v", name, u.name), x.pos, "the temporary file is removed before its last use")
			} else {
				c.Ok("temporary", fmt.Sprintf("%s %v", name, u.name), x.pos, "")
			}
			read := x.op == "rename"
			for _, e := range evs[u.at:] {
				op, args := ioOf(e)
				read = read || (op == "copy" || op == "iocopy") && len(args) > 1 && fileArg(args[1]) == u.file || op == "read" && len(args) > 0 && fileArg(args[0]) == u.file || op == "map" && fileArg(args[0]) == u.file || op == "open" && normOpts(args[0]) == u.name
				if e.Loop != nil {
					eachEv([]*Ev{e}, func(y *Ev) {
						op, args := ioOf(y)
						read = read || (op == "copy" || op == "iocopy") && len(args) > 1 && fileArg(args[1]) == u.file || op == "read" && len(args) > 0 && fileArg(args[0]) == u.file
					})
				}
			}
			c.Want(read, "temporary", fmt.Sprintf("%s %v content", name, u.name), u.pos, "the temporary file is removed without having been read")
			gone[i], gone[j] = true, true
			break
		}
	}
	for i, u := range us {
		if !gone[i] {
			r = append(r, u)
		}
	}
	for _, e := range evs { // in stages: also inside loops
		if e.Loop != nil && e != skip {
			for _, it := range e.Loop.Iters {
				for _, u := range f.scope(name, it.St.ev.list(), it.St, skip) {
					if u.op == "create" && u.derived() {
						c.Bad("temporary", name, u.pos, "a temporary file (%v) is left behind in every iteration of a loop", u.name)
					}
				}
			}
		}
	}
	return r
}

// command checks a complete run.
func (f *files26) command(o *Outcome) int {
	c, k := f.c, f.k
	evs := o.St.ev.list()
	var pass *Ev
	var clean []*Ev
	chains := 0
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		works, removes := false, false
		eachEv([]*Ev{e}, func(x *Ev) {
			op, _ := ioOf(x)
			works = works || x.Kind == "process" || op == "open" || op == "create" || op == "rename"
			removes = removes || removal(op)
		})
		switch {
		case works && pass != nil:
			c.Bad("chain", k.Name, e.Pos, "not decided: a second loop over files")
		case works:
			pass = e
		case removes:
			clean = append(clean, e)
		}
	}
	f.waits(k.Name, evs)
	var skip *Ev
	if pass != nil {
		skip = pass
	}
	var left []fileUse
	{
		var ev2 []*Ev
		for _, e := range evs {
			skipIt := e == pass
			for _, x := range clean {
				skipIt = skipIt || e == x
			}
			if !skipIt {
				ev2 = append(ev2, e)
			} else {
				ev2 = append(ev2, &Ev{Kind: "nothing", Pos: e.Pos})
			}
		}
		left = f.scope(k.Name, ev2, o.St, skip)
	}
	if pass != nil {
		chains = 1
		left = f.chain(o, evs, pass, clean, left)
	}
	for _, u := range left {
		if u.op == "create" && u.derived() {
			c.Bad("temporary", fmt.Sprintf("%s %v", k.Name, u.name), u.pos, "the temporary file is not removed at the end of the run")
		}
	}
	return chains
}

// waits: a pipeline has finished before anything else is done with files.
func (f *files26) waits(name string, evs []*Ev) {
	for i, e := range evs {
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				f.waits(name, it.St.ev.list())
			}
		}
		if e.Kind != "process" {
			continue
		}
		ok := false
		for _, x := range evs[i+1:] {
			if x.Kind == "wait" && len(x.Args) > 0 && x.Args[0] == e.Ret {
				ok = true
				break
			}
			op, _ := ioOf(x)
			busy := op != ""
			if x.Loop != nil {
				eachEv([]*Ev{x}, func(y *Ev) {
					o, _ := ioOf(y)
					busy = busy || o != "" || y.Kind == "process" || y.Kind == "wait"
				})
			}
			if busy || x.Kind == "process" {
				break
			}
		}
		f.c.Want(ok, "wait", name, e.Pos, "the next operation on files is reached while the pipeline may still be running")
	}
}

func sureLt(st *State, a, b *Term) bool {
	return sure(st, Lt(a, b, false)) || sure(st, Lt(a, b, true))
}

func sureLe(st *State, a, b *Term) bool {
	// (nothing is below zero when compared as unsigned numbers)
	return sure(st, Le(a, b, false)) || a != tZero && sure(st, Le(a, b, true)) || a == b || a != tZero && sureLt(st, a, Add(b, Int(1)))
}

// before: K is not the last of N passes.
func before(st *State, K, N *Term) bool {
	return sureLt(st, Add(K, Int(1)), N) || sureLt(st, K, Sub(N, Int(1))) || sure(st, Not(Eq(Add(K, Int(1)), N))) && sureLt(st, K, N)
}

// chain checks the files of a pass loop; the result is what is left of the uses outside the loop.
func (f *files26) chain(o *Outcome, evs []*Ev, pass *Ev, clean []*Ev, left []fileUse) []fileUse {
	c, k := f.c, f.k
	L := pass.Loop
	K := L.K
	var N *Term
	eachEv([]*Ev{pass}, func(e *Ev) {
		if e.Kind == "subindex" && len(e.Args) == 3 {
			N = normOpts(stripConv(e.Args[2], 64))
		}
	})
	if N == nil || N.contains(K) {
		c.Bad("chain", k.Name, pass.Pos, "not decided: the number of passes")
		return left
	}
	type iter struct {
		it          *Iter
		st          *State
		reads, made []fileUse
		gone        []fileUse
	}
	var its []*iter
	for _, it := range L.Iters {
		x := &iter{it: it, st: normState(it.St)}
		for _, u := range f.scope(k.Name, it.St.ev.list(), it.St, nil) {
			switch {
			case u.op == "read":
				x.reads = append(x.reads, u)
			case u.op == "create":
				dup := false
				for _, y := range x.made {
					dup = dup || y.name == u.name && y.pos == u.pos
				}
				if !dup {
					x.made = append(x.made, u)
				}
			case removal(u.op):
				x.gone = append(x.gone, u)
			}
		}
		its = append(its, x)
	}
	// the name of intermediate files
	var T *Term // T(K+1)
	for _, x := range its {
		if len(x.made) != 1 {
			c.Bad("chain", k.Name, pass.Pos, "a pass creates %d files, one expected", len(x.made))
			return left
		}
		if len(x.reads) != 1 {
			c.Bad("chain", k.Name, pass.Pos, "a pass reads %d files, one expected", len(x.reads))
			return left
		}
		if u := x.made[0]; u.derived() && T == nil {
			T = u.name
		}
	}
	name := func(j *Term) *Term { return subst(T, K, Sub(j, Int(1))) }
	if T != nil {
		c.Want(distinctName(T, K), "names", k.Name, pass.Pos, "the intermediate files of different passes may have the same name, or that of the output: %v", T)
	}
	// T(0)
	lo := 1
	var initial *fileUse
	for i := range left {
		if u := &left[i]; u.op == "create" && u.derived() && u.at < indexOf(evs, pass) {
			if T == nil || u.name == name(tZero) {
				if initial == nil || initial.name == u.name {
					initial = u
					lo = 0
				}
			}
		}
	}
	if initial != nil {
		c.Want(sureLe(normState(o.St), Int(1), N), "chain", k.Name+" first", pass.Pos, "with a number of passes below one (%v) the initial data is not processed and stays behind", N)
	}
	var in0 *Term // what the first pass reads
	for _, x := range its {
		r, w := x.reads[0], x.made[0]
		// written
		switch {
		case before(x.st, K, N):
			c.Want(T != nil && w.name == T, "chain", k.Name+" written", w.pos, "a pass before the last one writes %v", w.name)
		case sureLe(x.st, N, Add(K, Int(1))) || sureLe(x.st, Sub(N, Int(1)), K) || sure(x.st, Eq(Add(K, Int(1)), N)):
			c.Want(w.plain() != "", "chain", k.Name+" output", w.pos, "the last pass writes %v, not the user's output file", w.name)
		default:
			c.Bad("chain", k.Name+" written", w.pos, "the pass writes %v without regard to whether it is the last one", w.name)
		}
		// read
		switch {
		case T != nil && r.name == name(K) && (lo == 0 || sureLt(x.st, tZero, K) || sure(x.st, Not(Eq(K, tZero)))):
			c.Ok("chain", k.Name+" read", r.pos, "")
		case initial != nil && r.name == initial.name && (sure(x.st, Eq(K, tZero)) || N == Int(1)):
			c.Ok("chain", k.Name+" read", r.pos, "")
		case initial == nil && r.plain() != "" && (sure(x.st, Eq(K, tZero)) || N == Int(1)):
			c.Want(in0 == nil || in0 == r.name, "chain", k.Name+" first", r.pos, "different input files for the first pass")
			in0 = r.name
			c.Ok("chain", k.Name+" read", r.pos, "")
		default:
			c.Bad("chain", k.Name+" read", r.pos, "pass K reads %v, which is not what the pass before it has written", r.name)
		}
	}
	if T == nil { // one pass only
		return drop(left, initial, nil)
	}
	// removed
	const none = -99
	d := none
	offset := func(n, j *Term) int {
		for _, x := range []int{0, 1, 2, 3, -1, -2} {
			if n == name(Sub(j, Int(int64(x)))) {
				return x
			}
		}
		return none
	}
	for _, x := range its {
		for _, g := range x.gone {
			y := offset(g.name, K)
			switch {
			case y == none:
				c.Bad("removed", k.Name, g.pos, "not decided: which file is removed: %v", g.name)
			case y < 0:
				c.Bad("removed", k.Name, g.pos, "a pass removes the file that it writes, or a later one")
			case y == 0 && g.at < x.reads[0].last:
				c.Bad("removed", k.Name, g.pos, "the input of the pass is removed before the pass has read it")
			case d != none && d != y:
				c.Bad("removed", k.Name, g.pos, "not decided: several intermediate files are removed by one pass")
			default:
				d = y
				if g.op == "remove" {
					c.Want(sureLe(x.st, Int(int64(lo+d)), K), "removed", k.Name+" exists", g.pos, "a file is removed that was never written, which fails")
				}
			}
		}
	}
	end := normState(o.St)
	after := indexOf(evs, pass)
	upTo := d
	if d != none {
		for _, x := range its {
			n := 0
			for _, g := range x.gone {
				if offset(g.name, K) == d {
					n++
				}
			}
			switch {
			case n == 0 && !sureLt(x.st, K, Int(int64(lo+d))) && (sureLe(x.st, N, Add(K, Int(1))) || sureLe(x.st, Sub(N, Int(1)), K) || sure(x.st, Eq(Add(K, Int(1)), N))):
				upTo = d + 1 // the last pass may leave its file to what comes after the loop
				c.Ok("removed", k.Name, pass.Pos, "")
			case n == 0:
				c.Want(sureLt(x.st, K, Int(int64(lo+d))), "removed", k.Name, pass.Pos, "a pass does not remove the file of pass K-%d", d)
			default:
				c.Ok("removed", k.Name, pass.Pos, "")
			}
		}
	}
	var later []fileUse
	for _, u := range left {
		if removal(u.op) && u.at > after {
			later = append(later, u)
		}
	}
	if d == none {
		ok := false
		for _, e := range clean {
			if indexOf(evs, e) < after {
				continue
			}
			all := len(e.Loop.Iters) > 0
			from := 0
			for _, it := range e.Loop.Iters {
				n := none
				for _, u := range c.usesOf(k, it.St.ev.list(), it.St, nil) {
					f.all = append(f.all, u)
					if x := offset(u.name, e.Loop.K); removal(u.op) && x != none {
						n = -x
						if u.op == "remove" && n < lo {
							c.Bad("removed", k.Name+" exists", u.pos, "a file is removed that was never written, which fails")
						}
					}
				}
				from = n
				all = all && n != none && n <= lo
			}
			for _, x := range e.Loop.Exits {
				all = all && sureLe(normState(x.St), N, Add(e.Loop.K, Int(int64(from))))
			}
			ok = ok || all
		}
		if !ok {
			for e := 1; e <= 2; e++ { // few passes
				rm := false
				for _, u := range later {
					rm = rm || u.name == name(Sub(N, Int(int64(e))))
				}
				if !rm {
					ok = sureLt(end, N, Int(int64(lo+e)))
					break
				}
			}
		}
		c.Want(ok, "removed", k.Name, pass.Pos, "the intermediate files are not removed")
	}
	for e := 1; e <= upTo; e++ {
		j := Sub(N, Int(int64(e)))
		rm := false
		for _, u := range later {
			rm = rm || u.name == name(j)
		}
		c.Want(rm || sureLt(end, N, Int(int64(lo+e))), "removed", fmt.Sprintf("%s last-%d", k.Name, e), pass.Pos, "the intermediate file of the last pass but %d is not removed at the end", e-1)
	}
	for _, u := range later {
		if x := offset(u.name, N); x != none && u.op == "remove" {
			c.Want(x >= 1 && sureLe(end, Int(int64(lo+x)), N), "removed", k.Name+" exists", u.pos, "a file is removed that may never have been written, which fails")
		}
	}
	return drop(left, initial, later)
}

func drop(l []fileUse, a *fileUse, b []fileUse) []fileUse {
	var r []fileUse
	for _, u := range l {
		if a != nil && u.name == a.name {
			continue
		}
		r = append(r, u)
	}
	return r
}

func indexOf(evs []*Ev, e *Ev) int {
	for i, x := range evs {
		if x == e {
			return i
		}
	}
	return -1
}

// distinct: T differs for different K, and from its option.
func distinctName(T, K *Term) bool {
	switch {
	case isPure(T, "fmt.Sprintf") && len(T.Args) == 2 && T.Args[0].K == KStr && T.Args[1].isOp("list"):
		f := T.Args[0].S
		i, ok, text := 0, false, false
		for j := 0; j < len(f); j++ {
			if f[j] != '%' {
				text = true
				continue
			}
			j++
			if j < len(f) && f[j] == '%' {
				text = true
				continue
			}
			for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
				j++
			}
			if j >= len(f) || i >= len(T.Args[1].Args) {
				return false
			}
			a := T.Args[1].Args[i]
			if a.contains(K) {
				if strings.IndexByte("dvxXob", f[j]) < 0 || !linear(fileArg(a), K) {
					return false
				}
				ok = true
			} else if strings.IndexByte("sdvqxXob", f[j]) < 0 {
				return false
			}
			i++
		}
		return ok && text
	case T.isOp("strcat"):
		n := 0
		for _, a := range T.Args {
			if a.contains(K) {
				n++
				num := a.any(func(x *Term) bool {
					return (isPure(x, "strconv.Itoa") || isPure(x, "strconv.FormatInt") || isPure(x, "strconv.FormatUint")) && linear(stripConv(x.Args[0], 64), K)
				})
				if !num && !distinctName(a, K) && !(isPure(a, "fmt.Sprint") && len(a.Args) == 1 && a.Args[0].isOp("list") && len(a.Args[0].Args) == 1 && linear(fileArg(a.Args[0].Args[0]), K)) {
					return false
				}
			}
		}
		return n == 1
	}
	return false
}

// linear: t is K plus something that does not depend on it.
func linear(t, K *Term) bool { return !Sub(stripConv(t, 64), K).contains(K) }

func isPure(t *Term, fn string) bool { return t.isOp("pure") && t.S == fn }
