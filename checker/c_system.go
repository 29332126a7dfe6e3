package main

// C49: process-wide options.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C49", "symbolic interpretation of the set-up function and of the function it returns, on every combination of given and missing options: each option has its effect exactly if it was given (threads limited to its value; a CPU profile started on a file of its name, stopped and the file closed at the end; a heap profile written to a file of its name at the end and the file closed; the rate set), the validation refuses exactly a rate without a profile; every command calls it once with its own options before it works, and what it returns once after all work, on every path to the end", checkC49,
		"the runtime and the profiler do what they are told")
}

const pkgSystem = modPath + "/internal/system"

func checkC49(c *Ctx) {
	setup := c.need("effect", "internal/system.Setup")
	val := c.need("refused", "internal/system.(*SystemOpts).Validate")
	if setup == nil || val == nil {
		return
	}
	c.Try("effect", "Setup", setup, func() { c.setupEffects("effect", setup) })
	c.Try("refused", "Validate", val, func() { c.setupRefused("refused", val) })
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("commands", k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		k := k
		c.Try("commands", k.Name, k.Main, func() { c.setupCalled("commands", k) })
	}
	c.Min("effect", 12)
	c.Min("refused", 3)
	c.Min("commands", 33)
}

func valueOf(t *Term, tag string) bool { return t != nil && isOptValue(noConv(stripIface(t)), tag) }

// setupEffects: what is done for each option.
func (c *Ctx) setupEffects(rule string, fn *ssa.Function) {
	in := c.interp()
	ioHooks(in)
	in.KeepPaths = true
	in.TraceMem = true
	outs := c.run(in, fn, in.SymArgs(fn), newState())
	n := 0
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		n++
		c.setupPath(rule, in, fn, o)
	}
	c.Want(n > 0, rule, "Setup", fn, "the set-up never ends")
}

type profFile struct {
	file, name *Term
	made       int
	used       int
	closed     int
}

// profFiles: files created on a path, the position of the call on them, and of the closing.
func profFiles(evs []*Ev, call string) []*profFile {
	var r []*profFile
	find := func(t *Term) *profFile {
		t = stripIface(t)
		for _, u := range r {
			if u.file == t {
				return u
			}
		}
		return nil
	}
	for i, e := range evs {
		op, args := ioOf(e)
		switch {
		case op == "create" || op == "open":
			if e.Ret != nil && len(args) > 0 {
				f := e.Ret
				if f.isOp("tuple") {
					f = f.Args[0]
				}
				r = append(r, &profFile{file: f, name: args[0], made: i, used: -1, closed: -1})
			}
		case op == "close" && len(args) > 0:
			if u := find(args[0]); u != nil {
				u.closed = i
			}
		case isCallOf(e, call) && len(e.Args) > 0:
			if u := find(e.Args[0]); u != nil {
				u.used = i
			}
		}
	}
	return r
}

func (c *Ctx) setupPath(rule string, in *Interp, fn *ssa.Function, o *Outcome) {
	given := func(st *State, tag string) (bool, bool) { return optGiven(st, tag) }
	desc := "Setup"
	evs := o.St.ev.list()
	count := func(evs []*Ev, name string) (n int, last *Ev, at int) {
		at = -1
		for i, e := range evs {
			if isCallOf(e, name) {
				n++
				last, at = e, i
			}
		}
		return
	}
	// threads
	known, yes := given(o.St, "max-threads")
	n, e, _ := count(evs, "runtime.GOMAXPROCS")
	switch {
	case !known:
		c.Bad(rule, desc+" threads", fn, "the number of threads does not depend on the option")
	case yes:
		c.Want(n == 1 && valueOf(e.Args[0], "max-threads"), rule, desc+" threads", o.Pos, "the option is given, but the number of threads is not set to it")
	default:
		c.Want(n == 0, rule, desc+" threads default", o.Pos, "the number of threads is set though the option is not given")
	}
	// CPU profile
	cpu, cpuYes := given(o.St, "cpu-profile")
	us := profFiles(evs, "pprof.StartCPUProfile")
	n, _, _ = count(evs, "pprof.StartCPUProfile")
	var prof *profFile
	switch {
	case !cpu:
		c.Bad(rule, desc+" CPU profile", fn, "the profile does not depend on the option")
	case cpuYes:
		if c.want(len(us) == 1 && n == 1 && us[0].used > us[0].made && us[0].closed < 0 && valueOf(us[0].name, "cpu-profile"), rule, desc+" CPU profile", o.Pos, "the option is given, but no profile is started on a file of that name") {
			prof = us[0]
		}
	default:
		c.Want(len(us) == 0 && n == 0, rule, desc+" no CPU profile", o.Pos, "a profile is started though the option is not given")
	}
	// rate
	known, yes = given(o.St, "mem-profile-rate")
	mem, memYes := given(o.St, "mem-profile")
	sets := 0
	var set *Term
	for _, x := range evs {
		if x.Kind == "store" && len(x.Args) == 2 && x.Args[0].isOp("glob") && strings.HasSuffix(x.Args[0].S, "MemProfileRate") {
			sets++
			set = x.Args[1]
		}
	}
	switch {
	case known && yes && (memYes || !mem):
		c.Want(sets == 1 && valueOf(set, "mem-profile-rate"), rule, desc+" rate", o.Pos, "the rate is given but not set")
	case known && !yes:
		c.Want(sets == 0, rule, desc+" default rate", o.Pos, "the rate is set though it is not given")
	case !known && (!mem || memYes):
		c.Bad(rule, desc+" rate", o.Pos, "the rate does not depend on the option")
	default:
		c.Want(sets == 0 || valueOf(set, "mem-profile-rate"), rule, desc+" rate without profile", o.Pos, "the rate is set to another value")
	}
	// the end
	if len(o.Rets) != 1 {
		c.Bad(rule, desc+" end", fn, "nothing to be called at the end is returned")
		return
	}
	st := o.St.clone()
	st.ev = nil
	if prof != nil { // a file that was created
		st.assume(Not(Eq(prof.file, tNil)), true)
	}
	rets := 0
	for _, t := range in.callTerm(&CallCtx{St: st, Pos: fn.Pos()}, o.Rets[0], nil) {
		if t.Kind != ORet {
			continue
		}
		rets++
		evs := t.St.ev.list()
		// CPU
		n, _, at := count(evs, "pprof.StopCPUProfile")
		closed := -1
		for i, x := range evs {
			if op, args := ioOf(x); op == "close" && prof != nil && len(args) > 0 && stripIface(args[0]) == prof.file {
				closed = i
			}
		}
		if prof != nil {
			c.Want(n == 1 && closed > at, rule, desc+" CPU profile ends", fn, "the profile is not stopped and its file closed at the end")
		} else {
			c.Want(n == 0, rule, desc+" no CPU profile ends", fn, "a profile is stopped that was not started")
		}
		// heap
		known, yes := given(t.St, "mem-profile")
		us := profFiles(evs, "pprof.WriteHeapProfile")
		switch {
		case !known:
			c.Bad(rule, desc+" heap profile", fn, "the profile does not depend on the option")
		case yes:
			c.Want(len(us) == 1 && us[0].made < us[0].used && us[0].used < us[0].closed && valueOf(us[0].name, "mem-profile"), rule, desc+" heap profile", fn, "the option is given, but no profile is written to a file of that name, which is then closed")
		default:
			c.Want(len(us) == 0, rule, desc+" no heap profile", fn, "a profile is written though the option is not given")
		}
	}
	c.Want(rets > 0, rule, desc+" end", fn, "the end is not reached")
}

// setupRefused: a rate without a profile.
func (c *Ctx) setupRefused(rule string, fn *ssa.Function) {
	in := c.interp()
	in.KeepPaths = true
	outs := c.run(in, fn, in.SymArgs(fn), newState())
	for _, o := range outs {
		if o.Kind != ORet {
			c.Bad(rule, "Validate", fn, "the validation can fail")
			continue
		}
		rk, r := optGiven(o.St, "mem-profile-rate")
		mk, m := optGiven(o.St, "mem-profile")
		l := o.Rets[0]
		none := l == tNil || sure(o.St, Eq(Len(l), tZero))
		some := l != tNil && sureLt(o.St, tZero, Len(l))
		switch {
		case rk && r && mk && !m:
			c.Want(some, rule, "Validate refuses", o.Pos, "a rate without a profile is accepted")
		case rk && !r || mk && m:
			c.Want(none, rule, "Validate accepts", o.Pos, "valid options are refused")
		default:
			c.Bad(rule, "Validate", o.Pos, "the outcome does not depend on both options")
		}
	}
	c.Want(len(outs) > 1, rule, "Validate paths", fn, "the outcome does not depend on the options")
}

// setupCalled: first and last.
func (c *Ctx) setupCalled(rule string, k *Command) {
	rets := 0
	for _, o := range k.Outs {
		evs := o.St.ev.list()
		var set *Ev
		n, at, calls, end, firstWork, lastWork := 0, -1, 0, -1, -1, -1
		for i, e := range evs {
			op, _ := ioOf(e)
			switch {
			case e.Kind == "setup":
				n++
				set, at = e, i
			case e.Kind == "call" && e.Name == "dynamic" && set != nil && len(e.Args) > 0 && e.Args[0] == set.Ret:
				calls++
				end = i
			case op != "" || works(e):
				if firstWork < 0 {
					firstWork = i
				}
				lastWork = i
			}
		}
		if !finishes(o) || o.Kind == OExit && n == 0 && firstWork < 0 {
			continue
		}
		rets++
		if !c.want(n == 1, rule, k.Name+" once", k.Main, "process-wide options take effect %d times", n) {
			continue
		}
		own := len(set.Args) == 1 && set.Args[0] != nil && isObj(rootOf(set.Args[0]))
		if own {
			parsed := false
			for _, e := range evs {
				if isCallOf(e, "go-flags.NewParser") && len(e.Args) > 0 && rootOf(stripIface(e.Args[0])) == rootOf(set.Args[0]) {
					parsed = true
				}
			}
			own = parsed
			T := elemType(c.P.Func("internal/system.Setup").Params[0].Type())
			if S, isS := under(T).(*types.Struct); isS && !own { // a copy of them
				own = S.NumFields() > 0
				for i := 0; i < S.NumFields(); i++ {
					v := normOpts(o.St.load(FieldAddrT(set.Args[0], i, T), S.Field(i).Type()))
					own = own && v.isOp("opt") && v.S == longTag(S, i)
				}
			}
		}
		c.Want(own, rule, k.Name+" options", set.Pos, "the options that take effect are not those of the command line")
		c.Want(firstWork < 0 || at < firstWork, rule, k.Name+" first", set.Pos, "the command works before its process-wide options take effect")
		c.Want(calls == 1 && end > lastWork, rule, k.Name+" last", set.Pos, "what ends the profiles is called %d times, or before the end of the work", calls)
	}
	c.Want(rets > 0, rule, k.Name+" ends", k.Main, "the command never ends")
}

// works: something a command does for its result.
func works(e *Ev) bool {
	switch e.Kind {
	case "process", "wait", "openindex", "closeindex", "subindex", "find", "loop":
		if e.Kind == "loop" {
			r := false
			for _, it := range append(append([]*Iter{}, e.Loop.Iters...), e.Loop.Exits...) {
				eachEv(it.St.ev.list(), func(x *Ev) {
					op, _ := ioOf(x)
					r = r || op != "" || x.Kind == "process" || x.Kind == "wait" || x.Kind == "find" || x.Kind == "openindex"
				})
			}
			return r
		}
		return true
	}
	return false
}
