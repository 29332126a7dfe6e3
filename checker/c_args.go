package main

// C35: the command line is validated before anything happens; option values reach what they are meant for.

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "effect-order analysis over every interpreted path of every command's main function: where the first file, worker or index operation happens, it is known that parsing reported no error, that no positional arguments were left and that every Validate of the option groups returned nothing; a path on which one of these is not so ends with os.Exit before any such operation, with code 0 exactly for help; the values that reach input, output, worker count, index, refresh interval, parts and passes are those of the options declared for them (identified by the option tags); optional values are used only where they are known to be given, and nothing is divided by an option that may be zero; a path that rejects a command line that parsed holds a fact that is a reason to (a positional argument, a message of a Validate, a value that makes no sense), the same for every Validate; and the values options have before parsing, or their default tags, make sense themselves", checkC35,
		"go-flags fills the options with what was given, rejects a missing required option, and reports help requests as ErrHelp", "os.Exit does not return")
}

func isEffect(e *Ev) bool {
	op, _ := ioOf(e)
	switch {
	case op != "" && op != "unmap":
		return true
	case e.Kind == "process" || e.Kind == "openindex" || e.Kind == "setup" || e.Kind == "go" || e.Kind == "subindex" || e.Kind == "wait":
		return true
	}
	return false
}

// optsStruct: T has options among its own fields.
func optsStruct(T types.Type) *types.Struct {
	S, ok := under(T).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < S.NumFields(); i++ {
		if longTag(S, i) != "" {
			return S
		}
	}
	return nil
}

// option describes a declared option.
type option struct {
	tag      string
	T        types.Type
	required bool
	own      bool
	group    *types.Named
	pos      tokenPos
}

func optionsOf(T types.Type, own bool, into map[string]*option) {
	S, ok := under(T).(*types.Struct)
	if !ok {
		return
	}
	nm, _ := types.Unalias(T).(*types.Named)
	for i := 0; i < S.NumFields(); i++ {
		if tag := longTag(S, i); tag != "" {
			into[tag] = &option{tag: tag, T: S.Field(i).Type(), required: isYes(reflect.StructTag(S.Tag(i)).Get("required")), own: own, group: nm, pos: S.Field(i).Pos()}
		} else if _, ok := under(S.Field(i).Type()).(*types.Struct); ok {
			optionsOf(S.Field(i).Type(), false, into)
		}
	}
}

func isYes(s string) bool { return s == "true" || s == "yes" || s == "1" }

// validateHooks: validations of option groups are events.
func validateHooks(in *Interp) {
	for _, fn := range in.P.Funcs() {
		r := fn.Signature.Recv()
		if r == nil || fn.Name() != "Validate" || fnPkg(fn) == "" {
			continue
		}
		T := r.Type()
		if p, ok := under(T).(*types.Pointer); ok {
			T = p.Elem()
		}
		if optsStruct(T) == nil || fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
			continue
		}
		fn := fn
		in.Hooks[fnName(fn)] = func(in *Interp, c *CallCtx) []*Outcome {
			e := &Ev{Kind: "validate", Name: fnName(fn), Args: c.Args, Pos: c.Pos, In: c.In, Fn: fn}
			rs := in.results(c, e, false)
			if len(rs) == 1 {
				e.Ret = rs[0]
			}
			c.St.emit(e)
			return retOne(c.St, rs...)
		}
	}
}

func checkC35(c *Ctx) {
	for _, k := range c.commands() {
		if k.Err != "" {
			c.Bad("order", k.Name, k.Main, "not decided: %s", k.Err)
			continue
		}
		c.Try("order", k.Name, k.Main, func() { c.commandLine(k) })
	}
	c.writesToOptions()
	c.tickers()
	c.Min("order", 11)
	c.Min("interval", 6)
	c.Min("rejected", 22)
	c.Min("role", 30)
	c.Min("accepted", 11)
	c.Min("default", 20)
}

// clear: a list of messages is empty, or an error nil.
func clearTerm(r *Term) *Term {
	if _, ok := under(r.T).(*types.Slice); ok {
		return Eq(Len(r), tZero)
	}
	if b := basicOf(r.T); b != nil && b.Info()&types.IsBoolean != 0 {
		return r
	}
	return Eq(r, tNil)
}

func (c *Ctx) commandLine(k *Command) {
	var opts types.Type
	used := map[string]bool{}
	accepted := 0
	for _, o := range k.Outs {
		evs := o.St.ev.list()
		parse, effect := -1, -1
		var parsed *Ev
		for i, e := range evs {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "(*github.com/jessevdk/go-flags.Parser).Parse") {
				parse, parsed = i, e
				if e.Name == "(*github.com/jessevdk/go-flags.Parser).ParseArgs" {
					a := e.Args[1]
					c.Want(a.isOp("slice") && a.Args[1] == Int(1) && a.Args[0].any(func(x *Term) bool {
						return x.isOp("glob") && strings.Contains(x.S, "os.Args") || x.isOp("glob") && fmt.Sprint(x) == "glob:os.Args()"
					}), "parsed", k.Name, e.Pos, "what is parsed (%v) is not the command line without the program's name", a)
				}
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, "go-flags.NewParser") && len(e.Args) == 2 {
				if d := e.Args[0]; d.isOp("iface") && d.T != nil {
					if p, ok := under(d.T).(*types.Pointer); ok {
						opts = p.Elem()
					}
				}
				f := e.Args[1]
				if f.K != KInt || f.I&2 == 0 || f.I&8 != 0 {
					c.Bad("parsed", k.Name, e.Pos, "the parser does not answer --help, or ignores unknown options (flags %v)", f)
				} else {
					c.Ok("parsed", k.Name+" flags", e.Pos, "")
				}
			}
			eff := isEffect(e)
			if e.Loop != nil {
				eachEv([]*Ev{e}, func(x *Ev) { eff = eff || isEffect(x) })
			}
			if eff && effect < 0 {
				effect = i
			}
		}
		if parsed == nil || parsed.Ret == nil || len(parsed.Ret.Args) != 2 {
			if o.Kind == ORet || effect >= 0 {
				c.Bad("order", k.Name, o.Pos, "the command line is not parsed on a path")
			}
			continue
		}
		positional, err := parsed.Ret.Args[0], parsed.Ret.Args[1]
		if effect >= 0 && effect < parse {
			c.Bad("order", k.Name, evs[effect].Pos, "%s happens before the command line is parsed", evs[effect].Name)
			continue
		}
		// what makes the command line valid
		var need []*Term
		var whole *Term = Len(positional)
		need = append(need, Eq(err, tNil), Eq(Len(positional), tZero))
		seen := map[*ssa.Function]int{}
		for i, e := range evs {
			if e.Kind == "validate" && e.Ret != nil {
				seen[e.Fn] = i + 1
				need = append(need, clearTerm(e.Ret))
				if _, ok := under(e.Ret.T).(*types.Slice); ok {
					whole = Add(whole, Len(e.Ret))
				}
			}
		}
		st := o.St
		ok := func(i int) bool {
			if sure(st, need[i]) {
				return true
			}
			if i == 0 {
				return false
			}
			w := whole
			if sure(st, Eq(Len(positional), tZero)) {
				w = Sub(w, Len(positional))
			}
			return sure(st, Eq(w, tZero))
		}
		valid := true
		for i := range need {
			valid = valid && ok(i)
		}
		switch {
		case o.Kind == OExit && !(effect >= 0 && o.Val == tZero):
			code := o.Val
			if effect >= 0 {
				// with a valid command line, and for a reason found out since, it is another failure that ends the command
				since := false
				for _, e := range evs[effect:] {
					for l := range st.lits {
						if e.Ret == nil || e.Ret == tNil {
							continue
						}
						since = since || l.contains(e.Ret)
						if e.Ret.isOp("tuple") {
							for _, a := range e.Ret.Args {
								since = since || !a.isConst() && a != tNil && l.contains(a)
							}
						}
					}
				}
				if !valid || !since {
					c.Bad("rejected", k.Name, o.Pos, "the command line is rejected after %s", evs[effect].Name)
				}
				continue
			}
			help := sure(st, Not(Eq(err, tNil))) && c.isHelp(st, err, true)
			switch {
			case code.K != KInt:
				c.Bad("rejected", k.Name, o.Pos, "not decided: the exit code")
			case code.I == 0:
				c.Want(help, "rejected", k.Name+" help", o.Pos, "the command ends successfully although help was not asked for")
			default:
				c.Want(code.I == 1 && (sure(st, Eq(err, tNil)) || c.isHelp(st, err, false)), "rejected", k.Name+" error", o.Pos, "exit code %d, with a help request not excluded", code.I)
				// there is a reason
				reason := !sure(st, Eq(err, tNil)) || sure(st, Not(Eq(whole, tZero)))
				left := tZero
				for i := range need {
					reason = reason || sure(st, Not(need[i]))
				}
				for _, e := range evs {
					if e.Kind == "validate" && e.Ret != nil {
						if _, ok := under(e.Ret.T).(*types.Slice); ok && !sure(st, Eq(Len(e.Ret), tZero)) {
							left = Add(left, Len(e.Ret))
						}
					}
				}
				if !sure(st, Eq(Len(positional), tZero)) {
					left = Add(left, Len(positional))
				}
				c.Want(reason || sure(st, Not(Eq(left, tZero))) || illegal(normState(st), declared(opts)) != "", "accepted", k.Name, o.Pos, "a command line is rejected that parsed without error, has no positional arguments and no illegal option value")
			}
		case o.Kind == ORet || o.Kind == OExit:
			accepted++
			for i := range need {
				c.Want(ok(i), "order", k.Name, o.Pos, "the command goes on although %v may not hold", need[i])
			}
			// every group with a validation that can fail was validated
			for _, fn := range c.groupValidations(opts) {
				at := seen[fn]
				c.Want(at > 0 && (effect < 0 || at-1 < effect), "validated", k.Name+" "+fn.String(), o.Pos, "the option group is not validated before the first operation")
			}
			// no value that makes no sense is accepted
			checked := map[string]bool{}
			for _, fn := range c.groupValidations(opts) {
				for _, tag := range c.excludedBy(fn) {
					checked[tag] = seen[fn] > 0
				}
			}
			for _, tag := range senseless(normState(st), declared(opts)) {
				c.Want(checked[tag], "nonsense", k.Name+" --"+tag, o.Pos, "the command goes on although the value of --%s may make no sense", tag)
			}
			c.roles(k, o, opts, used)
		case o.Kind == OPanic && effect < 0 && valid:
			// a panic before any effect leaves nothing behind
		}
	}
	c.Want(accepted > 0, "order", k.Name+" accepted", k.Main, "no path on which the command runs was found")
	if opts == nil {
		c.Bad("order", k.Name, k.Main, "the options were not found")
		return
	}
	c.validations(opts)
	for _, o := range k.Outs {
		c.defaults(k, o, opts)
	}
	// every option has an effect
	all := map[string]*option{}
	optionsOf(opts, true, all)
	for _, p := range k.Pipe {
		for _, w := range []bool{false, true} {
			if w && !p.hasWriter() {
				continue
			}
			s := c.stage(p, w, nil)
			for _, o := range s.Outs {
				c.uses(o.St, used)
			}
		}
	}
	for _, o := range all {
		if !o.own {
			continue
		}
		c.Want(used[o.tag], "role", k.Name+" --"+o.tag, o.pos, "the value of this option is not used")
	}
}

func declared(opts types.Type) map[string]*option {
	all := map[string]*option{}
	if opts != nil {
		optionsOf(opts, true, all)
	}
	return all
}

// illegal says which option is known to have a value that makes no sense; st is about options.
func illegal(st *State, all map[string]*option) string {
	val := func(tag string) (v *Term, uns, given, missing bool) {
		x := all[tag]
		if x == nil {
			return nil, false, false, false
		}
		v = Op("opt", tag, x.T)
		if p, ok := under(x.T).(*types.Pointer); ok {
			given, missing = sure(st, Not(Eq(v, tNil))), sure(st, Eq(v, tNil))
			return Op("load", "", p.Elem(), v), isUnsigned(p.Elem()), given, missing
		}
		return v, isUnsigned(x.T), true, false
	}
	for tag, low := range leastValue {
		v, uns, given, _ := val(tag)
		if given && (sure(st, Lt(v, Int(low), uns)) || low == 1 && uns && sure(st, Eq(v, tZero))) {
			return tag
		}
	}
	i, uns, iGiven, iMissing := val("sub-index-index")
	n, _, nGiven, nMissing := val("sub-index-count")
	if i != nil && n != nil {
		switch {
		case iGiven && nMissing, iMissing && nGiven:
			return "sub-index-index"
		case iGiven && nGiven && sure(st, Le(n, i, uns)):
			return "sub-index-index"
		case iGiven && nGiven && !uns && sure(st, Le(n, tZero, false)):
			return "sub-index-count"
		}
	}
	_, _, rGiven, _ := val("mem-profile-rate")
	if _, _, _, pMissing := val("mem-profile"); rGiven && pMissing {
		return "mem-profile-rate"
	}
	return ""
}

// senseless lists the options that are not known to have a value that makes sense; st is about options.
func senseless(st *State, all map[string]*option) (r []string) {
	// with is the state in which the option is given
	given := func(st *State, tag string) (v *Term, uns bool, with *State) {
		x := all[tag]
		if x == nil {
			return nil, false, nil
		}
		v = Op("opt", tag, x.T)
		if p, ok := under(x.T).(*types.Pointer); ok {
			with = st.clone()
			if sure(st, Eq(v, tNil)) || !with.assume(Eq(v, tNil), false) {
				return v, false, nil
			}
			return Op("load", "", p.Elem(), v), isUnsigned(p.Elem()), with
		}
		return v, isUnsigned(x.T), st
	}
	for tag, low := range leastValue {
		v, uns, with := given(st, tag)
		if with == nil || uns && low == 0 {
			continue
		}
		if !sure(with, Le(Int(low), v, uns)) && !(low == 1 && uns && sure(with, Not(Eq(v, tZero)))) {
			r = append(r, tag)
		}
	}
	if all["sub-index-index"] != nil && all["sub-index-count"] != nil {
		ok := true
		if i, uns, with := given(st, "sub-index-index"); with != nil {
			n, _, both := given(with, "sub-index-count")
			ok = both != nil && sure(with, Not(Eq(Op("opt", "sub-index-count", all["sub-index-count"].T), tNil))) && sure(both, Lt(i, n, uns))
		}
		if _, _, with := given(st, "sub-index-count"); with != nil {
			ok = ok && sure(with, Not(Eq(Op("opt", "sub-index-index", all["sub-index-index"].T), tNil)))
		}
		if !ok {
			r = append(r, "sub-index-index")
		}
	}
	if rate, file := all["mem-profile-rate"], all["mem-profile"]; rate != nil && file != nil {
		if _, _, with := given(st, "mem-profile-rate"); with != nil && !sure(with, Not(Eq(Op("opt", "mem-profile", file.T), tNil))) {
			r = append(r, "mem-profile-rate")
		}
	}
	return r
}

// excludedBy lists the options of the group whose value makes sense whenever the validation finds nothing.
func (c *Ctx) excludedBy(fn *ssa.Function) []string {
	if r, ok := c.excluded[fn]; ok {
		return r
	}
	rv := fn.Signature.Recv().Type()
	if p, ok := under(rv).(*types.Pointer); ok {
		rv = p.Elem()
	}
	all := declared(rv)
	bad := map[string]bool{}
	in := c.interp()
	in.KeepPaths = true
	for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
		if o.Kind != ORet || len(o.Rets) != 1 || sure(o.St, Not(clearTerm(o.Rets[0]))) {
			continue
		}
		for _, tag := range senseless(normState(o.St), all) {
			bad[tag] = true
		}
	}
	var r []string
	for tag := range all {
		if !bad[tag] {
			r = append(r, tag)
		}
	}
	if c.excluded == nil {
		c.excluded = map[*ssa.Function][]string{}
	}
	c.excluded[fn] = r
	return r
}

// leastValue: the least value of an option that makes sense.
var leastValue = map[string]int64{"workers": 1, "passes": 1, "memory": 1, "refresh": 0, "sub-index-index": 0}

// validations: the validation of an option group finds something only where an option has a value that makes no sense.
func (c *Ctx) validations(opts types.Type) {
	for _, fn := range c.groupValidations(opts) {
		rv := fn.Signature.Recv().Type()
		if p, ok := under(rv).(*types.Pointer); ok {
			rv = p.Elem()
		}
		in := c.interp()
		in.KeepPaths = true
		for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
			if o.Kind == ORet && len(o.Rets) == 1 && sure(o.St, clearTerm(o.Rets[0])) {
				c.Ok("accepted", fn.String(), o.Pos, "")
				continue
			}
			c.Want(illegal(normState(o.St), declared(rv)) != "", "accepted", fn.String(), o.Pos, "the options are rejected although none of them has a value that makes no sense")
		}
	}
}

// defaults: options that are not given have values that make sense.
func (c *Ctx) defaults(k *Command, o *Outcome, opts types.Type) {
	for _, e := range o.St.ev.list() {
		if e.Kind != "call" || e.Name != "(*github.com/jessevdk/go-flags.Parser).ParseArgs" || e.Snap == nil {
			continue
		}
		var obj *Term
		for _, m := range o.St.ev.list() {
			if m.Kind == "call" && strings.HasSuffix(m.Name, "go-flags.NewParser") && len(m.Args) == 2 && m.Ret == e.Args[0] {
				if d := m.Args[0]; d.isOp("iface") && len(d.Args) == 1 {
					obj = d.Args[0]
				}
			}
		}
		if obj == nil {
			c.Bad("default", k.Name, e.Pos, "not decided: where the options are")
			continue
		}
		var visit func(a *Term, T types.Type)
		visit = func(a *Term, T types.Type) {
			S, ok := under(T).(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < S.NumFields(); i++ {
				F, fa := S.Field(i).Type(), FieldAddrT(a, i, T)
				tag := longTag(S, i)
				if tag == "" {
					visit(fa, F)
					continue
				}
				low, limited := leastValue[tag]
				_, ptr := under(F).(*types.Pointer)
				def, has := reflect.StructTag(S.Tag(i)).Lookup("default")
				v := e.Snap.load(fa, F)
				if b := basicOf(F); b != nil && b.Info()&types.IsBoolean != 0 {
					c.Want(v == tFalse && !(has && def != "false"), "default", k.Name+" --"+tag, e.Pos, "the flag is set without being given")
					continue
				}
				switch {
				case !limited && !ptr:
				case has && (ptr || !isString(F)):
					n, err := strconv.ParseInt(def, 0, 64)
					if d, derr := time.ParseDuration(def); derr == nil && err != nil {
						n, err = int64(d), nil
					}
					c.Want(err == nil && (!limited || n >= low), "default", k.Name+" --"+tag, S.Field(i).Pos(), "the default %q is no legal value", def)
				case ptr:
					c.Want(v == tNil, "default", k.Name+" --"+tag, e.Pos, "the option is set to %v before parsing, so it is never known to be missing", v)
				default:
					ok := sure(e.Snap, Le(Int(low), v, false))
					if n := fmt.Sprint(v); strings.HasPrefix(n, "runtime.NumCPU#") {
						ok = true // at least 1
					}
					c.Want(ok, "default", k.Name+" --"+tag, e.Pos, "without --%s, its value is %v, which is not known to be at least %d", tag, v, low)
				}
			}
		}
		visit(obj, opts)
	}
}

// isHelp: it is known whether the error is a help request.
func (c *Ctx) isHelp(st *State, err *Term, want bool) bool {
	yes, no := false, false
	for l, v := range st.lits {
		var cmp *Term
		switch {
		case l.isOp("istype") && l.Args[0] == err && !v:
			no = true
		case l.isOp("eq") && l.any(func(x *Term) bool { return x == err }) && l.any(func(x *Term) bool { return x.isOp("fld") && x.S == "0" }):
			cmp = l
		}
		if cmp != nil {
			// eq(load(fld 0 of the asserted error), ErrHelp)
			if cmp.Args[1] == Int(helpType) {
				if v {
					yes = true
				} else {
					no = true
				}
			}
		}
		if l.isOp("call") || l.isOp("pure") {
			continue
		}
	}
	if sure(st, Eq(err, tNil)) {
		return !want
	}
	if want {
		return yes
	}
	return no
}

// flags.ErrHelp
const helpType = 5

// groupValidations lists the validations of the option groups that can find something.
func (c *Ctx) groupValidations(opts types.Type) []*ssa.Function {
	var r []*ssa.Function
	S, ok := under(opts).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < S.NumFields(); i++ {
		T := S.Field(i).Type()
		if longTag(S, i) != "" || optsStruct(T) == nil {
			continue
		}
		for _, fn := range c.P.Funcs() {
			rv := fn.Signature.Recv()
			if rv == nil || fn.Name() != "Validate" {
				continue
			}
			R := rv.Type()
			if p, ok := under(R).(*types.Pointer); ok {
				R = p.Elem()
			}
			if !types.Identical(R, T) {
				continue
			}
			in := c.interp()
			can := false
			for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
				can = can || o.Kind != ORet || len(o.Rets) != 1 || !sure(o.St, clearTerm(o.Rets[0]))
			}
			if can {
				r = append(r, fn)
			}
		}
	}
	return r
}

// nonNegative: whenever the validation finds nothing, the option is not negative.
func (c *Ctx) nonNegative(fn *ssa.Function, tag string) bool {
	in := c.interp()
	n := 0
	for _, o := range c.run(in, fn, in.SymArgs(fn), newState()) {
		if o.Kind != ORet || len(o.Rets) != 1 || sure(o.St, Not(clearTerm(o.Rets[0]))) {
			continue
		}
		rv := fn.Signature.Recv().Type()
		if p, ok := under(rv).(*types.Pointer); ok {
			rv = p.Elem()
		}
		S, ok := under(rv).(*types.Struct)
		if !ok {
			return false
		}
		found := false
		for i := 0; i < S.NumFields(); i++ {
			if longTag(S, i) == tag {
				found = true
				n++
				if !sure(normState(o.St), Le(tZero, Op("opt", tag, S.Field(i).Type()), false)) {
					return false
				}
			}
		}
		if !found {
			return false
		}
	}
	return n > 0
}

// tickers: a ticker gets a positive interval, given that the one asked for is not negative.
func (c *Ctx) tickers() {
	ui := c.P.Func("internal/ui.NewUI")
	if ui == nil || len(ui.Params) == 0 {
		c.Bad("interval", "display", nil, "NewUI was not found")
		return
	}
	c.Try("interval", "display", ui, func() {
		in := c.interp()
		in.KeepPaths = true
		st := newState()
		args := in.SymArgs(ui)
		st.assume(Le(tZero, args[0], false), true)
		var check func(outs []*Outcome, depth int)
		check = func(outs []*Outcome, depth int) {
			for _, o := range outs {
				var visit func(evs []*Ev, st *State)
				visit = func(evs []*Ev, st *State) {
					for _, e := range evs {
						if e.Loop != nil {
							for _, it := range e.Loop.Iters {
								visit(it.St.ev.list(), it.St)
							}
						}
						switch {
						case e.Kind == "call" && (e.Name == "time.NewTicker" || e.Name == "time.Tick"):
							c.Want(sure(st, Lt(tZero, e.Args[0], false)), "interval", "display", e.Pos, "a ticker is started with interval %v, which may not be positive", e.Args[0])
						case e.Kind == "go" && depth < 3:
							s := e.Snap.clone()
							s.ev = nil
							check(in.callTerm(&CallCtx{St: s, Pos: e.Pos, In: ui}, e.Args[0], e.Args[1:]), depth+1)
						}
					}
				}
				visit(o.St.ev.list(), o.St)
			}
		}
		check(c.run(in, ui, args, st), 0)
	})
	// no ticker elsewhere
	in := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if in[f] {
			return
		}
		in[f] = true
		for _, a := range f.AnonFuncs {
			mark(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && fnPkg(g) == fnPkg(ui) {
						mark(g)
					}
				}
			}
		}
	}
	mark(ui)
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && !in[f] {
					if g := call.Common().StaticCallee(); g != nil && (g.String() == "time.NewTicker" || g.String() == "time.Tick") {
						c.Bad("interval", f.String(), ins.Pos(), "not decided: a ticker outside the display")
					}
				}
			}
		}
	}
}

// uses notes the options in the arguments and conditions of a path.
func (c *Ctx) uses(st *State, used map[string]bool) {
	note := func(t *Term) {
		for _, x := range optsIn(t) {
			used[x] = true
		}
	}
	eachEv(st.ev.list(), func(e *Ev) {
		if e.Kind == "call" && strings.Contains(e.Name, "go-flags") {
			return
		}
		for _, a := range e.Args {
			note(a)
			if e.Snap != nil {
				note(e.Snap.load(a, a.T))
			}
		}
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				for l := range it.St.lits {
					note(l)
				}
			}
			if e.Loop.Trip != nil {
				note(e.Loop.Trip)
			}
		}
	})
	for l := range st.lits {
		note(l)
	}
}

// roles: option values reach what they are meant for.
func (c *Ctx) roles(k *Command, o *Outcome, opts types.Type, used map[string]bool) {
	if opts == nil {
		return
	}
	all := map[string]*option{}
	optionsOf(opts, true, all)
	c.uses(o.St, used)
	want := func(e *Ev, a *Term, tag, what string) {
		got := optionOf(a)
		c.Want(got == tag, "role", fmt.Sprintf("%s %s", k.Name, what), e.Pos, "%s is %v, not the value of --%s", what, normOpts(a), tag)
		if x := all[tag]; got == tag && x != nil && isString(x.T) {
			c.Want(x.required, "role", k.Name+" --"+tag+" required", x.pos, "a file name that may be missing from the command line")
		}
	}
	index := "input-file"
	for tag, x := range all {
		if x.own && isString(x.T) && strings.Contains(tag, "index") {
			index = tag
		}
	}
	var walk func(l []*Ev, st *State)
	walk = func(l []*Ev, st *State) {
		ns := normState(st)
		for _, e := range l {
			c.given(k, e, ns, all)
			op, args := ioOf(e)
			switch {
			case e.Kind == "process" && len(e.Args) == 5:
				if len(optsIn(e.Args[1])) > 0 && optionOf(e.Args[1]) == "" {
					// a derived name: C26
				} else {
					want(e, e.Args[1], "input-file", "the file processed")
				}
				want(e, e.Args[4], "workers", "the number of workers")
			case op == "create":
				if n := normOpts(args[0]); n.isOp("opt") {
					want(e, args[0], "output-file", "the file created")
				}
			case e.Kind == "openindex":
				want(e, e.Args[0], index, "the index opened")
				if len(e.Args) > 1 {
					if all["timing"] != nil {
						want(e, e.Args[1], "timing", "the timing factor")
					} else {
						c.Want(e.Args[1] == tNil, "role", k.Name+" timing", e.Pos, "a timing factor is set but there is no such option")
					}
				}
			case e.Kind == "setup" && len(e.Args) == 1:
				a := e.Args[0]
				c.Want(a.isOp("fld") && types.Identical(under(a.X.(types.Type)), under(opts)), "role", k.Name+" system options", e.Pos, "Setup is not given the options of the command line")
			case e.Kind == "call" && strings.HasSuffix(e.Name, "internal/ui.NewUI") && len(e.Args) > 0:
				want(e, e.Args[0], "refresh", "the refresh interval")
				ok := sure(ns, Le(tZero, normOpts(e.Args[0]), false))
				for _, fn := range c.groupValidations(opts) {
					ok = ok || c.nonNegative(fn, optionOf(e.Args[0]))
				}
				c.Want(ok, "interval", k.Name, e.Pos, "the refresh interval may be negative, for which there is no ticker")
			case e.Kind == "subindex" && len(e.Args) == 3:
				cur, cnt := stripConv(normOpts(e.Args[1]), 64), stripConv(normOpts(e.Args[2]), 64)
				switch {
				case all["passes"] != nil:
					c.Want(cnt.isOp("opt") && cnt.S == "passes", "role", k.Name+" passes", e.Pos, "the number of passes is %v, not the value of --passes", cnt)
				case all["sub-index-index"] != nil:
					i, n := Op("opt", "sub-index-index", all["sub-index-index"].T), Op("opt", "sub-index-count", all["sub-index-count"].T)
					if sure(ns, Not(Eq(i, tNil))) {
						c.Want(cur.isOp("load") && cur.Args[0] == i && cnt.isOp("load") && cnt.Args[0] == n, "role", k.Name+" part", e.Pos, "the part asked for is %v of %v, not the one on the command line", cur, cnt)
					} else {
						c.Want(cur == tZero && cnt == Int(1), "role", k.Name+" whole", e.Pos, "without --sub-index-index, part %v of %v is used instead of the whole index", cur, cnt)
					}
				case all["memory"] != nil:
					m := Op("opt", "memory", all["memory"].T)
					switch {
					case c.ID != "C55":
						c.Want(sure(ns, Eq(m, tNil)) || cnt.contains(m), "role", k.Name+" memory", e.Pos, "%v passes, whatever the memory given", cnt)
					case sure(ns, Eq(m, tNil)):
						c.Want(cnt == Int(1), "memory", k.Name+" without", e.Pos, "%v passes without --memory, one expected", cnt)
					default:
						why := enough(ns, cnt, m)
						c.Want(why == "", "memory", k.Name, e.Pos, "%s (%v passes)", why, cnt)
					}
				}
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.St.ev.list(), it.St)
				}
			}
		}
	}
	walk(o.St.ev.list(), o.St)
	// files created by stages
	for _, p := range k.Pipe {
		for _, w := range []bool{false, true} {
			if w && !p.hasWriter() {
				continue
			}
			for _, so := range c.stage(p, w, nil).Outs {
				eachEv(so.St.ev.list(), func(e *Ev) {
					if op, args := ioOf(e); op == "create" && optionOf(args[0]) != "" {
						want(e, args[0], "output-file", "the file created")
					}
				})
			}
		}
	}
}

// given: optional values are used only if they were given, and none that may be zero is a divisor.
func (c *Ctx) given(k *Command, e *Ev, ns *State, all map[string]*option) {
	if e.Kind == "call" && strings.Contains(e.Name, "go-flags") {
		return
	}
	for _, a := range e.Args {
		normOpts(a).any(func(x *Term) bool {
			if x.isOp("load") && x.Args[0].isOp("opt") {
				c.Want(sure(ns, Not(Eq(x.Args[0], tNil))), "given", k.Name+" --"+x.Args[0].S, e.Pos, "the value of --%s is used where it may not have been given", x.Args[0].S)
			}
			if (x.isOp("div") || x.isOp("udiv") || x.isOp("rem") || x.isOp("urem")) && len(optsIn(x.Args[1])) > 0 {
				c.Want(nonZero(ns, x.Args[1]), "divisor", k.Name, e.Pos, "division by %v, which may be zero", x.Args[1])
			}
			return false
		})
	}
}

// nonZero: no factor of t can be zero (products are assumed not to overflow).
func nonZero(st *State, t *Term) bool {
	if sure(st, Not(Eq(t, tZero))) {
		return true
	}
	ms := polyOf(t)
	if len(ms) != 1 || ms[0].C == 0 {
		return false
	}
	for _, a := range ms[0].A {
		if !sure(st, Not(Eq(a, tZero))) {
			return false
		}
	}
	return true
}

// writesToOptions: options are set by the functions that parse the command line only.
func (c *Ctx) writesToOptions() {
	n := 0
	for _, fn := range c.P.Funcs() {
		parses := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && strings.HasPrefix(fnName(call.Common().StaticCallee()), "(*github.com/jessevdk/go-flags.Parser).Parse") {
					parses = true
				}
			}
		}
		if parses {
			n++
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				S, ok := under(elemType(a.X.Type())).(*types.Struct)
				if !ok {
					continue
				}
				if longTag(S, a.Field) != "" {
					c.Bad("constant", fn.String(), s.Pos(), "the value of --%s is changed after the command line was parsed", longTag(S, a.Field))
				}
			}
		}
	}
	c.Want(n >= 11, "constant", "parsers", nil, "only %d functions that parse a command line", n)
}
