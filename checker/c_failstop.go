package main

// C38: failures end the process.

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "effect analysis over the control-flow and call graphs of all functions of the repository, with the consistency checks decided by symbolic interpretation: "+
		"(interception) no failure is intercepted: every path from a call of recover with a non-nil result panics again or exits with a status other than zero, and no goroutine ends itself with Goexit; "+
		"(exit status) the process is ended with a status that may be 0 only by code that only the main goroutine runs, before anything can have failed in it: never in a function of an internal package, a stage, a goroutine or a deferred call; "+
		"(no wait) a deferred call, which also runs when its function fails, does not wait for other goroutines; "+
		"(each check) the consistency checks of the formats and of the pipeline exist and end the process: overflowing and truncated numbers, length prefixes, list ends, field bounds, undecodable groups, compression and declared sizes, packing of index entries, the version of the index, missing blocks in the ordering stage, unexpected kinds of data, unknown strings, failing file operations, rejected command lines.",
		runFailStop, "a panic that nothing recovers ends the process with a status other than zero (Go semantics)")
}

func runFailStop(c *Ctx) {
	c.interception("interception")
	c.exitStatus("exit status")
	c.noWait("no wait")
	c.eachCheck("each check")
}

func builtinName(call *ssa.CallCommon) string {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// exitCodes of a call of os.Exit and the like; nil when the call does not end the process.
func exitArg(call *ssa.CallCommon) (ssa.Value, bool) {
	g := call.StaticCallee()
	if g == nil {
		return nil, false
	}
	switch g.String() {
	case "os.Exit", "syscall.Exit", "golang.org/x/sys/unix.Exit":
		return call.Args[0], true
	}
	return nil, false
}

// maybeZero: the value may be 0. Constants, choices between values, parameters (by their arguments) and
// results of functions (by their returns) are followed; anything else may be 0.
func (c *Ctx) maybeZero(v ssa.Value, t *Threads, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.Int {
			return true
		}
		n, ok := constant.Int64Val(v.Value)
		return !ok || n&0xff == 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c.maybeZero(e, t, seen) {
				return true
			}
		}
		return false
	case *ssa.Convert:
		return c.maybeZero(v.X, t, seen)
	case *ssa.ChangeType:
		return c.maybeZero(v.X, t, seen)
	case *ssa.Parameter:
		f := v.Parent()
		if t == nil || t.valued[f] || t.roots[f] != "" || len(t.callers[f]) == 0 {
			return true
		}
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, ci := range t.callers[f] {
				if i >= len(ci.Common().Args) || c.maybeZero(ci.Common().Args[i], t, seen) {
					return true
				}
			}
			return false
		}
		return true
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !c.P.repo(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return true
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && c.maybeZero(r.Results[0], t, seen) {
				return true
			}
		}
		return false
	}
	return true
}

// ends: the instruction never completes: it panics, ends the process with a failure, or calls a function that does.
func (c *Ctx) ends(ins ssa.Instruction, t *Threads, depth int) bool {
	switch ins := ins.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		if a, ok := exitArg(&ins.Call); ok {
			return !c.maybeZero(a, t, map[ssa.Value]bool{})
		}
		g := ins.Call.StaticCallee()
		if g != nil && strings.HasPrefix(g.String(), "log.Fatal") || g != nil && strings.HasPrefix(g.String(), "log.Panic") {
			return true
		}
		if g != nil && c.P.repo(g) && len(g.Blocks) > 0 && depth < 8 {
			return !c.completes(g.Blocks[0], 0, t, depth+1, nil)
		}
	}
	return false
}

// completes: from instruction i of block b the function may return. Edges for which skip is true are not taken.
func (c *Ctx) completes(b *ssa.BasicBlock, i int, t *Threads, depth int, skip func(b *ssa.BasicBlock, succ int) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, i int) bool
	visit = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				return true
			}
			if c.ends(b.Instrs[i], t, depth) {
				return false
			}
		}
		for k, s := range b.Succs {
			if skip != nil && skip(b, k) || seen[s] {
				continue
			}
			seen[s] = true
			if visit(s, 0) {
				return true
			}
		}
		return false
	}
	return visit(b, i)
}

func (c *Ctx) interception(rule string) {
	t := c.threads()
	n, found := 0, 0
	for _, f := range c.P.Funcs() {
		n++
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && g.String() == "runtime.Goexit" {
					found++
					c.Bad(rule, "runtime.Goexit in "+fnName(f), ins, "the goroutine ends without finishing its work and without ending the process")
				}
				if builtinName(ci.Common()) != "recover" {
					// recover as a value: defer recover() has no effect unless called directly by a deferred function
					continue
				}
				found++
				call, isCall := ins.(*ssa.Call)
				if !isCall {
					// "defer recover()" and "go recover()" stop no panic (the former returns nil: it is not called by a deferred function)
					if _, ok := ins.(*ssa.Defer); ok {
						c.Bad(rule, "recover in "+fnName(f), ins, "recover is deferred")
					}
					continue
				}
				c.Want(!c.intercepts(b, i, call, t), rule, "recover in "+fnName(f), ins, "a failure is intercepted and the function may return: the process goes on after it")
			}
		}
	}
	if found == 0 {
		c.Ok(rule, fmt.Sprintf("all %d functions", n), nil, "no recover and no Goexit")
	}
}

// intercepts: after the call of recover (instruction i of b) has stopped a panic, the function may return.
func (c *Ctx) intercepts(b *ssa.BasicBlock, i int, call *ssa.Call, t *Threads) bool {
	nilEdge := func(b *ssa.BasicBlock, k int) bool {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isRecovered(cmp.X, call) && isNilConst(cmp.Y) || isRecovered(cmp.Y, call) && isNilConst(cmp.X)) {
			return false
		}
		return cmp.Op == token.EQL && k == 0 || cmp.Op == token.NEQ && k == 1
	}
	return c.completes(b, i+1, t, 0, nilEdge)
}

// isRecovered: v is the result of the call, possibly through a local variable assigned once.
func isRecovered(v ssa.Value, call *ssa.Call) bool {
	if v == call {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok {
			if s.Addr != ssa.Value(al) || s.Val != ssa.Value(call) {
				return false
			}
			n++
		} else if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	return n == 1
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// deferred gives the functions that deferred calls run, with one defer statement each.
func (c *Ctx) deferred(t *Threads) map[*ssa.Function]*ssa.Defer {
	r := map[*ssa.Function]*ssa.Defer{}
	var visit func(f *ssa.Function, d *ssa.Defer)
	visit = func(f *ssa.Function, d *ssa.Defer) {
		if f == nil || r[f] != nil || !c.P.repo(f) {
			return
		}
		r[f] = d
		for _, g := range t.edges[f] {
			visit(g, d)
		}
	}
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				d, ok := ins.(*ssa.Defer)
				if !ok {
					continue
				}
				for _, g := range c.callees(d.Common(), 0) {
					visit(g, d)
				}
			}
		}
	}
	return r
}

// callees of a call, also of a function value that another function of the repository returned or that a local variable holds.
func (c *Ctx) callees(call *ssa.CallCommon, depth int) []*ssa.Function {
	if call.IsInvoke() {
		var r []*ssa.Function
		for _, f := range c.P.Funcs() {
			if f.Signature.Recv() != nil && f.Parent() == nil && f.Name() == call.Method.Name() {
				r = append(r, f)
			}
		}
		return r
	}
	if g := call.StaticCallee(); g != nil {
		return []*ssa.Function{c.P.unbound(g)}
	}
	return c.funcsOf(call.Value, depth, map[ssa.Value]bool{})
}

func (c *Ctx) funcsOf(v ssa.Value, depth int, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] || depth > 6 {
		return nil
	}
	seen[v] = true
	if g := funcOf(v); g != nil {
		return []*ssa.Function{c.P.unbound(g)}
	}
	var r []*ssa.Function
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			r = append(r, c.funcsOf(e, depth, seen)...)
		}
	case *ssa.ChangeType:
		return c.funcsOf(v.X, depth, seen)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			for _, q := range *al.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					r = append(r, c.funcsOf(s.Val, depth, seen)...)
				}
			}
		}
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g != nil && c.P.repo(g) {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						r = append(r, c.funcsOf(x, depth+1, seen)...)
					}
				}
			}
		}
	}
	return r
}

func (c *Ctx) exitStatus(rule string) {
	t := c.threads()
	def := c.deferred(t)
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				a, ok := exitArg(ci.Common())
				if !ok {
					continue
				}
				name := "exit in " + fnName(f)
				if !c.maybeZero(a, t, map[ssa.Value]bool{}) {
					c.Ok(rule, name, ins, "never 0")
					continue
				}
				why := ""
				if _, ok := ins.(*ssa.Call); !ok {
					why = "as a deferred call or goroutine, which also runs after a failure"
				} else if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
					why = "in a package that commands use"
				} else if d := def[f]; d != nil {
					why = "in a function that a deferred call runs (" + c.P.pos(d.Pos()) + "), also after a failure"
				} else {
					for r := range t.of[f] {
						if t.roots[r] != "main" {
							why = "in code that " + fnName(r) + " runs, which is " + t.roots[r] + ": other parts may have failed or be unfinished"
						}
					}
				}
				c.Want(why == "", rule, name, ins, "the process may be ended with status 0 %s", why)
			}
		}
	}
	c.Min(rule, 5)
}

// noWait: deferred calls do not wait for other goroutines.
func (c *Ctx) noWait(rule string) {
	t := c.threads()
	def := c.deferred(t)
	for f, d := range def {
		bad := ""
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if w := waits(ins); w != "" {
					bad = w + " at " + c.P.pos(ins.Pos())
				}
			}
		}
		c.Want(bad == "", rule, fnName(f), d, "a deferred call waits (%s): when the function that deferred it fails, the end of the process waits for the other goroutines, which go on", bad)
	}
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				d, ok := ins.(*ssa.Defer)
				if !ok {
					continue
				}
				if g := d.Call.StaticCallee(); g != nil && !c.P.repo(g) && waitFn[g.String()] {
					c.Bad(rule, "defer in "+fnName(f), d, "%s is deferred: when the function fails, the end of the process waits for the other goroutines, which go on", g)
				}
			}
		}
	}
}

var waitFn = map[string]bool{"(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true, "time.Sleep": true, "(*os/exec.Cmd).Wait": true}

func waits(ins ssa.Instruction) string {
	switch ins := ins.(type) {
	case *ssa.Send:
		return "send on a channel"
	case *ssa.Select:
		if ins.Blocking {
			return "select"
		}
	case *ssa.UnOp:
		if ins.Op == token.ARROW {
			return "receive from a channel"
		}
	case *ssa.Call:
		if g := ins.Call.StaticCallee(); g != nil && waitFn[g.String()] {
			return g.String()
		}
	}
	return ""
}

// eachCheck: the consistency checks, as decided by the other checks.
var failRules = []struct {
	id, rule, construct string
	min                 int
}{
	{"C01", "varint-decode", "", 1},
	{"C02", "embed", "", 1},
	{"C03", "list-decode", "", 1},
	{"C05", "unknown-aborts", "", 1},
	{"C09", "pack", "", 1},
	{"C10", "reader", "reader version", 1},
	{"C18", "nothing is left over", "", 1},
	{"C20", "stage drains its input", "", 1},
	{"C21", "kinds read", "", 1},
	{"C24", "error", "", 1},
	{"C26", "wait", "", 1},
	{"C28", "builder", "", 1},
	{"C33", "reader advances by header and data", "", 1},
	{"C35", "rejected", "", 1},
	{"C37", "view", "", 1},
	{"C39", "decompress", "", 1},
	{"C40", "field-bounds", "", 1},
}

func (c *Ctx) eachCheck(rule string) {
	for _, r := range failRules {
		def := checks[r.id]
		if def == nil {
			c.Bad(rule, r.id, nil, "no such check")
			continue
		}
		k := &Ctx{P: c.P, ID: r.id, Tier: c.Tier, seen: map[string]bool{}, stats: map[string]int{}}
		k.Try(r.rule, "check", nil, func() { def.Run(k) })
		n := 0
		for _, o := range k.Obls {
			if o.Rule != r.rule || !strings.Contains(o.Construct, r.construct) {
				continue
			}
			n++
			o.Rule, o.Construct = rule, r.id+" "+r.rule+": "+o.Construct
			c.add(o)
		}
		if n < r.min {
			c.Bad(rule, r.id+" "+r.rule, nil, "not decided: the construct was not found")
		}
	}
}
