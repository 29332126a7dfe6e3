package main

// Loading: parse and type-check /repo with all its dependencies, build SSA for the repository's packages
// (dependencies are built on demand).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/squizzling/osmindex"

type Program struct {
	Dir   string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  []*packages.Package // repository packages
	SSA   map[string]*ssa.Package
	Types map[string]*types.Package
	infos map[*ssa.Function]*FnInfo
	built map[*ssa.Package]bool
	fns   []*ssa.Function
	msgs  map[string]*Message
	cmds  []*Command
	drv   *Driver
	thr   *Threads
}

func Load(dir, goarch string) (*Program, error) {
	env := os.Environ()
	if goarch != "" {
		env = append(env, "GOARCH="+goarch, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   dir,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, SSA: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, infos: map[*ssa.Function]*FnInfo{}, built: map[*ssa.Package]bool{}}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.Prog = prog
	p.Fset = prog.Fset
	p.Pkgs = pkgs
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Types != nil {
			p.Types[pk.PkgPath] = pk.Types
			if sp := prog.Package(pk.Types); sp != nil {
				p.SSA[pk.PkgPath] = sp
			}
		}
	})
	for _, pk := range pkgs {
		sp := p.SSA[pk.PkgPath]
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		sp.Build()
		p.built[sp] = true
	}
	return p, nil
}

// repo reports whether fn is code of the repository (including wrappers around its methods).
func (p *Program) repo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkg(fn), modPath)
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Origin() != nil && f.Origin() != f && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

// body makes sure the function is built and reports whether it has one.
func (p *Program) body(fn *ssa.Function) bool {
	if len(fn.Blocks) > 0 {
		return true
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil || p.built[pk] {
		return len(fn.Blocks) > 0
	}
	pk.Build()
	p.built[pk] = true
	return len(fn.Blocks) > 0
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	x := p.Fset.Position(pos)
	return strings.TrimPrefix(x.Filename, p.Dir+"/") + fmt.Sprintf(":%d", x.Line)
}

// Funcs lists every function of the repository (with closures and used method wrappers), sorted.
func (p *Program) Funcs() []*ssa.Function {
	if p.fns != nil {
		return p.fns
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.fns = append(p.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		sp := p.SSA[pk.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						f := p.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.fns, func(i, j int) bool { return p.fns[i].String() < p.fns[j].String() })
	return p.fns
}

// Func finds a package-level function or method: "internal/pb.DecodeVarInt", "internal/t.(*Way).Write".
func (p *Program) Func(name string) *ssa.Function {
	pkg, rest := splitName(name)
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(rest, '.'); i >= 0 {
		tn := strings.Trim(rest[:i], "(*)")
		T := sp.Type(tn)
		if T == nil {
			return nil
		}
		for _, R := range []types.Type{T.Type(), types.NewPointer(T.Type())} {
			sel := p.Prog.MethodSets.MethodSet(R).Lookup(sp.Pkg, rest[i+1:])
			if sel == nil {
				continue
			}
			if f := p.Prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
		return nil
	}
	return sp.Func(rest)
}

func splitName(name string) (pkg, rest string) {
	i := strings.LastIndexByte(name, '/')
	j := strings.IndexByte(name[i+1:], '.')
	pkg, rest = name[:i+1+j], name[i+1+j+1:]
	if pkg == "" || pkg == "main" {
		return modPath, rest
	}
	return modPath + "/" + pkg, rest
}

// Named finds a named type of the repository: "internal/t.Way".
func (p *Program) Named(name string) *types.Named {
	pkg, rest := splitName(name)
	tp := p.Types[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(rest)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// FieldIndex finds a field of a struct type by name (-1 if absent).
func FieldIndex(T types.Type, name string) int {
	if pt, ok := under(T).(*types.Pointer); ok {
		T = pt.Elem()
	}
	s, ok := under(T).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
