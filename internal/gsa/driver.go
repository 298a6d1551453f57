package gsa

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// RepoEngine returns an engine for the repository with the package-level
// variables that are never changed set to their initial values.
func (p *Program) RepoEngine(pol Policy) *Engine { return p.engine(pol, false) }

// TemplateEngine is an engine which follows the functions of the package of
// the embedded templates as well.
func (p *Program) TemplateEngine(pol Policy) *Engine { return p.engine(pol, true) }

func (p *Program) engine(pol Policy, templates bool) *Engine {
	if pol.Inline == nil {
		pol.Inline = func(fn *ssa.Function) bool { return p.InRepo(fn) }
	}
	user := pol.Inline
	tmplPkg := p.TemplatePkg()
	pol.Inline = func(fn *ssa.Function) bool {
		if inPkg(fn, tmplPkg) && !templates {
			return false
		}
		return user(fn)
	}
	upure := pol.Pure
	pol.Pure = func(name string) bool {
		if strings.HasPrefix(name, tmplPkg+".") && !templates {
			return true
		}
		return upure != nil && upure(name)
	}
	e := New(p.SSA, pol)
	var paths []string
	for k := range p.Spkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	mutated := p.MutatedGlobals()
	for _, k := range paths {
		if k == tmplPkg && !templates {
			continue
		}
		init := p.Spkg[k].Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		e.evalInit(p, init)
	}
	for g := range mutated {
		t := e.mkTerm("global", g.String(), g.Type(), g)
		for a := range e.mem {
			if a == t || addrRoot(a) == t {
				delete(e.mem, a)
			}
		}
	}
	e.Effects = nil
	e.Notes = map[string]bool{}
	e.Funcs = map[*ssa.Function]int{}
	return e
}

// TemplatePkg is the path of the embedded template package.
func (p *Program) TemplatePkg() string {
	return p.Module() + "/gengokit/template"
}

// Module is the module path.
func (p *Program) Module() string {
	for _, pk := range p.Pkgs {
		if pk.Module != nil {
			return pk.Module.Path
		}
	}
	return "github.com/teamlint/baron"
}

func inPkg(fn *ssa.Function, path string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == path
}

// evalInit evaluates the straight-line variable initialisation of a package.
func (e *Engine) evalInit(p *Program, init *ssa.Function) {
	saveInline := e.Pol.Inline
	e.Pol.Inline = func(fn *ssa.Function) bool {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
			return false
		}
		return saveInline(fn)
	}
	// init guards: treat as not yet initialised
	for _, m := range init.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
			e.mem[e.mkTerm("global", g.String(), g.Type(), g)] = V(e.Bool(false))
		}
	}
	e.evalFunc(init, nil, nil, True, "init")
	e.Pol.Inline = saveInline
}

// MutatedGlobals returns the package variables that may change after package
// initialisation: stored to in a function other than the synthesised init, or
// whose address is used otherwise than for loading; elements of slices, maps
// and structs reached from them count as part of them.
func (p *Program) MutatedGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	fns := ssautil.AllFunctions(p.SSA)
	for fn := range fns {
		if !p.InRepo(fn) || inPkg(fn, p.TemplatePkg()) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						// a load: is the loaded map/slice written?
						if !isInit && writtenThrough(x, map[ssa.Value]bool{}) {
							out[g] = true
						}
					case *ssa.Store:
						if !isInit {
							out[g] = true
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						if !isInit && writtenThrough(ins.(ssa.Value), map[ssa.Value]bool{}) {
							out[g] = true
						}
					default:
						if !isInit {
							out[g] = true
						}
					}
				}
			}
		}
	}
	return out
}

// writtenThrough reports whether memory reachable through v is written
// locally in its function (map update, element or field store).
func writtenThrough(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if writtenThrough(x, seen) {
				return true
			}
		case *ssa.FieldAddr:
			if writtenThrough(x, seen) {
				return true
			}
		case *ssa.Slice:
			if writtenThrough(x, seen) {
				return true
			}
		case *ssa.Phi:
			if writtenThrough(x, seen) {
				return true
			}
		case *ssa.UnOp:
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				switch x.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					if writtenThrough(x, seen) {
						return true
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy") && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				return true
			}
		}
	}
	return false
}
