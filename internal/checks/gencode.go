package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// eval evaluates a function of the generated code, or a method "T.M".
func (b *built) eval(pkg, name string) *rootEval {
	return b.evalWith(pkg, name, gsa.Policy{Recur: 1})
}

func (b *built) evalWith(pkg, name string, pol gsa.Policy) *rootEval {
	fn := b.program().Func(pkg, name)
	if fn == nil {
		return nil
	}
	return b.evalFunc(fn, pol)
}

func (b *built) evalFunc(fn *ssa.Function, pol gsa.Policy) *rootEval {
	e := b.program().RepoEngine(pol)
	r := &rootEval{e: e}
	r.res, r.ok = e.Eval(fn)
	r.normal = r.ok
	if n := len(r.res); n > 0 && types.Identical(fn.Signature.Results().At(n-1).Type(), errT) {
		isnil := gsa.False
		for _, a := range r.res[n-1] {
			isnil = e.B.Or(isnil, e.B.And(a.C, e.NilNode(a.T)))
		}
		r.ok = e.B.And(r.ok, isnil)
	}
	return r
}

// composed evaluates a function of the generated code together with the
// libraries that pass its requests on, and with the goroutines it starts; what
// the service's own methods do is left open.
func (b *built) composed(pkg, name string) *rootEval {
	rpc := map[string]bool{}
	for _, m := range b.w.methods {
		rpc[m.name] = true
	}
	p := b.program()
	return b.evalWith(pkg, name, gsa.Policy{Recur: 1, Go: true, MaxDepth: 60, Inline: func(fn *ssa.Function) bool {
		if fn.Pkg == nil {
			return p.InRepo(fn) || fn.Blocks != nil && b.libFunc(fn)
		}
		if fn.Pkg.Pkg.Path() == zqSvcPath+"/service" && fn.Signature.Recv() != nil && rpc[fn.Name()] {
			return false
		}
		return p.InRepo(fn) || b.libFunc(fn)
	}})
}

// libFunc says whether a function is of a library that stubs.txt describes.
func (b *built) libFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if o := fn.Object(); o != nil {
			return b.imp.stub[o.Pkg()]
		}
		return false
	}
	return b.imp.stub[fn.Pkg.Pkg]
}
