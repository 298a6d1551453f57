package checks

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// mainEval is the evaluation of the program from its entry.
type mainEval struct {
	e      *gsa.Engine
	fn     *ssa.Function
	normal gsa.Node
	calls  map[string]*apiCall // calls of exported functions of the repository, by site
}

// mainKeep are functions which are not followed from main.main: they neither
// touch files nor decide what is written where.
func mainOpaque(full bool) func(n string) bool {
	return func(n string) bool {
		if strings.Contains(n, "/httptransport.") || strings.Contains(n, "/svcdef/svcparse.") || strings.HasSuffix(n, "pkg.GoCamelCase") {
			return true
		}
		return !full && strings.Contains(n, "/svcdef.")
	}
}

// MainEval evaluates main.main with everything it calls; full says whether
// svcdef is followed too.
func (c *Ctx) MainEval(full bool) (*mainEval, error) {
	k := "main"
	if full {
		k = "mainfull"
	}
	if m, ok := c.cache[k].(*mainEval); ok {
		return m, nil
	}
	hook, err := c.assetHook()
	if err != nil {
		return nil, err
	}
	fn := c.fn("cmd/baron", "main")
	if fn == nil {
		return nil, errNoMain
	}
	op := mainOpaque(full)
	e := c.P.RepoEngine(gsa.Policy{Recur: c.recur(),
		Inline:   func(fn *ssa.Function) bool { return c.P.InRepo(fn) && !op(fn.String()) },
		Pure:     op,
		Fallible: op,
	})
	m := &mainEval{e: e, fn: fn, calls: map[string]*apiCall{}}
	if !full {
		hook = svcdefHook(c, hook)
	}
	e.CallHook = func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool) {
		if strings.Contains(name, moduleMark) {
			m.calls[e.Site(pos)+name] = &apiCall{name, args, cond}
		}
		return hook(e, name, args, cond, pos)
	}
	e.Slashless = func(t *Term) bool { return isServiceName(t) }
	_, m.normal = e.Eval(fn)
	c.cache[k] = m
	return m, nil
}

type strErr string

func (s strErr) Error() string { return string(s) }

const errNoMain = strErr("cmd/baron has no main function")

type callHook = func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool)

// svcdefHook makes every analysis of the definition files give the same
// definition: the two runs of main (to learn the service's name, and to
// generate) look at the same files, and C14 and C15 decide that the analysis
// is a function of them.
func svcdefHook(c *Ctx, next callHook) callHook {
	sd := lookupType(c, c.mod("svcdef"), "Svcdef")
	return func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool) {
		if name == c.mod("svcdef")+".New" && sd != nil {
			er := e.Op("res", "err", errT, e.Call("svcdef.New#"+e.Site(pos), errT))
			def := e.Op("param", "definition", types.NewPointer(sd))
			e.HookEffect("call", name, cond, args, er.Args[0], pos)
			// a definition is returned exactly when there is no error
			return []gsa.GV{e.Merge(e.NilNode(er), gsa.V(def), gsa.V(e.Nil())), gsa.V(er)}, true
		}
		return next(e, name, args, cond, pos)
	}
}

// isServiceName recognises the name of the service of a definition.
func isServiceName(t *Term) bool {
	return t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Aux == "Name" && strings.HasSuffix(t.Args[0].Args[0].String(), ".Service")
}

type apiCall struct {
	name string
	args []GV
	cond Node
}

// callsOf lists the calls of a function, in a fixed order.
func (m *mainEval) callsOf(suffix string) []*apiCall {
	var out []*apiCall
	for _, k := range sortedKeys(m.calls) {
		if strings.HasSuffix(m.calls[k].name, suffix) {
			out = append(out, m.calls[k])
		}
	}
	return out
}

// rootEval is the evaluation of one function with everything it calls.
type rootEval struct {
	name   string
	e      *gsa.Engine
	res    []GV
	ok     Node // the function returns, with a nil error if it returns one
	normal Node // the function returns
}

// RootEval evaluates a function; opaque names the functions of the repository
// which are not followed.
func (c *Ctx) RootEval(pkg, name string, opaque func(n string) bool) *rootEval {
	if fn := c.fn(pkg, name); fn != nil {
		return c.evalFn(fn, opaque)
	}
	return nil
}

func (c *Ctx) evalFn(fn *ssa.Function, opaque func(n string) bool) *rootEval {
	e := c.P.RepoEngine(gsa.Policy{Recur: c.recur(),
		Inline:   func(fn *ssa.Function) bool { return c.P.InRepo(fn) && !opaque(fn.String()) },
		Pure:     opaque,
		Fallible: opaque,
	})
	r := &rootEval{e: e}
	r.res, r.ok = e.Eval(fn)
	r.normal = r.ok
	if n := len(r.res); n > 0 && types.Identical(fn.Signature.Results().At(n-1).Type(), errT) {
		isnil := gsa.False
		for _, a := range r.res[n-1] {
			isnil = e.B.Or(isnil, e.B.And(a.C, e.NilNode(a.T)))
		}
		r.ok = e.B.And(r.ok, isnil)
	}
	return r
}

// recur is how many activations of a function within itself are followed.
func (c *Ctx) recur() int {
	if c.Recur > 0 {
		return c.Recur
	}
	return 1
}
