package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// canFail computes which functions of the repository may return an error that
// is not nil: the least solution, so that recursion alone makes no error.
func (c *Ctx) canFail() map[string]bool {
	if m, ok := c.cache["canfail"].(map[string]bool); ok {
		return m
	}
	out := map[string]bool{}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(c.P.SSA) {
		if c.P.InRepo(fn) && len(fn.Blocks) > 0 {
			if rs := fn.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errT) {
				fns = append(fns, fn)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if out[fn.String()] {
				continue
			}
			for _, b := range fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if c.errMay(r.Results[len(r.Results)-1], out, map[ssa.Value]bool{}) {
						out[fn.String()] = true
						changed = true
						break
					}
				}
			}
		}
	}
	c.cache["canfail"] = out
	return out
}

func (c *Ctx) errMay(v ssa.Value, may map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.errMay(e, may, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		return c.errMay(x.Tuple, may, seen)
	case *ssa.UnOp:
		// a variable
		if a := cellOf(x.X); a != nil {
			for _, s := range storesTo(a) {
				if s == nil || c.errMay(s.Val, may, seen) {
					return true
				}
			}
			return false
		}
		return true
	case *ssa.Call:
		fns, ok := calleesOf(&x.Call)
		if !ok {
			return true
		}
		for _, fn := range fns {
			n := fn.String()
			if strings.HasPrefix(n, "github.com/pkg/errors.W") {
				if c.errMay(x.Call.Args[0], may, seen) {
					return true
				}
				continue
			}
			if !c.P.InRepo(fn) || may[n] {
				return true
			}
		}
		return false
	}
	return true
}

// cellOf finds the variable behind an address: a local one, seen from its
// function or from a closure.
func cellOf(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			var cell *ssa.Alloc
			for _, r := range *fn.Referrers() {
				mc, ok := r.(*ssa.MakeClosure)
				if !ok {
					return nil
				}
				a := cellOf(mc.Bindings[i])
				if a == nil || cell != nil && cell != a {
					return nil
				}
				cell = a
			}
			return cell
		}
	}
	return nil
}

// storesTo lists the stores to a local variable; nil stands for unknown ones.
func storesTo(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				} else {
					out = append(out, nil)
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						visit(fn.FreeVars[i])
					}
				}
			default:
				out = append(out, nil)
			}
		}
	}
	visit(a)
	return out
}

// calleesOf resolves a call: a function, a closure, or a variable that only
// ever holds such.
func calleesOf(call *ssa.CallCommon) ([]*ssa.Function, bool) {
	if call.IsInvoke() {
		return nil, false
	}
	var out []*ssa.Function
	var resolve func(v ssa.Value) bool
	resolve = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
			return true
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
			return true
		case *ssa.UnOp:
			a := cellOf(x.X)
			if a == nil {
				return false
			}
			for _, s := range storesTo(a) {
				if s == nil || !resolve(s.Val) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := resolve(call.Value)
	return out, ok
}
