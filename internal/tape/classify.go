package tape

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type cellOf struct{ v ssa.Value }

func fieldKey(t types.Type, i int) any {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s#%d", t, i)
}

// cellKey is the node of what an address holds.
func cellKey(a ssa.Value) any {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field)
	}
	return cellOf{a}
}

// classify finds which integers are positions on the tape and which are
// levels, by unifying what flows into each other.
func (m *Machine) classify(root *ssa.Function) {
	parent := map[any]any{}
	from := map[any][]any{} // what flows into what
	m.counted = map[any]bool{}
	var find func(x any) any
	find = func(x any) any {
		p, ok := parent[x]
		if !ok || p == x {
			return x
		}
		r := find(p)
		parent[x] = r
		return r
	}
	nodes := map[any]bool{}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int32 && b.Kind() != types.Uint8
	}
	join := func(a, b any) {
		for _, x := range []any{a, b} {
			if v, ok := x.(ssa.Value); ok {
				if _, c := v.(*ssa.Const); c {
					return
				}
			}
		}
		nodes[a], nodes[b] = true, true
		from[a] = append(from[a], b)
		parent[find(a)] = find(b)
	}
	joinInt := func(a, b ssa.Value) {
		if isInt(a.Type()) {
			join(a, b)
		} else if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			join(cellKey(a), cellKey(b))
			join(cellKey(b), cellKey(a))
		}
	}
	var pos, lev, index []any
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 || !m.InRepo(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if s, ok := st.Underlying().(*types.Struct); ok && m.IsLevel != nil && m.IsLevel(s, x.Field, st) {
						lev = append(lev, cellKey(x))
						nodes[cellKey(x)] = true
					}
				case *ssa.Store:
					if isInt(x.Val.Type()) {
						join(cellKey(x.Addr), x.Val)
						if _, ok := x.Val.(*ssa.BinOp); ok {
							m.counted[cellKey(x.Addr)] = true
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && isInt(x.Type()) {
						join(x, cellKey(x.X))
					}
				case *ssa.Field:
					if isInt(x.Type()) {
						join(x, fieldKey(x.X.Type(), x.Field))
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						joinInt(x, e)
					}
				case *ssa.BinOp:
					if (x.Op == token.ADD || x.Op == token.SUB) && isInt(x.Type()) {
						if _, ok := x.Y.(*ssa.Const); ok {
							join(x, x.X)
						} else if _, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD {
							join(x, x.Y)
						}
					}
				case *ssa.Convert:
					if isInt(x.Type()) && isInt(x.X.Type()) {
						join(x, x.X)
					}
				case *ssa.ChangeType:
					joinInt(x, x.X)
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					visit(f)
					for i, fv := range f.FreeVars {
						joinInt(fv, x.Bindings[i])
					}
				case *ssa.IndexAddr:
					if m.Input.IsTape(x.X.Type()) && isInt(x.Index.Type()) {
						pos = append(pos, x.Index)
						index = append(index, x.Index)
						nodes[x.Index] = true
					}
				case *ssa.Slice:
					if m.Input.IsTape(x.X.Type()) {
						for _, v := range []ssa.Value{x.Low, x.High} {
							if v != nil && isInt(v.Type()) {
								pos = append(pos, v)
								nodes[v] = true
							}
						}
					}
				case *ssa.Call:
					var f *ssa.Function
					if f = x.Call.StaticCallee(); f == nil || len(f.Blocks) == 0 || !m.InRepo(f) {
						continue
					}
					visit(f)
					for i, p := range f.Params {
						if i < len(x.Call.Args) {
							joinInt(p, x.Call.Args[i])
						}
					}
					for _, fb := range f.Blocks {
						r, ok := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return)
						if !ok {
							continue
						}
						if len(r.Results) == 1 {
							joinInt(x, r.Results[0])
							continue
						}
						for _, ref := range *x.Referrers() {
							if e, ok := ref.(*ssa.Extract); ok {
								joinInt(e, r.Results[e.Index])
							}
						}
					}
				}
			}
		}
	}
	visit(root)
	roots := map[any]int{}
	// constants are nobody's node
	for _, p := range pos {
		if v, ok := p.(*ssa.Const); ok && v != nil {
			continue
		}
		roots[find(p)] = 1
	}
	for _, p := range lev {
		roots[find(p)] |= 2
	}
	m.index = map[any]bool{}
	for len(index) > 0 {
		x := index[len(index)-1]
		index = index[:len(index)-1]
		if !m.index[x] {
			m.index[x] = true
			index = append(index, from[x]...)
		}
	}
	m.class = map[any]int{}
	for n := range nodes {
		if c := roots[find(n)]; c == 1 || c == 2 {
			m.class[n] = c
			delete(m.counted, n)
		}
	}
}
