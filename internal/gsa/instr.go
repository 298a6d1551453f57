package gsa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type havocRec struct {
	cond Node
	tag  string
}

func (f *frame) val(v ssa.Value) GV {
	e := f.e
	switch x := v.(type) {
	case *ssa.Const:
		return V(e.constTerm(x))
	case *ssa.Function:
		return V(e.mkTerm("func", x.String(), x.Type(), &Closure{Fn: x}))
	case *ssa.Global:
		return V(e.mkTerm("global", x.String(), x.Type(), x))
	case *ssa.Builtin:
		return V(e.mkTerm("builtin", x.Name(), x.Type(), nil))
	}
	if r, ok := f.env[v]; ok {
		if r.Tup != nil {
			return V(e.mkTerm("undef", "tuple", v.Type(), nil))
		}
		if len(r.G) == 0 {
			return V(e.mkTerm("undef", v.Name()+f.ctx, v.Type(), nil))
		}
		return f.prune(r.G)
	}
	return V(e.mkTerm("undef", v.Name()+f.ctx, v.Type(), nil))
}

// prune drops the alternatives impossible under the current condition.
func (f *frame) prune(g GV) GV {
	if len(g) <= 1 || f.cur == True {
		return g
	}
	e := f.e
	var out GV
	drop := false
	for _, a := range g {
		c := e.B.And(a.C, f.cur)
		if c == False || !e.Sat(c) {
			drop = true
			continue
		}
		out = append(out, a)
	}
	if !drop {
		return g
	}
	if len(out) == 0 {
		return g
	}
	if len(out) == 1 {
		return V(out[0].T)
	}
	for i := range out {
		out[i].C = e.B.Simplify(out[i].C, f.cur)
	}
	return out
}

func (f *frame) set(v ssa.Value, g GV) { f.env[v] = Val{G: g} }

func (f *frame) instID(ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s%s.%d.%d", f.ctx, f.suffix, b.Index, i)
		}
	}
	return f.ctx
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (f *frame) instr(b *ssa.BasicBlock, ins ssa.Instruction) {
	e := f.e
	switch x := ins.(type) {
	case *ssa.Phi:
		if g, ok := f.phiOver[x]; ok {
			f.set(x, g)
			return
		}
		var g GV
		for i, p := range b.Preds {
			c := f.edge[[2]*ssa.BasicBlock{p, b}]
			if c == False {
				continue
			}
			save := f.cur
			f.cur = c
			v := f.val(x.Edges[i])
			f.cur = save
			for _, a := range v {
				if cc := e.B.And(c, a.C); cc != False {
					g = append(g, Alt{cc, a.T})
				}
			}
		}
		g = e.norm(g)
		if len(g) > 1 {
			for k := range g {
				g[k].C = e.B.Simplify(g[k].C, f.cond[b])
			}
		}
		f.set(x, g)
	case *ssa.Alloc:
		id := f.instID(x)
		t := e.mkTerm("alloc", id+"."+x.Comment, x.Type(), nil)
		f.fresh(t)
		f.set(x, V(t))
	case *ssa.MakeMap:
		t := e.mkTerm("makemap", f.instID(x), x.Type(), x)
		f.fresh(t)
		e.maps[t] = &trackedMap{made: f.cur}
		e.mapVer[t] = "new"
		f.set(x, V(t))
	case *ssa.MakeSlice:
		ln := f.val(x.Len)
		f.set(x, e.Lift1(func(ts []*Term) *Term {
			t := e.mkTerm("mkslice", f.instID(x), x.Type(), nil, ts[0])
			f.fresh(t)
			return t
		}, ln))
	case *ssa.MakeChan:
		f.set(x, V(e.mkTerm("object", f.instID(x)+".chan", x.Type(), nil)))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []GV
		var ids []*Term
		for _, b := range x.Bindings {
			g := f.val(b)
			bs = append(bs, g)
			ids = append(ids, e.TermOf(g))
		}
		f.set(x, V(e.mkTerm("closure", fn.String(), x.Type(), &Closure{fn, bs}, ids...)))
	case *ssa.MakeInterface:
		in := f.val(x.X)
		typ := x.X.Type()
		f.set(x, e.Lift1(func(ts []*Term) *Term { return e.Box(ts[0], typ) }, in))
	case *ssa.ChangeInterface:
		f.set(x, f.val(x.X))
	case *ssa.ChangeType:
		f.set(x, f.val(x.X))
	case *ssa.Convert:
		f.set(x, e.convert(f.val(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		f.set(x, f.val(x.X))
	case *ssa.SliceToArrayPointer:
		f.set(x, f.val(x.X))
	case *ssa.UnOp:
		f.unop(x)
	case *ssa.BinOp:
		typ := x.X.Type()
		if x.Op != token.EQL && x.Op != token.NEQ {
			typ = x.Type()
		}
		f.set(x, e.Lift(func(ts []*Term) GV { return e.binop(x.Op, ts[0], ts[1], typ) }, f.val(x.X), f.val(x.Y)))
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		fl := st.Field(x.Field)
		f.set(x, e.Lift1(func(ts []*Term) *Term { return e.FA(ts[0], fl.Name(), fl.Type()) }, f.val(x.X)))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		fl := st.Field(x.Field)
		f.set(x, e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], fl.Name(), fl.Type()) }, f.val(x.X)))
	case *ssa.IndexAddr:
		et := deref(x.Type())
		f.effIndex(x, x.X, x.Index)
		f.set(x, e.Lift1(func(ts []*Term) *Term { return e.IA(ts[0], ts[1], et) }, f.val(x.X), f.val(x.Index)))
	case *ssa.Index:
		f.effIndex(x, x.X, x.Index)
		f.set(x, e.Lift1(func(ts []*Term) *Term {
			if s, ok := ts[0].StrVal(); ok {
				if i, ok := ts[1].IntVal(); ok && i >= 0 && int(i) < len(s) {
					return e.Int(int64(s[i]))
				}
			}
			return e.mkTerm("index", "", x.Type(), nil, ts[0], ts[1])
		}, f.val(x.X), f.val(x.Index)))
	case *ssa.Lookup:
		f.lookup(x)
	case *ssa.Slice:
		f.slice(x)
	case *ssa.Store:
		addr := f.val(x.Addr)
		val := f.val(x.Val)
		f.store(x, addr, x.Val.Type(), val)
	case *ssa.MapUpdate:
		f.mapUpdate(x, f.val(x.Map), f.val(x.Key), f.val(x.Value))
	case *ssa.TypeAssert:
		f.typeAssert(x)
	case *ssa.Extract:
		tv := f.env[x.Tuple]
		if tv.Tup != nil && x.Index < len(tv.Tup) {
			f.set(x, tv.Tup[x.Index])
		} else {
			f.set(x, V(e.mkTerm("undef", x.Name()+f.ctx, x.Type(), nil)))
		}
	case *ssa.Range:
		f.set(x, f.val(x.X))
	case *ssa.Next:
		f.next(x)
	case *ssa.Call:
		res := f.call(x, &x.Call, x)
		if x.Call.Signature().Results().Len() == 1 {
			if len(res) > 0 {
				f.set(x, res[0])
			}
		} else {
			if res == nil {
				res = []GV{}
			}
			f.env[x] = Val{Tup: res}
		}
	case *ssa.Defer:
		d := deferRec{cond: f.cur, ins: x}
		if !x.Call.IsInvoke() {
			d.fnv = f.val(x.Call.Value)
		} else {
			d.fnv = f.val(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, f.val(a))
		}
		f.defers = append(f.defers, d)
		ef := e.effect(f, "defer", calleeName(&x.Call), f.cur, x, d.args, nil)
		_ = ef
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			c := e.B.And(f.cur, d.cond)
			if c == False {
				continue
			}
			save := f.cur
			f.cur = c
			n0 := len(e.Effects)
			f.doCall(d.ins, &d.ins.Call, nil, d.fnv, d.args)
			for _, ef := range e.Effects[n0:] {
				ef.Deferred = true
			}
			lost := e.B.AndNot(c, f.cur)
			f.cur = e.B.AndNot(save, lost)
		}
	case *ssa.Go:
		if e.Pol.Go {
			// what the goroutine does, as if at once
			cur := f.cur
			f.call(x, &x.Call, nil)
			f.cur = cur
			break
		}
		var args []GV
		for _, a := range x.Call.Args {
			args = append(args, f.val(a))
		}
		e.effect(f, "go", calleeName(&x.Call), f.cur, x, args, nil)
	case *ssa.Send:
		e.effect(f, "send", "", f.cur, x, []GV{f.val(x.Chan), f.val(x.X)}, nil)
	case *ssa.Select:
		e.effect(f, "select", "", f.cur, x, nil, nil)
		var tup []GV
		tt := x.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			tup = append(tup, V(e.mkTerm("undef", fmt.Sprintf("%s.%d", f.instID(x), i), tt.At(i).Type(), nil)))
		}
		f.env[x] = Val{Tup: tup}
	case *ssa.Panic:
		e.effect(f, "panic", "panic", f.cur, x, []GV{f.val(x.X)}, nil)
		f.cur = False
	case *ssa.Return:
		r := retRec{cond: f.cur}
		for _, v := range x.Results {
			r.vals = append(r.vals, f.val(v))
		}
		f.rets = append(f.rets, r)
	case *ssa.If, *ssa.Jump, *ssa.DebugRef:
	default:
		e.note("instruction %T not handled", ins)
		if v, ok := ins.(ssa.Value); ok {
			f.set(v, V(e.mkTerm("undef", f.instID(ins), v.Type(), nil)))
		}
	}
}

// Box makes an interface value.
func (e *Engine) Box(t *Term, typ types.Type) *Term {
	if types.IsInterface(typ) {
		return t
	}
	if t.Op == "box" {
		g := e.Lift1(func(ts []*Term) *Term { return e.Box(ts[0], typ) }, t.X.(GV))
		return e.TermOf(g)
	}
	if t.Op == "as" && t.Aux == typeStr(typ) {
		return t.Args[0]
	}
	return e.mkTerm("mk", typeStr(typ), typ, nil, t)
}

func (f *frame) fresh(t *Term) {
	e := f.e
	for k := range e.mem {
		if k == t || addrRoot(k) == t {
			delete(e.mem, k)
		}
	}
	delete(e.havoc, t)
	delete(e.mapVer, t)
	ls := map[string]bool{}
	for _, l := range e.loopStk {
		ls[l.ID] = true
	}
	e.allocLoops[t] = ls
}

// effIndex records an index operation (for bounds obligations).
func (f *frame) effIndex(ins ssa.Instruction, x, i ssa.Value) {
	if f.e.RecordIndex {
		f.e.effect(f, "index", "", f.cur, ins, []GV{f.val(x), f.val(i)}, nil)
	}
}

func (e *Engine) convert(g GV, from, to types.Type) GV {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	_, fs := from.Underlying().(*types.Slice)
	_, ts := to.Underlying().(*types.Slice)
	if fok && fb.Info()&types.IsString != 0 && (ts || tok && tb.Info()&types.IsString != 0) {
		return g
	}
	if fs && tok && tb.Info()&types.IsString != 0 {
		return g
	}
	if fok && tok {
		return e.Lift1(func(tt []*Term) *Term {
			t := tt[0]
			if t.IsConst() {
				if tb.Info()&types.IsString != 0 {
					if i, ok := t.IntVal(); ok {
						return e.Str(string(rune(i)))
					}
				}
				if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
					if i, ok := t.IntVal(); ok && i >= 0 && i < 128 {
						return t
					}
				}
			}
			if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 && basicSize(tb) >= basicSize(fb) {
				return t
			}
			return e.mkTerm("conv", typeStr(to), to, nil, t)
		}, g)
	}
	return e.Lift1(func(tt []*Term) *Term { return e.mkTerm("conv", typeStr(to), to, nil, tt[0]) }, g)
}

func basicSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (f *frame) unop(x *ssa.UnOp) {
	e := f.e
	g := f.val(x.X)
	switch x.Op {
	case token.MUL:
		typ := deref(x.X.Type())
		r := e.Lift(func(ts []*Term) GV { return e.LoadAddr(ts[0], typ) }, g)
		f.set(x, f.prune(r))
	case token.NOT:
		f.set(x, e.BoolGV(e.B.Not(e.NodeOf(g))))
	case token.SUB:
		f.set(x, e.Lift1(func(ts []*Term) *Term {
			if i, ok := ts[0].IntVal(); ok {
				return e.Int(-i)
			}
			return e.mkTerm("neg", "", x.Type(), nil, ts[0])
		}, g))
	case token.ARROW:
		e.effect(f, "recv", "", f.cur, x, []GV{g}, nil)
		t := V(e.mkTerm("recv", f.instID(x), x.Type(), nil))
		if x.CommaOk {
			f.env[x] = Val{Tup: []GV{t, V(e.mkTerm("recvok", f.instID(x), types.Typ[types.Bool], nil))}}
		} else {
			f.set(x, t)
		}
	default:
		f.set(x, e.Lift1(func(ts []*Term) *Term { return e.mkTerm("un", x.Op.String(), x.Type(), nil, ts[0]) }, g))
	}
}

func (f *frame) store(ins ssa.Instruction, addr GV, typ types.Type, val GV) {
	e := f.e
	for _, a := range addr {
		c := e.B.And(f.cur, a.C)
		if c == False {
			continue
		}
		root := addrRoot(a.T)
		kind := "store"
		if e.local(root) {
			kind = "lstore"
		}
		e.effect(f, kind, "", c, ins, []GV{V(a.T), val}, nil)
		sc := c
		if len(f.active) == 0 && len(e.callStk) == 1 && len(addr) == 1 && f.cur == True {
			sc = True
		}
		e.storeAddr(a.T, typ, val, sc)
	}
}

// map handling ------------------------------------------------------------------

func (e *Engine) verOf(m *Term) string { return e.mapVer[m] }

func (f *frame) mapUpdate(ins ssa.Instruction, m, k, v GV) {
	e := f.e
	for _, a := range m {
		c := e.B.And(f.cur, a.C)
		if c == False {
			continue
		}
		e.effect(f, "mapupdate", e.verOf(a.T), c, ins, []GV{V(a.T), k, v}, nil)
		if tm := e.maps[a.T]; tm != nil && !tm.dynamic {
			kt := k.One()
			en := mapEntry{kt, v, c}
			if e.Implies(tm.made, c) {
				en.Cond = True
			}
			switch {
			case kt == nil || kt.Op == "box" || len(f.active) > 0 && !kt.IsConst():
				tm.dynamic = true
			default:
				for i := range tm.entries {
					if o := tm.entries[i]; o.Key == kt && en.Cond == True && i == len(tm.entries)-1 {
						tm.entries = tm.entries[:i]
						break
					}
				}
				if len(tm.entries) >= 64 {
					tm.dynamic = true
				}
				tm.entries = append(tm.entries, en)
			}
		}
		e.mapVer[a.T] = "u" + f.instID(ins)
	}
}

func (e *Engine) onlyCtx(c Node) bool { return c == True }

func (f *frame) lookup(x *ssa.Lookup) {
	e := f.e
	m, k := f.val(x.X), f.val(x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		// string index
		f.effIndex(x, x.X, x.Index)
		f.set(x, e.Lift1(func(ts []*Term) *Term {
			if s, ok := ts[0].StrVal(); ok {
				if i, ok := ts[1].IntVal(); ok && i >= 0 && int(i) < len(s) {
					return e.Int(int64(s[i]))
				}
			}
			return e.mkTerm("index", "", x.Type(), nil, ts[0], ts[1])
		}, m, k))
		return
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	v := e.Lift(func(ts []*Term) GV { return e.mapGet(ts[0], ts[1], vt) }, m, k)
	if !x.CommaOk {
		f.set(x, f.prune(v))
		return
	}
	ok := False
	for _, a := range m {
		for _, b := range k {
			ok = e.B.Or(ok, e.B.And(a.C, b.C, e.mapHas(a.T, b.T)))
		}
	}
	// with ok false the value is zero; keep both views consistent
	f.env[x] = Val{Tup: []GV{f.prune(v), e.BoolGV(ok)}}
}

// isKeyOf: the term is an element of a list of the keys of the map, or one of
// its keys in a loop over it.
func (e *Engine) isKeyOf(k, m *Term) bool {
	if k.Op != "mapkey" && k.Op != "load" {
		return false
	}
	mp, _, sure := e.KeyOf(k)
	return mp == m && sure
}

func (e *Engine) mapGet(m, k *Term, vt types.Type) GV {
	if k.Op == "box" {
		return e.Lift(func(ts []*Term) GV { return e.mapGet(m, ts[0], vt) }, k.X.(GV))
	}
	if m.IsNil() {
		return V(e.zero(vt))
	}
	if e.isKeyOf(k, m) {
		return V(e.mkTerm("lookup", e.verOf(m), vt, nil, m, k))
	}
	if tm := e.maps[m]; tm != nil && !tm.dynamic {
		var g GV
		rest := True
		for i := len(tm.entries) - 1; i >= 0; i-- {
			en := tm.entries[i]
			c := e.B.And(en.Cond, e.EqNode(k, en.Key))
			for _, a := range en.Val {
				if cc := e.B.And(rest, c, a.C); cc != False {
					g = append(g, Alt{cc, a.T})
				}
			}
			rest = e.B.AndNot(rest, c)
		}
		if rest != False {
			g = append(g, Alt{rest, e.zero(vt)})
		}
		return e.norm(g)
	}
	return V(e.mkTerm("lookup", e.verOf(m), vt, nil, m, k))
}

func (e *Engine) mapHas(m, k *Term) Node {
	if k.Op == "box" {
		r := False
		for _, a := range k.X.(GV) {
			r = e.B.Or(r, e.B.And(a.C, e.mapHas(m, a.T)))
		}
		return r
	}
	if m.IsNil() {
		return False
	}
	if e.isKeyOf(k, m) {
		return True
	}
	if tm := e.maps[m]; tm != nil && !tm.dynamic {
		r := False
		for _, en := range tm.entries {
			r = e.B.Or(r, e.B.And(en.Cond, e.EqNode(k, en.Key)))
		}
		return r
	}
	return e.Atom(e.mkTerm("has", e.verOf(m), types.Typ[types.Bool], nil, m, k))
}

// KeyOf is the map the term is a key of; sure says that every key of the
// map gets its turn, when given holds of the loops it went through.
func (e *Engine) KeyOf(t *Term) (mp *Term, given Node, sure bool) {
	switch {
	case t.Op == "mapkey":
		return t.Args[0], True, true
	case t.Op == "load" && t.Args[0].Op == "ia":
		b := t.Args[0].Args[0]
		sure = true
		var seen = map[*Term]bool{}
		var list func(x *Term)
		list = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			switch x.Op {
			case "const", "mkslice", "slicelit":
			case "app":
				list(x.Args[0])
				for _, y := range x.Args[1:] {
					if y.Op == "mapkey" && (mp == nil || mp == y.Args[0]) {
						mp = y.Args[0]
					} else {
						sure = false
					}
				}
			case "phi":
				pi := e.PhiInfo(x)
				if pi == nil {
					sure = false
					return
				}
				for _, a := range pi.Init {
					list(a.T)
				}
				for _, a := range pi.Next {
					if a.T == x {
						sure = false // not every key
					}
					list(a.T)
				}
			default:
				sure = false
			}
		}
		list(b)
		return mp, True, sure && t.Args[0].Args[1].Op == "iter"
	}
	return nil, True, false
}

func (f *frame) next(x *ssa.Next) {
	e := f.e
	it := f.val(x.Iter)
	src := e.TermOf(it)
	id := "?"
	if len(f.active) > 0 {
		id = f.active[len(f.active)-1].ID
	} else {
		id = f.suffix + f.ctx
	}
	more := e.mkTerm("more", id, types.Typ[types.Bool], nil, src)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	rng := x.Iter.(*ssa.Range)
	var k, v *Term
	if m, ok := rng.X.Type().Underlying().(*types.Map); ok {
		kt, vt = m.Key(), m.Elem()
		k = e.mkTerm("mapkey", id, kt, nil, src)
		v = e.mkTerm("lookup", e.verOf(src), vt, nil, src, k)
		if src.Op == "box" {
			v = e.mkTerm("mapval", id, vt, nil, src, k)
		}
	} else {
		k = e.mkTerm("mapkey", id, types.Typ[types.Int], nil, src)
		v = e.mkTerm("runeat", id, types.Typ[types.Rune], nil, src, k)
	}
	_ = vt
	f.env[x] = Val{Tup: []GV{V(more), V(k), V(v)}}
}

func (f *frame) slice(x *ssa.Slice) {
	e := f.e
	g := f.val(x.X)
	lo, hi := V(e.Int(0)), V(e.mkTerm("const", "nil", nil, nil))
	if x.Low != nil {
		lo = f.val(x.Low)
	}
	if x.High != nil {
		hi = f.val(x.High)
	}
	arrLen := int64(-1)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			arrLen = a.Len()
		}
	}
	if e.RecordIndex {
		e.effect(f, "slice", "", f.cur, x, []GV{g, lo, hi}, nil)
	}
	f.set(x, e.Lift1(func(ts []*Term) *Term {
		b, l, h := ts[0], ts[1], ts[2]
		li, lok := l.IntVal()
		if arrLen >= 0 && lok && li == 0 && (h.IsNil() || h == e.Int(arrLen)) {
			return e.mkTerm("slicelit", "", x.Type(), arrLen, b)
		}
		if arrLen >= 0 && lok && li == 0 && h == e.Int(0) {
			return e.Nil()
		}
		if lok && li == 0 && h.IsNil() {
			return b
		}
		if s, ok := b.StrVal(); ok && lok {
			if h.IsNil() && int(li) <= len(s) {
				return e.Str(s[li:])
			}
			if hi, ok := h.IntVal(); ok && int(hi) <= len(s) && li <= hi {
				return e.Str(s[li:hi])
			}
		}
		if b.IsNil() {
			return b
		}
		return e.mkTerm("slice", "", x.Type(), nil, b, l, h)
	}, g, lo, hi))
}

// type assertions -----------------------------------------------------------------

// TypeIs is the condition that interface value t has (or implements) typ.
func (e *Engine) TypeIs(t *Term, typ types.Type) Node {
	if t.Op == "box" {
		r := False
		for _, a := range t.X.(GV) {
			r = e.B.Or(r, e.B.And(a.C, e.TypeIs(a.T, typ)))
		}
		return r
	}
	if t.IsNil() {
		return False
	}
	if t.Op == "mk" {
		if it, ok := typ.Underlying().(*types.Interface); ok {
			if types.Implements(t.Typ, it) {
				return True
			}
			return False
		}
		if types.Identical(t.Typ, typ) {
			return True
		}
		return False
	}
	if t.Op == "call" && strings.HasPrefix(t.CallName(), "github.com/pkg/errors.Wrap") {
		if it, ok := typ.Underlying().(*types.Interface); ok {
			_ = it
		} else {
			return False
		}
	}
	return e.Atom(e.mkTerm("typeis", typeStr(typ), types.Typ[types.Bool], typ, t))
}

// As is the value of interface value t as typ.
func (e *Engine) As(t *Term, typ types.Type) *Term {
	if t.Op == "mk" && !types.IsInterface(typ) {
		return t.Args[0]
	}
	if types.IsInterface(typ) {
		return t
	}
	return e.mkTerm("as", typeStr(typ), typ, nil, t)
}

func (f *frame) typeAssert(x *ssa.TypeAssert) {
	e := f.e
	g := f.val(x.X)
	ok := False
	for _, a := range g {
		ok = e.B.Or(ok, e.B.And(a.C, e.TypeIs(a.T, x.AssertedType)))
	}
	if !x.CommaOk {
		if bad := e.B.AndNot(f.cur, ok); bad != False && e.Sat(bad) {
			e.effect(f, "assert", typeStr(x.AssertedType), bad, x, []GV{g}, nil)
			f.cur = e.B.And(f.cur, ok)
		}
		f.set(x, e.Lift1(func(ts []*Term) *Term { return e.As(ts[0], x.AssertedType) }, f.prune(g)))
		return
	}
	zero := e.zero(x.AssertedType)
	var out GV
	for _, a := range g {
		is := e.TypeIs(a.T, x.AssertedType)
		if c := e.B.And(a.C, is); c != False {
			out = append(out, Alt{c, e.As(a.T, x.AssertedType)})
		}
		if c := e.B.AndNot(a.C, is); c != False {
			out = append(out, Alt{c, zero})
		}
	}
	f.env[x] = Val{Tup: []GV{e.norm(out), e.BoolGV(ok)}}
}

// calls ------------------------------------------------------------------------------

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + typeStr(c.Value.Type()) + ")." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return v.String()
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function).String()
	}
	return "dynamic"
}

func (f *frame) call(ins ssa.Instruction, c *ssa.CallCommon, v ssa.Value) []GV {
	var args []GV
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	return f.doCall(ins, c, v, f.val(c.Value), args)
}

type outcome struct {
	in, out Node
	res     []GV
}

func (f *frame) doCall(ins ssa.Instruction, c *ssa.CallCommon, v ssa.Value, fnv GV, args []GV) []GV {
	e := f.e
	nres := c.Signature().Results().Len()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(ins, b.Name(), c, args)
	}
	start := f.cur
	var outs []outcome
	for _, a := range fnv {
		cond := e.B.And(start, a.C)
		if cond == False || !e.Sat(cond) {
			continue
		}
		f.cur = cond
		var res []GV
		pargs := make([]GV, len(args))
		for i := range args {
			pargs[i] = f.prune(args[i])
		}
		if c.IsInvoke() {
			res = f.invoke(ins, c, a.T, pargs)
		} else {
			res = f.callTerm(ins, c, a.T, pargs)
		}
		outs = append(outs, outcome{cond, f.cur, res})
	}
	f.cur = False
	for _, o := range outs {
		f.cur = e.B.Or(f.cur, o.out)
	}
	if nres == 0 {
		return nil
	}
	if len(outs) == 1 {
		return outs[0].res
	}
	res := make([]GV, nres)
	for i := range res {
		var g GV
		for _, o := range outs {
			if i >= len(o.res) {
				continue
			}
			for _, a := range o.res[i] {
				if cc := e.B.And(o.out, a.C); cc != False {
					g = append(g, Alt{cc, a.T})
				}
			}
		}
		g = e.norm(g)
		if len(g) > 1 {
			for k := range g {
				g[k].C = e.B.Simplify(g[k].C, f.cur)
			}
		}
		if len(g) == 0 {
			g = V(e.mkTerm("undef", "nocallee"+f.instID(ins), c.Signature().Results().At(i).Type(), nil))
		}
		res[i] = g
	}
	return res
}

func (f *frame) invoke(ins ssa.Instruction, c *ssa.CallCommon, recv *Term, args []GV) []GV {
	e := f.e
	if recv.Op == "mk" {
		typ := recv.Typ
		ms := e.Prog.MethodSets.MethodSet(typ)
		if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			if fn := e.Prog.MethodValue(sel); fn != nil {
				return f.static(ins, c, fn, append([]GV{V(recv.Args[0])}, args...), nil)
			}
		}
	}
	if recv.IsNil() {
		e.effect(f, "panic", "nil invoke", f.cur, ins, nil, nil)
		f.cur = False
		return f.undefs(ins, c)
	}
	name := "(" + typeStr(c.Value.Type()) + ")." + c.Method.Name()
	if e.CallHook != nil {
		if res, ok := e.CallHook(e, name, append([]GV{V(recv)}, args...), f.cur, ins.Pos()); ok {
			return res
		}
	}
	return f.opaque(ins, c, name, nil, append([]GV{V(recv)}, args...))
}

func (f *frame) undefs(ins ssa.Instruction, c *ssa.CallCommon) []GV {
	var out []GV
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, V(f.e.mkTerm("undef", fmt.Sprintf("%s.r%d", f.instID(ins), i), rs.At(i).Type(), nil)))
	}
	return out
}

func (f *frame) callTerm(ins ssa.Instruction, c *ssa.CallCommon, t *Term, args []GV) []GV {
	e := f.e
	if cl, ok := t.X.(*Closure); ok {
		return f.static(ins, c, cl.Fn, args, cl.Bindings)
	}
	if t.IsNil() {
		e.effect(f, "panic", "nil func", f.cur, ins, nil, nil)
		f.cur = False
		return f.undefs(ins, c)
	}
	return f.opaque(ins, c, "dynamic:"+t.String(), nil, append([]GV{V(t)}, args...))
}

func (f *frame) static(ins ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, free []GV) []GV {
	e := f.e
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if e.CallHook != nil {
		if res, ok := e.CallHook(e, name, args, f.cur, ins.Pos()); ok {
			return res
		}
	}
	if res, ok := f.model(ins, c, name, args); ok {
		return res
	}
	if res, ok := f.callback(ins, c, name, args); ok {
		return res
	}
	// wrappers of bound methods and interface thunks are always followed
	if fn.Synthetic != "" && fn.Blocks != nil && fn.Pkg == nil {
		if len(e.callStk) < e.Pol.MaxDepth {
			return f.inline(ins, fn, args, free)
		}
	}
	if fn.Blocks != nil && e.Pol.Inline != nil && e.Pol.Inline(fn) && len(e.callStk) < e.Pol.MaxDepth {
		n := 0
		for _, g := range e.callStk {
			if g == fn {
				n++
			}
		}
		if n <= e.Pol.Recur {
			return f.inline(ins, fn, args, free)
		}
		e.note("recursive call of %s not followed", name)
		return f.opaque(ins, c, name, fn, append(append([]GV{}, args...), free...))
	}
	return f.opaque(ins, c, name, fn, append(append([]GV{}, args...), free...))
}

func (f *frame) inline(ins ssa.Instruction, fn *ssa.Function, args, free []GV) []GV {
	e := f.e
	res, normal := e.evalFunc(fn, args, free, f.cur, f.instID(ins))
	f.cur = normal
	return res
}

// opaque is a call of a function whose body is not looked at.
func (f *frame) opaque(ins ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []GV) []GV {
	e := f.e
	rs := c.Signature().Results()
	pure := e.Pol.Pure != nil && e.Pol.Pure(name) || pureFuncs[name]
	if pure {
		out := e.Lift1(func(ts []*Term) *Term {
			var typ types.Type
			if rs.Len() == 1 {
				typ = rs.At(0).Type()
			}
			return e.mkTerm("call", name, typ, nil, ts...)
		}, f.flat(args)...)
		sp := e.split(out, rs)
		if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), errType) && (fallible[name] || e.Pol.Fallible != nil && e.Pol.Fallible(name)) {
			if ef := e.effect(f, "query", name, f.cur, ins, args, nil); ef != nil {
				ef.Err = sp[n-1]
			}
		}
		return sp
	}
	var ts []*Term
	orig := args
	if sig := c.Signature(); sig.Variadic() && len(args) == sig.Params().Len() {
		// the elements of a literal argument list, when they are plain values
		last := len(args) - 1
		if t := args[last].One(); t != nil && t.Op == "slicelit" && isStringSlice(sig.Params().At(last).Type()) {
			if els, ok := f.elems(args[last], sig.Params().At(last).Type()); ok {
				var items []*Term
				for _, g := range els {
					items = append(items, e.TermOf(g))
				}
				args = append(append([]GV{}, args[:last]...), V(e.mkTerm("args", "", sig.Params().At(last).Type(), nil, items...)))
			}
		}
	}
	for _, a := range args {
		ts = append(ts, e.TermOf(a))
	}
	id := f.instID(ins)
	var typ types.Type
	if rs.Len() == 1 {
		typ = rs.At(0).Type()
	}
	ct := e.mkTerm("call", name+"#"+id, typ, nil, ts...)
	sp := e.split(V(ct), rs)
	if ef := e.effect(f, "call", name, f.cur, ins, args, ct); ef != nil && rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errType) {
		ef.Err = sp[rs.Len()-1]
	}
	if !readOnly[name] {
		for _, a := range orig {
			for _, alt := range a {
				e.escape(alt.T, e.B.And(f.cur, alt.C), id, map[*Term]bool{})
			}
		}
	}
	return sp
}

// fallible are the observations which can fail for reasons of their own.
var fallible = map[string]bool{
	"path/filepath.Abs": true, "path/filepath.Rel": true, "os.Getwd": true, "os/exec.LookPath": true,
	"(*text/template.Template).Parse": true, "strconv.Atoi": true, "strconv.Unquote": true, "regexp.Compile": true,
}

// flat replaces literal slices by their elements so that pure calls of equal
// arguments are equal terms.
func (f *frame) flat(args []GV) []GV {
	e := f.e
	var out []GV
	for _, a := range args {
		if t := a.One(); t != nil && t.Op == "slicelit" {
			for i := int64(0); i < t.X.(int64); i++ {
				out = append(out, e.unmk(e.LoadAddr(e.IA(t, e.Int(i), nil), types.Typ[types.Int])))
			}
			continue
		}
		out = append(out, a)
	}
	return out
}

func (e *Engine) unmk(g GV) GV {
	return e.Lift1(func(ts []*Term) *Term {
		if ts[0].Op == "mk" {
			return ts[0].Args[0]
		}
		return ts[0]
	}, g)
}

func (e *Engine) split(g GV, rs *types.Tuple) []GV {
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return []GV{g}
	}
	var out []GV
	for i := 0; i < rs.Len(); i++ {
		i := i
		out = append(out, e.Lift1(func(ts []*Term) *Term {
			return e.mkTerm("res", fmt.Sprint(i), rs.At(i).Type(), nil, ts[0])
		}, g))
	}
	return out
}

// escape forgets the contents of local objects reachable from t.
func (e *Engine) escape(t *Term, cond Node, tag string, seen map[*Term]bool) {
	if seen[t] || cond == False {
		return
	}
	seen[t] = true
	switch t.Op {
	case "mk", "slicelit", "as":
		e.escape(t.Args[0], cond, tag, seen)
		return
	case "box":
		for _, a := range t.X.(GV) {
			e.escape(a.T, e.B.And(cond, a.C), tag, seen)
		}
		return
	case "fa", "ia":
		e.escape(addrRoot(t), cond, tag, seen)
		return
	case "closure":
		for _, b := range t.X.(*Closure).Bindings {
			for _, a := range b {
				e.escape(a.T, e.B.And(cond, a.C), tag, seen)
			}
		}
		return
	case "makemap":
		e.mapVer[t] = "x" + tag
		if tm := e.maps[t]; tm != nil {
			tm.dynamic = true
		}
		return
	case "alloc", "mkslice", "object":
	default:
		return
	}
	var inner []*Term
	for _, k := range termKeys(e.mem) {
		v := e.mem[k]
		if k == t || addrRoot(k) == t {
			if k.Aux == contentField {
				continue
			}
			for _, a := range v {
				inner = append(inner, a.T)
			}
			h := e.mkTerm("load", "h"+tag, memType(k), nil, k)
			e.mem[k] = e.Merge(cond, V(h), v)
		}
	}
	e.havoc[t] = append(append([]havocRec(nil), e.havoc[t]...), havocRec{cond, tag})
	for _, in := range inner {
		e.escape(in, cond, tag, seen)
	}
}

// builtins ---------------------------------------------------------------------------

func (f *frame) builtin(ins ssa.Instruction, name string, c *ssa.CallCommon, args []GV) []GV {
	e := f.e
	switch name {
	case "len":
		_, isMap := c.Args[0].Type().Underlying().(*types.Map)
		return []GV{e.Lift1(func(ts []*Term) *Term {
			if isMap {
				return e.mapLen(ts[0])
			}
			return e.Len(ts[0])
		}, args[0])}
	case "cap":
		return []GV{e.Lift1(func(ts []*Term) *Term { return e.mkTerm("cap", "", types.Typ[types.Int], nil, ts[0]) }, args[0])}
	case "append":
		typ := c.Signature().Results().At(0).Type()
		if len(args) < 2 {
			return []GV{args[0]}
		}
		isStr := isByteSlice(typ)
		return []GV{e.Lift1(func(ts []*Term) *Term {
			base, add := ts[0], ts[1]
			var items []*Term
			if base.Op == "slicelit" {
				et := elemType(typ)
				for i := int64(0); i < base.X.(int64); i++ {
					items = append(items, e.TermOf(f.prune(e.LoadAddr(e.IA(base, e.Int(i), et), et))))
				}
				base = e.Nil()
			}
			if add.Op == "slicelit" {
				for i := int64(0); i < add.X.(int64); i++ {
					items = append(items, e.TermOf(f.prune(e.LoadAddr(e.IA(add, e.Int(i), elemType(typ)), elemType(typ)))))
				}
			} else if add.IsNil() {
				return e.App(base, typ, items...)
			} else if add.Op == "app" && !isStr && (add.Args[0].IsNil()) {
				items = append(items, add.Args[1:]...)
			} else {
				if add.Op == "spread" {
					items = append(items, add)
				} else {
					items = append(items, e.mkTerm("spread", "", typ, nil, add))
				}
			}
			return e.App(base, typ, items...)
		}, args...)}
	case "copy":
		e.effect(f, "copy", "copy", f.cur, ins, args, nil)
		for _, a := range args[0] {
			e.escape(a.T, e.B.And(f.cur, a.C), f.instID(ins), map[*Term]bool{})
		}
		return []GV{V(e.mkTerm("undef", "copy"+f.instID(ins), types.Typ[types.Int], nil))}
	case "delete":
		for _, a := range args[0] {
			cond := e.B.And(f.cur, a.C)
			if cond == False {
				continue
			}
			e.effect(f, "delete", e.verOf(a.T), cond, ins, []GV{V(a.T), args[1]}, nil)
			if tm := e.maps[a.T]; tm != nil {
				tm.dynamic = true
			}
			e.mapVer[a.T] = "d" + f.instID(ins)
		}
		return nil
	case "panic":
		e.effect(f, "panic", "panic", f.cur, ins, args, nil)
		f.cur = False
		return nil
	case "recover":
		return []GV{V(e.Nil())}
	case "print", "println", "close":
		return nil
	case "ssa:wrapnilchk":
		return []GV{args[0]}
	case "min", "max":
		return []GV{e.Lift1(func(ts []*Term) *Term {
			return e.mkTerm("call", name, c.Signature().Results().At(0).Type(), nil, ts...)
		}, args...)}
	}
	e.note("builtin %s not handled", name)
	return f.undefs(ins, c)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return types.Typ[types.Invalid]
}

// App is append(base, items...).
func (e *Engine) App(base *Term, typ types.Type, items ...*Term) *Term {
	if base.Op == "mkslice" && base.Args[0] == e.Int(0) {
		base = e.Nil()
	}
	if base.Op == "slicelit" {
		var its []*Term
		et := elemType(typ)
		for i := int64(0); i < base.X.(int64); i++ {
			its = append(its, e.TermOf(e.LoadAddr(e.IA(base, e.Int(i), et), et)))
		}
		items = append(its, items...)
		base = e.Nil()
	}
	if base.Op == "spread" {
		base = base.Args[0]
	}
	if base.Op == "app" {
		items = append(append([]*Term(nil), base.Args[1:]...), items...)
		base = base.Args[0]
	}
	if len(items) == 0 {
		return base
	}
	return e.mkTerm("app", "", typ, nil, append([]*Term{base}, items...)...)
}

func (e *Engine) mapLen(m *Term) *Term {
	if m.IsNil() {
		return e.Int(0)
	}
	if tm := e.maps[m]; tm != nil && !tm.dynamic {
		keys := map[*Term]bool{}
		for _, en := range tm.entries {
			if en.Cond != True || !en.Key.IsConst() {
				keys = nil
				break
			}
			keys[en.Key] = true
		}
		if keys != nil {
			return e.Int(int64(len(keys)))
		}
	}
	return e.mkTerm("len", e.verOf(m), types.Typ[types.Int], nil, m)
}

var _ = constant.MakeBool

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}
