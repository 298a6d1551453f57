package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small inclusion-based points-to analysis of the repository's functions.
// Every function is analysed twice: as part of package initialisation and as
// part of an operation.

type aloc struct {
	kind  string // global alloc func ext
	site  any    // *ssa.Global, ssa.Value, *ssa.Function, ssa.Instruction
	ctx   int
	path  string
	depth int
	base  *aloc // the location without its path
}

const (
	ctxInit = 0
	ctxOp   = 1
)

type aset map[*aloc]bool

type anode struct {
	ctx int
	v   ssa.Value
}

type awrite struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	loc  *aloc
	sure bool
}

type alias struct {
	c       *Ctx
	locs    map[string]*aloc
	ids     map[any]int
	pts     map[anode]aset
	cont    map[*aloc]aset
	subs    map[*aloc][]*aloc // base -> all locations with that base
	rets    map[string][]aset // ctx/function -> results
	active  map[string]bool   // ctx/function reached
	order   []anodeFn
	changed bool
	writes  map[string]awrite
	report  bool
	methods map[string][]*ssa.Function
}

type anodeFn struct {
	ctx int
	fn  *ssa.Function
}

func (a *alias) id(x any) int {
	if n, ok := a.ids[x]; ok {
		return n
	}
	a.ids[x] = len(a.ids)
	return a.ids[x]
}

func (a *alias) loc(kind string, site any, ctx int) *aloc {
	k := fmt.Sprintf("%s/%d/%d", kind, a.id(site), ctx)
	if l := a.locs[k]; l != nil {
		return l
	}
	l := &aloc{kind: kind, site: site, ctx: ctx}
	l.base = l
	a.locs[k] = l
	a.subs[l] = append(a.subs[l], l)
	return l
}

func (a *alias) sub(l *aloc, comp string) *aloc {
	if l.kind == "func" {
		return l
	}
	if l.depth >= 5 {
		return l
	}
	k := fmt.Sprintf("%s/%d/%d%s.%s", l.kind, a.id(l.site), l.ctx, l.path, comp)
	if s := a.locs[k]; s != nil {
		return s
	}
	s := &aloc{kind: l.kind, site: l.site, ctx: l.ctx, path: l.path + "." + comp, depth: l.depth + 1, base: l.base}
	a.locs[k] = s
	a.subs[l.base] = append(a.subs[l.base], s)
	return s
}

func (a *alias) add(n anode, s aset) {
	t := a.pts[n]
	if t == nil {
		t = aset{}
		a.pts[n] = t
	}
	for l := range s {
		if !t[l] {
			t[l] = true
			a.changed = true
		}
	}
}

func (a *alias) addCont(l *aloc, s aset) {
	t := a.cont[l]
	if t == nil {
		t = aset{}
		a.cont[l] = t
	}
	for x := range s {
		if !t[x] {
			t[x] = true
			a.changed = true
		}
	}
}

func (a *alias) get(ctx int, v ssa.Value) aset {
	switch x := v.(type) {
	case *ssa.Global:
		return aset{a.loc("global", x, 0): true}
	case *ssa.Function:
		return aset{a.loc("func", x, 0): true}
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	}
	return a.pts[anode{ctx, v}]
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func hasRefs(t types.Type) bool { return refsIn(t, 0) }

func refsIn(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsIn(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refsIn(u.Elem(), d+1)
	}
	return true
}

// load is the value found at the locations: for an aggregate the locations
// themselves stand for the value.
func (a *alias) load(s aset, t types.Type) aset {
	if !hasRefs(t) {
		return nil
	}
	if isAggregate(t) {
		return s
	}
	out := aset{}
	for l := range s {
		if l.kind == "func" {
			out[l] = true
		}
		for x := range a.cont[l] {
			out[x] = true
		}
	}
	return out
}

func (a *alias) store(dst, val aset, t types.Type) {
	if !hasRefs(t) {
		return
	}
	for d := range dst {
		if !isAggregate(t) {
			a.addCont(d, val)
			continue
		}
		for v := range val {
			a.copyAgg(d, v)
		}
	}
}

func (a *alias) copyAgg(d, v *aloc) {
	if d == v {
		return
	}
	for _, s := range append([]*aloc{}, a.subs[v.base]...) {
		if s == v || strings.HasPrefix(s.path, v.path+".") {
			t := d
			for _, comp := range strings.Split(strings.TrimPrefix(strings.TrimPrefix(s.path, v.path), "."), ".") {
				if comp != "" {
					t = a.sub(t, comp)
				}
			}
			a.addCont(t, a.cont[s])
		}
	}
}

func fkey(ctx int, fn *ssa.Function) string { return fmt.Sprintf("%d/%p", ctx, fn) }

func (a *alias) reach(ctx int, fn *ssa.Function) {
	if fn == nil || len(fn.Blocks) == 0 || !a.c.P.InRepo(fn) {
		return
	}
	k := fkey(ctx, fn)
	if !a.active[k] {
		a.active[k] = true
		a.order = append(a.order, anodeFn{ctx, fn})
		a.changed = true
	}
}

func (a *alias) result(ctx int, fn *ssa.Function, i int) aset {
	r := a.rets[fkey(ctx, fn)]
	if i < len(r) {
		return r[i]
	}
	return nil
}

// pointsTo solves the constraints.
func (c *Ctx) pointsTo() *alias {
	if a, ok := c.cache["alias"].(*alias); ok {
		return a
	}
	a := &alias{c: c, locs: map[string]*aloc{}, ids: map[any]int{}, pts: map[anode]aset{}, cont: map[*aloc]aset{},
		subs: map[*aloc][]*aloc{}, rets: map[string][]aset{}, active: map[string]bool{}, writes: map[string]awrite{}, methods: map[string][]*ssa.Function{}}
	c.cache["alias"] = a
	var paths []string
	for k := range c.P.Spkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		a.reach(ctxInit, c.P.Spkg[k].Func("init"))
	}
	for _, fn := range c.repoFns() {
		if fn.Signature.Recv() != nil && fn.Synthetic == "" {
			a.methods[fn.Name()] = append(a.methods[fn.Name()], fn)
		}
		if fn.Parent() == nil && !strings.HasPrefix(fn.Name(), "init") && fn.Synthetic == "" {
			if token.IsExported(fn.Name()) || fn.Name() == "main" || fn.Signature.Recv() != nil {
				a.reach(ctxOp, fn)
			}
		}
	}
	for i := 0; i < 100; i++ {
		a.changed = false
		for j := 0; j < len(a.order); j++ {
			a.visit(a.order[j])
		}
		if !a.changed {
			break
		}
	}
	a.report = true
	for _, n := range a.order {
		if n.ctx == ctxOp {
			a.visit(n)
		}
	}
	return a
}

func (a *alias) visit(n anodeFn) {
	for _, b := range n.fn.Blocks {
		for _, ins := range b.Instrs {
			a.instr(n, ins)
		}
	}
}

func (a *alias) wrote(n anodeFn, pos token.Pos, what string, sure bool, s aset) {
	if !a.report {
		return
	}
	for l := range s {
		k := fmt.Sprintf("%p/%d/%s/%d", n.fn, pos, what, a.id(l.base))
		a.writes[k] = awrite{n.fn, pos, what, l, sure}
	}
}

func (a *alias) elems(s aset) aset {
	out := aset{}
	for l := range s {
		out[a.sub(l, "*")] = true
	}
	return out
}

func union(ss ...aset) aset {
	out := aset{}
	for _, s := range ss {
		for l := range s {
			out[l] = true
		}
	}
	return out
}

func (a *alias) instr(n anodeFn, ins ssa.Instruction) {
	ctx := n.ctx
	g := func(v ssa.Value) aset { return a.get(ctx, v) }
	set := func(v ssa.Value, s aset) {
		if len(s) > 0 {
			a.add(anode{ctx, v}, s)
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		set(x, aset{a.loc("alloc", x, ctx): true})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		set(x.(ssa.Value), aset{a.loc("alloc", x, ctx): true})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		set(x, aset{a.loc("func", fn, 0): true})
		for i, b := range x.Bindings {
			a.add(anode{ctx, fn.FreeVars[i]}, g(b))
			// an operation may run a closure made at initialisation
			if ctx == ctxInit {
				a.add(anode{ctxOp, fn.FreeVars[i]}, g(b))
			}
		}
	case *ssa.FieldAddr:
		out := aset{}
		for l := range g(x.X) {
			out[a.sub(l, fmt.Sprint(x.Field))] = true
		}
		set(x, out)
	case *ssa.Field:
		out := aset{}
		for l := range g(x.X) {
			out[a.sub(l, fmt.Sprint(x.Field))] = true
		}
		set(x, a.load(out, x.Type()))
	case *ssa.IndexAddr:
		set(x, a.elems(g(x.X)))
	case *ssa.Index:
		set(x, a.load(a.elems(g(x.X)), x.Type()))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		t := x.X.Type().Underlying().(*types.Map).Elem()
		set(x, a.load(a.elems(g(x.X)), t))
	case *ssa.Slice:
		set(x, g(x.X))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(x, a.load(g(x.X), x.Type()))
		case token.ARROW:
			t := x.Type()
			if x.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			set(x, a.load(a.elems(g(x.X)), t))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			set(x, g(e))
		}
	case *ssa.ChangeType:
		set(x, g(x.X))
	case *ssa.Convert:
		if hasRefs(x.X.Type()) && hasRefs(x.Type()) {
			set(x, g(x.X))
		} else if hasRefs(x.Type()) {
			set(x, aset{a.loc("alloc", x, ctx): true})
		}
	case *ssa.ChangeInterface:
		set(x, g(x.X))
	case *ssa.MakeInterface:
		if hasRefs(x.X.Type()) {
			set(x, g(x.X))
		}
	case *ssa.SliceToArrayPointer:
		set(x, g(x.X))
	case *ssa.TypeAssert:
		set(x, g(x.X))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			a.callResult(n, c, x.Index, x)
			return
		}
		if hasRefs(x.Type()) {
			set(x, g(x.Tuple))
		}
	case *ssa.Range:
		set(x, g(x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		s := aset{}
		for l := range a.elems(g(x.Iter)) {
			for y := range a.cont[l] {
				s[y] = true
			}
			if r, ok := x.Iter.(*ssa.Range); ok {
				if m, ok := r.X.Type().Underlying().(*types.Map); ok && isAggregate(m.Elem()) {
					s[l] = true
				}
			}
		}
		set(x, s)
	case *ssa.Store:
		a.store(g(x.Addr), g(x.Val), x.Val.Type())
		a.wrote(n, x.Pos(), "is assigned", true, g(x.Addr))
	case *ssa.MapUpdate:
		es := a.elems(g(x.Map))
		a.store(es, g(x.Value), x.Value.Type())
		a.store(es, g(x.Key), x.Key.Type())
		a.wrote(n, x.Pos(), "gets an entry", true, g(x.Map))
	case *ssa.Send:
		a.store(a.elems(g(x.Chan)), g(x.X), x.X.Type())
		a.wrote(n, x.Pos(), "gets a value sent", true, g(x.Chan))
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				a.store(a.elems(g(st.Chan)), g(st.Send), st.Send.Type())
				a.wrote(n, st.Pos, "gets a value sent", true, g(st.Chan))
			} else {
				set(x, a.load(a.elems(g(st.Chan)), st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	case *ssa.Return:
		k := fkey(ctx, n.fn)
		r := a.rets[k]
		for len(r) < len(x.Results) {
			r = append(r, aset{})
		}
		for i, v := range x.Results {
			if !hasRefs(v.Type()) {
				continue
			}
			for l := range g(v) {
				if !r[i][l] {
					r[i][l] = true
					a.changed = true
				}
			}
		}
		a.rets[k] = r
	case *ssa.Call:
		a.call(n, x, &x.Call)
	case *ssa.Defer:
		a.call(n, x, &x.Call)
	case *ssa.Go:
		a.call(n, x, &x.Call)
	}
}

// targets are the repository's functions a call may reach.
func (a *alias) targets(ctx int, call *ssa.CallCommon) (fns []*ssa.Function, recv bool) {
	if call.IsInvoke() {
		iface, _ := call.Value.Type().Underlying().(*types.Interface)
		for _, m := range a.methods[call.Method.Name()] {
			if iface != nil && types.Implements(m.Signature.Recv().Type(), iface) {
				fns = append(fns, m)
			}
		}
		return fns, true
	}
	if f := call.StaticCallee(); f != nil {
		return []*ssa.Function{f}, false
	}
	for l := range a.get(ctx, call.Value) {
		if l.kind == "func" {
			fns = append(fns, l.site.(*ssa.Function))
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	return fns, false
}

func (a *alias) call(n anodeFn, ins ssa.Instruction, call *ssa.CallCommon) {
	ctx := n.ctx
	if b, ok := call.Value.(*ssa.Builtin); ok {
		a.builtin(n, ins, b.Name(), call)
		return
	}
	args := call.Args
	if call.IsInvoke() {
		args = append([]ssa.Value{call.Value}, args...)
	}
	fns, _ := a.targets(ctx, call)
	ext := len(fns) == 0
	for _, fn := range fns {
		if !a.c.P.InRepo(fn) || len(fn.Blocks) == 0 {
			ext = true
			continue
		}
		a.reach(ctx, fn)
		for i, p := range fn.Params {
			if i < len(args) && hasRefs(p.Type()) {
				a.add(anode{ctx, p}, a.get(ctx, args[i]))
			}
		}
	}
	if v, ok := ins.(*ssa.Call); ok {
		if _, tuple := v.Type().(*types.Tuple); !tuple {
			a.callResult(n, v, 0, v)
		}
	}
	if ext {
		a.external(n, ins, call, args)
	}
}

// callResult adds what result i of the call may point to to the value to.
func (a *alias) callResult(n anodeFn, c *ssa.Call, i int, to ssa.Value) {
	if !hasRefs(to.Type()) {
		return
	}
	call := &c.Call
	if b, ok := call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			a.add(anode{n.ctx, to}, union(a.get(n.ctx, call.Args[0]), aset{a.loc("alloc", c, n.ctx): true}))
		}
		return
	}
	fns, _ := a.targets(n.ctx, call)
	ext := len(fns) == 0
	for _, fn := range fns {
		if !a.c.P.InRepo(fn) || len(fn.Blocks) == 0 {
			ext = true
			continue
		}
		a.add(anode{n.ctx, to}, a.result(n.ctx, fn, i))
	}
	if !ext {
		return
	}
	s := aset{a.loc("ext", c, n.ctx): true}
	args := call.Args
	if call.IsInvoke() {
		args = append([]ssa.Value{call.Value}, args...)
	}
	for j, v := range args {
		if !hasRefs(v.Type()) || types.Identical(v.Type(), errT) {
			continue
		}
		method := call.IsInvoke() || call.Signature().Recv() != nil
		if types.Identical(v.Type(), to.Type()) || (method && j == 0 && samePkg(v.Type(), to.Type())) {
			for l := range a.get(n.ctx, v) {
				s[l] = true
			}
		}
	}
	a.add(anode{n.ctx, to}, s)
}

// samePkg: both types are named types of one package.
func samePkg(x, y types.Type) bool {
	p := func(t types.Type) string {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil {
			return nm.Obj().Pkg().Path()
		}
		return ""
	}
	return p(x) != "" && p(x) == p(y)
}

func (a *alias) builtin(n anodeFn, ins ssa.Instruction, name string, call *ssa.CallCommon) {
	g := func(v ssa.Value) aset { return a.get(n.ctx, v) }
	switch name {
	case "append":
		v, _ := ins.(*ssa.Call)
		if v == nil {
			return
		}
		s := union(g(call.Args[0]), aset{a.loc("alloc", v, n.ctx): true})
		a.add(anode{n.ctx, v}, s)
		if len(call.Args) > 1 {
			if sl, ok := call.Args[1].Type().Underlying().(*types.Slice); ok {
				from := a.elems(g(call.Args[1]))
				a.store(a.elems(s), a.load(from, sl.Elem()), sl.Elem())
			}
		}
		// an append overwrites only behind a slice that was cut
		if cutSlice(call.Args[0], map[ssa.Value]bool{}) {
			a.wrote(n, ins.Pos(), "is overwritten by an append to a part of it", true, g(call.Args[0]))
		}
	case "copy":
		if sl, ok := call.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(sl.Elem()) {
			if _, str := call.Args[1].Type().Underlying().(*types.Basic); !str {
				a.store(a.elems(g(call.Args[0])), a.load(a.elems(g(call.Args[1])), sl.Elem()), sl.Elem())
			}
		}
		a.wrote(n, ins.Pos(), "is overwritten by copy", true, g(call.Args[0]))
	case "delete":
		a.wrote(n, ins.Pos(), "loses an entry", true, g(call.Args[0]))
	case "clear":
		a.wrote(n, ins.Pos(), "is cleared", true, g(call.Args[0]))
	case "close":
		a.wrote(n, ins.Pos(), "is closed", true, g(call.Args[0]))
	}
}

// cutSlice: the slice ends before the memory behind it does.
func cutSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return (x.High != nil && x.Max == nil) || cutSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if cutSlice(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return cutSlice(x.X, seen)
	}
	return false
}
