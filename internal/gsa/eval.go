package gsa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the value of an SSA register: a guarded value or a tuple of them.
type Val struct {
	G   GV
	Tup []GV
}

type deferRec struct {
	cond Node
	ins  *ssa.Defer
	fnv  GV
	args []GV
}

type retRec struct {
	cond Node
	vals []GV
}

type frame struct {
	e      *Engine
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]Val
	free   []GV
	edge   map[[2]*ssa.BasicBlock]Node
	cond   map[*ssa.BasicBlock]Node
	defers []deferRec
	rets   []retRec
	nest   *loopNest
	cur    Node
	// phiOver gives the values of loop header φs during loop evaluation
	phiOver map[*ssa.Phi]GV
	// loopOf is the loop being evaluated in generic mode (for range tests)
	active []*Loop
	suffix string
}

// natural loops -------------------------------------------------------------

type natLoop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	parent *natLoop
	depth  int
}

type loopNest struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*natLoop // by header
	inner map[*ssa.BasicBlock]*natLoop // innermost loop of a block
}

func nestOf(fn *ssa.Function) *loopNest {
	n := &loopNest{loops: map[*ssa.BasicBlock]*natLoop{}, inner: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo = append(n.rpo, post[i])
	}
	for _, b := range n.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.loops[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					n.loops[s] = l
				}
				l.latch = append(l.latch, b)
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] || !seen[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range n.loops {
		for _, m := range n.loops {
			if m != l && m.body[l.head] && len(m.body) > len(l.body) {
				if l.parent == nil || len(m.body) < len(l.parent.body) {
					l.parent = m
				}
			}
		}
	}
	for _, b := range n.rpo {
		var best *natLoop
		for _, l := range n.loops {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		n.inner[b] = best
	}
	return n
}

// functions -------------------------------------------------------------------

// Eval evaluates fn as an entry point with symbolic parameters (or the given
// ones) and returns its results and the condition of a normal return.
func (e *Engine) Eval(fn *ssa.Function, args ...GV) ([]GV, Node) {
	var as []GV
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			as = append(as, args[i])
			continue
		}
		as = append(as, V(e.Param(fn, p)))
	}
	return e.evalFunc(fn, as, nil, True, "E")
}

// Param is the term of a symbolic parameter.
func (e *Engine) Param(fn *ssa.Function, p *ssa.Parameter) *Term {
	return e.mkTerm("param", fn.Name()+"."+p.Name(), p.Type(), nil)
}

func (e *Engine) evalFunc(fn *ssa.Function, args, free []GV, cond Node, ctx string) ([]GV, Node) {
	e.Funcs[fn]++
	nest := e.natLoops[fn]
	if nest == nil {
		nest = nestOf(fn)
		e.natLoops[fn] = nest
	}
	f := &frame{e: e, fn: fn, ctx: e.ctxID(ctx + "|" + fn.String()), env: map[ssa.Value]Val{}, free: free,
		edge: map[[2]*ssa.BasicBlock]Node{}, cond: map[*ssa.BasicBlock]Node{}, nest: nest,
		phiOver: map[*ssa.Phi]GV{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = Val{G: args[i]}
		} else {
			f.env[p] = Val{G: V(e.mkTerm("undef", p.Name(), p.Type(), nil))}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			f.env[fv] = Val{G: free[i]}
		}
	}
	e.callStk = append(e.callStk, fn)
	f.region(nil, cond)
	e.callStk = e.callStk[:len(e.callStk)-1]

	nres := fn.Signature.Results().Len()
	normal := False
	for _, r := range f.rets {
		normal = e.B.Or(normal, r.cond)
	}
	out := make([]GV, nres)
	for i := range out {
		var g GV
		for _, r := range f.rets {
			for _, a := range r.vals[i] {
				c := e.B.And(r.cond, a.C)
				if c != False {
					g = append(g, Alt{c, a.T})
				}
			}
		}
		g = e.norm(g)
		for k := range g {
			if len(g) > 1 {
				g[k].C = e.B.Simplify(g[k].C, normal)
			}
		}
		if len(g) == 0 {
			g = V(e.mkTerm("undef", "ret", fn.Signature.Results().At(i).Type(), nil))
		}
		out[i] = g
	}
	return out, normal
}

// region evaluates the blocks directly in loop l (nil: the function).
func (f *frame) region(l *natLoop, entry Node) {
	for _, b := range f.nest.rpo {
		in := f.nest.inner[b]
		if l == nil && in == nil || l != nil && in == l {
			if l != nil && b == l.head {
				f.block(b, entry)
				continue
			}
			c := entry
			if b != f.fn.Blocks[0] {
				c = False
				for _, p := range b.Preds {
					c = f.e.B.Or(c, f.edge[[2]*ssa.BasicBlock{p, b}])
				}
			}
			f.block(b, c)
			continue
		}
		// child loop header?
		if in != nil && in.head == b && in.parent == l {
			f.loop(in, f.entryOf(in, entry))
		}
	}
}

func (f *frame) entryOf(l *natLoop, entry Node) Node {
	if l.head == f.fn.Blocks[0] {
		return entry
	}
	c := False
	for _, p := range l.head.Preds {
		if !l.body[p] {
			c = f.e.B.Or(c, f.edge[[2]*ssa.BasicBlock{p, l.head}])
		}
	}
	return c
}

func (f *frame) block(b *ssa.BasicBlock, cond Node) {
	e := f.e
	f.cond[b] = cond
	if cond == False || !e.Sat(cond) {
		f.cond[b] = False
		for _, s := range b.Succs {
			f.edge[[2]*ssa.BasicBlock{b, s}] = False
		}
		return
	}
	f.cur = cond
	for _, ins := range b.Instrs {
		if f.cur == False {
			break
		}
		f.instr(b, ins)
	}
	if f.cur == False {
		for _, s := range b.Succs {
			f.edge[[2]*ssa.BasicBlock{b, s}] = False
		}
		return
	}
	switch t := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump:
		f.setEdge(b, b.Succs[0], f.cur)
	case *ssa.If:
		c := e.NodeOf(f.val(t.Cond))
		// a test of the iteration against the bound is not a condition of the
		// generic iteration
		if len(f.active) > 0 {
			l := f.active[len(f.active)-1]
			in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
			if l.body[b] && in0 != in1 {
				if more, ok := f.rangeTests(l, c, in0); ok {
					in, out := b.Succs[0], b.Succs[1]
					if in1 {
						in, out = out, in
					}
					f.setEdge(b, in, e.B.And(f.cur, more))
					f.setEdge(b, out, False)
					l.normal = append(l.normal, [2]*ssa.BasicBlock{b, out})
					l.none = e.B.Or(l.none, e.B.AndNot(f.cur, more))
					l.HasNormal = true
					return
				}
			}
		}
		if b.Succs[0] == b.Succs[1] {
			f.setEdge(b, b.Succs[0], f.cur)
			return
		}
		f.setEdge(b, b.Succs[0], e.B.And(f.cur, c))
		f.setEdge(b, b.Succs[1], e.B.AndNot(f.cur, c))
	}
}

func (f *frame) setEdge(a, b *ssa.BasicBlock, c Node) {
	f.edge[[2]*ssa.BasicBlock{a, b}] = c
}

// rangeTests reports whether c, which keeps the loop going (stay) or ends it,
// tests whether the loop has more iterations. The loop may range over one of
// several collections, some of them empty: more is the condition that it is
// one which is not.
func (f *frame) rangeTests(l *Loop, c Node, stay bool) (more Node, ok bool) {
	e := f.e
	if f.rangeTest(l, c) {
		return True, true
	}
	if !stay {
		c = e.B.Not(c)
	}
	c = e.B.Simplify(c, f.cur)
	in, out, n := c, c, 0
	for _, v := range e.supp(c) {
		t := e.vars[v]
		if t.Op != "more" && t.Op != "lt" || !e.dependsOnLoop(t, l.ID) {
			continue
		}
		if !f.rangeTest(l, e.Atom(t)) {
			return False, false
		}
		n++
		in, out = e.B.Restrict(in, v, true), e.B.Restrict(out, v, false)
	}
	if n == 0 || out != False || in == False {
		return False, false
	}
	return in, true
}

// rangeTest reports whether c only tests whether the loop has more iterations.
func (f *frame) rangeTest(l *Loop, c Node) bool {
	e := f.e
	if c == True || c == False {
		return false
	}
	nd := e.B.nodes[c]
	if nd.lo > 1 || nd.hi > 1 {
		return false
	}
	t := e.vars[nd.v]
	if t.Op == "more" && t.Aux == l.ID {
		if l.Kind == "" {
			l.Kind = "map"
			l.Over = t.Args[0]
			if isString(t.Args[0].Typ) {
				l.Kind = "string"
			}
		}
		return true
	}
	if t.Op != "lt" && t.Op != "eq" {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	off, isIt := iterOffset(a, l.ID)
	bound := b
	if !isIt {
		off, isIt = iterOffset(b, l.ID)
		bound = a
		if t.Op == "lt" || !isIt {
			return false
		}
	}
	if e.dependsOnLoop(bound, l.ID) {
		return false
	}
	kind, over := "count", bound
	if bound.Op == "len" {
		kind, over = "slice", bound.Args[0]
	}
	if kind == "count" && (l.Kind == "slice" || l.Kind == "map" || l.Kind == "string") {
		return false // ends the loop before its time
	}
	if kind == "slice" {
		l.Overs = append(l.Overs, over)
	}
	if l.Kind == "" || l.Kind == "count" && kind == "slice" {
		l.Kind, l.Over, l.Offset = kind, over, off
	}
	return true
}

func iterOffset(t *Term, id string) (int64, bool) {
	if t.Op == "iter" && t.Aux == id {
		return 0, true
	}
	if t.Op == "op" && t.Aux == "+" && t.Args[0].Op == "iter" && t.Args[0].Aux == id {
		k, ok := t.Args[1].IntVal()
		return k, ok
	}
	return 0, false
}

func (e *Engine) dependsOnLoop(t *Term, id string) bool {
	dep := false
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "iter", "mapkey", "more":
			if x.Aux == id {
				dep = true
			}
		case "phi", "lm", "walk":
			if strings.HasPrefix(x.Aux, id+"$") {
				dep = true
			}
		}
		return !dep
	})
	return dep
}

// DependsOnLoop reports whether t involves values of the iteration of l.
func (e *Engine) DependsOnLoop(t *Term, l *Loop) bool { return e.dependsOnLoop(t, l.ID) }

// loops -------------------------------------------------------------------------

type memState struct {
	mem    map[*Term]GV
	maps   map[*Term]*trackedMap
	mapVer map[*Term]string
	havoc  map[*Term][]havocRec
	neff   int
	ndef   int
	nret   int
}

func (f *frame) save() memState {
	e := f.e
	s := memState{mem: map[*Term]GV{}, maps: map[*Term]*trackedMap{}, mapVer: map[*Term]string{}, havoc: map[*Term][]havocRec{},
		neff: len(e.Effects), ndef: len(f.defers), nret: len(f.rets)}
	for k, v := range e.mem {
		s.mem[k] = v
	}
	for k, v := range e.maps {
		c := *v
		c.entries = append([]mapEntry(nil), v.entries...)
		s.maps[k] = &c
	}
	for k, v := range e.mapVer {
		s.mapVer[k] = v
	}
	for k, v := range e.havoc {
		s.havoc[k] = v
	}
	return s
}

func (f *frame) restore(s memState) {
	e := f.e
	e.mem, e.maps, e.mapVer, e.havoc = map[*Term]GV{}, map[*Term]*trackedMap{}, map[*Term]string{}, map[*Term][]havocRec{}
	for k, v := range s.mem {
		e.mem[k] = v
	}
	for k, v := range s.maps {
		c := *v
		c.entries = append([]mapEntry(nil), v.entries...)
		e.maps[k] = &c
	}
	for k, v := range s.mapVer {
		e.mapVer[k] = v
	}
	for k, v := range s.havoc {
		e.havoc[k] = v
	}
	e.Effects = e.Effects[:s.neff]
	f.defers = f.defers[:s.ndef]
	f.rets = f.rets[:s.nret]
}

func gvEq(a, b GV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const (
	maxUnroll   = 24
	unrollNodes = 300000
)

func (f *frame) phiInit(l *natLoop, phi *ssa.Phi) GV {
	e := f.e
	var g GV
	total := False
	for i, p := range l.head.Preds {
		if l.body[p] {
			continue
		}
		c := f.edge[[2]*ssa.BasicBlock{p, l.head}]
		if c == False {
			continue
		}
		total = e.B.Or(total, c)
		for _, a := range f.val(phi.Edges[i]) {
			if cc := e.B.And(c, a.C); cc != False {
				g = append(g, Alt{cc, a.T})
			}
		}
	}
	g = e.norm(g)
	if len(g) > 1 {
		for k := range g {
			g[k].C = e.B.Simplify(g[k].C, total)
		}
	}
	return g
}

func (f *frame) phiNext(l *natLoop, phi *ssa.Phi) (GV, Node) {
	e := f.e
	var g GV
	total := False
	for i, p := range l.head.Preds {
		if !l.body[p] {
			continue
		}
		c := f.edge[[2]*ssa.BasicBlock{p, l.head}]
		if c == False {
			continue
		}
		total = e.B.Or(total, c)
		for _, a := range f.val(phi.Edges[i]) {
			if cc := e.B.And(c, a.C); cc != False {
				g = append(g, Alt{cc, a.T})
			}
		}
	}
	g = e.norm(g)
	if len(g) > 1 {
		for k := range g {
			g[k].C = e.B.Simplify(g[k].C, total)
		}
	}
	return g, total
}

func (l *natLoop) phis() []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

func (f *frame) back(l *natLoop) Node {
	c := False
	for _, p := range l.latch {
		c = f.e.B.Or(c, f.edge[[2]*ssa.BasicBlock{p, l.head}])
	}
	return c
}

// clearEdges forgets the edges of the loop from an earlier evaluation.
func (f *frame) clearEdges(l *natLoop) {
	for b := range l.body {
		for _, s := range b.Succs {
			delete(f.edge, [2]*ssa.BasicBlock{b, s})
		}
	}
}

func (f *frame) exitsOf(l *natLoop) [][2]*ssa.BasicBlock {
	var out [][2]*ssa.BasicBlock
	for _, b := range f.nest.rpo {
		if !l.body[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				out = append(out, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
	return out
}

func (f *frame) escaping(l *natLoop) []ssa.Value {
	var out []ssa.Value
	for _, b := range f.nest.rpo {
		if !l.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.body[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (f *frame) loop(l *natLoop, entry Node) {
	e := f.e
	if entry == False || !e.Sat(entry) {
		f.clearEdges(l)
		f.cond[l.head] = False
		for b := range l.body {
			f.cond[b] = False
		}
		return
	}
	phis := l.phis()
	init := map[*ssa.Phi]GV{}
	for _, p := range phis {
		init[p] = f.phiInit(l, p)
	}
	if f.unroll(l, entry, phis, init) {
		return
	}
	f.generic(l, entry, phis, init)
}

// unroll evaluates loops of a constant number of iterations.
func (f *frame) unroll(l *natLoop, entry Node, phis []*ssa.Phi, init map[*ssa.Phi]GV) bool {
	e := f.e
	st := f.save()
	oldSuffix := f.suffix
	exits := f.exitsOf(l)
	esc := f.escaping(l)
	type escv struct {
		c Node
		g GV
	}
	escVals := map[ssa.Value][]escv{}
	exitCond := map[[2]*ssa.BasicBlock]Node{}
	cur := init
	cond := entry
	ok := false
	savedActive := f.active
	f.active = nil
	size0 := e.B.Size()
	for k := 0; k < maxUnroll && e.B.Size() < size0+unrollNodes; k++ {
		for _, p := range phis {
			f.phiOver[p] = cur[p]
		}
		f.suffix = fmt.Sprintf("%s@%s.%d.%d", oldSuffix, f.ctx, l.head.Index, k)
		f.clearEdges(l)
		f.region(l, cond)
		// is there an exit test decided statically?
		if k == 0 {
			// (the test in the header, when there is one)
			decided := false
			_, headTest := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
			headTest = headTest && l.body[l.head.Succs[0]] != l.body[l.head.Succs[1]]
			for b := range l.body {
				if f.cond[b] == False {
					continue
				}
				_, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !isIf || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
					continue
				}
				if headTest && b != l.head {
					continue
				}
				if f.edge[[2]*ssa.BasicBlock{b, b.Succs[0]}] == False || f.edge[[2]*ssa.BasicBlock{b, b.Succs[1]}] == False {
					decided = true
				}
			}
			if !decided {
				break
			}
		}
		tot := False
		for _, x := range exits {
			c := f.edge[x]
			if c == False {
				continue
			}
			exitCond[x] = e.B.Or(exitCond[x], c)
			tot = e.B.Or(tot, c)
		}
		for _, v := range esc {
			if ev, has := f.env[v]; has && tot != False && ev.Tup == nil {
				escVals[v] = append(escVals[v], escv{tot, ev.G})
			}
		}
		bc := f.back(l)
		if bc == False || !e.Sat(bc) {
			ok = true
			break
		}
		next := map[*ssa.Phi]GV{}
		for _, p := range phis {
			next[p], _ = f.phiNext(l, p)
		}
		cur, cond = next, bc
	}
	f.suffix = oldSuffix
	f.active = savedActive
	for _, p := range phis {
		delete(f.phiOver, p)
	}
	if !ok {
		f.restore(st)
		f.clearEdges(l)
		return false
	}
	f.clearEdges(l)
	for x, c := range exitCond {
		f.edge[x] = c
	}
	for v, vs := range escVals {
		var g GV
		tot := False
		for _, a := range vs {
			tot = e.B.Or(tot, a.c)
			for _, b := range a.g {
				if c := e.B.And(a.c, b.C); c != False {
					g = append(g, Alt{c, b.T})
				}
			}
		}
		g = e.norm(g)
		if len(g) > 1 {
			for i := range g {
				g[i].C = e.B.Simplify(g[i].C, tot)
			}
		}
		if len(g) > 0 {
			f.env[v] = Val{G: g}
		}
	}
	return true
}

func (f *frame) isInduction(l *natLoop, p *ssa.Phi, init GV) (int64, bool) {
	t := init.One()
	if t == nil {
		return 0, false
	}
	k, ok := t.IntVal()
	if !ok {
		return 0, false
	}
	if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	n := 0
	for i, pr := range l.head.Preds {
		if !l.body[pr] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != p {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		if v, exact := constant.Int64Val(c.Value); !exact || v != 1 {
			return 0, false
		}
		n++
	}
	return k, n > 0
}

func (f *frame) generic(l *natLoop, entry Node, phis []*ssa.Phi, init map[*ssa.Phi]GV) {
	e := f.e
	id := e.loopID(f, l)
	exits := f.exitsOf(l)
	st := f.save()

	L := &Loop{}
	reset := func() {
		parent := (*Loop)(nil)
		if n := len(e.loopStk); n > 0 {
			parent = e.loopStk[n-1]
		}
		*L = Loop{ID: id, Fn: f.fn, Head: l.head, Entry: entry, body: l.body, Parent: parent}
		for _, ins := range l.head.Instrs {
			if ins.Pos().IsValid() {
				L.Pos = ins.Pos()
				break
			}
		}
		if !L.Pos.IsValid() {
			for _, b := range f.nest.rpo {
				if !l.body[b] || L.Pos.IsValid() {
					continue
				}
				for _, ins := range b.Instrs {
					if ins.Pos().IsValid() {
						L.Pos = ins.Pos()
						break
					}
				}
			}
		}
	}
	iter := e.mkTerm("iter", id, types.Typ[types.Int], nil)
	phiTerm := map[*ssa.Phi]*Term{}
	for i, p := range phis {
		if k, ok := f.isInduction(l, p, init[p]); ok {
			phiTerm[p] = e.add(iter, k, types.Typ[types.Int])
		} else {
			phiTerm[p] = e.mkTerm("phi", fmt.Sprintf("%s$%d", id, i), p.Type(), nil)
		}
	}
	written := map[*Term]bool{}
	mapsWritten := map[*Term]bool{}
	lmTerm := func(k *Term) *Term {
		typ := memType(k)
		return e.mkTerm("lm", id+"$"+fmt.Sprint(k.ID), typ, k, k)
	}
	var memBefore map[*Term]GV
	for pass := 0; ; pass++ {
		f.restore(st)
		reset()
		memBefore = map[*Term]GV{}
		for _, k := range termKeys(written) {
			memBefore[k] = f.memOrDefault(k)
			e.mem[k] = V(lmTerm(k))
		}
		for _, m := range termKeys(mapsWritten) {
			e.mapVer[m] = "L" + id
			if tm := e.maps[m]; tm != nil {
				tm.dynamic = true
			}
		}
		startMem := map[*Term]GV{}
		for k, v := range e.mem {
			startMem[k] = v
		}
		startVer := map[*Term]string{}
		for k, v := range e.mapVer {
			startVer[k] = v
		}
		for _, p := range phis {
			f.phiOver[p] = V(phiTerm[p])
		}
		f.clearEdges(l)
		e.loopStk = append(e.loopStk, L)
		f.active = append(f.active, L)
		f.region(l, entry)
		f.active = f.active[:len(f.active)-1]
		e.loopStk = e.loopStk[:len(e.loopStk)-1]
		for _, p := range phis {
			delete(f.phiOver, p)
		}
		// what did it write?
		grew := false
		for _, k := range termKeys(e.mem) {
			v := e.mem[k]
			if sv, ok := startMem[k]; ok && gvEq(sv, v) {
				continue
			}
			if e.allocIn(addrRoot(k), id) {
				continue
			}
			if e.dependsOnLoop(k, id) {
				// element of a collection addressed by the iteration
				continue
			}
			if !written[k] {
				written[k] = true
				grew = true
			}
		}
		for _, m := range termKeys(e.mapVer) {
			v := e.mapVer[m]
			if startVer[m] != v && !mapsWritten[m] && !e.allocIn(m, id) {
				mapsWritten[m] = true
				grew = true
			}
		}
		if !grew && pass > 0 {
			break
		}
		if pass > 6 {
			e.note("loop %s: memory did not stabilise", id)
			break
		}
	}
	L.Back = f.back(l)
	for i, p := range phis {
		next, _ := f.phiNext(l, p)
		pi := &PhiInfo{Loop: L, Term: phiTerm[p], Init: init[p], Next: next, Ssa: p}
		_ = i
		e.finishPhi(pi)
		L.Phis = append(L.Phis, pi)
		if phiTerm[p].Op == "phi" {
			e.phiTab[phiTerm[p]] = pi
		}
	}
	var early []Exit
	isNormal := map[[2]*ssa.BasicBlock]bool{}
	for _, x := range L.normal {
		isNormal[x] = true
	}
	earlyCond := False
	for _, x := range exits {
		if isNormal[x] {
			continue
		}
		if c := f.edge[x]; c != False {
			early = append(early, Exit{x[0], x[1], c})
			earlyCond = e.B.Or(earlyCond, c)
		}
	}
	L.Exits = early
	normalCond := L.Back
	if L.none != False {
		normalCond = e.B.Or(normalCond, L.none)
	} else if normalCond == False {
		normalCond = e.B.And(entry, e.Atom(e.mkTerm("empty", id, types.Typ[types.Bool], nil)))
	}
	for i, x := range L.normal {
		if i == 0 {
			f.edge[x] = normalCond
		} else if f.edge[x] == False {
			f.edge[x] = normalCond
		}
	}
	// registers after the loop: a header φ at the normal exit
	for _, pi := range L.Phis {
		if pi.Term.Op == "phi" && pi.Post != nil && len(early) == 0 {
			f.env[pi.Ssa] = Val{G: pi.Post}
		} else if pi.Term.Op == "phi" && pi.Post != nil {
			f.env[pi.Ssa] = Val{G: e.norm(e.Merge(earlyCond, V(pi.Term), pi.Post))}
		}
	}
	// memory after the loop
	for _, k := range termKeys(written) {
		pi := &PhiInfo{Loop: L, Term: lmTerm(k), Init: memBefore[k], Next: e.memGet(k), Key: k}
		// value at the back edge
		var g GV
		for _, a := range pi.Next {
			if e.B.And(a.C, L.Back) != False {
				g = append(g, Alt{e.B.Simplify(a.C, L.Back), a.T})
			}
		}
		if len(g) == 1 {
			g[0].C = True
		}
		full := pi.Next
		pi.Next = g
		e.finishPhi(pi)
		e.phiTab[pi.Term] = pi
		L.Mem = append(L.Mem, pi)
		post := V(pi.Term)
		if pi.Post != nil {
			post = pi.Post
		}
		if earlyCond != False {
			e.mem[k] = e.Merge(earlyCond, full, post)
		} else {
			e.mem[k] = post
		}
	}
	for _, m := range termKeys(mapsWritten) {
		e.mapVer[m] = "P" + id
	}
	e.LoopTab[id] = L
	// fix the Loops recorded in effects: L is final here
}

func (e *Engine) finishPhi(pi *PhiInfo) {
	if len(pi.Next) == 0 {
		return
	}
	// {c: v ; ¬c: φ} with v free of φ: after the loop v under c, else init
	var post GV
	rest := False
	for _, a := range pi.Next {
		if a.T == pi.Term {
			rest = e.B.Or(rest, a.C)
			continue
		}
		if a.T.Contains(pi.Term) {
			return
		}
		post = append(post, a)
	}
	for _, a := range post {
		for _, v := range e.supp(a.C) {
			if e.vars[v].Contains(pi.Term) {
				return
			}
		}
	}
	if len(post) == 0 {
		pi.Post = pi.Init
		return
	}
	if rest == False {
		// the last iteration's value (or init when there was none)
		return
	}
	for _, a := range pi.Init {
		if c := e.B.And(rest, a.C); c != False {
			post = append(post, Alt{c, a.T})
		}
	}
	pi.Post = e.norm(post)
}

func (e *Engine) memGet(k *Term) GV { return e.mem[k] }

func (f *frame) memOrDefault(k *Term) GV {
	e := f.e
	if g, ok := e.mem[k]; ok {
		return g
	}
	if k.Aux == contentField && k.Op == "fa" {
		return e.Content(k.Args[0])
	}
	t := memType(k)
	if t == nil {
		return V(e.mkTerm("load", "", nil, nil, k))
	}
	return e.LoadAddr(k, t)
}

// memType is the type of the memory at address k.
func memType(k *Term) types.Type {
	if k.Op == "fa" || k.Op == "ia" {
		return k.Typ
	}
	if k.Typ == nil {
		return nil
	}
	return deref(k.Typ)
}

func (e *Engine) loopID(f *frame, l *natLoop) string {
	return fmt.Sprintf("L%s%s.%d", f.ctx, f.suffix, l.head.Index)
}

// allocIn reports whether root is an object made inside the loop.
func (e *Engine) allocIn(root *Term, id string) bool {
	ls, ok := e.allocLoops[root]
	if !ok {
		return false
	}
	return ls[id]
}
