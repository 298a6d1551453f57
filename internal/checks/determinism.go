package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14",
		Rule: "for every loop whose order is not fixed (over a map, over a list filled by such a loop and not sorted since, over a channel fed by several goroutines) " +
			"and every goroutine started in a loop: what one iteration leaves behind must not depend on the order " +
			"(keyed map entries, sorted lists, commutative sums, constants, log output and errors may; concatenation, last-wins values, first-match results, lists that stay unsorted and text written to a common writer may not); " +
			"values of the clock, random generators, process ids and addresses reach nothing but log output",
		Assumptions: []string{
			"different keys of the ranged map give different keys where an entry's key is computed from it",
			"sort orders given by comparison functions are total on the elements that occur",
			"the order of log and terminal output is not part of the result",
		},
		Run: c14})
}

type det struct {
	c     *Ctx
	r     *Report
	a     *alias
	loops map[*ssa.Function][]*natLoop
	// unordered lists already followed
	doneVal map[ssa.Value]bool
	doneFn  map[string]bool
	nloops  int
	callers map[*ssa.Function][]*ssa.Call
}

// natLoop is a natural loop of the control flow graph.
type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) []*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	var out []*natLoop
	for _, b := range fn.Blocks {
		if l := m[b]; l != nil {
			out = append(out, l)
		}
	}
	return out
}

func (d *det) loopsOf(fn *ssa.Function) []*natLoop {
	if l, ok := d.loops[fn]; ok {
		return l
	}
	d.loops[fn] = naturalLoops(fn)
	return d.loops[fn]
}

// innermost is the smallest loop that contains the block.
func (d *det) innermost(b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range d.loopsOf(b.Parent()) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// region is code that runs once for every element, in no fixed order.
type region struct {
	what string // where the order comes from
	fn   *ssa.Function
	loop *natLoop // nil: the whole function
	// values that are the same for all elements (parameters and free variables of callees)
	outer map[ssa.Value]bool
	elem  map[ssa.Value]bool // keys and elements
	depth int
	same  map[ssa.Value]int // memo of invariant
}

func (rg *region) inside(b *ssa.BasicBlock) bool {
	return rg.loop == nil || rg.loop.body[b]
}

// isOuter: the value exists before the first element is looked at.
func (rg *region) isOuter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		return rg.loop != nil || rg.outer[v]
	case ssa.Instruction:
		return rg.loop != nil && !rg.loop.body[x.Block()]
	}
	return false
}

// invariant: the value is the same for every element.
func (rg *region) invariant(v ssa.Value) bool {
	if rg.isOuter(v) {
		return true
	}
	if rg.elem[v] {
		return false
	}
	switch rg.same[v] {
	case 1:
		return true
	case 2:
		return false
	}
	rg.same[v] = 2
	ok := false
	switch x := v.(type) {
	case *ssa.BinOp:
		ok = rg.invariant(x.X) && rg.invariant(x.Y)
	case *ssa.UnOp:
		ok = x.Op != token.MUL && x.Op != token.ARROW && rg.invariant(x.X)
		if x.Op == token.MUL {
			// a cell the loop does not write
			ok = rg.invariant(x.X) && !rg.writes(x.X)
		}
	case *ssa.Convert:
		ok = rg.invariant(x.X)
	case *ssa.ChangeType:
		ok = rg.invariant(x.X)
	case *ssa.MakeInterface:
		ok = rg.invariant(x.X)
	case *ssa.FieldAddr:
		ok = rg.invariant(x.X)
	case *ssa.Field:
		ok = rg.invariant(x.X)
	case *ssa.Slice:
		ok = rg.invariant(x.X) && (x.Low == nil || rg.invariant(x.Low)) && (x.High == nil || rg.invariant(x.High))
	}
	if ok {
		rg.same[v] = 1
	}
	return ok
}

// writes: the region stores to the address.
func (rg *region) writes(addr ssa.Value) bool {
	for _, b := range rg.fn.Blocks {
		if !rg.inside(b) {
			continue
		}
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && sameAddr(st.Addr, addr) {
				return true
			}
		}
	}
	return false
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	switch a := x.(type) {
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameAddr(a.X, b.X)
	case *ssa.IndexAddr:
		b, ok := y.(*ssa.IndexAddr)
		return ok && sameAddr(a.X, b.X) && sameAddr(a.Index, b.Index)
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)
		return ok && a.Op == token.MUL && b.Op == token.MUL && sameAddr(a.X, b.X)
	case *ssa.Const:
		b, ok := y.(*ssa.Const)
		return ok && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
	}
	return false
}

// carried describes what an iteration makes of a value kept from one
// iteration to the next.
type carried struct {
	keep, list, concat, sum bool
	vals                    []ssa.Value // values that replace it
}

func (rg *region) carry(v ssa.Value, isKeep func(ssa.Value) bool, seen map[ssa.Value]bool, out *carried) {
	if isKeep(v) {
		out.keep = true
		return
	}
	if seen[v] {
		return
	}
	seen[v] = true
	sub := func(w ssa.Value) carried {
		var c carried
		rg.carry(w, isKeep, map[ssa.Value]bool{v: true}, &c)
		return c
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if rg.inside(x.Block()) {
			for _, e := range x.Edges {
				rg.carry(e, isKeep, seen, out)
			}
			return
		}
	case *ssa.Slice:
		if c := sub(x.X); c.keep || c.list {
			out.list = true
			return
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if c := sub(x.Call.Args[0]); c.keep || c.list {
				out.list = true
				return
			}
		}
		// f(list, x) which returns append(list, x)
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for i, arg := range x.Call.Args {
				if i < len(f.Params) {
					if _, ok := arg.Type().Underlying().(*types.Slice); ok {
						if c := sub(arg); (c.keep || c.list) && appendsTo(f, f.Params[i]) {
							out.list = true
							return
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		cx, cy := sub(x.X), sub(x.Y)
		if cx.keep || cy.keep || cx.sum || cy.sum || cx.concat || cy.concat {
			bt, _ := x.Type().Underlying().(*types.Basic)
			if bt != nil && bt.Info()&types.IsString != 0 {
				out.concat = true
				return
			}
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				out.sum = true
				return
			case token.SUB:
				if !cy.keep && !cy.sum {
					out.sum = true
					return
				}
			}
		}
	case *ssa.Convert:
		rg.carry(x.X, isKeep, seen, out)
		return
	}
	out.vals = append(out.vals, v)
}

// appendsTo: the function returns its parameter with something appended.
func appendsTo(f *ssa.Function, p ssa.Value) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
			if c, ok := ret.Results[0].(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Call.Args[0] == p {
					return true
				}
			}
		}
	}
	return false
}

func c14(c *Ctx, r *Report) {
	d := &det{c: c, r: r, a: c.pointsTo(), loops: map[*ssa.Function][]*natLoop{}, doneVal: map[ssa.Value]bool{}, doneFn: map[string]bool{}, callers: map[*ssa.Function][]*ssa.Call{}}
	fns := c.repoFns()
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok {
					ts, _ := d.a.targets(ctxOp, &call.Call)
					for _, t := range ts {
						d.callers[t] = append(d.callers[t], call)
					}
				}
			}
		}
	}
	nsrc, ngo := 0, 0
	for _, fn := range fns {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						d.mapLoop(fn, x)
					}
				case *ssa.Call:
					if strings.HasPrefix(fn.String(), d.c.P.TemplatePkg()+".Restore") {
						continue // unpacks the templates; not part of generation
					}
					nsrc++
					d.source(fn, x)
				case *ssa.Go:
					ngo++
					d.goroutine(fn, x)
				}
			}
		}
	}
	r.Ok("%d calls looked at: none brings time, randomness, process ids or addresses into a result", nsrc)
	r.Ok("%d go statements looked at", ngo)
	r.Analysed["functions"] = len(fns)
	r.Analysed["loops_without_fixed_order"] = d.nloops
}

func (d *det) name(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), d.c.P.Module()+"/", "")
}

func (d *det) mapLoop(fn *ssa.Function, rng *ssa.Range) {
	elem := map[ssa.Value]bool{}
	var loop *natLoop
	for _, ref := range *rng.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		for _, l := range d.loopsOf(fn) {
			if l.head == nx.Block() {
				loop = l
			}
		}
		for _, e := range *nx.Referrers() {
			if ex, ok := e.(*ssa.Extract); ok && ex.Index > 0 {
				elem[ex] = true
			}
		}
	}
	if loop == nil {
		return // at most one iteration
	}
	d.nloops++
	before := len(d.r.Violations) + len(d.r.Undecided)
	rg := &region{what: fmt.Sprintf("the loop over a map in %s", d.name(fn)), fn: fn, loop: loop, elem: elem, same: map[ssa.Value]int{}}
	d.judge(rg)
	if before == len(d.r.Violations)+len(d.r.Undecided) {
		d.r.Ok("%s (%s): what an iteration leaves does not depend on the order", rg.what, d.c.pos(rng.Pos()))
	}
}

// derived: the value may depend on the element.
func (rg *region) derived(v ssa.Value) bool { return !rg.invariant(v) }

func isErr(t types.Type) bool { return types.Identical(t, errT) }

func (d *det) judge(rg *region) {
	// values carried around the loop
	if rg.loop != nil {
		for _, ins := range rg.loop.head.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var c carried
			for i, p := range phi.Block().Preds {
				if rg.loop.body[p] {
					rg.carry(phi.Edges[i], func(v ssa.Value) bool { return v == phi }, map[ssa.Value]bool{}, &c)
				}
			}
			if !usedOutside(phi, rg.loop) && !c.list && !c.concat {
				// only of use inside: what depends on it is judged there
				continue
			}
			d.judgeCarried(rg, c, phi.Pos(), "variable "+phiName(phi), phi.Type(), []ssa.Value{phi})
		}
		// values made inside and used after the loop (break)
		for b := range rg.loop.body {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil || (b == rg.loop.head && isPhi(v)) || isErr(v.Type()) {
					continue
				}
				if !usedOutside(v, rg.loop) || !rg.derived(v) {
					continue
				}
				if al, ok := v.(*ssa.Alloc); ok && al.Heap {
					continue // its uses are stores, judged as such
				}
				d.early(rg, v, b, v.Pos())
			}
		}
	}
	for _, b := range rg.fn.Blocks {
		if !rg.inside(b) {
			continue
		}
		for _, ins := range b.Instrs {
			d.judgeInstr(rg, ins)
		}
	}
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func usedOutside(v ssa.Value, l *natLoop) bool {
	for _, ref := range *v.Referrers() {
		if phi, ok := ref.(*ssa.Phi); ok {
			for i, e := range phi.Edges {
				if e == v && !l.body[phi.Block()] {
					_ = i
					return true
				}
			}
			continue
		}
		if !l.body[ref.Block()] {
			if ret, ok := ref.(*ssa.Return); ok && onlyInErrorReturn(v, ret) {
				continue
			}
			return true
		}
	}
	return false
}

// onlyInErrorReturn: the function fails there, its other results do not count.
func onlyInErrorReturn(v ssa.Value, ret *ssa.Return) bool {
	for _, x := range ret.Results {
		if isErr(x.Type()) && x != v {
			if c, ok := x.(*ssa.Const); ok && c.Value == nil {
				return false
			}
			return true
		}
	}
	return false
}

func (d *det) judgeCarried(rg *region, c carried, pos token.Pos, what string, t types.Type, list []ssa.Value) {
	if isErr(t) {
		return
	}
	if c.concat {
		d.r.Viol("concat", pos, "%s: %s is put together in the order of the iteration", rg.what, what)
	}
	consts := map[string]bool{}
	for _, v := range c.vals {
		if k, ok := v.(*ssa.Const); ok {
			s := "nil"
			if k.Value != nil {
				s = k.Value.ExactString()
			}
			consts[s] = true
			continue
		}
		if rg.invariant(v) {
			consts[v.Name()] = true
			continue
		}
		if b, ok := rg.extremum(v, list); ok {
			_ = b
			continue
		}
		if rg.keyGuard(blockOf(v)) {
			continue
		}
		if isErr(v.Type()) || d.onlyLogged(v, map[ssa.Value]bool{}) {
			continue
		}
		d.r.Viol("last-wins", pos, "%s: %s keeps what the last (or some) iteration gave it", rg.what, what)
	}
	if len(consts) > 1 {
		d.r.Viol("last-wins", pos, "%s: %s keeps what the last (or some) iteration gave it", rg.what, what)
	}
	if c.list {
		for _, v := range list {
			d.unordered(v, rg, "the list "+what+" filled by "+rg.what)
		}
	}
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

// extremum: the value replaces the kept one after a comparison with it.
func (rg *region) extremum(v ssa.Value, kept []ssa.Value) (*ssa.BinOp, bool) {
	for _, b := range rg.fn.Blocks {
		if !rg.inside(b) {
			continue
		}
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				for _, k := range kept {
					if (bo.X == v && bo.Y == k) || (bo.Y == v && bo.X == k) {
						return bo, true
					}
				}
			}
		}
	}
	return nil, false
}

// keyGuard: the block is only reached for one particular key.
func (rg *region) keyGuard(b *ssa.BasicBlock) bool {
	for b != nil {
		p := b.Idom()
		if p == nil || !rg.inside(p) {
			return false
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				succ := 0
				if bo.Op == token.NEQ {
					succ = 1
				}
				if bo.Op == token.EQL || bo.Op == token.NEQ {
					x, y := bo.X, bo.Y
					if (rg.isKey(x) && rg.invariant(y)) || (rg.isKey(y) && rg.invariant(x)) {
						s := p.Succs[succ]
						if (s == b || s.Dominates(b)) && len(s.Preds) == 1 {
							return true
						}
					}
				}
			}
		}
		b = p
	}
	return false
}

func (rg *region) isKey(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok || !rg.elem[v] {
		return false
	}
	_, nx := ex.Tuple.(*ssa.Next)
	return nx && ex.Index == 1
}

// early: a value of one element leaves the loop.
func (d *det) early(rg *region, v ssa.Value, b *ssa.BasicBlock, pos token.Pos) {
	ok := true
	for _, ref := range *v.Referrers() {
		if rg.loop.body[ref.Block()] {
			continue
		}
		if ret, isRet := ref.(*ssa.Return); isRet && onlyInErrorReturn(v, ret) {
			continue
		}
		if !rg.keyGuard(ref.Block()) && !rg.keyGuardExit(ref, v) && !d.useLogged(ref, v, map[ssa.Value]bool{}) {
			ok = false
		}
	}
	if ok {
		return
	}
	debug("first-match %s = %s in %s", v.Name(), v, v.Parent())
	d.r.Viol("first-match", pos, "%s: a value of whichever element comes first is used after the loop", rg.what)
}

// keyGuardExit: every way the value leaves the loop is guarded by the key.
func (rg *region) keyGuardExit(ref ssa.Instruction, v ssa.Value) bool {
	phi, ok := ref.(*ssa.Phi)
	if !ok {
		// the block is dominated by an exit edge
		for b := ref.Block(); b != nil; b = b.Idom() {
			for _, p := range b.Preds {
				if rg.loop.body[p] && (rg.keyGuard(p) || rg.edgeKeyGuard(p, b)) {
					return true
				}
			}
		}
		return false
	}
	for i, e := range phi.Edges {
		if e == v {
			p := phi.Block().Preds[i]
			if !rg.keyGuard(p) && !rg.edgeKeyGuard(p, phi.Block()) {
				return false
			}
		}
	}
	return true
}

func (rg *region) edgeKeyGuard(p, s *ssa.BasicBlock) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	i := 0
	if bo.Op == token.NEQ {
		i = 1
	} else if bo.Op != token.EQL {
		return false
	}
	return p.Succs[i] == s && ((rg.isKey(bo.X) && rg.invariant(bo.Y)) || (rg.isKey(bo.Y) && rg.invariant(bo.X)))
}

// rootOf walks from an address or reference to where it comes from.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// elemIndexed: some index on the way from the root depends on the element.
func (rg *region) elemIndexed(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if rg.dependsOnElem(x.Index, map[ssa.Value]bool{}) {
				return true
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
}

// dependsOnElem: computed from the element, not from a counter.
func (rg *region) dependsOnElem(v ssa.Value, seen map[ssa.Value]bool) bool {
	if rg.elem[v] {
		return true
	}
	if seen[v] || rg.isOuter(v) {
		return false
	}
	seen[v] = true
	if p, ok := v.(*ssa.Parameter); ok {
		return !rg.outer[p]
	}
	if p, ok := v.(*ssa.FreeVar); ok {
		return !rg.outer[p]
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && rg.dependsOnElem(*op, seen) {
			return true
		}
	}
	return false
}

func (d *det) judgeInstr(rg *region, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Store:
		root := rootOf(x.Addr)
		if !rg.isOuter(root) || isConstRoot(root) || rg.elemIndexed(x.Addr) {
			return
		}
		if isErr(x.Val.Type()) {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !rg.invariant(ia.Index) {
			// a counter: the list is filled in the order of the iteration
			d.unordered(ia.X, rg, "the list filled by "+rg.what)
			return
		}
		var c carried
		rg.carry(x.Val, func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameAddr(u.X, x.Addr)
		}, map[ssa.Value]bool{}, &c)
		if c.list {
			d.cell(rg, x.Addr, x.Pos())
			c.list = false
		}
		d.judgeCarried(rg, c, x.Pos(), addrName(x.Addr), x.Val.Type(), loadsOf(rg, x.Addr))
	case *ssa.MapUpdate:
		if !rg.isOuter(rootOf(x.Map)) {
			return
		}
		if rg.dependsOnElem(x.Key, map[ssa.Value]bool{}) {
			return
		}
		if isErr(x.Value.Type()) {
			return
		}
		var c carried
		rg.carry(x.Value, func(v ssa.Value) bool {
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			l, ok := v.(*ssa.Lookup)
			return ok && sameAddr(l.X, x.Map) && sameAddr(l.Index, x.Key)
		}, map[ssa.Value]bool{}, &c)
		if c.list {
			d.r.Viol("unsorted", x.Pos(), "%s: the list in a map entry is filled in the order of the iteration", rg.what)
			c.list = false
		}
		if rg.invariant(x.Key) {
			d.judgeCarried(rg, c, x.Pos(), "a map entry", x.Value.Type(), nil)
		} else if len(c.vals) > 0 && !allInvariant(rg, c.vals) {
			d.r.Unknown("%s: a map entry with a key that is not made from the element (%s)", rg.what, d.c.pos(x.Pos()))
		}
	case *ssa.Send:
		if rg.isOuter(rootOf(x.Chan)) && rg.derived(x.X) && !isErr(x.X.Type()) {
			d.unorderedChan(rg, x)
		}
	case *ssa.Return:
		if rg.loop == nil {
			return
		}
		d.judgeReturn(rg, x)
	case *ssa.Call:
		d.judgeCall(rg, x, &x.Call)
	case *ssa.Defer:
		d.judgeCall(rg, x, &x.Call)
	}
}

func allInvariant(rg *region, vs []ssa.Value) bool {
	for _, v := range vs {
		if !rg.invariant(v) {
			return false
		}
	}
	return true
}

func isConstRoot(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

func addrName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		if x.Comment != "" {
			return "variable " + x.Comment
		}
	case *ssa.FreeVar:
		return "variable " + x.Name()
	case *ssa.FieldAddr:
		if st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return "field " + st.Field(x.Field).Name()
		}
	case *ssa.Global:
		return "variable " + x.Name()
	}
	return "a variable"
}

func loadsOf(rg *region, addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, b := range rg.fn.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, addr) {
				out = append(out, u)
			}
		}
	}
	return out
}

// judgeReturn: a return inside the loop (SSA keeps such blocks outside the
// natural loop, so this only sees loops that cannot go on).
func (d *det) judgeReturn(rg *region, x *ssa.Return) {}

func (d *det) judgeCall(rg *region, ins ssa.Instruction, call *ssa.CallCommon) {
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return
	}
	args := call.Args
	if call.IsInvoke() {
		args = append([]ssa.Value{call.Value}, args...)
	}
	name := calleeName(call)
	if isLogging(name) {
		return
	}
	fns, _ := d.a.targets(ctxOp, call)
	for _, f := range fns {
		if !d.c.P.InRepo(f) || len(f.Blocks) == 0 || rg.depth >= 6 {
			continue
		}
		if strings.HasPrefix(f.String(), d.c.P.TemplatePkg()) {
			continue
		}
		sub := &region{what: rg.what, fn: f, outer: map[ssa.Value]bool{}, elem: map[ssa.Value]bool{}, depth: rg.depth + 1, same: map[ssa.Value]int{}}
		key := rg.what + "/" + f.String()
		for i, p := range f.Params {
			if i < len(args) && rg.invariant(args[i]) {
				sub.outer[p] = true
				key += fmt.Sprint("/", i)
			}
		}
		for i, fv := range f.FreeVars {
			if f == rg.fn {
				sub.outer[fv] = rg.outer[fv]
			} else if mc := closureMade(f); mc != nil && f.Parent() == rg.fn {
				sub.outer[fv] = rg.isOuter(rootOf(mc.Bindings[i]))
			}
			if sub.outer[fv] {
				key += fmt.Sprint("/fv", i)
			}
		}
		if d.doneFn[key] {
			continue
		}
		d.doneFn[key] = true
		d.judge(sub)
	}
	// text written to something all iterations share
	if len(fns) == 0 || !d.c.P.InRepo(fns[0]) {
		for i, v := range args {
			what, sure := extMutates(name, i)
			if what == "" || !sure || !isWriterCall(name) {
				continue
			}
			root := rootOf(v)
			if g, ok := root.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				continue
			}
			if isLogging(name) || !rg.isOuter(root) {
				continue
			}
			d.r.Viol("written", ins.Pos(), "%s: text is written in the order of the iteration (%s)", rg.what, name)
		}
	}
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	mc, _ := v.(*ssa.MakeClosure)
	return mc
}

// closureMade is the place where the closure is made.
func closureMade(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc
			}
		}
	}
	return nil
}

func isWriterCall(name string) bool {
	m := name[strings.LastIndexByte(name, '.')+1:]
	return strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Fprint") || m == "Copy" || m == "ReadFrom"
}

func isLogging(name string) bool {
	return strings.Contains(name, "sirupsen/logrus") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.") || strings.HasPrefix(name, "log/slog") ||
		name == "fmt.Print" || name == "fmt.Println" || name == "fmt.Printf"
}

func isErrorMaker(name string) bool {
	return name == "fmt.Errorf" || strings.HasPrefix(name, "github.com/pkg/errors.") || name == "errors.New" || name == "errors.Join"
}

// onlyLogged: the value reaches nothing but log output and errors.
func (d *det) onlyLogged(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		if !d.useLogged(ref, v, seen) {
			return false
		}
	}
	return true
}

// useLogged: this use of the value only leads to log output and errors.
func (d *det) useLogged(ref ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := ref.(type) {
	case *ssa.DebugRef:
	case *ssa.Store:
		// the argument list of a call
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
			if al, ok := ia.X.(*ssa.Alloc); ok {
				if !d.onlyLogged(al, seen) {
					return false
				}
				return true
			}
		}
		if x.Addr == v {
			return true
		}
		if al, ok := x.Addr.(*ssa.Alloc); ok && d.onlyLogged(al, seen) {
			return true
		}
		return false
	case *ssa.IndexAddr, *ssa.Slice, *ssa.MakeInterface, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Phi, *ssa.ChangeInterface:
		if !d.onlyLogged(ref.(ssa.Value), seen) {
			return false
		}
	case *ssa.Return:
		if onlyInErrorReturn(v, x) || isErr(v.Type()) {
			return true
		}
		return false
	case *ssa.Call:
		n := calleeName(&x.Call)
		switch {
		case isLogging(n), isErrorMaker(n):
		case strings.HasPrefix(n, "(time.Time)."), strings.HasPrefix(n, "(time.Duration)."), n == "time.Since", n == "fmt.Sprintf", n == "fmt.Sprint", strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "strconv."):
			if !d.onlyLogged(x, seen) {
				return false
			}
		case isBuiltin(&x.Call, "len"), isBuiltin(&x.Call, "cap"):
		case n == "fmt.Fprintf" || n == "fmt.Fprintln" || n == "fmt.Fprint":
			if g, ok := rootOf(x.Call.Args[0]).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				return true
			}
			return false
		default:
			return false
		}
	case *ssa.Defer:
		if !isLogging(calleeName(&x.Call)) {
			return false
		}
	default:
		return false
	}
	return true
}

func isBuiltin(c *ssa.CallCommon, name string) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// cell: a variable or field holds a list filled in no fixed order.
func (d *det) cell(rg *region, addr ssa.Value, pos token.Pos) {
	what := addrName(addr)
	desc := "the list " + what + " filled by " + rg.what
	switch x := addr.(type) {
	case *ssa.Alloc:
		d.cellLoads(rg, x, desc)
		return
	case *ssa.FreeVar:
		// the variable of the enclosing function
		if al := boundAlloc(x); al != nil {
			d.cellLoads(rg, al, desc)
			return
		}
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// loads of the field in this function outside the region
			sorted := d.sortsField(rg.fn, x)
			if len(sorted) > 0 {
				d.r.Ok("%s is sorted", desc)
				return
			}
			_ = al
		} else if len(d.sortsField(rg.fn, x)) > 0 {
			d.r.Ok("%s is sorted", desc)
			return
		}
		if d.sortedElsewhere(x) {
			d.r.Unknown("%s: sorted in another function", desc)
			return
		}
	}
	d.r.Viol("unsorted", pos, "%s is never sorted", desc)
}

func boundAlloc(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for i, f := range fn.FreeVars {
					if f == fv {
						switch x := mc.Bindings[i].(type) {
						case *ssa.Alloc:
							return x
						case *ssa.FreeVar:
							return boundAlloc(x)
						}
					}
				}
			}
		}
	}
	return nil
}

func (d *det) cellLoads(rg *region, al *ssa.Alloc, desc string) {
	var loads []ssa.Value
	for _, ref := range *al.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		if u.Parent() == rg.fn && rg.inside(u.Block()) {
			continue
		}
		loads = append(loads, u)
	}
	d.followAll(loads, desc, al.Parent())
}

// sortsField lists the sorting calls in fn whose list is that field.
func (d *det) sortsField(fn *ssa.Function, fa *ssa.FieldAddr) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v := d.sortedBy(ins); v != nil {
				if u, ok := stripList(v).(*ssa.UnOp); ok && sameAddr(u.X, fa) {
					out = append(out, ins)
				}
			}
		}
	}
	return out
}

func (d *det) sortedElsewhere(fa *ssa.FieldAddr) bool {
	for _, fn := range d.c.repoFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v := d.sortedBy(ins)
				if v == nil {
					continue
				}
				if u, ok := stripList(v).(*ssa.UnOp); ok {
					if f, ok := u.X.(*ssa.FieldAddr); ok && f.Field == fa.Field && types.Identical(f.X.Type(), fa.X.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func stripList(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// sortedBy is the list the instruction sorts, if it does.
func (d *det) sortedBy(ins ssa.Instruction) ssa.Value {
	c, ok := ins.(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 {
		return nil
	}
	switch calleeName(&c.Call) {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return c.Call.Args[0]
	}
	if f := c.Call.StaticCallee(); f != nil && d.c.P.InRepo(f) && len(f.Blocks) > 0 {
		for i, p := range f.Params {
			if i < len(c.Call.Args) && d.sortsParam(f, p) {
				return c.Call.Args[i]
			}
		}
	}
	return nil
}

// sortsParam: the function sorts the list it is given on every path.
func (d *det) sortsParam(f *ssa.Function, p *ssa.Parameter) bool {
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, ins := range f.Blocks[0].Instrs {
		c, ok := ins.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 {
			continue
		}
		switch calleeName(&c.Call) {
		case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
			if stripList(c.Call.Args[0]) == p {
				return true
			}
		}
	}
	return false
}

// unordered follows a list whose order is not fixed.
func (d *det) unordered(v ssa.Value, rg *region, desc string) {
	var start []ssa.Value
	start = append(start, v)
	var fn *ssa.Function
	if i, ok := v.(ssa.Instruction); ok {
		fn = i.Parent()
	} else if p, ok := v.(*ssa.Parameter); ok {
		fn = p.Parent()
	}
	d.followIn(start, desc, fn, rg)
}

func (d *det) followAll(vs []ssa.Value, desc string, fn *ssa.Function) { d.followIn(vs, desc, fn, nil) }

func (d *det) followIn(vs []ssa.Value, desc string, fn *ssa.Function, rg *region) {
	type use struct {
		ins ssa.Instruction
		v   ssa.Value
	}
	var uses []use
	var sorts []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if rg != nil && rg.fn == ref.Parent() && rg.loop != nil && rg.loop.body[ref.Block()] && ref.Block() != rg.loop.head {
				// the filling itself
				if _, ok := ref.(*ssa.IndexAddr); ok {
					continue
				}
				if c, ok := ref.(*ssa.Call); ok && isBuiltin(&c.Call, "append") {
					continue
				}
				if p, ok := ref.(*ssa.Phi); ok && p.Block() != rg.loop.head {
					continue
				}
			}
			if list := d.sortedBy(ref); list != nil && stripList(list) == stripList(v) {
				sorts = append(sorts, ref)
				continue
			}
			switch x := ref.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Convert:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.MakeClosure:
				// captured (by a comparison function)
			case *ssa.DebugRef:
			case *ssa.UnOp:
				walk(x)
			case *ssa.BinOp:
			default:
				uses = append(uses, use{ref, v})
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	// other loads of the same variable are sorted by the same call
	bySort := func(ins ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == ins.Block() {
				for _, x := range s.Block().Instrs {
					if x == s {
						return true
					}
					if x == ins {
						break
					}
				}
				continue
			}
			if s.Block().Dominates(ins.Block()) {
				return true
			}
		}
		return false
	}
	for _, u := range uses {
		if bySort(u.ins) {
			continue
		}
		d.useUnordered(u.ins, u.v, desc, rg)
	}
}

func (d *det) useUnordered(ins ssa.Instruction, v ssa.Value, desc string, rg *region) {
	key := fmt.Sprintf("%p/%p", ins, v)
	if d.doneFn[key] {
		return
	}
	d.doneFn[key] = true
	switch x := ins.(type) {
	case *ssa.Return:
		if onlyInErrorReturn(v, x) {
			return
		}
		i := 0
		for j, res := range x.Results {
			if res == v {
				i = j
			}
		}
		d.result(x.Parent(), i, desc)
	case *ssa.Call:
		n := calleeName(&x.Call)
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
			case "append":
				d.followIn([]ssa.Value{x}, desc, x.Parent(), rg)
			case "copy":
				if x.Call.Args[1] == v {
					d.followIn([]ssa.Value{x.Call.Args[0]}, desc, x.Parent(), rg)
				}
			}
			return
		}
		if isLogging(n) || isErrorMaker(n) {
			return
		}
		ts, _ := d.a.targets(ctxOp, &x.Call)
		repo := false
		for _, f := range ts {
			if !d.c.P.InRepo(f) || len(f.Blocks) == 0 {
				continue
			}
			repo = true
			args := x.Call.Args
			if x.Call.IsInvoke() {
				args = append([]ssa.Value{x.Call.Value}, args...)
			}
			for i, arg := range args {
				if arg == v && i < len(f.Params) {
					d.followIn([]ssa.Value{f.Params[i]}, desc, f, nil)
				}
			}
		}
		if repo || d.onlyLogged(x, map[ssa.Value]bool{}) {
			return
		}
		d.r.Viol("unsorted", x.Pos(), "%s is used by %s without having been sorted", desc, n)
	case *ssa.IndexAddr:
		if c, ok := x.Index.(*ssa.Const); ok {
			_ = c
			for _, ref := range *x.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && !d.onlyLogged(u, map[ssa.Value]bool{}) {
					d.r.Viol("unsorted", x.Pos(), "one element of %s is used by its place without the list having been sorted", desc)
				}
			}
			return
		}
		d.listLoop(x, desc)
	case *ssa.Range:
	case *ssa.Store:
		if x.Val != v {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.Alloc:
			d.cellLoads(&region{fn: &ssa.Function{}}, a, desc)
			return
		case *ssa.FreeVar:
			if al := boundAlloc(a); al != nil {
				d.cellLoads(&region{fn: &ssa.Function{}}, al, desc)
				return
			}
		case *ssa.IndexAddr:
			if al, ok := a.X.(*ssa.Alloc); ok { // argument list
				if d.onlyLogged(al, map[ssa.Value]bool{}) {
					return
				}
			}
		case *ssa.FieldAddr:
			if d.sortedElsewhere(a) {
				d.r.Unknown("%s is kept in %s, which is sorted somewhere", desc, addrName(a))
				return
			}
		}
		d.r.Viol("unsorted", x.Pos(), "%s is kept in %s without having been sorted", desc, addrName(x.Addr))
	case *ssa.MapUpdate:
		if x.Value == v {
			d.r.Viol("unsorted", x.Pos(), "%s is put into a map without having been sorted", desc)
		}
	case *ssa.Extract, *ssa.Lookup:
	}
}

// result: result i of fn is a list without fixed order.
func (d *det) result(fn *ssa.Function, i int, desc string) {
	for _, c := range d.callers[fn] {
		if c.Parent() == nil || strings.HasPrefix(c.Parent().String(), d.c.P.TemplatePkg()) {
			continue
		}
		var v ssa.Value = c
		if _, ok := c.Type().(*types.Tuple); ok {
			v = nil
			for _, ref := range *c.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					v = ex
				}
			}
		}
		if v == nil || d.doneVal[v] {
			continue
		}
		d.doneVal[v] = true
		d.followIn([]ssa.Value{v}, fmt.Sprintf("the list returned by %s (filled in no fixed order)", d.name(fn)), c.Parent(), nil)
	}
}

// listLoop: a loop over a list without fixed order.
func (d *det) listLoop(ia *ssa.IndexAddr, desc string) {
	loop := d.innermost(ia.Block())
	fn := ia.Parent()
	if loop == nil {
		d.r.Unknown("an element of %s is used by its place (%s)", desc, d.c.pos(ia.Pos()))
		return
	}
	key := fmt.Sprintf("loop%p", loop.head)
	if d.doneFn[key] {
		return
	}
	d.doneFn[key] = true
	d.nloops++
	elem := map[ssa.Value]bool{ia: true}
	before := len(d.r.Violations) + len(d.r.Undecided)
	rg := &region{what: fmt.Sprintf("the loop in %s over %s", d.name(fn), desc), fn: fn, loop: loop, elem: elem, same: map[ssa.Value]int{}}
	// the counter of the loop is not of the element, but of the order
	d.judge(rg)
	if before == len(d.r.Violations)+len(d.r.Undecided) {
		d.r.Ok("%s (%s): what an iteration leaves does not depend on the order", rg.what, d.c.pos(ia.Pos()))
	}
}

// unorderedChan: values sent in no fixed order.
func (d *det) unorderedChan(rg *region, x *ssa.Send) {
	chans := d.a.get(ctxOp, x.Chan)
	for _, fn := range d.c.repoFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW {
					continue
				}
				hit := false
				for l := range d.a.get(ctxOp, u.X) {
					if chans[l] {
						hit = true
					}
				}
				if !hit {
					continue
				}
				loop := d.innermost(b)
				if loop == nil {
					continue
				}
				key := fmt.Sprintf("loop%p", loop.head)
				if d.doneFn[key] {
					continue
				}
				d.doneFn[key] = true
				d.nloops++
				elem := map[ssa.Value]bool{u: true}
				for _, ref := range *u.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
						elem[ex] = true
					}
				}
				d.judge(&region{what: fmt.Sprintf("the loop in %s over what %s sends", d.name(fn), rg.what), fn: fn, loop: loop, elem: elem, same: map[ssa.Value]int{}})
			}
		}
	}
}

// goroutine: a go statement in a loop runs its function in no fixed order.
func (d *det) goroutine(fn *ssa.Function, g *ssa.Go) {
	loop := d.innermost(g.Block())
	fns, _ := d.a.targets(ctxOp, &g.Call)
	for _, f := range fns {
		if !d.c.P.InRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		if loop == nil {
			continue
		}
		d.nloops++
		lr := &region{fn: fn, loop: loop, elem: map[ssa.Value]bool{}, same: map[ssa.Value]int{}}
		sub := &region{what: fmt.Sprintf("the goroutines started in %s", d.name(fn)), fn: f, outer: map[ssa.Value]bool{}, elem: map[ssa.Value]bool{}, same: map[ssa.Value]int{}}
		for i, p := range f.Params {
			if i < len(g.Call.Args) && lr.invariant(g.Call.Args[i]) {
				sub.outer[p] = true
			}
		}
		if mc := closureOf(g.Call.Value); mc != nil {
			for i, fv := range f.FreeVars {
				if lr.isOuter(mc.Bindings[i]) {
					sub.outer[fv] = true
				}
			}
		}
		d.judge(sub)
	}
}

// source: values that differ from run to run.
func (d *det) source(fn *ssa.Function, c *ssa.Call) {
	n := calleeName(&c.Call)
	what := ""
	switch {
	case n == "time.Now":
		what = "the time of day"
	case strings.HasPrefix(n, "math/rand"), strings.HasPrefix(n, "(*math/rand"), strings.HasPrefix(n, "crypto/rand."):
		what = "a random value"
	case n == "os.Getpid", n == "os.Getppid":
		what = "a process id"
	case n == "os.Hostname", strings.HasPrefix(n, "os/user."):
		what = "the name of the machine or user"
	case strings.HasSuffix(n, ".ModTime"):
		what = "the modification time of a file"
	case n == "(reflect.Value).MapKeys":
		d.doneVal[c] = true
		d.followIn([]ssa.Value{c}, "the list of reflect.MapKeys", fn, nil)
		return
	case n == "fmt.Sprintf" || n == "fmt.Fprintf":
		for _, a := range c.Call.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
				what = "an address"
			}
		}
	}
	if what == "" || d.onlyLogged(c, map[ssa.Value]bool{}) {
		return
	}
	d.r.Viol("source", c.Pos(), "%s: %s (%s) goes into more than log output", d.name(fn), what, n)
}

var _ = sort.Strings
