package gsa

import (
	"fmt"
	"go/token"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// callbacks are library functions which call one of their arguments any
// number of times: the index of that argument, and of what is walked over.
var callbacks = map[string][2]int{
	"path/filepath.Walk": {1, 0}, "path/filepath.WalkDir": {1, 0}, "go/ast.Inspect": {1, 0}, "io/fs.WalkDir": {2, 1},
}

// callback evaluates such a call: the argument is the body of a loop.
func (f *frame) callback(ins ssa.Instruction, c *ssa.CallCommon, name string, args []GV) ([]GV, bool) {
	ix, ok := callbacks[name]
	if !ok || len(args) <= ix[0] {
		return nil, false
	}
	e := f.e
	fn := args[ix[0]].One()
	if fn == nil {
		return nil, false
	}
	cl, ok := fn.X.(*Closure)
	if !ok || cl.Fn == nil || cl.Fn.Blocks == nil || (e.Pol.Inline != nil && !e.Pol.Inline(cl.Fn)) {
		return nil, false
	}
	id := "w" + f.instID(ins)
	over := e.TermOf(args[ix[1]])
	var params []GV
	for _, p := range cl.Fn.Params {
		params = append(params, V(e.mkTerm("walk", id+"$"+fmt.Sprint(len(params)), p.Type(), nil)))
	}
	// the call itself: its error can be anything
	var out []GV
	if c.Signature().Results().Len() > 0 {
		var rest []GV
		for i, a := range args {
			if i != ix[0] {
				rest = append(rest, a)
			}
		}
		out = []GV{f.callErr(ins, name, rest)}
	} else {
		e.effect(f, "call", name, f.cur, ins, args, nil)
	}
	st := f.save()
	cur := f.cur
	L := &Loop{}
	written := map[*Term]bool{}
	mapsWritten := map[*Term]bool{}
	lmTerm := func(k *Term) *Term { return e.mkTerm("lm", id+"$"+fmt.Sprint(k.ID), memType(k), k, k) }
	var memBefore map[*Term]GV
	var res []GV
	var normal Node
	for pass := 0; ; pass++ {
		f.restore(st)
		var parent *Loop
		if n := len(e.loopStk); n > 0 {
			parent = e.loopStk[n-1]
		}
		*L = Loop{ID: id, Fn: cl.Fn, Kind: "walk", Over: over, Entry: cur, Parent: parent, Pos: ins.Pos(), HasNormal: true}
		for _, p := range params {
			L.Params = append(L.Params, p[0].T)
		}
		memBefore = map[*Term]GV{}
		for _, k := range termKeys(written) {
			memBefore[k] = f.memOrDefault(k)
			e.mem[k] = V(lmTerm(k))
		}
		for _, m := range termKeys(mapsWritten) {
			e.mapVer[m] = "L" + id
			if tm := e.maps[m]; tm != nil {
				tm.dynamic = true
			}
		}
		startMem := map[*Term]GV{}
		for k, v := range e.mem {
			startMem[k] = v
		}
		startVer := map[*Term]string{}
		for k, v := range e.mapVer {
			startVer[k] = v
		}
		L.state = f.save()
		L.state.ndef, L.state.nret = 0, 0
		L.callback = cl
		L.OverG = args[ix[1]]
		if len(out) == 1 {
			L.Err = out[0].One()
		}
		e.loopStk = append(e.loopStk, L)
		res, normal = e.evalFunc(cl.Fn, params, cl.Bindings, cur, f.instID(ins))
		e.loopStk = e.loopStk[:len(e.loopStk)-1]
		grew := false
		for _, k := range termKeys(e.mem) {
			v := e.mem[k]
			if sv, ok := startMem[k]; ok && gvEq(sv, v) {
				continue
			}
			if e.allocIn(addrRoot(k), id) || e.dependsOnLoop(k, id) || written[k] {
				continue
			}
			written[k] = true
			grew = true
		}
		for _, m := range termKeys(e.mapVer) {
			v := e.mapVer[m]
			if startVer[m] != v && !mapsWritten[m] && !e.allocIn(m, id) {
				mapsWritten[m] = true
				grew = true
			}
		}
		if !grew && pass > 0 {
			break
		}
		if pass > 6 {
			e.note("walk %s: memory did not stabilise", id)
			break
		}
	}
	L.Back = normal
	L.Results = res
	for _, k := range termKeys(written) {
		pi := &PhiInfo{Loop: L, Term: lmTerm(k), Init: memBefore[k], Next: e.memGet(k), Key: k}
		e.finishPhi(pi)
		e.phiTab[pi.Term] = pi
		L.Mem = append(L.Mem, pi)
		if pi.Post != nil {
			e.mem[k] = pi.Post
		} else {
			e.mem[k] = V(pi.Term)
		}
	}
	for _, m := range termKeys(mapsWritten) {
		e.mapVer[m] = "P" + id
	}
	e.LoopTab[id] = L
	f.cur = cur
	return out, true
}

// Site names the place of a call with the functions leading to it.
func (e *Engine) Site(pos token.Pos) string {
	s := strconv.Itoa(int(pos))
	for _, fn := range e.callStk {
		s += "<" + fn.Name()
	}
	return e.ctxID(s)
}

// HookEffect records the effect of a call handled by CallHook.
func (e *Engine) HookEffect(kind, name string, cond Node, args []GV, res *Term, pos token.Pos) {
	if ef := e.effect(nil, kind, name, cond, nil, args, res); ef != nil {
		ef.Pos = pos
	}
}

// Replay evaluates one call of the callback of a walk with the given
// arguments, in the state at the start of an arbitrary iteration.
func (e *Engine) Replay(L *Loop, params []GV) (res []GV, normal Node, effs []*Effect) {
	f := &frame{e: e, fn: L.callback.Fn}
	now := f.save()
	now.ndef, now.nret = 0, 0
	keep := e.Effects
	st := L.state
	st.neff = 0
	f.restore(st)
	e.Effects = nil
	e.loopStk = append(e.loopStk, L)
	res, normal = e.evalFunc(L.callback.Fn, params, L.callback.Bindings, L.Entry, "replay")
	e.loopStk = e.loopStk[:len(e.loopStk)-1]
	effs = e.Effects
	now.neff = 0
	f.restore(now)
	e.Effects = keep
	return res, normal, effs
}

// P renders a position.
func (e *Engine) P(pos token.Pos) string { return e.Prog.Fset.Position(pos).String() }
