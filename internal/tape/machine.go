package tape

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Machine runs a closed program over abstract states.
type Machine struct {
	Prog   *ssa.Program
	InRepo func(*ssa.Function) bool
	Input  Input
	// Call may take over a call; it returns nil if it does not.
	Call func(m *Machine, s *State, fn *ssa.Function, args []Val) *Val
	// Append is told of an append to the list of results.
	Append func(m *Machine, s *State, v Val, pos token.Pos)
	// List takes over an append to a list of results of several types; ListLen
	// and ListCut give its length and a part of it.
	List    func(m *Machine, s *State, elem types.Type, a, b Val, pos token.Pos) (Val, bool)
	ListOf  func(m *Machine, s *State, elem types.Type, l []Val, pos token.Pos) (Val, bool)
	ListLen func(v Val) Val
	ListCut func(m *Machine, s *State, v, lo, hi Val, pos token.Pos) Val
	// Entry tells whether objects of a type are not told apart.
	Entry func(t types.Type) bool
	// Stored is told of a store to an object; what it returns is told when it is
	// done.
	Stored func(m *Machine, s *State, a, v Val) func()
	// Looked is told of each element that was looked at.
	Looked func(m *Machine, s *State)
	// Return is told of the result of the root.
	Return func(m *Machine, s *State, v Val, pos token.Pos)
	// Viol and Unsure receive what is found.
	Want   func(key string) bool // which to look for
	Viol   func(key string, pos token.Pos, s *State, msg string)
	Unsure func(pos token.Pos, msg string)

	Words   []string // constant strings buffers may be compared with
	IsLevel func(st *types.Struct, field int, t types.Type) bool
	Out     func(elem types.Type) bool // elements of the list of results
	Limit   int
	Back    int // elements before a position that are looked at again
	Cap     int // lengths are told apart up to this

	Fold          bool                 // calls may nest as deep as the input
	setup         func(s *State) []Val // makes the arguments
	wrong         int                  // the number of states when the first violation was found
	Debug         func(where, key string)
	States, Edges int
	Funcs         map[*ssa.Function]bool
	infos         map[*ssa.Function]*fnInfo
	class         map[any]int  // union-find results: 1 position, 2 level
	index         map[any]bool // flows into an index of the tape
	counted       map[any]bool // counters which are neither
	seen          map[string]*State
	nodes         []*State
	succ          [][]edge
	pos           token.Pos
	work          []*State
}

type edge struct {
	to   int
	look bool
}

// Input is what the tape holds.
type Input interface {
	// IsTape tells whether a slice type is the tape's.
	IsTape(t types.Type) bool
	// Elem is the element at off of class c as a value.
	Elem(off, c int) Val
	// Label shows a class in a message.
	Label(c int) string
	// Is evaluates a comparison of an element (or part of one) of class c with
	// a constant; ok is false if it is not known.
	Compare(op token.Token, v Val, c Val) (bool, bool)
	// Pure evaluates a library function on elements and constants.
	Pure(name string, args []Val) (Val, bool)
	// Field loads what a path inside an element holds.
	Field(v Val, path string) (Val, bool)
}

type undecided struct{ why string }

type fnInfo struct {
	index map[ssa.Value]int
	in    []map[ssa.Value]bool
	out   []map[ssa.Value]bool
	at    map[[2]int]map[ssa.Value]bool
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi := m.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{index: map[ssa.Value]int{}, at: map[[2]int]map[ssa.Value]bool{}}
	n := 0
	add := func(v ssa.Value) { fi.index[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	k := len(fn.Blocks)
	fi.in = make([]map[ssa.Value]bool, k)
	fi.out = make([]map[ssa.Value]bool, k)
	for i := range fi.in {
		fi.in[i], fi.out[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for x := k - 1; x >= 0; x-- {
			b := fn.Blocks[x]
			for _, sb := range b.Succs {
				for v := range fi.in[sb.Index] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == sb {
						continue
					}
					if !fi.out[x][v] {
						fi.out[x][v] = true
						changed = true
					}
				}
				for i, p := range sb.Preds {
					if p != b {
						continue
					}
					for _, ins := range sb.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if e := ph.Edges[i]; tracked(e) && !fi.out[x][e] {
							fi.out[x][e] = true
							changed = true
						}
					}
				}
			}
			in := back(b, fi.out[x], 0)
			if len(in) != len(fi.in[x]) {
				fi.in[x] = in
				changed = true
			}
		}
	}
	m.infos[fn] = fi
	return fi
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// back is what is live before instruction from of b.
func back(b *ssa.BasicBlock, out map[ssa.Value]bool, from int) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for v := range out {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i >= from; i-- {
		ins := b.Instrs[i]
		if ph, ok := ins.(*ssa.Phi); ok {
			// phis are set on the way into the block
			_ = ph
			continue
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(l, v)
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && tracked(*op) {
				l[*op] = true
			}
		}
	}
	return l
}

func (m *Machine) liveAt(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	fi := m.info(b.Parent())
	k := [2]int{b.Index, i}
	l := fi.at[k]
	if l == nil {
		l = back(b, fi.out[b.Index], i)
		fi.at[k] = l
	}
	c := make(map[ssa.Value]bool, len(l))
	for v := range l {
		c[v] = true
	}
	return c
}

// Run explores everything reachable from root called with args.
func (m *Machine) Run(root *ssa.Function, args []Val, g Ghost) (err error) {
	m.infos = map[*ssa.Function]*fnInfo{}
	m.seen = map[string]*State{}
	m.Funcs = map[*ssa.Function]bool{}
	if m.Limit == 0 {
		m.Limit = 3000000
	}
	m.classify(root)
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				err = fmt.Errorf("%s: %s", m.Prog.Fset.Position(m.pos), u.why)
				return
			}
			panic(x)
		}
	}()
	s := &State{objs: map[int64]*Obj{}, G: g, node: -1}
	for i := range s.Cls {
		s.Cls[i] = -1
	}
	if m.setup != nil {
		args = m.setup(s)
	}
	m.push(s, root, args, nil, nil)
	m.work = []*State{s}
	start := time.Now()
	for len(m.work) > 0 {
		s := m.work[0]
		m.work = m.work[1:]
		m.run(s)
		if m.wrong > 0 && m.States > m.wrong+30000 {
			// what is found suffices
			return nil
		}
		if m.States > m.Limit || m.States%1000 == 0 && time.Since(start) > 9*time.Minute {
			return fmt.Errorf("more than %d abstract states", m.States-1)
		}
	}
	m.cycles()
	return nil
}

// run takes a state to its next block entries.
func (m *Machine) run(s *State) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case drop:
			case undecided:
				// what is found on other ways still holds
				m.Unsure(m.pos, x.why)
			default:
				panic(x)
			}
		}
	}()
	for {
		f := s.top()
		if f.i == 0 || f.i < 0 {
			f.i = 0
			// the entry of a block
			m.phis(s)
			for f.i < len(f.block.Instrs) {
				if _, ok := f.block.Instrs[f.i].(*ssa.Phi); !ok {
					break
				}
				f.i++
			}
			m.trim(s)
			k := m.key(s)
			if t := m.seen[k]; t != nil {
				if s.node >= 0 {
					m.succ[s.node] = append(m.succ[s.node], edge{t.node, len(s.label) > 0 || s.popped})
				}
				m.Edges++
				return
			}
			if m.Debug != nil {
				m.Debug(fmt.Sprintf("%s.%d", f.fn.Name(), f.block.Index), k)
			}
			snap := &State{from: s.from, label: s.label, node: len(m.nodes), Taint: s.Taint}
			m.seen[k] = snap
			m.nodes = append(m.nodes, snap)
			m.succ = append(m.succ, nil)
			if s.node >= 0 {
				m.succ[s.node] = append(m.succ[s.node], edge{snap.node, len(s.label) > 0 || s.popped})
			}
			m.States++
			s.node = snap.node
			s.from = snap
			s.label = nil
			s.popped = false
			snap.frames = []*Frame{{fn: f.fn, block: f.block}}
			// wide inputs first: breadth-first over blocks
			if !m.step(s) {
				return
			}
			continue
		}
		if !m.step(s) {
			return
		}
	}
}

// step executes one instruction; false: the state is finished or queued.
func (m *Machine) step(s *State) bool {
	f := s.top()
	if f.i >= len(f.block.Instrs) {
		panic(undecided{"a block without end"})
	}
	ins := f.block.Instrs[f.i]
	if p := ins.Pos(); p.IsValid() {
		m.pos = p
	}
	f.i++
	switch x := ins.(type) {
	case *ssa.Jump:
		m.enter(s, f.block.Succs[0])
		m.work = append(m.work, s)
		return false
	case *ssa.If:
		for _, o := range m.truth(s, m.val(s, x.Cond)) {
			to := f.block.Succs[1]
			if o.v {
				to = f.block.Succs[0]
			}
			m.enter(o.s, to)
			m.work = append(m.work, o.s)
		}
		return false
	case *ssa.Return:
		var v Val
		switch len(x.Results) {
		case 0:
		case 1:
			v = m.val(s, x.Results[0])
		default:
			v = Val{K: Tuple}
			for _, r := range x.Results {
				v.L = append(v.L, m.val(s, r))
			}
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			m.Return(m, s, v, x.Pos())
			return false
		}
		if n := s.top().many; n > 0 {
			// it is the last of them, or there are more
			t := s.clone()
			s.top().many = 0
			for _, x := range s.frames[len(s.frames)-n:] {
				g := *x
				g.env = make(map[ssa.Value]Val, len(x.env))
				for k, v := range x.env {
					g.env[k] = v
				}
				t.frames = append(t.frames, &g)
			}
			t.popped = true
			if f.call != nil {
				m.set(t, f.call, v)
			}
			m.work = append(m.work, t)
		}
		if f.call != nil {
			m.set(s, f.call, v)
		}
		return true
	case *ssa.Panic:
		m.found(s, "panic", x.Pos(), "the code panics")
		return false
	case *ssa.Store:
		v := m.val(s, x.Val)
		if k := cellKey(x.Addr); v.K == Int && m.counted[k] {
			v = Val{}
		}
		m.store(s, m.val(s, x.Addr), v, m.class[cellKey(x.Addr)])
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.RunDefers:
		return true
	case ssa.Value:
		return m.eval(s, x)
	}
	panic(undecided{fmt.Sprintf("unknown instruction %T", ins)})
}

func (m *Machine) enter(s *State, b *ssa.BasicBlock) {
	f := s.top()
	f.prev, f.block, f.i = f.block, b, 0
}

func (m *Machine) phis(s *State) {
	f := s.top()
	if f.prev == nil {
		return
	}
	k := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			k = i
		}
	}
	var vs []Val
	for _, ins := range f.block.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, m.val(s, ph.Edges[k]))
	}
	for i, v := range vs {
		m.set(s, f.block.Instrs[i].(*ssa.Phi), v)
	}
}

func (m *Machine) push(s *State, fn *ssa.Function, args, binds []Val, call ssa.Value) {
	if len(s.frames) > 40 {
		panic(undecided{"calls nest too deeply"})
	}
	if fn.Recover != nil {
		panic(undecided{fn.Name() + " defers"})
	}
	m.Funcs[fn] = true
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, call: call}
	s.frames = append(s.frames, f)
	for i, p := range fn.Params {
		m.set(s, p, args[i])
	}
	for i, p := range fn.FreeVars {
		m.set(s, p, binds[i])
	}
	if m.Fold {
		for _, g := range s.frames[:len(s.frames)-1] {
			if g.fn == fn {
				m.fold(s)
				break
			}
		}
	}
}

// fold makes one of frames that wait at the same calls, one after the other;
// what differs is forgotten.
func (m *Machine) fold(s *State) {
	m.live(s)
	at := func(i, j int) bool {
		a, b := s.frames[i], s.frames[j]
		return a.fn == b.fn && a.block == b.block && a.i == b.i
	}
	last := len(s.frames) - 1
	for n := 1; n <= 3; n++ {
		for i := 1; i+2*n <= last; i++ {
			same := s.frames[i].call == s.frames[i+n].call
			for j := 0; j < n && same; j++ {
				a, b := s.frames[i+j].many, s.frames[i+n+j].many
				same = at(i+j, i+n+j) && (a == b || j == n-1 && (a == 0 || a == n) && (b == 0 || b == n))
			}
			if !same {
				continue
			}
			for j := 0; j < n; j++ {
				a, b := s.frames[i+j], s.frames[i+n+j]
				for k, v := range a.env {
					var x, y strings.Builder
					id := func(n int64) int64 { return n }
					v.key(&x, id)
					w := b.env[k]
					w.key(&y, id)
					if x.String() != y.String() {
						a.env[k] = Val{}
					}
				}
			}
			s.frames[i+n-1].many = n
			s.frames = append(s.frames[:i+n:i+n], s.frames[i+2*n:]...)
			m.fold(s)
			return
		}
	}
}

// set gives an SSA value its abstract value in the top frame.
func (m *Machine) set(s *State, v ssa.Value, x Val) { s.top().env[v] = m.typed(s, x, m.class[v]) }

// free tells that depths do not matter any more.
func (m *Machine) free(s *State) bool {
	l, ok := s.G.(interface{ Lost() bool })
	return ok && l.Lost()
}

// typed turns constants into positions and levels where they are used as such.
func (m *Machine) typed(s *State, x Val, class int) Val {
	if x.K == Int && class == 1 && s.HAbs < 4 {
		if off := int(x.N) - s.HAbs; off >= -Window && off <= 1 {
			return Val{K: Pos, Off: off}
		}
	}
	if x.K == Int && class == 2 {
		d, exact := s.G.Depth()
		n := x.N - int64(d)
		if m.free(s) {
			if exact && n >= -1 && n <= 1 {
				return Val{K: Level, N: n}
			}
			return Val{K: Level, N: lost}
		}
		if exact && n >= -3 && n <= 3 {
			return Val{K: Level, N: n}
		}
	}
	return x
}

func (m *Machine) val(s *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return Val{K: Ptr, N: -1, S: x.Pkg.Pkg.Path() + "." + x.Name(), T: x.Type()}
	case *ssa.Function:
		return Val{K: Func, Fn: x}
	}
	y, ok := s.top().env[v]
	if !ok {
		panic(undecided{"no value of " + v.Name() + " in " + v.Parent().Name()})
	}
	return y
}

type outcome struct {
	s *State
	v bool
}

// truth are the ways a condition can come out.
func (m *Machine) truth(s *State, v Val) []outcome {
	if v.K == Bool {
		return []outcome{{s, v.N != 0}}
	}
	a, b := s.clone(), s
	if v.K == Free && v.S == "" {
		type tested interface{ bits(role int) *uint8 }
		here := fmt.Sprintf("%p", s.top().block)
		if g, ok := s.G.(*AnyRun); ok && g.last == here {
			// as before, if it is of the same list
			b.Taint = true
			return []outcome{{a, g.was}, {b, !g.was}}
		}
		if g, ok := s.G.(tested); ok && *g.bits(v.Off)&uint8(v.N) == 0 {
			x, y := a.G.(tested).bits(v.Off), g.bits(v.Off)
			*x |= uint8(v.N)
			*y |= uint8(v.N)
			if v.N == testLen {
				// a short text may not have room for what other tests ask for
				if v.EA {
					x = y
				}
				*x = 0xff
			}
			if g, ok := s.G.(*AnyRun); ok && g.last == "" {
				g.last, g.was = here, false
				h := a.G.(*AnyRun)
				h.last, h.was = here, true
			}
			return []outcome{{a, true}, {b, false}}
		}
	}
	a.Taint, b.Taint = true, true
	return []outcome{{a, true}, {b, false}}
}

// found reports what is wrong, unless it was reached by a guess.
func (m *Machine) found(s *State, key string, pos token.Pos, msg string) {
	if m.Want != nil && !m.Want(key) {
		return
	}
	if s.Taint {
		m.Unsure(pos, "perhaps "+msg)
		return
	}
	if m.wrong == 0 {
		m.wrong = m.States + 1
	}
	m.Viol(key, pos, s, msg)
}

func (m *Machine) unsure(key string, pos token.Pos, msg string) {
	if m.Want == nil || m.Want(key) {
		m.Unsure(pos, msg)
	}
}

// Trace shows the input that leads to a state.
func (m *Machine) Trace(s *State) string {
	var parts []string
	for t := s; t != nil; t = t.from {
		p := ""
		for _, c := range t.label {
			p += m.Input.Label(c)
		}
		parts = append(parts, p)
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, "")
}

// cycles finds loops that go on without looking at anything new.
func (m *Machine) cycles() {
	n := len(m.nodes)
	idx := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var st []int
	c := 0
	type fr struct{ v, i int }
	for r := 0; r < n; r++ {
		if idx[r] != 0 {
			continue
		}
		stack := []fr{{r, 0}}
		for len(stack) > 0 {
			t := &stack[len(stack)-1]
			v := t.v
			if t.i == 0 {
				c++
				idx[v], low[v] = c, c
				st = append(st, v)
				on[v] = true
			}
			pushed := false
			for t.i < len(m.succ[v]) {
				e := m.succ[v][t.i]
				t.i++
				if e.look {
					continue
				}
				if idx[e.to] == 0 {
					stack = append(stack, fr{e.to, 0})
					pushed = true
					break
				}
				if on[e.to] && idx[e.to] < low[v] {
					low[v] = idx[e.to]
				}
			}
			if pushed {
				continue
			}
			if t.i == 0 {
				t.i = -1
			}
			if low[v] == idx[v] {
				var comp []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					comp = append(comp, w)
					if w == v {
						break
					}
				}
				self := false
				for _, e := range m.succ[v] {
					self = self || e.to == v && !e.look
				}
				if len(comp) > 1 || self {
					sort.Ints(comp)
					s := m.nodes[comp[0]]
					f := s.frames[0]
					m.pos = blockPos(f.block)
					m.found(s, "endless:"+f.fn.Name(), m.pos, "a loop goes on for ever without reading on")
				}
			}
			stack = stack[:len(stack)-1]
			if len(stack) > 0 {
				u := stack[len(stack)-1].v
				if low[v] < low[u] {
					low[u] = low[v]
				}
			}
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}
