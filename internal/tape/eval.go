package tape

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const other = "\x00" // content which differs from all words

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolVal(constant.BoolVal(c.Value))
	case constant.String:
		return Val{K: Text, S: constant.StringVal(c.Value)}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return Val{K: Int, N: n}
		}
	}
	return Val{}
}

func boolVal(b bool) Val {
	if b {
		return Val{K: Bool, N: 1}
	}
	return Val{K: Bool}
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{K: Bool}
		case u.Info()&types.IsInteger != 0:
			return Val{K: Int}
		case u.Info()&types.IsString != 0:
			return Val{K: Text}
		}
		return Val{}
	case *types.Struct:
		v := Val{K: Struct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.L = append(v.L, zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return Val{}
	}
	return Val{K: Nil}
}

// load is what an address holds.
func (m *Machine) load(s *State, a Val, t types.Type) (Val, bool) {
	switch a.K {
	case Ptr:
		if a.N == entries {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return Val{K: List, S: "?"}, true
			}
		}
		if a.N < 0 {
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				return Val{K: Err, S: a.S}, true
			}
			return Val{}, true
		}
		o := s.objs[a.N]
		if o == nil {
			return Val{}, false
		}
		if v, ok := o.f[a.S]; ok {
			return v, true
		}
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			v := Val{K: Struct, T: t}
			for i := 0; i < st.NumFields(); i++ {
				x, ok := m.load(s, Val{K: Ptr, N: a.N, S: fmt.Sprintf("%s.%d", a.S, i)}, st.Field(i).Type())
				if !ok {
					return Val{}, false
				}
				v.L = append(v.L, x)
			}
			return v, true
		}
		for p := a.S; p != ""; {
			p = p[:strings.LastIndexByte(p, '.')]
			if _, ok := o.f[p]; ok {
				return Val{}, true
			}
		}
		return zero(t), true
	case Deep:
		if strings.HasPrefix(a.S, "=") {
			v := a.L[0]
			for _, f := range strings.Split(a.S[1:], ".") {
				if f == "" {
					continue
				}
				i, err := strconv.Atoi(f)
				if err != nil || v.K != Struct || i >= len(v.L) {
					return Val{}, true
				}
				v = v.L[i]
			}
			return v, true
		}
		return m.Input.Field(a, a.S)
	}
	return Val{}, false
}

func (m *Machine) store(s *State, a, v Val, class int) {
	switch a.K {
	case Ptr:
		if a.N == entries {
			s.G.(*AnyRun).last = ""
			return
		}
		if a.N < 0 {
			panic(undecided{"a global is changed"})
		}
		o := s.objs[a.N]
		if o == nil {
			panic(undecided{"store to an unknown object"})
		}
		if m.Stored != nil {
			if f := m.Stored(m, s, a, v); f != nil {
				defer f()
			}
		}
		if v.K == Struct {
			st, ok := v.T.Underlying().(*types.Struct)
			if !ok {
				panic(undecided{"store of an unknown struct"})
			}
			for i := range v.L {
				k, _ := m.class[fieldKey(v.T, i)]
				_ = st
				m.store(s, Val{K: Ptr, N: a.N, S: fmt.Sprintf("%s.%d", a.S, i)}, v.L[i], k)
			}
			return
		}
		for p := range o.f {
			if strings.HasPrefix(p, a.S+".") {
				delete(o.f, p)
			}
		}
		o.f[a.S] = m.typed(s, v, class)
	case Nil:
		m.found(s, "nil", m.pos, "a nil pointer is followed")
		panic(undecided{"store through nil"})
	case Deep:
		panic(undecided{"an element of the tape is changed"})
	case Cell:
		panic(undecided{"the input is changed"})
	default:
		panic(undecided{"store to an unknown address"})
	}
}

// split queues the states but the last, which goes on.
func (m *Machine) again(s *State) { s.top().i-- }

// lookAt makes the next element known and runs the instruction again.
func (m *Machine) lookAt(s *State) bool {
	m.again(s)
	switch s.Know {
	case 2:
		panic(undecided{"looks beyond the end"})
	case 0:
		t := s.clone()
		s.Know, t.Know = 1, 2
		m.work = append(m.work, t)
	}
	cs := s.G.Next()
	for i, c := range cs {
		t := s
		if i < len(cs)-1 {
			t = s.clone()
		}
		m.work = append(m.work, m.look(t, c)...)
	}
	return false
}

func (m *Machine) eval(s *State, v ssa.Value) bool {
	ret := func(x Val) bool { m.set(s, v, x); return true }
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if m.Entry != nil && m.Entry(t) {
			return ret(Val{K: Ptr, N: entries})
		}
		id := s.next
		s.next++
		o := &Obj{t, map[string]Val{}}
		s.objs[id] = o
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if _, basic := st.Field(i).Type().Underlying().(*types.Basic); basic {
					z := zero(st.Field(i).Type())
					if m.counted[fieldKey(t, i)] {
						z = Val{}
					}
					o.f[fmt.Sprintf(".%d", i)] = m.typed(s, z, m.class[fieldKey(t, i)])
				}
			}
		} else if c := m.class[cellOf{x}]; c != 0 {
			o.f[""] = m.typed(s, Val{K: Int}, c)
		}
		return ret(Val{K: Ptr, N: id, T: x.Type()})
	case *ssa.FieldAddr:
		p := m.val(s, x.X)
		switch p.K {
		case Ptr:
			if p.N == entries {
				return ret(p)
			}
			if p.N < 0 {
				panic(undecided{"a global struct"})
			}
			return ret(Val{K: Ptr, N: p.N, S: fmt.Sprintf("%s.%d", p.S, x.Field)})
		case Elem, Deep:
			p.K = Deep
			p.S = fmt.Sprintf("%s.%d", p.S, x.Field)
			return ret(p)
		case Nil:
			m.found(s, "nil:"+x.Parent().Name(), x.Pos(), "a nil pointer is followed")
			return false
		}
		panic(undecided{"field of something unknown"})
	case *ssa.Field:
		p := m.val(s, x.X)
		if p.K == Struct && x.Field < len(p.L) {
			return ret(p.L[x.Field])
		}
		return ret(Val{})
	case *ssa.IndexAddr:
		p := m.val(s, x.X)
		i := m.val(s, x.Index)
		if p.K == Ptr && i.K == Int {
			return ret(Val{K: Ptr, N: p.N, S: fmt.Sprintf("%s.%d", p.S, i.N)})
		}
		if p.K == Lit && i.K == Int && i.N >= 0 && int(i.N) < len(p.L) {
			return ret(Val{K: Deep, S: "=", L: []Val{p.L[i.N]}})
		}
		if s.any() && p.K == List && p.A && p.Bad == "" && (i.K == Int && i.N == 0 || m.lastOf(x.X, x.Index, i).K == Text) {
			return ret(Val{K: Deep, S: "=", L: []Val{{K: Ptr, N: entries}}})
		}
		switch p.K {
		case Tape:
			i = m.typed(s, i, 1)
			if i.K == Len && s.Know == 2 && i.N >= -Window && i.N <= 0 {
				i = Val{K: Pos, Off: int(i.N)}
			}
			if i.K != Pos {
				m.unsure("index:", x.Pos(), "an index is not known")
				return ret(Val{K: Cell, Off: old})
			}
			if i.Off > 0 {
				if s.Know == 2 {
					m.found(s, "index:"+x.Parent().Name(), x.Pos(), "an index lies behind the end")
					return false
				}
				return m.lookAt(s)
			}
			if i.Off == 0 && s.Know != 1 {
				m.found(s, "index:"+x.Parent().Name(), x.Pos(), "an index lies behind the end")
				if s.Know == 2 {
					return false
				}
				s.Know = 1
			}
			if i.Off != old && s.HAbs < 4 && s.HAbs+i.Off < 0 {
				m.found(s, "index:"+x.Parent().Name(), x.Pos(), "an index is negative")
				return false
			}
			return ret(Val{K: Cell, Off: i.Off, A: i.A})
		case Buf, Str, Part, Lit, Nil, Text:
			r := m.Input.(interface {
				Index(m *Machine, s *State, v Val, i Val) (Val, string)
			})
			y, bad := r.Index(m, s, p, m.lastOf(x.X, x.Index, i))
			if bad == "?" {
				m.unsure("index:", x.Pos(), "an index is not known to be within bounds")
			} else if bad != "" {
				m.found(s, "index:"+x.Parent().Name(), x.Pos(), bad)
				return false
			}
			return ret(Val{K: Deep, S: "=", L: []Val{y}})
		}
		m.unsure("index:", x.Pos(), "an index is not known to be within bounds")
		return ret(Val{K: Deep, S: "=", L: []Val{{}}})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := m.val(s, x.X)
			if a.K == Cell {
				if a.Off == 0 {
					return m.lookAt(s)
				}
				c := s.at(a.Off)
				if c < 0 {
					return ret(Val{})
				}
				if in, ok := m.Input.(interface {
					At(s *State, off, c int) (Val, bool)
				}); ok {
					y, _ := in.At(s, a.Off, c)
					return ret(y)
				}
				return ret(m.Input.Elem(a.Off, c))
			}
			if a.K == Deep && a.S == "=" {
				return ret(a.L[0])
			}
			if a.K == Nil {
				m.found(s, "nil:"+x.Parent().Name(), x.Pos(), "a nil pointer is followed")
				return false
			}
			y, ok := m.load(s, a, x.Type())
			if !ok {
				return ret(Val{})
			}
			return ret(y)
		case token.NOT:
			y := m.val(s, x.X)
			if y.K == Bool {
				return ret(boolVal(y.N == 0))
			}
			if y.K == Free && y.S == "" {
				y.EA = !y.EA
				return ret(y)
			}
			return ret(Val{})
		case token.SUB:
			y := m.val(s, x.X)
			if y.K == Int {
				return ret(Val{K: Int, N: -y.N})
			}
		}
		return ret(Val{})
	case *ssa.BinOp:
		return m.binop(s, x)
	case *ssa.Phi:
		return true
	case *ssa.Extract:
		t := m.val(s, x.Tuple)
		if t.K == Tuple && x.Index < len(t.L) {
			return ret(t.L[x.Index])
		}
		return ret(Val{})
	case *ssa.MakeInterface:
		y := m.val(s, x.X)
		if types.Implements(x.X.Type(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) && y.K != Err {
			return ret(Val{K: Err, S: x.X.Type().String()})
		}
		return ret(y)
	case *ssa.ChangeInterface:
		return ret(m.val(s, x.X))
	case *ssa.ChangeType:
		return ret(m.val(s, x.X))
	case *ssa.Convert:
		return ret(m.convert(s, x))
	case *ssa.MakeClosure:
		y := Val{K: Func, Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			y.L = append(y.L, m.val(s, b))
		}
		return ret(y)
	case *ssa.MakeSlice:
		n := m.val(s, x.Len)
		return ret(m.newSlice(s, x.Type(), n.K == Int && n.N == 0))
	case *ssa.Slice:
		return m.slice(s, x)
	case *ssa.Call:
		return m.call(s, x)
	case *ssa.MakeMap, *ssa.Lookup, *ssa.TypeAssert, *ssa.Index, *ssa.MakeChan:
		var of, at ssa.Value
		switch x := x.(type) {
		case *ssa.Lookup:
			of, at = x.X, x.Index
		case *ssa.Index:
			of, at = x.X, x.Index
		}
		if of != nil && isString(of.Type()) {
			// a byte of a string
			p, i := m.val(s, of), m.val(s, at)
			i = m.lastOf(of, at, i)
			if p.K == Part || p.K == Str || p.K == Text || p.K == Buf {
				y, bad := m.Input.(interface {
					Index(m *Machine, s *State, v Val, i Val) (Val, string)
				}).Index(m, s, p, i)
				if bad == "?" {
					m.unsure("index:", x.Pos(), "an index is not known to be within bounds")
				} else if bad != "" {
					m.found(s, "index:"+x.Parent().Name(), x.Pos(), bad)
					return false
				}
				if y.K == Part && y.S == "rune" {
					y.S = "byte"
				}
				return ret(y)
			}
		}
		return ret(Val{})
	}
	panic(undecided{fmt.Sprintf("unknown instruction %T", v)})
}

// lastOf marks an index of the last element.
func (m *Machine) lastOf(of, at ssa.Value, i Val) Val {
	switch m.Input.(type) {
	case *Units, *Defs:
	default:
		return i
	}
	b, ok := at.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return i
	}
	n, ok := b.Y.(*ssa.Const)
	l, ok2 := b.X.(*ssa.Call)
	if !ok || !ok2 || n.Int64() != 1 {
		return i
	}
	if f, ok := l.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" && sameValue(l.Call.Args[0], of) {
		return Val{K: Text, S: "last"}
	}
	return i
}

func (m *Machine) newSlice(s *State, t types.Type, isEmpty bool) Val {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return Val{}
	}
	if m.Out != nil && m.Out(sl.Elem()) && isEmpty {
		return Val{K: List, A: !s.Some}
	}
	if m.Input.IsTape(t) && isEmpty {
		return emptyBuf()
	}
	if m.Input.IsTape(t) {
		return Val{K: Buf, Bad: "?"}
	}
	if isEmpty {
		return Val{K: Lit}
	}
	return Val{}
}

func (m *Machine) binop(s *State, x *ssa.BinOp) bool {
	a, b := m.val(s, x.X), m.val(s, x.Y)
	ret := func(v Val) bool { m.set(s, x, v); return true }
	switch x.Op {
	case token.ADD, token.SUB:
		if a.K == Int && b.K == Int {
			if loaded(x.X) || loaded(x.Y) {
				return ret(Val{})
			}
			n := a.N + b.N
			if x.Op == token.SUB {
				n = a.N - b.N
			}
			if n < -8 || n > 16 {
				return ret(Val{})
			}
			return ret(Val{K: Int, N: n})
		}
		if b.K == Pos && a.K == Int && x.Op == token.ADD {
			a, b = b, a
		}
		if a.K == Pos && b.K == Int {
			if a.Off == old {
				return ret(Val{})
			}
			n := int(b.N)
			if x.Op == token.SUB {
				n = -n
			}
			if a.Off+n < -Window || a.Off+n > 2 {
				return ret(Val{})
			}
			return ret(Val{K: Pos, Off: a.Off + n})
		}
		if b.K == Level && a.K == Int && x.Op == token.ADD {
			a, b = b, a
		}
		if a.K == Level && b.K == Int {
			n := b.N
			if x.Op == token.SUB {
				n = -n
			}
			if a.N == lost {
				return ret(a)
			}
			if m.free(s) && (a.N+n < -1 || a.N+n > 1) {
				return ret(Val{K: Level, N: lost})
			}
			if a.N+n < -3 || a.N+n > 3 {
				return ret(Val{})
			}
			return ret(Val{K: Level, N: a.N + n})
		}
		if a.K == Len && b.K == Int && b.N >= -3 && b.N <= 3 {
			n := b.N
			if x.Op == token.SUB {
				n = -n
			}
			if a.N+n < -3 || a.N+n > 0 {
				return ret(Val{})
			}
			return ret(Val{K: Len, N: a.N + n})
		}
		if a.K == Pos && b.K == Pos && a.Off != old && b.Off != old && x.Op == token.SUB {
			return ret(Val{K: Int, N: int64(a.Off - b.Off)})
		}
		if x.Op == token.ADD && isString(x.Type()) {
			return ret(m.concat(s, a, b))
		}
		return ret(Val{})
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return m.compare(s, x, x.Op, a, b)
	}
	return ret(Val{})
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func loaded(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL
}

var flip = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

func cmp(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

// above compares something that is at least lo with n.
func above(op token.Token, lo, n int64) (bool, bool) {
	switch {
	case n < lo:
		return op == token.NEQ || op == token.GTR || op == token.GEQ, true
	case n == lo:
		if op == token.GEQ {
			return true, true
		}
		if op == token.LSS {
			return false, true
		}
	}
	return false, false
}

func (m *Machine) compare(s *State, x ssa.Value, op token.Token, a, b Val) bool {
	ret := func(v Val) bool { m.set(s, x, v); return true }
	yes := func(v, ok bool) bool {
		if !ok {
			return ret(Val{})
		}
		return ret(boolVal(v))
	}
	rank := func(k Kind) int {
		switch k {
		case Pos:
			return 1
		case Elem, Part, Str, Buf, Level, Ge1, Err, Ptr, List, Func, Lit, MayErr:
			return 2
		case Len:
			return 3
		}
		return 4
	}
	if rank(b.K) < rank(a.K) {
		a, b, op = b, a, flip[op]
	}
	switch {
	case a.K == Int && b.K == Int, a.K == Bool && b.K == Bool:
		return yes(cmp(op, a.N, b.N), true)
	case a.K == Text && b.K == Text:
		return yes(cmp(op, int64(strings.Compare(a.S, b.S)), 0), true)
	case a.K == Pos && b.K == Len && (b.N == 0 || a.Off != old || b.N > -Window):
		if a.Off != old {
			a.Off -= int(b.N)
		}
		if a.Off < 0 {
			return yes(cmp(op, 0, 1), true)
		}
		if s.Know == 2 {
			if a.Off == 0 {
				return yes(cmp(op, 0, 0), true)
			}
			return yes(cmp(op, 1, 0), true)
		}
		if a.Off == 0 && s.Know == 1 {
			return yes(cmp(op, 0, 1), true)
		}
		if a.Off == 0 {
			t := s.clone()
			s.Know, t.Know = 1, 2
			m.again(s)
			m.again(t)
			m.work = append(m.work, s, t)
			return false
		}
		return m.lookAt(s)
	case a.K == Pos && b.K == Pos:
		switch {
		case a.Off != old && b.Off != old:
			return yes(cmp(op, int64(a.Off), int64(b.Off)), true)
		case a.Off != old:
			return yes(cmp(op, 1, 0), true)
		case b.Off != old:
			return yes(cmp(op, 0, 1), true)
		case a.A && b.A:
			return yes(cmp(op, 0, 0), true)
		}
		return ret(Val{})
	case a.K == Pos && b.K == Int:
		if a.Off != old && s.HAbs < 4 {
			return yes(cmp(op, int64(s.HAbs+a.Off), b.N), true)
		}
		lo := int64(0)
		if a.Off != old {
			lo = int64(s.HAbs + a.Off)
		}
		return yes(above(op, lo, b.N))
	case a.K == Level && a.N == lost, b.K == Level && b.N == lost:
		t := s.clone()
		m.set(s, x, boolVal(true))
		m.set(t, x, boolVal(false))
		m.work = append(m.work, s, t)
		return false
	case a.K == Level && b.K == Int:
		d, exact := s.G.Depth()
		if exact {
			return yes(cmp(op, int64(d)+a.N, b.N), true)
		}
		return yes(above(op, int64(d)+a.N, b.N))
	case a.K == Level && b.K == Level:
		return yes(cmp(op, a.N, b.N), true)
	case a.K == Ge1 && b.K == Int:
		lo := a.N
		if lo < 1 {
			lo = 1
		}
		v, ok := above(op, lo, b.N)
		if !ok && a.EA {
			return ret(Val{K: Free, N: testLen, Off: a.Off, EA: op == token.GTR || op == token.GEQ || op == token.NEQ})
		}
		return yes(v, ok)
	case a.K == Free && a.S == "len" && b.K == Int:
		if v, ok := above(op, 0, b.N); ok {
			return yes(v, ok)
		}
		return ret(Val{K: Free, N: testLen, EA: op == token.GTR || op == token.GEQ || op == token.NEQ})
	case a.K == List && a.S == "?" && b.K == Nil && s.any() && (op == token.EQL || op == token.NEQ):
		return ret(Val{K: Free, N: testLen, EA: op == token.NEQ})
	case a.K == Free && a.S == "byte" && b.K == Int && (op == token.EQL || op == token.NEQ):
		a.S = ""
		return ret(a)
	case a.K == Len && b.K == Int && s.Know == 2 && s.HAbs < 4:
		return yes(cmp(op, int64(s.HAbs)+a.N, b.N), true)
	case a.K == Len && b.K == Int:
		return yes(above(op, int64(s.HAbs)+a.N, b.N))
	case (a.K == Elem || a.K == Part) && (b.K == Int || b.K == Text || b.K == Bool):
		return yes(m.Input.Compare(op, a, b))
	case (a.K == Str || a.K == Buf) && b.K == Text && (op == token.EQL || op == token.NEQ):
		if a.K == Str && a.Known {
			word := a.S == b.S || m.isWord(b.S)
			if word {
				return yes((a.S == b.S) == (op == token.EQL), true)
			}
		}
		return ret(Val{})
	case b.K == Nil && (op == token.EQL || op == token.NEQ):
		switch a.K {
		case Nil:
			return yes(op == token.EQL, true)
		case Err, Ptr, Func, Elem, Lit, List:
			return yes(op == token.NEQ, true)
		case MayErr:
			t := s.clone()
			t.NoIn = true
			m.set(s, x, boolVal(op == token.EQL))
			m.set(t, x, boolVal(op == token.NEQ))
			m.work = append(m.work, s, t)
			return false
		}
	case a.K == Err && b.K == Err && (op == token.EQL || op == token.NEQ):
		if a.S == b.S && strings.HasPrefix(a.S, "new") {
			return ret(Val{})
		}
		return yes((a.S == b.S) == (op == token.EQL), true)
	case a.K == MayErr || b.K == MayErr:
		return ret(Val{})
	case a.K == Nil && b.K == Err, a.K == Err && b.K == Nil:
		return yes(op == token.NEQ, true)
	}
	return ret(Val{})
}

func (m *Machine) isWord(w string) bool {
	for _, x := range m.Words {
		if x == w {
			return true
		}
	}
	return false
}

// grow is the content after one more element.
func (m *Machine) grow(content string, add string) string {
	if content == other || add == other {
		return other
	}
	c := content + add
	for _, w := range m.Words {
		if strings.HasPrefix(w, c) {
			return c
		}
	}
	return other
}

func samePos(s *State, a int, aa bool, b int, ba bool) (bool, bool) {
	if a != old && b != old {
		return a == b, true
	}
	if a == old && b == old {
		if aa && ba {
			return true, true
		}
		return aa == ba, aa != ba
	}
	return false, true
}

// extend appends one element to a buffer.
func (m *Machine) extend(s *State, b Val, e Val) Val {
	k := b.K
	if k != Str {
		k = Buf
	}
	if b.Bad != "" {
		b.K = k
		return b
	}
	w := other
	off := e.Off
	switch e.K {
	case Elem:
		if x := m.Input.Label(int(e.N)); m.single(int(e.N)) {
			w = x
		}
	case Int:
		// a constant instead of the element that was read
		at := b.E
		if b.empty() {
			at = s.AOff
		}
		if at == old {
			return Val{K: k, Bad: "?"}
		}
		c := s.at(at)
		if c < 0 || at >= 0 {
			return Val{K: k, Bad: "?"}
		}
		eq, ok := m.Input.Compare(token.EQL, m.Input.Elem(at, c), e)
		if !ok {
			return Val{K: k, Bad: "?"}
		}
		if !eq {
			return Val{K: k, Bad: "holds something that was not read"}
		}
		off = at
		w = string(rune(e.N))
	default:
		return Val{K: k, Bad: "?"}
	}
	if off == old {
		return Val{K: k, Bad: "?"}
	}
	if b.empty() {
		return Val{K: k, Off: off, E: off + 1, Known: true, S: m.grow("", w), Ln: 1}
	}
	same, ok := samePos(s, b.E, b.EA, off, false)
	if !ok {
		return Val{K: k, Bad: "?"}
	}
	if !same {
		if b.E != old && off < b.E {
			return Val{K: k, Bad: "holds an element twice"}
		}
		return Val{K: k, Bad: "leaves out an element"}
	}
	b.K, b.E, b.EA = k, off+1, false
	b.Ln = m.sum(b.Ln, 1)
	if b.Known {
		b.S = m.grow(b.S, w)
	}
	return b
}

// sum adds lengths.
func (m *Machine) sum(a, b int) int {
	switch {
	case a == 0 || b == 0:
		return 0
	case a+b > m.Cap:
		return m.Cap + 1
	}
	return a + b
}

func (m *Machine) single(c int) bool {
	f, ok := m.Input.(interface{ Single(c int) bool })
	return ok && f.Single(c)
}

// concat joins two buffers or strings.
func (m *Machine) concat(s *State, a, b Val) Val {
	if a.K == Text && b.K == Text {
		return Val{K: Text, S: a.S + b.S}
	}
	if a.K == Text && a.S == "" {
		return b
	}
	if b.K == Text && b.S == "" {
		return a
	}
	if _, ok := m.Input.(*Defs); ok && (a.K == Part || b.K == Part) && (a.K == Part || a.K == Text) && (b.K == Part || b.K == Text) {
		return Val{K: Str, Bad: "is joined with something else"}
	}
	if (a.K != Str && a.K != Buf) || (b.K != Str && b.K != Buf) {
		return Val{}
	}
	if a.empty() {
		return b
	}
	if b.empty() {
		return a
	}
	if a.Bad != "" {
		return a
	}
	if b.Bad != "" {
		return b
	}
	same, ok := samePos(s, a.E, a.EA, b.Off, b.A)
	switch {
	case !ok:
		return Val{K: a.K, Bad: "?"}
	case !same:
		return Val{K: a.K, Bad: "does not hold the elements in their order"}
	}
	r := a
	r.E, r.EA = b.E, b.EA
	r.Ln = m.sum(a.Ln, b.Ln)
	r.Known = a.Known && b.Known
	if r.Known {
		r.S = m.grow(a.S, b.S)
		if b.S == other && a.S != other {
			// the second may go on with a word the first starts
			r.Known, r.S = false, ""
		}
	} else {
		r.S = ""
	}
	return r
}

func (m *Machine) convert(s *State, x *ssa.Convert) Val {
	v := m.val(s, x.X)
	to := x.Type()
	switch v.K {
	case Raw:
		if m.Input.IsTape(to) {
			s.Read = true
			return Val{K: Tape}
		}
		return v
	case Buf:
		if isString(to) {
			if v.empty() {
				return Val{K: Text}
			}
			v.K = Str
			return v
		}
	case Lit:
		if isString(to) {
			b := emptyBuf()
			for _, e := range v.L {
				b = m.extend(s, b, e)
			}
			if b.empty() {
				return Val{K: Text}
			}
			b.K = Str
			return b
		}
	case Nil:
		if isString(to) {
			return Val{K: Text}
		}
	case Str:
		if m.Input.IsTape(to) {
			v.K = Buf
			return v
		}
	case Text:
		if m.Input.IsTape(to) {
			b := Val{K: Lit}
			for _, r := range v.S {
				b.L = append(b.L, Val{K: Int, N: int64(r)})
			}
			if len(b.L) == 0 {
				return emptyBuf()
			}
			return b
		}
	case Part:
		if isString(to) {
			return m.text(v)
		}
		return v
	case Elem:
		if isString(to) {
			b := m.extend(s, emptyBuf(), v)
			b.K = Str
			return b
		}
		return v
	case Int, Pos, Level:
		return v
	}
	return Val{}
}

// text is a part of an element as a string.
func (m *Machine) text(v Val) Val {
	if t, ok := m.Input.(interface{ Text(v Val) (Val, bool) }); ok {
		if x, ok := t.Text(v); ok {
			return x
		}
		return Val{}
	}
	return v
}

// sameValue tells whether two SSA values are one, or loads of one cell with
// nothing stored in between.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	p, ok := a.(*ssa.UnOp)
	q, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || p.Op != token.MUL || q.Op != token.MUL || p.X != q.X || p.Block() != q.Block() {
		return false
	}
	in := false
	for _, i := range p.Block().Instrs {
		if i == p || i == q {
			if in {
				return true
			}
			in = true
			continue
		}
		if !in {
			continue
		}
		switch y := i.(type) {
		case *ssa.Store:
			return false
		case *ssa.Call:
			if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		}
	}
	return false
}

func (m *Machine) valOr(s *State, v ssa.Value) Val {
	if v == nil {
		return Val{}
	}
	return m.val(s, v)
}

func (m *Machine) slice(s *State, x *ssa.Slice) bool {
	ret := func(v Val) bool { m.set(s, x, v); return true }
	v := m.val(s, x.X)
	switch v.K {
	case Ptr:
		// an array of which all elements are taken
		arr, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || x.Low != nil || x.High != nil {
			// make([]T, 0, n)
			if h, ok := x.High.(*ssa.Const); ok && x.Low == nil && h.Int64() == 0 {
				return ret(m.newSlice(s, x.Type(), true))
			}
			return ret(Val{})
		}
		if arr.Len() == 0 {
			return ret(m.newSlice(s, x.Type(), true))
		}
		l := Val{K: Lit}
		for i := int64(0); i < arr.Len(); i++ {
			y, ok := m.load(s, Val{K: Ptr, N: v.N, S: fmt.Sprintf("%s.%d", v.S, i)}, arr.Elem())
			if !ok {
				y = Val{}
			}
			l.L = append(l.L, y)
		}
		if m.ListOf != nil {
			if y, ok := m.ListOf(m, s, arr.Elem(), l.L, x.Pos()); ok {
				return ret(y)
			}
		}
		return ret(l)
	case Tape:
		lo, hi := Val{K: Int}, Val{K: Len}
		if x.Low != nil {
			lo = m.val(s, x.Low)
		}
		if x.High != nil {
			hi = m.val(s, x.High)
		}
		lo, hi = m.typed(s, lo, 1), m.typed(s, hi, 1)
		if hi.K == Len && s.Know == 2 {
			hi = Val{K: Pos}
		}
		if lo.K == Int && lo.N == 0 && !s.Some && s.AOff == old {
			lo = Val{K: Pos, Off: old, A: true}
		}
		if lo.K != Pos || hi.K != Pos {
			return ret(Val{K: Buf, Bad: "?"})
		}
		if hi.Off > 0 {
			if s.Know == 2 {
				m.found(s, "index:"+x.Parent().Name(), x.Pos(), "a slice ends behind the end")
				return false
			}
			return m.lookAt(s)
		}
		same, ok := samePos(s, lo.Off, lo.A, hi.Off, hi.A)
		if ok && same {
			return ret(emptyBuf())
		}
		if lo.Off != old && hi.Off != old && lo.Off > hi.Off || lo.Off != old && hi.Off == old {
			m.found(s, "index:"+x.Parent().Name(), x.Pos(), "a slice ends before it starts")
			return false
		}
		b := Val{K: Buf, Off: lo.Off, A: lo.A, E: hi.Off, EA: hi.A}
		switch {
		case lo.Off != old && hi.Off != old:
			if b.Ln = hi.Off - lo.Off; b.Ln > m.Cap {
				b.Ln = m.Cap + 1
			}
		case hi.Off != old && hi.Off+Window+1 > m.Cap:
			b.Ln = m.Cap + 1
		}
		if w, ok := m.Input.(interface {
			Word(m *Machine, s *State, b Val) (string, bool)
		}); ok {
			b.S, b.Known = w.Word(m, s, b)
		}
		return ret(b)
	case List:
		if m.ListCut != nil {
			lo, hi := Val{K: Int}, Val{K: Nil}
			if x.Low != nil {
				lo = m.val(s, x.Low)
			}
			if x.High != nil {
				hi = m.val(s, x.High)
			}
			return ret(m.ListCut(m, s, v, lo, hi, x.Pos()))
		}
	case Buf, Str, Lit, Part:
		isZero := func(y ssa.Value) bool {
			c := m.valOr(s, y)
			return y == nil || c.K == Int && c.N == 0
		}
		whole := x.High == nil
		if c, ok := x.High.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && sameValue(c.Call.Args[0], x.X) {
				whole = true
			}
		}
		switch {
		case isZero(x.Low) && whole:
			return ret(v)
		case x.High != nil && isZero(x.High) && isZero(x.Low) && m.Input.IsTape(x.Type()):
			return ret(emptyBuf())
		}
		k := v.K
		if k == Part {
			k = Buf
		}
		if v.K == Part || v.K == Str && v.N > 0 && v.Ln == 1 && v.Bad == "" {
			// a part of an element
			if c := m.valOr(s, x.Low); x.Low != nil && c.K == Int && c.N > 0 {
				return ret(Val{K: k, Bad: "lacks the start of what it is made of"})
			}
			if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				if l, ok := b.X.(*ssa.Call); ok {
					n := m.valOr(s, b.Y)
					if f, ok := l.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" && sameValue(l.Call.Args[0], x.X) && n.K == Int && n.N > 0 {
						return ret(Val{K: k, Bad: "lacks the end of what it is made of"})
					}
				}
			}
		}
		return ret(Val{K: k, Bad: "?"})
	}
	return ret(Val{})
}

func (m *Machine) call(s *State, x *ssa.Call) bool {
	ret := func(v Val) bool { m.set(s, x, v); return true }
	if x.Call.IsInvoke() {
		if x.Call.Method.Name() == "Error" {
			return ret(Val{})
		}
		panic(undecided{"call of method " + x.Call.Method.Name() + " of an interface"})
	}
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, m.val(s, a))
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return m.builtin(s, x, b.Name(), args)
	}
	f := m.val(s, x.Call.Value)
	if f.K != Func {
		panic(undecided{"call of an unknown function"})
	}
	if m.Call != nil {
		if v := m.Call(m, s, f.Fn, args); v != nil {
			return ret(*v)
		}
	}
	if m.InRepo(f.Fn) && len(f.Fn.Blocks) > 0 {
		m.push(s, f.Fn, args, f.L, x)
		return true
	}
	name := f.Fn.String()
	switch name {
	case "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).String", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Len":
		name = strings.Replace(name, "bytes.Buffer", "strings.Builder", 1)
	}
	switch name {
	case "io.ReadAll", "io/ioutil.ReadAll":
		if s.Read {
			return ret(Val{K: Tuple, L: []Val{{K: Raw, S: "rest"}, {K: MayErr}}})
		}
		return ret(Val{K: Tuple, L: []Val{{K: Raw}, {K: MayErr}}})
	case "bytes.Runes":
		if args[0].K == Raw && args[0].S == "" && !s.Read {
			s.Read = true
			return ret(Val{K: Tape})
		}
		if args[0].K == Raw {
			return ret(emptyBuf())
		}
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return ret(Val{K: Err, S: "new"})
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		if args[0].K == Nil {
			return ret(Val{K: Nil})
		}
		if args[0].K == Err {
			return ret(args[0])
		}
		return ret(Val{})
	case "errors.Is", "github.com/pkg/errors.Is":
		if args[0].K == Err && args[1].K == Err && (args[0].S != args[1].S || args[0].S != "new") {
			return ret(boolVal(args[0].S == args[1].S))
		}
		if args[0].K == Nil && args[1].K == Err {
			return ret(boolVal(false))
		}
		return ret(Val{})
	case "(*strings.Builder).WriteRune":
		p := args[0]
		b, ok := s.objs[p.N].f[p.S+".sb"]
		if !ok {
			b = emptyBuf()
		}
		b = m.extend(s, b, args[1])
		s.objs[p.N].f[p.S+".sb"] = b
		return ret(Val{K: Tuple, L: []Val{{}, {K: Nil}}})
	case "(*strings.Builder).WriteString":
		p, y := args[0], args[1]
		b, ok := s.objs[p.N].f[p.S+".sb"]
		if !ok {
			b = emptyBuf()
		}
		switch y.K {
		case Part:
			y = m.text(y)
		case Text:
			if y.S == "" {
				y = emptyBuf()
			}
		}
		if y.K == Str || y.K == Buf {
			if !y.empty() {
				y.K = Buf
			}
			b = m.concat(s, b, y)
		} else {
			b = Val{K: Buf, Bad: "?"}
		}
		s.objs[p.N].f[p.S+".sb"] = b
		return ret(Val{K: Tuple, L: []Val{{}, {K: Nil}}})
	case "(*strings.Builder).String":
		p := args[0]
		if b, ok := s.objs[p.N].f[p.S+".sb"]; ok && !b.empty() {
			b.K = Str
			return ret(b)
		}
		return ret(Val{K: Text})
	case "(*strings.Builder).Reset":
		p := args[0]
		delete(s.objs[p.N].f, p.S+".sb")
		return ret(Val{})
	case "(*strings.Builder).Len":
		p := args[0]
		b, ok := s.objs[p.N].f[p.S+".sb"]
		if !ok || b.empty() {
			return ret(Val{K: Int})
		}
		return ret(Val{K: Ge1})
	}
	if v, ok := m.Input.Pure(name, args); ok {
		return ret(v)
	}
	if v, ok := textCall(name, args); ok {
		return ret(v)
	}
	if strings.HasPrefix(name, "fmt.Sprint") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "unicode.") {
		return ret(Val{})
	}
	if strings.Contains(name, "sirupsen/logrus") || strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "fmt.Print") {
		return ret(Val{})
	}
	panic(undecided{"call of " + name})
}

func (m *Machine) builtin(s *State, x *ssa.Call, name string, args []Val) bool {
	ret := func(v Val) bool { m.set(s, x, v); return true }
	switch name {
	case "len":
		switch a := args[0]; a.K {
		case Tape:
			return ret(Val{K: Len})
		case Nil:
			return ret(Val{K: Int})
		case List:
			if m.ListLen != nil {
				return ret(m.ListLen(a))
			}
			return ret(Val{})
		case Text:
			return ret(Val{K: Int, N: int64(len(a.S))})
		case Lit:
			return ret(Val{K: Int, N: int64(len(a.L))})
		case Buf, Str:
			if a.K == Str {
				if v, ok := m.Input.Pure("len", args); ok {
					return ret(v)
				}
			}
			switch {
			case a.empty():
				return ret(Val{K: Int})
			case a.Bad != "":
				return ret(Val{})
			case a.Known && a.S != other:
				return ret(Val{K: Int, N: int64(len(a.S))})
			case a.Ln > m.Cap:
				return ret(Val{K: Ge1, N: int64(a.Ln)})
			case a.Ln > 0 && a.K == Buf:
				return ret(Val{K: Int, N: int64(a.Ln)})
			}
			return ret(Val{K: Ge1})
		case Part:
			if v, ok := m.Input.Pure("len", args); ok {
				return ret(v)
			}
		}
		return ret(Val{})
	case "cap":
		return ret(Val{})
	case "append":
		a, b := args[0], args[1]
		sl := x.Type().Underlying().(*types.Slice)
		if m.List != nil {
			if v, ok := m.List(m, s, sl.Elem(), a, b, x.Pos()); ok {
				return ret(v)
			}
		}
		if m.Out != nil && m.Out(sl.Elem()) {
			if a.K == Nil {
				a = Val{K: List, A: !s.Some}
			}
			if a.K == Lit && len(a.L) == 0 {
				a = Val{K: List, A: !s.Some}
			}
			if a.K != List || b.K != Lit {
				panic(undecided{"append to an unknown list"})
			}
			if !a.A {
				m.found(s, "list:"+x.Parent().Name(), x.Pos(), "the list that is appended to is not the one with everything so far")
				return false
			}
			for _, e := range b.L {
				m.Append(m, s, e, x.Pos())
			}
			return ret(Val{K: List, A: true})
		}
		if b.K == Part && (a.K == Nil || a.K == Lit && len(a.L) == 0) {
			return ret(b)
		}
		if m.Input.IsTape(x.Type()) {
			if a.K == Nil {
				a = emptyBuf()
			}
			if a.K == Lit {
				y := emptyBuf()
				for _, e := range a.L {
					y = m.extend(s, y, e)
				}
				a = y
			}
			if a.K != Buf {
				return ret(Val{K: Buf, Bad: "?"})
			}
			switch b.K {
			case Lit:
				for _, e := range b.L {
					a = m.extend(s, a, e)
				}
				return ret(a)
			case Buf:
				return ret(m.concat(s, a, b))
			case Nil:
				return ret(a)
			}
			return ret(Val{K: Buf, Bad: "?"})
		}
		return ret(Val{})
	case "copy":
		panic(undecided{"copy"})
	}
	return ret(Val{})
}

// textCall evaluates functions on strings which are known.
func textCall(name string, args []Val) (Val, bool) {
	var l []string
	for _, a := range args {
		switch {
		case a.K == Text:
			l = append(l, a.S)
		case a.K == Str && a.Known && a.S != other && a.Bad == "":
			l = append(l, a.S)
		default:
			return Val{}, false
		}
	}
	text := func(s string) (Val, bool) { return Val{K: Text, S: s}, true }
	yes := func(b bool) (Val, bool) { return boolVal(b), true }
	num := func(n int) (Val, bool) { return Val{K: Int, N: int64(n)}, true }
	if len(l) == 1 {
		switch name {
		case "strings.ToLower":
			return text(strings.ToLower(l[0]))
		case "strings.ToUpper":
			return text(strings.ToUpper(l[0]))
		case "strings.TrimSpace":
			return text(strings.TrimSpace(l[0]))
		}
	}
	if len(l) == 2 {
		switch name {
		case "strings.HasPrefix":
			return yes(strings.HasPrefix(l[0], l[1]))
		case "strings.HasSuffix":
			return yes(strings.HasSuffix(l[0], l[1]))
		case "strings.Contains":
			return yes(strings.Contains(l[0], l[1]))
		case "strings.EqualFold":
			return yes(strings.EqualFold(l[0], l[1]))
		case "strings.Index":
			return num(strings.Index(l[0], l[1]))
		case "strings.Count":
			return num(strings.Count(l[0], l[1]))
		case "strings.Compare":
			return num(strings.Compare(l[0], l[1]))
		case "strings.Trim":
			return text(strings.Trim(l[0], l[1]))
		case "strings.TrimSuffix":
			return text(strings.TrimSuffix(l[0], l[1]))
		case "strings.TrimPrefix":
			return text(strings.TrimPrefix(l[0], l[1]))
		}
	}
	return Val{}, false
}
