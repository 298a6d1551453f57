package tape

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is one thing that is wrong.
type Finding struct {
	Key, Msg string
	Pos      token.Pos
}

// Result is what a run over a tape found.
type Result struct {
	Text, Safe, State []Finding // what the units hold, panics and loops, where definitions are
	Kind              []Finding // tokens of a wrong type
	Unsure            []Finding
	Made              map[string]Val // the fields of the scanner returned
	States, Edges     int
	Classes           int
	Funcs             []*ssa.Function
	Appends           map[token.Pos]bool
	Returned          int
	Other             bool // something else than what was looked for is wrong
}

// reach lists the functions of the repository that fn can call statically.
func reach(fn *ssa.Function, inRepo func(*ssa.Function) bool) []*ssa.Function {
	var l []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || !inRepo(f) {
			return
		}
		seen[f] = true
		l = append(l, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return l
}

// unit describes the struct of a unit.
type unit struct {
	t                          types.Type
	value, level, def, inBody_ int
}

func unitOf(elem types.Type) *unit {
	if p, ok := elem.Underlying().(*types.Pointer); ok {
		elem = p.Elem()
	}
	st, ok := elem.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	u := &unit{elem, -1, -1, -1, -1}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch ft := f.Type().Underlying().(type) {
		case *types.Slice:
			if b, ok := ft.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				u.value = i
			}
		case *types.Basic:
			switch n := f.Name(); {
			case ft.Kind() == types.Bool && strings.Contains(n, "Body"):
				u.inBody_ = i
			case ft.Kind() == types.Bool && strings.Contains(n, "Def"):
				u.def = i
			case ft.Kind() == types.Int && strings.Contains(n, "Brace"):
				u.level = i
			}
		}
	}
	if u.value < 0 || u.def < 0 || u.inBody_ < 0 {
		return nil
	}
	return u
}

// sink receives what a machine finds.
func (r *Result) sink(m *Machine) (func(string, token.Pos, *State, string), func(token.Pos, string)) {
	seen := map[string]bool{}
	return func(key string, pos token.Pos, s *State, msg string) {
			k := key + msg
			if seen[k] {
				return
			}
			seen[k] = true
			f := Finding{key, fmt.Sprintf("%s, for the text %q", msg, m.Trace(s)), pos}
			switch strings.SplitN(key, ":", 2)[0] {
			case "text":
				r.Text = append(r.Text, f)
			case "state", "def":
				r.State = append(r.State, f)
			case "kind", "parse":
				r.Kind = append(r.Kind, f)
			default:
				r.Safe = append(r.Safe, f)
			}
		}, func(pos token.Pos, msg string) {
			if k := fmt.Sprint("?", pos, msg); !seen[k] {
				seen[k] = true
				r.Unsure = append(r.Unsure, Finding{"", msg, pos})
			}
		}
}

// Scan follows the scanner over every text.
func Scan(prog *ssa.Program, inRepo func(*ssa.Function) bool, root *ssa.Function, want func(key string) bool) (*Result, error) {
	elem, u := unitsOf(root)
	if u == nil {
		return nil, fmt.Errorf("the scanner's list of units was not found")
	}
	fns := reach(root, inRepo)
	ws := words(fns)
	t := NewRunes(fns, ws)
	r := &Result{Appends: map[token.Pos]bool{}, Funcs: fns, Classes: t.Classes()}
	m := &Machine{Prog: prog, InRepo: inRepo, Input: t, Words: ws, Want: want, Cap: lengths(fns)}
	m.Out = func(e types.Type) bool { return types.Identical(e, elem) }
	m.IsLevel = func(s *types.Struct, f int, t types.Type) bool {
		return types.Identical(t, u.t) && f == u.level
	}
	m.Viol, m.Unsure = r.sink(m)
	shape := func(pos token.Pos, s *State, msg string) {
		if want("text:") {
			m.found(s, "text:shape", pos, msg)
			panicState()
		}
		r.Other = true
	}
	bad := func(key string, pos token.Pos, s *State, msg string) {
		if want("text:") {
			m.found(s, key, pos, msg)
			panicState()
		}
		r.Other = true
	}
	var last token.Pos
	m.Looked = func(m *Machine, s *State) {
		l := s.G.(*Lexer)
		switch l.Cut {
		case 2:
			m.found(s, "text:cut", last, "a unit ends inside a string or comment")
		case 1:
			m.found(s, "text:shape", last, "a unit ends inside a word or space")
		}
		l.Cut = 0
	}
	m.Append = func(m *Machine, s *State, v Val, pos token.Pos) {
		r.Appends[pos] = true
		last = pos
		l := s.G.(*Lexer)
		get := func(i int) Val {
			if v.K == Struct {
				return v.L[i]
			}
			x, ok := m.load(s, Val{K: Ptr, N: v.N, S: fmt.Sprintf("%s.%d", v.S, i)}, u.t.Underlying().(*types.Struct).Field(i).Type())
			if !ok {
				return Val{}
			}
			return x
		}
		if v.K != Struct && (v.K != Ptr || v.N < 0) {
			panic(undecided{"an unknown unit is appended"})
		}
		b := get(u.value)
		if b.K == Nil || b.K == Lit && len(b.L) == 0 {
			b = emptyBuf()
		}
		if b.K == Lit {
			y := emptyBuf()
			for _, e := range b.L {
				y = m.extend(s, y, e)
			}
			b = y
		}
		if b.K != Buf || b.Bad == "?" {
			panic(undecided{fmt.Sprintf("the content of a unit is not known: %v %q", b, m.Trace(s))})
		}
		if b.Bad != "" {
			bad("text:content", pos, s, "a unit "+b.Bad)
			panicState()
		}
		if b.empty() {
			shape(pos, s, "a unit is empty")
			return
		}
		if !s.isAnchor(b.Off, b.A) {
			w := "a unit leaves out text before it"
			if b.Off == old || s.AOff != old && b.Off < s.AOff {
				w = "a unit repeats text of the one before it"
			}
			bad("text:start", pos, s, w)
		}
		if b.E == old {
			panic(undecided{"where a unit ends is not known"})
		}
		switch l.crossed(s, b.E) {
		case 2:
			bad("text:merged", pos, s, "a unit holds more than the string or comment in it")
		case 1:
			shape(pos, s, "a unit holds several words or symbols")
		}
		h := l.at(b.E)
		if h == nil {
			panic(undecided{"what a unit ends with is not known"})
		}
		if b.E < 0 && l.start[-b.E-1] == 0 {
			switch h.mode {
			case modeIdent, modeSpace, modePlain:
				shape(pos, s, "a unit ends inside a word or space")
			default:
				bad("text:cut", pos, s, "a unit ends inside a string or comment")
			}
		}
		if !h.free && h.def != 2 && want("state:") {
			d := get(u.def)
			open := b.E == 0 && h.mode == modeIdent && h.kw == 7 && h.g == 0
			switch {
			case d.K != Bool:
				m.Unsure(pos, "whether a unit belongs to the head of a definition is not known")
			case !open && (d.N != 0) != (h.def == 1):
				m.found(s, "state:def", pos, fmt.Sprintf("after the unit %s a service definition %s", l.unitText(s, m, b), map[bool]string{true: "is taken to start", false: "is not taken to start, or to have ended"}[d.N != 0]))
				panicState()
			}
			d = get(u.inBody_)
			switch {
			case d.K != Bool:
				m.Unsure(pos, "whether a unit belongs to the body of a definition is not known")
			case (d.N != 0) != h.body:
				m.found(s, "state:body", pos, fmt.Sprintf("after the unit %s the body of a service definition %s", l.unitText(s, m, b), map[bool]string{true: "is taken to go on", false: "is taken to have ended, or not to have started"}[d.N != 0]))
				panicState()
			}
			if u.level >= 0 {
				lv := get(u.level)
				zero := -1
				switch lv.K {
				case Int:
					zero = b2i(lv.N == 0)
				case Level:
					if lv.N == lost {
						zero = b2i(h.g == 0)
					} else if d, exact := s.G.Depth(); exact {
						zero = b2i(int64(d)+lv.N == 0)
					} else if int64(d)+lv.N > 0 {
						zero = 0
					}
				}
				switch {
				case zero < 0:
					m.Unsure(pos, "the depth of a unit is not known")
				case (zero == 1) != (h.g == 0):
					m.found(s, "state:level", pos, fmt.Sprintf("the depth of the unit %s is taken to be zero or not, other than it is", l.unitText(s, m, b)))
					panicState()
				}
			}
		}
		s.setAnchor(b.E)
	}
	m.Return = func(m *Machine, s *State, v Val, pos token.Pos) {
		if s.NoIn {
			return
		}
		r.Returned++
		if v.K != Ptr {
			m.Unsure(pos, "what the scanner returns is not known")
			return
		}
		n := 0
		first := r.Made == nil
		if first {
			r.Made = map[string]Val{}
		}
		for p, x := range s.objs[v.N].f {
			if x.K == Pos && x.Off+s.HAbs == 0 && s.HAbs < 4 {
				x = Val{K: Int}
			}
			if x.K != Int && x.K != Bool && x.K != Nil || !first && (x.K != r.Made[p].K || x.N != r.Made[p].N) {
				x = Val{}
			}
			r.Made[p] = x
		}
		for _, x := range s.objs[v.N].f {
			if x.K == List || x.K == Nil && !s.Some {
				n++
				if x.K == List && !x.A {
					m.found(s, "text:list", pos, "the scanner does not hold all units")
				}
			}
		}
		if n == 0 && s.Some {
			m.Unsure(pos, "the scanner's list of units is not known")
		}
		if s.Know != 2 {
			m.found(s, "text:early", pos, "the scan ends before the end of the text")
			return
		}
		if s.AOff == 0 {
			return
		}
		l := s.G.(*Lexer)
		h := l.at(0)
		if l.crossed(s, 0) > 0 {
			m.found(s, "text:lost", pos, "complete units at the end of the text are left out")
			return
		}
		switch h.mode {
		case modePlain, modeSpace, modeIdent:
			m.found(s, "text:last", pos, "the last unit of the text is left out")
		}
	}
	if DebugHook != nil {
		m.Debug = DebugHook
	}
	var args []Val
	for range root.Params {
		args = append(args, Val{})
	}
	err := m.Run(root, args, NewLexer(t))
	r.States, r.Edges = m.States, m.Edges
	return r, err
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var pathHook func(*Machine, *State) string

// DebugHook sees every new state.
var DebugHook func(where, key string)

type drop struct{}

// panicState ends a state in which something is wrong already.
func panicState() { panic(drop{}) }

func (l *Lexer) unitText(s *State, m *Machine, b Val) string {
	h := l.at(b.E)
	switch h.mode {
	case modeIdent:
		if h.kw == 7 {
			return `"service"`
		}
		return "(a word)"
	case modeSpace:
		return "(space)"
	}
	if c := s.at(b.E - 1); c >= 0 {
		return fmt.Sprintf("ending with %q", l.t.Label(c))
	}
	return ""
}

// lengths is the greatest small number a length is compared with.
func lengths(fns []*ssa.Function) int {
	n := 1
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if c, ok := o[1].(*ssa.Const); ok && isLen(o[0]) && c.Value != nil {
						if k := constVal(c); k.K == Int && k.N > int64(n) && k.N <= 12 {
							n = int(k.N)
						}
					}
				}
			}
		}
	}
	return n
}

// words are the strings whose content is followed exactly: the constants that
// are compared with, and what comes close to them where more than equality is
// looked at.
func words(fns []*ssa.Function) []string {
	var l []string
	seen := map[string]bool{"": true}
	add := func(w string) {
		if !seen[w] && len(w) <= 24 {
			seen[w] = true
			l = append(l, w)
		}
	}
	fold := false
	text := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Const); ok && isString(c.Type()) && c.Value != nil {
			return constVal(c).S
		}
		return ""
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					if x.Op == token.EQL || x.Op == token.NEQ {
						add(text(x.X))
						add(text(x.Y))
					}
				case *ssa.Call:
					f := x.Call.StaticCallee()
					if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" {
						continue
					}
					for _, a := range x.Call.Args {
						w := text(a)
						add(w)
						if w == "" || len(w) < 3 {
							continue
						}
						switch f.Name() {
						case "HasPrefix", "TrimPrefix":
							add(w + w[:1])
						case "HasSuffix", "TrimSuffix":
							add(w[:1] + w)
						case "Contains", "Index", "Count":
							add(w + w[:1])
							add(w[:1] + w)
						}
					}
					switch f.Name() {
					case "ToLower", "ToUpper", "EqualFold", "Title", "ToTitle":
						fold = true
					}
				}
			}
		}
	}
	if fold {
		for _, w := range append([]string(nil), l...) {
			if len(w) > 3 {
				add(strings.ToUpper(w[:1]) + w[1:])
			}
		}
	}
	return l
}
