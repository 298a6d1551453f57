package tape

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AnyRun are any tokens.
type AnyRun struct {
	t     *Defs
	first bool
	ws    bool // after white space
	free  uint8
	last  string // the test that was made first since then
	was   bool   // how it came out
}

// bits are the tests made since the last token: what was read before can be
// such that they come out either way.
func (g *AnyRun) bits(role int) *uint8 { return &g.free }

func (g *AnyRun) Clone() Ghost {
	n := *g
	return &n
}

func (g *AnyRun) Key() string            { return fmt.Sprint(g.first, g.ws, g.free, g.last, g.was) }
func (g *AnyRun) Depth() (int, bool)     { return 0, false }
func (g *AnyRun) Moved() int64           { return 0 }
func (g *AnyRun) Trim(s *State, off int) {}

func (g *AnyRun) Next() []int {
	if g.first {
		// what the lexer starts with
		return []int{g.t.id(tkind{typ: "word", text: "service"})}
	}
	var l []int
	for i, k := range g.t.kinds {
		if (k.text == other || k.typ != "STRING_LITERAL") && !(g.ws && k.typ == "WHITESPACE") {
			l = append(l, i)
		}
	}
	return l
}

func (g *AnyRun) Look(m *Machine, s *State, c int) []Ghost {
	return []Ghost{&AnyRun{t: g.t, ws: g.t.kinds[c].typ == "WHITESPACE"}}
}

// entries is the pointer to all entries.
const entries = -2

// ParseAny follows the parser over any tokens, for panics and endless loops.
func ParseAny(prog *ssa.Program, inRepo func(*ssa.Function) bool, root *ssa.Function, want func(key string) bool) (*Result, error) {
	lexer, t, p, fns, err := parser(inRepo, root)
	if err != nil {
		return nil, err
	}
	for _, n := range []string{"IDENT", "WHITESPACE", "COMMENT", "STRING_LITERAL", "SYMBOL"} {
		t.id(tkind{typ: n, text: other})
	}
	t.id(tkind{typ: "word", text: "service"})
	for _, w := range append(words(fns), "(", ")", "{", "}") {
		switch {
		case ident(w):
			t.id(tkind{typ: "word", text: w})
		case w == "(":
			t.id(tkind{typ: "OPEN_PAREN", text: w})
		case w == ")":
			t.id(tkind{typ: "CLOSE_PAREN", text: w})
		case w == "{":
			t.id(tkind{typ: "OPEN_BRACE", text: w})
		case w == "}":
			t.id(tkind{typ: "CLOSE_BRACE", text: w})
		case len([]rune(w)) == 1 && strings.TrimSpace(w) != "" && w != `"` && w != "\x00":
			t.id(tkind{typ: "SYMBOL", text: w})
		}
	}
	r := &Result{Appends: map[token.Pos]bool{}, Funcs: fns}
	m := &Machine{Prog: prog, InRepo: inRepo, Input: t, Words: words(fns), Want: want, Cap: lengths(fns), Back: 1, Fold: true}
	m.Viol, m.Unsure = r.sink(m)
	m.Entry = func(x types.Type) bool {
		n, ok := x.(*types.Named)
		return p.entry(types.NewPointer(x)) != "" || ok && n.Obj().Pkg() == p.pkg && n.Obj().Name() == "Service"
	}
	// lists: A those that are not empty, S: "?" those that may be nil
	m.List = func(m *Machine, s *State, elem types.Type, a, b Val, pos token.Pos) (Val, bool) {
		if p.entry(elem) == "" {
			return Val{}, false
		}
		s.G.(*AnyRun).last = ""
		l := Val{K: List}
		for _, x := range []Val{a, b} {
			if x.K == List {
				l.A = l.A || x.A
				if x.Bad != "" {
					l.Bad = x.Bad
				}
			}
		}
		switch {
		case a.K == Lit, a.K == List && a.S == "", l.A:
			return l, true
		case a.K == Nil && none(b):
			return a, true
		}
		l.S = "?"
		return l, true
	}
	m.ListOf = func(m *Machine, s *State, elem types.Type, l []Val, pos token.Pos) (Val, bool) {
		s.G.(*AnyRun).last = ""
		r := Val{K: List, A: true}
		for _, e := range l {
			if e.K != Ptr || e.N != entries {
				r.Bad = "?"
			}
		}
		return r, p.entry(elem) != ""
	}
	m.ListLen = func(v Val) Val {
		if v.A {
			return Val{K: Ge1, N: 1, EA: true}
		}
		return Val{K: Free, S: "len"}
	}
	m.ListCut = func(m *Machine, s *State, v, lo, hi Val, pos token.Pos) Val { return Val{K: List, S: "?", Bad: v.Bad} }
	m.Call = func(m *Machine, s *State, fn *ssa.Function, args []Val) *Val {
		if fn.String() != "strconv.Unquote" {
			return nil
		}
		// any text between quotes
		u := s.clone()
		f := u.top()
		call, ok := f.block.Instrs[f.i-1].(ssa.Value)
		if !ok {
			return nil
		}
		m.set(u, call, Val{K: Tuple, L: []Val{{K: Text}, {K: Err, S: "strconv"}}})
		m.work = append(m.work, u)
		return &Val{K: Tuple, L: []Val{{}, {K: Nil}}}
	}
	m.Looked = func(m *Machine, s *State) {
		k := t.kinds[s.Cls[0]].typ
		later := k != "WHITESPACE" && k != "COMMENT"
		s.values(func(v *Val) {
			if v.K == Text && v.N > 0 && later {
				// what a word was three tokens ago is forgotten
				if v.N++; v.N > 4 {
					*v = Val{}
				}
				return
			}
			if v.K == Free || v.K == Ge1 && v.EA {
				*v = Val{}
			}
			if v.K != Part {
				return
			}
			if x := t.kinds[v.N]; x.text != other && v.S == "value" && v.Bad == "" {
				*v = Val{K: Text, S: x.text, N: 1}
			} else {
				*v = Val{}
			}
		})
	}
	m.Return = func(m *Machine, s *State, v Val, pos token.Pos) { r.Returned++ }
	m.Debug = DebugHook
	m.setup = p.lexer(m, lexer)
	err = m.Run(root, nil, &AnyRun{t: t, first: true})
	r.States, r.Edges, r.Classes = m.States, m.Edges, len(t.kinds)
	return r, err
}

func (s *State) any() bool {
	_, ok := s.G.(*AnyRun)
	return ok
}
