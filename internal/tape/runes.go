package tape

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Runes is a text as a tape. Its classes are the finest partition of the runes
// that the program and the specification can tell apart.
type Runes struct {
	reps   []rune // one of each class
	counts []int
	class  map[rune]int
	deep   int // depths are told apart up to this
}

var runePreds = map[string]func(rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
}

// NewRunes makes the partition for the functions given.
func NewRunes(fns []*ssa.Function, ws []string) *Runes {
	return newRunes(fns, ws, "service{}\"\\/*\n")
}

func newRunes(fns []*ssa.Function, ws []string, base string) *Runes {
	points := map[rune]bool{}
	cuts := map[rune]bool{}
	for _, r := range base {
		points[r] = true
	}
	for _, w := range ws {
		for _, r := range w {
			points[r] = true
		}
	}
	preds := map[string]bool{"unicode.IsSpace": true, "unicode.IsLetter": true, "unicode.IsDigit": true}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && runePreds[f.String()] != nil {
						preds[f.String()] = true
					}
				}
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					switch k.Value.Kind() {
					case constant.Int:
						if bt, ok := k.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
							if n, ok := constant.Int64Val(k.Value); ok && n >= 0 && n <= unicode.MaxRune {
								points[rune(n)] = true
								cuts[rune(n)] = true
							}
						}
					case constant.String:
						s := constant.StringVal(k.Value)
						if len(s) > 12 || !strings.HasPrefix("service", s) && len(s) > 3 {
							continue
						}
						for _, r := range s {
							points[r] = true
						}
					}
				}
			}
		}
	}
	var order []rune
	for c := range cuts {
		order = append(order, c)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	useCuts := false
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.BinOp); ok {
					switch x.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
							useCuts = true
						}
					}
				}
			}
		}
	}
	var names []string
	for p := range preds {
		names = append(names, p)
	}
	sort.Strings(names)
	t := &Runes{class: map[rune]int{}, deep: depths(fns)}
	ids := map[string]int{}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		var k string
		if points[r] {
			k = string(r)
		} else {
			bits := make([]byte, 0, 16)
			for _, n := range names {
				if runePreds[n](r) {
					bits = append(bits, '1')
				} else {
					bits = append(bits, '0')
				}
			}
			k = "#" + string(bits)
			if useCuts {
				k += fmt.Sprint(sort.Search(len(order), func(i int) bool { return order[i] >= r }))
			}
		}
		c, ok := ids[k]
		if !ok {
			c = len(t.reps)
			ids[k] = c
			t.reps = append(t.reps, r)
			t.counts = append(t.counts, 0)
		}
		// a readable one
		if p := t.reps[c]; (p < '!' || p > '~') && r >= '!' && r <= '~' {
			t.reps[c] = r
		}
		t.counts[c]++
		if r < 256 || t.counts[c] == 1 {
			t.class[r] = c
		}
	}
	return t
}

// depths is one more than the greatest small number that is compared with.
func depths(fns []*ssa.Function) int {
	n := 3
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, o := range []ssa.Value{x.X, x.Y} {
					c, ok := o.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
						continue
					}
					if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int && x.Op != token.ADD && x.Op != token.SUB {
						if k, ok := constant.Int64Val(c.Value); ok && k >= 3 && k <= 12 {
							if int(k)+1 > n {
								n = int(k) + 1
							}
						}
					}
				}
			}
		}
	}
	return n
}

func (t *Runes) IsTape(x types.Type) bool {
	s, ok := x.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (t *Runes) Elem(off, c int) Val { return Val{K: Elem, N: int64(c), Off: off} }

func (t *Runes) Single(c int) bool { return t.counts[c] == 1 }

func (t *Runes) Label(c int) string { return string(t.reps[c]) }

func (t *Runes) Classes() int { return len(t.reps) }

func (t *Runes) Compare(op token.Token, v Val, c Val) (bool, bool) {
	if v.K != Elem || c.K != Int {
		return false, false
	}
	r := t.reps[v.N]
	if op == token.EQL || op == token.NEQ {
		if t.counts[v.N] == 1 {
			return cmp(op, int64(r), c.N), true
		}
		// constants are classes of their own
		return op == token.NEQ, true
	}
	return cmp(op, int64(r), c.N), true
}

func (t *Runes) Pure(name string, args []Val) (Val, bool) {
	if p := runePreds[name]; p != nil && args[0].K == Elem {
		return boolVal(p(t.reps[args[0].N])), true
	}
	switch name {
	case "strings.ContainsRune", "strings.IndexRune":
		if args[0].K == Text && args[1].K == Elem {
			c := int(args[1].N)
			r := t.reps[c]
			in := strings.ContainsRune(args[0].S, r)
			if in && t.counts[c] != 1 {
				return Val{}, true
			}
			if t.counts[c] != 1 {
				for _, x := range args[0].S {
					if k, ok := t.class[x]; !ok || k == c {
						return Val{}, true
					}
				}
			}
			if name == "strings.ContainsRune" {
				return boolVal(in), true
			}
			return Val{K: Int, N: int64(strings.IndexRune(args[0].S, r))}, true
		}
	}
	return Val{}, false
}

func (t *Runes) Field(v Val, path string) (Val, bool) { return Val{}, false }

// Index is an element of a buffer.
func (t *Runes) Index(m *Machine, s *State, v Val, i Val) (Val, string) {
	n := int64(-1)
	if i.K == Int {
		n = i.N
	}
	switch v.K {
	case Nil:
		if n >= 0 {
			return Val{}, "an index lies behind the end"
		}
	case Lit:
		if n >= 0 && int(n) < len(v.L) {
			return v.L[n], ""
		}
		if n >= 0 {
			return Val{}, "an index lies behind the end"
		}
	case Buf, Str:
		if v.empty() && n >= 0 {
			return Val{}, "an index lies behind the end"
		}
		if v.Bad == "" && v.Known && v.S != other && n >= 0 {
			if int(n) < len(v.S) {
				return Val{K: Int, N: int64(v.S[n])}, ""
			}
			return Val{}, "an index lies behind the end"
		}
		if n == 0 && v.Bad == "" {
			if v.Off != old {
				if c := s.at(v.Off); c >= 0 {
					return t.Elem(v.Off, c), ""
				}
			}
			return Val{}, ""
		}
	}
	return Val{}, "?"
}

// Word is the content of a part of the tape, as far as the specification knows.
func (t *Runes) Word(m *Machine, s *State, b Val) (string, bool) {
	g := s.G.(*Lexer)
	if b.E == old || b.E < -Window || b.E > 0 {
		return "", false
	}
	if b.Off != old {
		w := ""
		for o := b.Off; o < b.E; o++ {
			c := s.at(o)
			if c < 0 {
				return "", false
			}
			if t.counts[c] == 1 {
				w = m.grow(w, t.Label(c))
			} else {
				w = other
			}
		}
		return w, true
	}
	if !b.A || g.crossed(s, b.E) > 0 {
		return "", false
	}
	h := g.at(b.E)
	if h == nil {
		return "", false
	}
	if h.mode == modeIdent {
		if h.kw == 0 {
			return other, true
		}
		return m.grow("", "service"[:h.kw]), true
	}
	return "", false
}

// ---- what protobuf says

const (
	modePlain = iota // between units, or after a symbol
	modeSpace
	modeIdent
	modeSlash // after a '/' which may start a comment
	modeLine
	modeBlock
	modeStar // in a block comment after '*'
	modeString
	modeEscape
)

type lexState struct {
	mode, kw int
	g        int // depth; the greatest is that or more
	def      int // 0, 1; 2: not settled
	body     bool
	free     bool // not protobuf any more: definitions are not judged
}

// Lexer is the specification's own run over the runes looked at.
type Lexer struct {
	t     *Runes
	hist  [Window + 1]*lexState // states at H, H-1, ...
	start [Window]int8          // does a unit start at H-1, H-2, ...: 0 no, 1 yes, 2 at a string or comment
	max   int8                  // of the starts after the anchor that lie further back
	hard  bool                  // the unit before H was a string or comment that ended at H
	moved int64
	// Cut is set when the anchor turned out to lie inside a unit: 1 a word or space, 2 a string or comment
	Cut int8
}

// NewLexer is the state at the start of a text.
func NewLexer(t *Runes) *Lexer {
	l := &Lexer{t: t}
	l.hist[0] = &lexState{}
	return l
}

func (l *Lexer) Clone() Ghost {
	n := *l
	return &n
}

func (l *Lexer) Key() string {
	var sb strings.Builder
	for _, h := range l.hist {
		if h == nil {
			sb.WriteByte('-')
			continue
		}
		fmt.Fprintf(&sb, "%d.%d.%d.%d%v%v,", h.mode, h.kw, h.g, h.def, h.body, h.free)
	}
	fmt.Fprintf(&sb, "%v%d%v%d", l.start, l.max, l.hard, l.Cut)
	return sb.String()
}

func (l *Lexer) Depth() (int, bool) { return l.hist[0].g, l.hist[0].g < l.t.deep }

// Lost tells that depths are not known any more.
func (l *Lexer) Lost() bool { return l.hist[0].free }

func (l *Lexer) Moved() int64 { return l.moved }

// Next are the classes of runes that can follow.
func (l *Lexer) Next() []int {
	cs := make([]int, l.t.Classes())
	for i := range cs {
		cs[i] = i
	}
	return cs
}

func (l *Lexer) at(off int) *lexState {
	if off > 0 || off < -Window {
		return nil
	}
	return l.hist[-off]
}

// crossed is the greatest start strictly between the anchor and off.
func (l *Lexer) crossed(s *State, off int) int8 {
	var r int8
	if s.AOff == old {
		r = l.max
	}
	for i, k := range l.start {
		p := -(i + 1)
		if p < off && (s.AOff == old || p > s.AOff) && k > r {
			r = k
		}
	}
	return r
}

func (l *Lexer) Look(m *Machine, s *State, c int) []Ghost {
	// s has already moved: the rune lies at -1
	n := *l
	last := l.start[Window-1]
	copy(n.hist[1:], l.hist[:Window])
	copy(n.start[1:], l.start[:Window-1])
	// the start that leaves the window, if it lies after the anchor
	if s.AOff != old {
		n.max = 0
	} else if !s.leaving && last > n.max {
		n.max = last
	}
	p := *l.hist[0]
	n.moved = 0
	r := l.t.reps[c]
	single := l.t.counts[c] == 1
	is := func(x rune) bool { return single && r == x }
	ident := unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_'
	space := unicode.IsSpace(r)
	begins := int8(1)
	hardBefore := l.hard
	n.hard = false
	q := p
	plain := func() {
		switch {
		case is('/'):
			q.mode = modeSlash
		case is('"'):
			q.mode = modeString
			begins = 2
			if q.def == 1 {
				q.free = true
			}
		case space:
			q.mode = modeSpace
		case ident:
			q.mode, q.kw = modeIdent, 0
			if is('s') {
				q.kw = 1
			}
		default:
			q.mode = modePlain
			switch {
			case is('{'):
				n.moved = 1
				if q.g < l.t.deep {
					q.g++
				}
				if q.def == 1 {
					q.def, q.body = 0, true
				}
			case is('}'):
				if q.free {
					break
				}
				if q.g == 0 {
					q.free = true
				} else {
					n.moved = -1
				}
				if q.def == 1 {
					q.free = true
				}
			default:
				if q.def == 1 {
					q.free = true
				}
			}
		}
	}
	keyword := false // p ended the word service at the top level
	if p.mode == modeIdent && p.kw == 7 && p.g == 0 && !p.body && !ident {
		keyword = true
	}
	settle := func(def int) {
		// what follows tells about the place after the word
		if n.hist[1] != nil {
			h := *n.hist[1]
			h.def = def
			n.hist[1] = &h
		}
		q.def = def
	}
	switch p.mode {
	case modeIdent:
		if ident {
			begins = 0
			if p.kw > 0 && p.kw < 7 && is(rune("service"[p.kw])) {
				q.kw = p.kw + 1
			} else {
				q.kw = 0
			}
		} else {
			if keyword && p.def == 0 {
				switch {
				case space:
					settle(1)
				case is('/'):
					settle(2)
				}
			}
			plain()
		}
	case modeSpace:
		if space {
			begins = 0
		} else {
			plain()
		}
	case modeSlash:
		switch {
		case is('/'), is('*'):
			begins = 0
			q.mode = modeLine
			if is('*') {
				q.mode = modeBlock
			}
			// the slash started it
			n.start[1] = 2
			if s.AOff == -1 {
				n.Cut = 2
			}
			if q.def == 2 {
				q.def = 1
				for i := 1; i <= 2; i++ {
					if n.hist[i] != nil && n.hist[i].def == 2 {
						h := *n.hist[i]
						h.def = 1
						n.hist[i] = &h
					}
				}
			}
		default:
			if q.def == 2 {
				q.free = true
				q.def = 0
			}
			if q.def == 1 {
				q.free = true
			}
			plain()
		}
	case modeLine:
		begins = 0
		if is('\n') {
			q.mode = modePlain
			n.hard = true
		}
	case modeBlock, modeStar:
		begins = 0
		switch {
		case is('*'):
			q.mode = modeStar
		case is('/') && p.mode == modeStar:
			q.mode = modePlain
			n.hard = true
		default:
			q.mode = modeBlock
		}
	case modeString:
		begins = 0
		switch {
		case is('\\'):
			q.mode = modeEscape
		case is('"'):
			q.mode = modePlain
			n.hard = true
		}
	case modeEscape:
		begins = 0
		q.mode = modeString
	default:
		plain()
	}
	if q.free {
		// depths are not told apart any more
		q.def, q.body, q.g = 0, false, p.g
		n.moved = 0
		all := true // whatever can still be judged
		for _, h := range n.hist[1:] {
			all = all && (h == nil || h.free)
		}
		if all {
			q.g = 0
			n.moved = lost
		}
	}
	if begins > 0 && hardBefore {
		begins = 2
	}
	n.start[0] = begins
	if begins == 0 && s.AOff == -1 && n.Cut < 2 {
		n.Cut = 1
		switch p.mode {
		case modeLine, modeBlock, modeStar, modeString, modeEscape, modeSlash:
			n.Cut = 2
		}
	}
	n.hist[0] = &q
	if n.moved < 0 {
		// one brace less
		if p.g < l.t.deep {
			q.g = p.g - 1
			if q.g == 0 {
				q.body = false
			}
		} else {
			few := n
			h := q
			h.g = l.t.deep - 1
			few.hist[0] = &h
			return []Ghost{&few, &n}
		}
	}
	return []Ghost{&n}
}

// Trim forgets what lies further back than off.
func (l *Lexer) Trim(s *State, off int) {
	for i := range l.hist {
		if -i < off || s.AOff != old && -i < s.AOff {
			l.hist[i] = nil
		}
	}
	for i := range l.start {
		p := -(i + 1)
		if p < off {
			after := s.AOff == old && (s.was >= 0 || p > s.was)
			if after && l.start[i] > l.max {
				l.max = l.start[i]
			}
			l.start[i] = 0
		}
	}
	if s.AOff != old {
		l.max = 0
	}
	s.was = 0
}
