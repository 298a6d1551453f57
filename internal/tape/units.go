package tape

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// What a unit is.
const (
	uSpace = iota
	uWord
	uString
	uComment
	uSymbol
)

// ukind is one kind of unit, as far as it matters.
type ukind struct {
	sort  int
	first int    // class of its first rune
	nl    int    // a space with one newline, or more
	one   bool   // only one rune
	word  string // a word or symbol that is told apart
	block bool   // a comment between /* and */
}

// Where the text stands after a unit.
const (
	outside = iota
	nested  // within braces which are no service
	head
	body
)

type uplace struct {
	at, depth int
}

type uclass struct {
	kind  int
	place uplace
	in    int8 // 1: belongs to a definition, 2: does not
}

// Units is the list of units of a text as a tape.
type Units struct {
	elem    types.Type
	u       *unit
	runes   *Runes
	kinds   []ukind
	classes []uclass
	ids     map[uclass]int
}

// NewUnits makes the classes for the functions and words given.
func NewUnits(elem types.Type, u *unit, fns []*ssa.Function, ws []string) *Units {
	t := &Units{elem: elem, u: u, runes: newRunes(fns, nil, "{}\"/\n"), ids: map[uclass]int{}}
	words := map[string]bool{"service": true}
	t.kinds = append(t.kinds, ukind{sort: uWord, first: t.runes.class['s'], word: "service"})
	for _, w := range ws {
		ok := w != ""
		for i, r := range w {
			ok = ok && (unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') && (i > 0 || r < 256)
		}
		if ok && !words[w] {
			words[w] = true
			t.kinds = append(t.kinds, ukind{sort: uWord, first: t.runes.class[rune(w[0])], word: w})
		}
	}
	for c, r := range t.runes.reps {
		single := t.runes.counts[c] == 1
		switch {
		case unicode.IsSpace(r):
			n := 0
			if single && r == '\n' {
				n = 1
			}
			t.kinds = append(t.kinds, ukind{sort: uSpace, first: c, nl: n, one: true})
			for ; n < 3; n++ {
				t.kinds = append(t.kinds, ukind{sort: uSpace, first: c, nl: n})
			}
		case unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_':
			t.kinds = append(t.kinds, ukind{sort: uWord, first: c}, ukind{sort: uWord, first: c, one: true})
		case single && r == '"':
			t.kinds = append(t.kinds, ukind{sort: uString, first: c})
		case single && r == '/':
			t.kinds = append(t.kinds, ukind{sort: uComment, first: c}, ukind{sort: uComment, first: c, block: true}, ukind{sort: uSymbol, first: c, word: "/"})
		case single:
			t.kinds = append(t.kinds, ukind{sort: uSymbol, first: c, word: string(r)})
		default:
			t.kinds = append(t.kinds, ukind{sort: uSymbol, first: c})
		}
	}
	return t
}

func (t *Units) id(c uclass) int {
	n, ok := t.ids[c]
	if !ok {
		n = len(t.classes)
		t.ids[c] = n
		t.classes = append(t.classes, c)
	}
	return n
}

func (t *Units) IsTape(x types.Type) bool {
	s, ok := x.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), t.elem)
}

func (t *Units) Elem(off, c int) Val { return Val{K: Elem, N: int64(c), Off: off} }

func (t *Units) kind(c int) ukind { return t.kinds[t.classes[c].kind] }

// Weak forgets what the unit of a class holds.
func (t *Units) Weak(c int) int {
	x := t.classes[c]
	x.kind = -1
	return t.id(x)
}

func (t *Units) Label(c int) string { return t.label(t.kind(c)) }

func (t *Units) label(k ukind) string {
	r := t.runes.Label(k.first)
	switch {
	case k.word != "":
		return k.word
	case k.sort == uSpace && !k.one:
		n := k.nl
		if r == "\n" {
			n--
		}
		if n <= 0 {
			return r + " "
		}
		return r + strings.Repeat("\n", n)
	case k.sort == uWord && !k.one:
		return r + "_"
	case k.sort == uString:
		return `"…"`
	case k.sort == uComment && k.block:
		return "/*…*/"
	case k.sort == uComment:
		return "//…\n"
	}
	return r
}

// content is what a unit holds, as far as it is known.
func (t *Units) content(c int) string {
	if k := t.kind(c); k.word != "" {
		return k.word
	}
	return other
}

// shortest is the least number of runes of a unit; exact tells that it has no more.
func (t *Units) shortest(k ukind) (int, bool) {
	if k.one {
		return 1, true
	}
	switch k.sort {
	case uSymbol:
		return 1, true
	case uSpace:
		n := k.nl
		if t.runes.Label(k.first) != "\n" {
			n++
		}
		if n < 2 {
			n = 2
		}
		return n, false
	case uString:
		return 2, false
	case uComment:
		if k.block {
			return 4, false
		}
		return 3, false
	case uWord:
		if k.word != "" {
			return len(k.word), true
		}
		return 2, false
	}
	return 1, false
}

func (t *Units) Compare(op token.Token, v Val, c Val) (bool, bool) {
	if v.K == Part && v.S == "some" && c.K == Int && (op == token.EQL || op == token.NEQ) {
		// a rune of a word or space
		r := rune(c.N)
		in := unicode.IsSpace(r)
		if v.N == uWord {
			in = unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_'
		}
		return op == token.NEQ, !in
	}
	if v.K == Part && v.S == "byte" && c.K == Int && c.N >= 128 {
		return false, false
	}
	if v.K == Part && (v.S == "rune" || v.S == "byte") && c.K == Int {
		return t.runes.Compare(op, Val{K: Elem, N: v.N}, c)
	}
	return false, false
}

func (t *Units) Pure(name string, args []Val) (Val, bool) {
	if len(args) == 0 {
		return Val{}, false
	}
	a := args[0]
	if a.K == Part && a.S == "some" && name == "unicode.IsSpace" {
		return boolVal(a.N == uSpace), true
	}
	if a.K == Part && a.S == "rune" {
		b := append([]Val(nil), args...)
		b[0] = Val{K: Elem, N: a.N}
		return t.runes.Pure(name, b)
	}
	if len(args) == 2 && args[1].K == Part && args[1].S == "rune" {
		return t.runes.Pure(name, []Val{a, {K: Elem, N: args[1].N}})
	}
	if a.K == Part && a.S == "value" && name == "len" {
		n, exact := t.shortest(t.kind(int(a.N)))
		if exact {
			return Val{K: Int, N: int64(n)}, true
		}
		return Val{K: Ge1, N: int64(n)}, true
	}
	if a.K != Str || a.Bad != "" || a.N == 0 {
		return Val{}, false
	}
	k := t.kinds[a.N-1]
	cut := func(bad bool) (Val, bool) {
		if bad {
			return Val{K: Str, Bad: "does not hold what it is made of unchanged"}, true
		}
		return a, true
	}
	line := k.sort == uComment && !k.block
	switch name {
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle":
		return cut(k.sort == uWord && (k.word == "" || strings.HasSuffix(name, "Lower") != (strings.ToLower(k.word) == k.word)) || k.sort == uString || k.sort == uComment)
	case "strings.TrimSpace":
		if a.Ln == 1 {
			return cut(k.sort == uSpace || line)
		}
	}
	if name == "len" && a.Ln == 1 {
		// in bytes
		n, exact := t.shortest(k)
		if r := t.runes.reps[k.first]; exact && (k.word != "" || t.runes.counts[k.first] == 1 && r < 128) {
			return Val{K: Int, N: int64(n)}, true
		}
		return Val{K: Ge1, N: int64(n)}, true
	}
	if len(args) != 2 {
		return Val{}, false
	}
	var w string
	switch b := args[1]; b.K {
	case Text:
		w = b.S
	case Int:
		w = string(rune(b.N))
	default:
		return Val{}, false
	}
	switch name {
	case "strings.Trim", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimPrefix":
		if k.sort == uString && a.Ln == 1 && w == "\"" || line && (w == "\n" && name[len(name)-2:] != "ft" && name != "strings.TrimPrefix" || w == "//" && name != "strings.TrimRight" && name != "strings.TrimSuffix") {
			return cut(true)
		}
	case "strings.HasPrefix":
		if k.sort == uComment && (w == "/" || w == "//" || w == "/*") {
			return boolVal(w == "/" || (w == "/*") == k.block), true
		}
	case "strings.HasSuffix":
		if k.sort == uComment && a.Ln == 1 && (w == "\n" || w == "*/") {
			return boolVal((w == "*/") == k.block), true
		}
	case "strings.Contains", "strings.ContainsRune", "strings.Count", "strings.Index", "strings.IndexRune", "strings.IndexByte":
		if w != "\n" || a.Ln != 1 || (k.sort != uSpace && k.sort != uWord && (k.sort != uComment || k.block)) {
			return Val{}, false
		}
		n := k.nl
		if k.sort == uComment {
			n = 1
		}
		has := n > 0
		switch {
		case strings.HasPrefix(name, "strings.Contains"):
			return boolVal(has), true
		case name == "strings.Count":
			if n > 1 {
				return Val{K: Ge1, N: int64(n)}, true
			}
			return Val{K: Int, N: int64(n)}, true
		case !has:
			return Val{K: Int, N: -1}, true
		case t.runes.Label(k.first) == "\n":
			return Val{K: Int}, true
		default:
			return Val{K: Ge1, N: 1}, true
		}
	}
	return Val{}, false
}

func (t *Units) Field(v Val, path string) (Val, bool) {
	var i int
	if n, _ := fmt.Sscanf(path, ".%d", &i); n != 1 || path != fmt.Sprintf(".%d", i) {
		return Val{}, false
	}
	c := t.classes[v.N]
	p := c.place
	def, in, level := p.at == head, p.at == body, 0
	switch p.at {
	case nested, body:
		level = 1
	}
	switch i {
	case t.u.value:
		if t.classes[v.N].kind < 0 {
			return Val{}, true
		}
		return Val{K: Part, S: "value", N: v.N, Off: v.Off}, true
	case t.u.def:
		return boolVal(def), true
	case t.u.inBody_:
		return boolVal(in), true
	case t.u.level:
		if level > 0 {
			return Val{K: Ge1}, true
		}
		return Val{K: Int, N: int64(level)}, true
	}
	return Val{}, true
}

// Index is a rune of a unit.
func (t *Units) Index(m *Machine, s *State, v Val, i Val) (Val, string) {
	if v.K == Nil && i.K == Int {
		return Val{}, "an index lies behind the end"
	}
	var k ukind
	switch {
	case v.K == Part && v.S == "value":
		k = t.kind(int(v.N))
	case v.K == Str && v.Bad == "" && v.Ln == 1 && v.N > 0:
		k = t.kinds[v.N-1]
	default:
		return Val{}, "?"
	}
	n, exact := t.shortest(k)
	if i.K == Text && i.S == "last" {
		switch {
		case exact:
			i = Val{K: Int, N: int64(n - 1)}
		case k.sort == uComment && k.block:
			return Val{K: Int, N: '/'}, ""
		case k.sort == uComment:
			return Val{K: Int, N: '\n'}, ""
		case k.sort == uString:
			return Val{K: Int, N: '"'}, ""
		default:
			return Val{K: Part, S: "some", N: int64(k.sort)}, ""
		}
	}
	if i.K != Int {
		return Val{}, "?"
	}
	switch {
	case i.N < 0:
		return Val{}, "an index is negative"
	case i.N == 0:
		return Val{K: Part, S: "rune", N: int64(k.first), Off: old}, ""
	case int(i.N) < n:
		if k.sort == uComment && i.N == 1 {
			r := '/'
			if k.block {
				r = '*'
			}
			return Val{K: Int, N: int64(r)}, ""
		}
		if k.word != "" {
			return Val{K: Int, N: int64(k.word[i.N])}, ""
		}
		return Val{}, ""
	case exact:
		return Val{}, "an index lies behind the end"
	}
	return Val{}, "?"
}

// Text makes a string of a unit.
func (t *Units) Text(v Val) (Val, bool) {
	if v.K != Part || v.S != "value" {
		return Val{}, false
	}
	if v.Off == old {
		return Val{K: Str, Bad: "?"}, true
	}
	return Val{K: Str, Off: v.Off, E: v.Off + 1, Known: true, S: t.content(int(v.N)), Ln: 1, N: int64(t.classes[v.N].kind) + 1}, true
}

// UnitRun is the specification's run over the units looked at.
type UnitRun struct {
	t      *Units
	place  uplace
	in     [Window]int8
	oldOut bool         // a unit out of the window, after the anchor, belongs to no definition
	com    [Window]int8 // 1: a comment, 2: space without a newline, 3: something else
	oldOdd bool         // a unit out of the window, after the anchor, is something else
}

func (g *UnitRun) Clone() Ghost {
	n := *g
	return &n
}

func (g *UnitRun) Key() string {
	return fmt.Sprintf("%v%v%v%v%v", g.place, g.in, g.oldOut, g.com, g.oldOdd)
}

func (g *UnitRun) Depth() (int, bool) { return 0, false }
func (g *UnitRun) Moved() int64       { return 0 }

// Next are the kinds of units that can follow, with where they lead.
func (g *UnitRun) Next() []int {
	var l []int
	p := g.place
	for i, k := range g.t.kinds {
		add := func(q uplace) {
			in := int8(2)
			if q.at == head || q.at == body || p.at == body {
				in = 1
			}
			l = append(l, g.t.id(uclass{i, q, in}))
		}
		open, shut := k.sort == uSymbol && k.word == "{", k.sort == uSymbol && k.word == "}"
		switch {
		case open:
			q := p
			if q.depth < 2 {
				q.depth++
			}
			switch p.at {
			case outside:
				q.at = nested
			case head:
				q.at = body
			}
			add(q)
		case shut && (p.at == outside || p.at == head):
			// nothing is said about texts with such a brace
		case shut && p.depth == 1:
			add(uplace{})
		case shut:
			add(p)
			q := p
			q.depth = 1
			add(q)
		case p.at == outside && k.word == "service" && k.sort == uWord:
			add(p)
			add(uplace{at: head})
		default:
			add(p)
		}
	}
	return l
}

func (g *UnitRun) Look(m *Machine, s *State, c int) []Ghost {
	n := *g
	last := g.in[Window-1]
	copy(n.in[1:], g.in[:Window-1])
	if s.AOff == old && !s.leaving && last == 2 {
		n.oldOut = true
	}
	odd := g.com[Window-1]
	copy(n.com[1:], g.com[:Window-1])
	if s.AOff == old && !s.leaving && odd == 3 {
		n.oldOdd = true
	}
	x := g.t.classes[c]
	n.in[0] = x.in
	switch k := g.t.kinds[x.kind]; {
	case k.sort == uComment:
		n.com[0] = 1
	case k.sort == uSpace && k.nl == 0:
		n.com[0] = 2
	default:
		n.com[0] = 3
	}
	n.place = x.place
	return []Ghost{&n}
}

// pass moves the anchor over what belongs to no definition.
func (g *UnitRun) pass(s *State) {
	for s.AOff != old && s.AOff < 0 && g.in[-s.AOff-1] == 2 {
		s.AOff++
	}
}

// outside tells whether something between off (old: the anchor) and e belongs
// to no definition.
func (g *UnitRun) outside(off, e int) bool {
	if off == old && g.oldOut {
		return true
	}
	for i, k := range g.in {
		if p := -(i + 1); k == 2 && p < e && (off == old || p >= off) {
			return true
		}
	}
	return false
}

// swallowed tells whether something between off and e is neither a comment nor
// space within a line between comments.
func (g *UnitRun) swallowed(off, e int) bool {
	if off == old && g.oldOdd {
		return true
	}
	for i, k := range g.com {
		if p := -(i + 1); p < e && (off == old || p >= off) && (k == 3 || k == 2 && p == e-1) {
			return true
		}
	}
	return false
}

func (g *UnitRun) Trim(s *State, off int) {
	for i := range g.in {
		p := -(i + 1)
		if p < off {
			after := s.AOff == old && (s.was >= 0 || p >= s.was)
			if after && g.in[i] == 2 {
				g.oldOut = true
			}
			if after && g.com[i] == 3 {
				g.oldOdd = true
			}
			g.in[i], g.com[i] = 0, 0
		}
	}
	if s.AOff != old {
		g.oldOut, g.oldOdd = false, false
	}
	s.was = 0
}

// Tokens follows the lexer over every list of units.
func Tokens(prog *ssa.Program, inRepo func(*ssa.Function) bool, root, scanner *ssa.Function, scan *Result, want func(key string) bool) (*Result, error) {
	elem, u := unitsOf(scanner)
	if u == nil {
		return nil, fmt.Errorf("the scanner's list of units was not found")
	}
	res := root.Signature.Results()
	if res.Len() != 1 {
		return nil, fmt.Errorf("%s does not return a lexer only", root)
	}
	out, tok, val := tokensOf(res.At(0).Type())
	if out == nil {
		return nil, fmt.Errorf("the lexer's list of tokens was not found")
	}
	var fns []*ssa.Function
	for _, f := range reach(root, func(f *ssa.Function) bool { return inRepo(f) && f != scanner }) {
		fns = append(fns, f)
	}
	ws := words(fns)
	t := NewUnits(elem, u, fns, ws)
	r := &Result{Appends: map[token.Pos]bool{}, Funcs: fns, Classes: len(t.kinds)}
	m := &Machine{Prog: prog, InRepo: inRepo, Input: t, Words: ws, Want: want, Cap: lengths(fns), Back: 1}
	m.Out = func(e types.Type) bool { return types.Identical(e, out) }
	m.Viol, m.Unsure = r.sink(m)
	names := tokenNames(out, tok)
	m.Call = func(m *Machine, s *State, fn *ssa.Function, args []Val) *Val {
		if fn != scanner {
			return nil
		}
		if s.Read {
			panic(undecided{"the text is scanned twice"})
		}
		s.Read = true
		st := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		id := s.next
		s.next++
		o := &Obj{st, map[string]Val{}}
		s.objs[id] = o
		f := st.Underlying().(*types.Struct)
		for i := 0; i < f.NumFields(); i++ {
			p := fmt.Sprintf(".%d", i)
			x, ok := scan.Made[p]
			switch {
			case t.IsTape(f.Field(i).Type()):
				x = Val{K: Tape}
			case !ok:
				x = zero(f.Field(i).Type())
			}
			m.store(s, Val{K: Ptr, N: id, S: p}, x, m.class[fieldKey(st, i)])
		}
		return &Val{K: Ptr, N: id}
	}
	m.Looked = func(m *Machine, s *State) { s.G.(*UnitRun).pass(s) }
	m.Append = func(m *Machine, s *State, v Val, pos token.Pos) {
		r.Appends[pos] = true
		g := s.G.(*UnitRun)
		get := func(i int) Val {
			if v.K == Struct {
				return v.L[i]
			}
			x, ok := m.load(s, Val{K: Ptr, N: v.N, S: fmt.Sprintf("%s.%d", v.S, i)}, structOf(out).Field(i).Type())
			if !ok {
				return Val{}
			}
			return x
		}
		if v.K != Struct && (v.K != Ptr || v.N < 0) {
			panic(undecided{"an unknown token is appended"})
		}
		b := get(val)
		if b.K == Part {
			b, _ = t.Text(b)
		}
		if b.K == Text {
			// a constant
			c := s.at(s.AOff)
			if c < 0 || t.classes[c].kind < 0 {
				panic(undecided{"where a constant token stands is not known"})
			}
			if k := t.kind(c); b.S != k.word {
				m.found(s, "def:content", pos, fmt.Sprintf("a token is %q instead of the text of the definition", b.S))
				panicState()
			}
			b = Val{K: Str, Off: s.AOff, E: s.AOff + 1, Known: true, S: b.S, Ln: 1, N: int64(t.classes[c].kind) + 1}
		}
		if b.K != Str || b.Bad == "?" {
			panic(undecided{"the text of a token is not known"})
		}
		bad := func(key, msg string) {
			m.found(s, key, pos, msg)
			panicState()
		}
		if b.Bad != "" {
			bad("def:content", "a token "+b.Bad)
		}
		if b.E == old {
			panic(undecided{"where a token ends is not known"})
		}
		if b.Off != old && g.in[-b.Off-1] == 2 {
			bad("def:outside", "a token is taken from outside of service definitions")
		}
		if !s.isAnchor(b.Off, b.A) {
			w := "text of a service definition is left out"
			if b.Off == old || s.AOff != old && b.Off < s.AOff {
				w = "a token repeats text of the one before it"
			}
			bad("def:start", w)
		}
		if g.outside(b.Off, b.E) {
			bad("def:outside", "a token holds text from outside of service definitions")
		}
		swallowed := g.swallowed(b.Off, b.E)
		s.setAnchor(b.E)
		g.oldOut, g.oldOdd = false, false
		g.pass(s)
		if b.N == 0 {
			m.unsure("kind:", pos, "what a token starts with is not known")
			return
		}
		k := t.kinds[b.N-1]
		want := ""
		switch k.sort {
		case uSpace:
			want = "WHITESPACE"
		case uWord:
			want = "IDENT"
		case uString:
			want = "STRING_LITERAL"
		case uComment:
			want = "COMMENT"
		case uSymbol:
			switch k.word {
			case "(":
				want = "OPEN_PAREN"
			case ")":
				want = "CLOSE_PAREN"
			case "{":
				want = "OPEN_BRACE"
			case "}":
				want = "CLOSE_BRACE"
			default:
				want = "SYMBOL"
			}
		}
		switch x := get(tok); {
		case x.K != Int:
			m.unsure("kind:", pos, "the kind of a token is not known")
		case names[x.N] != want:
			m.found(s, "kind:type", pos, fmt.Sprintf("a token which starts with %q is of type %s", t.label(k), names[x.N]))
		case k.sort == uComment && swallowed:
			m.found(s, "kind:merged", pos, "a comment token holds or ends with something which is no comment")
		case k.sort != uComment && b.Ln != 1:
			m.found(s, "kind:merged", pos, fmt.Sprintf("a token of type %s holds more than one word, space, string or symbol", want))
		}
	}
	m.Return = func(m *Machine, s *State, v Val, pos token.Pos) {
		r.Returned++
		if !s.Read {
			return
		}
		if v.K != Ptr {
			m.Unsure(pos, "what the lexer returns is not known")
			return
		}
		n := 0
		for _, x := range s.objs[v.N].f {
			if x.K == List || x.K == Nil && !s.Some {
				n++
				if x.K == List && !x.A {
					m.found(s, "def:list", pos, "the lexer does not hold all tokens")
				}
			}
		}
		if n == 0 && s.Some {
			m.Unsure(pos, "the lexer's list of tokens is not known")
		}
		if s.Know != 2 {
			m.found(s, "def:early", pos, "the lexer ends before the end of the text")
			return
		}
		if s.AOff != 0 {
			m.found(s, "def:lost", pos, "the end of a service definition is left out")
		}
	}
	m.Debug = DebugHook
	var args []Val
	for range root.Params {
		args = append(args, Val{})
	}
	err := m.Run(root, args, &UnitRun{t: t})
	r.States, r.Edges = m.States, m.Edges
	return r, err
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// unitsOf finds the list of units in what a scanner's constructor returns.
func unitsOf(root *ssa.Function) (types.Type, *unit) {
	res := root.Signature.Results()
	if res.Len() != 1 {
		return nil, nil
	}
	st := structOf(res.At(0).Type())
	if st == nil {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if x := unitOf(sl.Elem()); x != nil {
				return sl.Elem(), x
			}
		}
	}
	return nil, nil
}

// tokensOf finds the list of tokens of a lexer: its element type and the
// fields with type and text.
func tokensOf(lexer types.Type) (types.Type, int, int) {
	st := structOf(lexer)
	if st == nil {
		return nil, -1, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		e := structOf(sl.Elem())
		if e == nil {
			continue
		}
		tok, val := -1, -1
		for j := 0; j < e.NumFields(); j++ {
			t := e.Field(j).Type()
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Token" {
				tok = j
			} else if isString(t) {
				val = j
			}
		}
		if tok >= 0 && val >= 0 {
			return sl.Elem(), tok, val
		}
	}
	return nil, -1, -1
}

// tokenNames are the names of the token types.
func tokenNames(out types.Type, tok int) map[int64]string {
	r := map[int64]string{}
	n, ok := structOf(out).Field(tok).Type().(*types.Named)
	if !ok {
		return r
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				r[v] = name
			}
		}
	}
	return r
}
