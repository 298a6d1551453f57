package tape

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// What a token stands for in a definition.
const (
	rNone = iota
	rSvc
	rRpc
	rReq
	rRes
	rKind // of the main binding; then its custom block; then the same of additional bindings
	rMainCustom
	rAddKind
	rAddCustom
	rVal
	rMainCustomVal
	rAddVal
	rAddCustomVal
	rBind // lists
	rMeth
	roles
)

// tkind is one kind of token, as far as it matters.
type tkind struct {
	typ  string // the name of its type
	text string // what it holds; other: nothing it is compared with
	role int
}

// Where a definition stands.
const (
	pService = iota
	pName
	pOpen
	pBody
	pRpc
	pReq
	pReqFirst
	pReqStream
	pReqMore
	pReqDot
	pReturns
	pRes
	pResFirst
	pResStream
	pResMore
	pResDot
	pEnd
	pIn
	pO1
	pO2
	pO3
	pO4
	pO5
	pO6
	pO7
	pO8
	pO9
	pFields
	pColon
	pValue
	pCustom
	pCustom2
	pAdd
	pAdd2
	pAfter
	pSemi
	pClose
	pDone
)

// Defs are the tokens of a service definition as a tape.
type Defs struct {
	elem     types.Type
	tok, val int
	types    map[string]int64
	kinds    []tkind
	ids      map[tkind]int
	names    []string // words a name can be
	kindsOf  [2][]string
	values   []string
	strs     map[string]bool
	many     [roles]int // that number or more
}

func ident(w string) bool {
	for i, r := range w {
		if !unicode.IsLetter(r) && r != '_' && (i == 0 || !unicode.IsDigit(r)) {
			return false
		}
	}
	return w != ""
}

var keywords = map[string]bool{"service": true, "rpc": true, "returns": true, "stream": true, "option": true, "additional_bindings": true, "custom": true,
	"{": true, "}": true, "(": true, ")": true, ";": true, ":": true, ".": true, "=": true}

func newDefs(elem types.Type, tok, val int, fns []*ssa.Function) *Defs {
	t := &Defs{elem: elem, tok: tok, val: val, ids: map[tkind]int{}, types: map[string]int64{}, strs: map[string]bool{}}
	for v, n := range tokenNames(elem, tok) {
		t.types[n] = v
	}
	rule := [2]string{" selector get put post delete patch body response_body ", " kind path "}
	t.names, t.kindsOf, t.values = []string{other}, [2][]string{{other}, {other}}, []string{other, ""}
	for _, w := range words(fns) {
		t.strs[w] = true
		if ident(w) {
			t.names = append(t.names, w)
		}
		for i := range rule {
			if strings.Contains(rule[i], " "+w+" ") {
				t.kindsOf[i] = append(t.kindsOf[i], w)
			}
		}
		if !keywords[w] {
			t.values = append(t.values, w)
		}
	}
	return t
}

func (t *Defs) id(k tkind) int {
	n, ok := t.ids[k]
	if !ok {
		n = len(t.kinds)
		t.ids[k] = n
		t.kinds = append(t.kinds, k)
	}
	return n
}

func (t *Defs) IsTape(x types.Type) bool {
	s, ok := x.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), t.elem)
}

func (t *Defs) Elem(off, c int) Val { return Val{K: Elem, N: int64(c), Off: off} }

// At is an element with its age.
func (t *Defs) At(s *State, off, c int) (Val, bool) {
	v := t.Elem(off, c)
	for p := off + 1; p < 0; p++ {
		d := s.at(p)
		if d < 0 {
			return Val{}, false
		}
		v.E = t.older(t.kinds[d], t.kinds[c].role, v.E)
	}
	return v, true
}

const (
	stale = 3
	some  = 100 // at least one
)

// older is the age of something of a role after token k.
func (t *Defs) older(k tkind, role, age int) int {
	if role == rNone || age == stale {
		return age
	}
	switch {
	case k.role == rNone && k.typ == "rpc":
		if role == rRpc || role == rReq || role == rRes {
			age++
		}
	case k.role == rReq || k.role == rRes:
		if role == k.role {
			age++
		}
	case k.typ == "option":
		if role >= rKind && role <= rBind {
			return stale
		}
		if role == rMeth {
			age++
		}
	case k.typ == "additional_bindings":
		switch role {
		case rAddKind, rAddCustom, rAddVal, rAddCustomVal:
			return stale
		case rBind:
			age++
		}
	case k.role >= rKind && k.role <= rAddCustom:
		if role == k.role || role == k.role+rVal-rKind {
			age++
		}
	}
	return age
}

func (t *Defs) Label(c int) string {
	k := t.kinds[c]
	switch {
	case k.typ == "WHITESPACE":
		return " "
	case k.typ == "COMMENT":
		return "/**/"
	case k.typ == "STRING_LITERAL" && k.text == other:
		return `"…"`
	case k.typ == "STRING_LITERAL":
		return fmt.Sprintf("%q", k.text)
	case k.text == other:
		return [roles]string{"", "Svc", "Rpc", "Req", "Res", "get", "kind", "get", "kind"}[k.role]
	}
	return k.text
}

func (t *Defs) Compare(op token.Token, v Val, c Val) (bool, bool) {
	if v.K != Part || c.K != Text || op != token.EQL && op != token.NEQ {
		return false, false
	}
	k := t.kinds[v.N]
	no := func() (bool, bool) { return op == token.NEQ, true }
	switch {
	case v.Bad != "":
		return false, false
	case v.S == "value" && k.typ == "STRING_LITERAL":
		if len(c.S) < 2 || c.S[0] != '"' {
			return no()
		}
		return false, false
	case v.S == "value" && k.typ == "WHITESPACE":
		if strings.TrimSpace(c.S) != "" || c.S == "" {
			return no()
		}
		return false, false
	case v.S == "value" && k.typ == "COMMENT":
		if !strings.HasPrefix(c.S, "/") {
			return no()
		}
		return false, false
	case v.A && (v.E > 0 || keywords[c.S]):
		// which word it was is forgotten
		if v.S == "value" && !ident(c.S) {
			return no()
		}
		return false, false
	case k.text != other:
		return (k.text == c.S) == (op == token.EQL), true
	case v.S == "unq" && keywords[c.S]:
		return false, false
	case t.strs[c.S] || c.S == "" || v.S == "value" && !ident(c.S):
		return no()
	}
	return false, false
}

// Tests of a text that come out either way.
const (
	testLen = 1 << iota
	testFirst
	testLast
	testIn
)

// free tells whether a text can be anything but the words the code knows, so
// that tests of it come out either way.
func (t *Defs) free(a Val) bool {
	k := t.kinds[a.N]
	return a.K == Part && a.Bad == "" && a.E == 0 && k.text == other && k.role != rNone && (a.S == "unq" || k.typ == "IDENT")
}

// Index is a byte of a token.
func (t *Defs) Index(m *Machine, s *State, v Val, i Val) (Val, string) {
	if v.K == Nil && i.K == Int {
		return Val{}, "an index lies behind the end"
	}
	if v.K != Part || v.Bad != "" {
		return Val{}, "?"
	}
	k := t.kinds[v.N]
	last := i.K == Text && i.S == "last"
	switch {
	case t.free(v) && last:
		return Val{K: Free, S: "byte", N: testLast, Off: k.role}, ""
	case t.free(v) && i.K == Int && i.N == 0:
		return Val{K: Free, S: "byte", N: testFirst, Off: k.role}, ""
	case k.text == other || v.A || k.typ == "STRING_LITERAL" && v.S != "unq":
		return Val{}, "?"
	case last && k.text != "":
		return Val{K: Int, N: int64(k.text[len(k.text)-1])}, ""
	case i.K == Int && i.N >= 0 && int(i.N) < len(k.text):
		return Val{K: Int, N: int64(k.text[i.N])}, ""
	case i.K == Int || last:
		return Val{}, "an index lies behind the end"
	}
	return Val{}, "?"
}

func (t *Defs) Pure(name string, args []Val) (Val, bool) {
	if len(args) == 0 || args[0].K != Part {
		return Val{}, false
	}
	a := args[0]
	k := t.kinds[a.N]
	changed := func(is bool) (Val, bool) {
		if is && a.Bad == "" {
			a.Bad = "is changed"
		}
		return a, true
	}
	lit := k.typ == "STRING_LITERAL"
	switch name {
	case "strconv.Unquote":
		if lit && a.S == "value" {
			a.S = "unq"
			return Val{K: Tuple, L: []Val{a, {K: Nil}}}, true
		}
	case "len":
		switch {
		case a.Bad != "":
		case lit && a.S == "value" && k.text == "":
			return Val{K: Int, N: 2}, true
		case lit && a.S == "value":
			return Val{K: Ge1, N: 3}, true
		case k.text != other:
			return Val{K: Int, N: int64(len(k.text))}, true
		case k.role != rNone && (a.S == "value" || !a.A):
			return Val{K: Ge1, N: 1, Off: k.role, EA: t.free(a)}, true
		}
		return Val{}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if len(args) != 2 || args[1].K != Text || a.Bad != "" {
			return Val{}, true
		}
		w := args[1].S
		f, bit := strings.Contains, int64(testIn)
		switch name {
		case "strings.HasPrefix":
			f, bit = strings.HasPrefix, testFirst
		case "strings.HasSuffix":
			f, bit = strings.HasSuffix, testLast
		}
		if k.text != other && !a.A && (!lit || a.S == "unq") {
			return boolVal(f(k.text, w)), true
		}
		if t.free(a) && w != "" && (lit || ident(w) || bit != testFirst && ident("a"+w)) {
			return Val{K: Free, N: bit, Off: k.role}, true
		}
		return Val{}, true
	case "strings.ToLower":
		return changed(lit || k.role <= rRes)
	case "strings.ToUpper", "strings.Title", "strings.ToTitle":
		return changed(true)
	case "strings.TrimSpace", "strings.Clone":
		return changed(lit && a.S == "unq" && name != "strings.Clone")
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Replace", "strings.ReplaceAll":
		if lit {
			return changed(true)
		}
	}
	return Val{}, false
}

func (t *Defs) Field(v Val, path string) (Val, bool) {
	switch path {
	case fmt.Sprintf(".%d", t.tok):
		return Val{K: Int, N: t.types[t.typ(int(v.N))]}, true
	case fmt.Sprintf(".%d", t.val):
		return Val{K: Part, S: "value", N: v.N, Off: old, E: v.E}, true
	}
	return Val{}, true
}

func (t *Defs) typ(c int) string {
	switch k := t.kinds[c]; k.typ {
	case "rpc", "option", "additional_bindings", "word":
		return "IDENT"
	default:
		return k.typ
	}
}

// DefRun is the definition as far as it was looked at.
type DefRun struct {
	t       *Defs
	at      int
	scope   int // 0: the main binding, 1: an additional one
	custom  bool
	seen    [2]bool // the binding has a custom block
	ws, odd bool    // after space; a comment where not everything needs to take one
	opt     bool    // the method has options
	count   [roles]int8
	pub     [3]bool // main binding, additional one, method are in their lists
	late    string
	due     [3]due
	free    [roles]uint8 // how the last one was tested
}

func (g *DefRun) Clone() Ghost {
	n := *g
	return &n
}

func (g *DefRun) bits(role int) *uint8 { return &g.free[role] }

func (g *DefRun) Key() string {
	return fmt.Sprint(g.at, g.scope, g.custom, g.seen, g.ws, g.odd, g.opt, g.count, g.pub, g.late, g.due, g.free)
}

func (g *DefRun) Depth() (int, bool)     { return 0, false }
func (g *DefRun) Moved() int64           { return 0 }
func (g *DefRun) Trim(s *State, off int) {}
func (g *DefRun) role() int              { return rKind + 2*g.scope + b2i(g.custom) }
func (g *DefRun) entries() bool          { return g.count[rKind+2*g.scope] > 0 || g.seen[g.scope] }

// step is a way to go on.
type step struct {
	k  tkind
	to DefRun
}

func (g *DefRun) steps() []step {
	var l []step
	add := func(k tkind, f func(n *DefRun)) {
		n := *g
		n.ws = false
		f(&n)
		l = append(l, step{k, n})
	}
	to := func(at int) func(n *DefRun) { return func(n *DefRun) { n.at = at } }
	word := func(w string, f func(n *DefRun)) { add(tkind{typ: "word", text: w}, f) }
	names := func(role, at int, not string) {
		for _, w := range g.t.names {
			if w != not {
				add(tkind{typ: "IDENT", text: w, role: role}, func(n *DefRun) {
					n.at = at
					n.inc(role)
				})
			}
		}
	}
	sym := func(w string, f func(n *DefRun)) {
		typ := "SYMBOL"
		switch w {
		case "(":
			typ = "OPEN_PAREN"
		case ")":
			typ = "CLOSE_PAREN"
		case "{":
			typ = "OPEN_BRACE"
		case "}":
			typ = "CLOSE_BRACE"
		}
		add(tkind{typ: typ, text: w}, f)
	}
	if g.at == pDone {
		return nil
	}
	if !g.ws && g.at != pService {
		add(tkind{typ: "WHITESPACE", text: other}, func(n *DefRun) { n.ws = true })
	}
	if g.at != pService {
		add(tkind{typ: "COMMENT", text: other}, func(n *DefRun) {
			switch g.at {
			case pBody, pIn, pO1, pO2, pO3, pO4, pO5, pO6, pO7, pO8, pO9, pFields, pCustom, pCustom2, pAdd, pAdd2, pAfter, pSemi, pClose:
			default:
				n.odd = true
			}
		})
	}
	switch g.at {
	case pService:
		word("service", to(pName))
	case pName:
		names(rSvc, pOpen, "")
	case pOpen:
		sym("{", to(pBody))
	case pBody:
		sym("}", to(pDone))
		add(tkind{typ: "rpc", text: "rpc"}, func(n *DefRun) {
			n.at, n.opt, n.pub[2] = pRpc, false, false
		})
	case pRpc:
		names(rRpc, pReq, "")
	case pReq, pRes:
		sym("(", to(g.at+1))
	case pReqFirst, pResFirst:
		word("stream", to(g.at+1))
		fallthrough
	case pReqStream, pReqDot, pResStream, pResDot:
		if g.at < pReturns {
			names(rReq, pReqMore, "stream")
		} else {
			names(rRes, pResMore, "stream")
		}
	case pReqMore, pResMore:
		sym(".", to(g.at+1))
		sym(")", to(g.at+2))
	case pReturns:
		word("returns", to(pRes))
	case pEnd:
		sym(";", to(pBody))
		sym("{", to(pIn))
	case pIn:
		sym("}", to(pBody))
		add(tkind{typ: "option", text: "option"}, func(n *DefRun) {
			n.at, n.opt = pO1, true
			n.inc(rMeth)
			for r := rKind; r <= rBind; r++ {
				n.count[r] = 0
			}
			n.scope, n.custom, n.seen, n.pub = 0, false, [2]bool{}, [3]bool{}
		})
	case pO1:
		sym("(", to(pO2))
	case pO2:
		word("google", to(pO3))
	case pO3, pO5:
		sym(".", to(g.at+1))
	case pO4:
		word("api", to(pO5))
	case pO6:
		word("http", to(pO7))
	case pO7:
		sym(")", to(pO8))
	case pO8:
		sym("=", to(pO9))
	case pO9:
		sym("{", to(pFields))
	case pFields:
		r := g.role()
		for _, w := range g.t.kindsOf[b2i(g.custom)] {
			add(tkind{typ: "IDENT", text: w, role: r}, func(n *DefRun) {
				n.at = pColon
				n.inc(r)
				if n.pub[g.scope] || n.pub[2] {
					n.late = "a field is left out"
				}
			})
		}
		if !g.custom && !g.seen[g.scope] {
			word("custom", func(n *DefRun) { n.at, n.seen[g.scope] = pCustom, true })
		}
		if g.custom && g.count[r] > 0 {
			sym("}", func(n *DefRun) {
				n.custom = false
				n.shut(r)
			})
		}
		if !g.custom && g.scope == 1 && g.entries() {
			sym("}", func(n *DefRun) {
				n.at = pAfter
				n.shut(r)
			})
		}
		if !g.custom && g.scope == 0 && g.entries() {
			sym("}", func(n *DefRun) {
				n.at = pSemi
				n.shut(r)
			})
			g.additional(add)
		}
	case pColon:
		sym(":", to(pValue))
	case pValue:
		for _, w := range g.t.values {
			add(tkind{typ: "STRING_LITERAL", text: w, role: g.role() + rVal - rKind}, to(pFields))
		}
	case pCustom, pAdd:
		sym(":", to(g.at+1))
		fallthrough
	case pCustom2, pAdd2:
		sym("{", func(n *DefRun) {
			if g.at < pAdd {
				n.custom = true
			}
			n.at = pFields
		})
	case pAfter:
		sym("}", func(n *DefRun) {
			n.at = pSemi
			n.shut(rBind)
		})
		g.additional(add)
	case pSemi:
		sym(";", to(pClose))
	case pClose:
		sym("}", to(pBody))
	}
	return l
}

func (g *DefRun) additional(add func(k tkind, f func(n *DefRun))) {
	add(tkind{typ: "additional_bindings", text: "additional_bindings"}, func(n *DefRun) {
		n.shut(rKind)
		n.at, n.scope, n.seen[1] = pAdd, 1, false
		n.inc(rBind)
		for _, r := range []int{rAddKind, rAddCustom, rAddVal, rAddCustomVal} {
			n.count[r] = 0
		}
		if n.pub[2] {
			n.late = "an additional binding is left out"
		}
		n.pub[1] = false
	})
}

// shut tells that no more of a role follow.
func (g *DefRun) shut(r int) {
	if g.count[r] > 0 && g.t.many[r] == 2 {
		g.count[r] = some
	}
}

func (g *DefRun) inc(r int) {
	if r >= rKind && int(g.count[r]) < g.t.many[r] {
		g.count[r]++
	}
}

func (g *DefRun) Next() []int {
	var l []int
	for _, s := range g.steps() {
		l = append(l, g.t.id(s.k))
	}
	return l
}

func (g *DefRun) Look(m *Machine, s *State, c int) []Ghost {
	k := g.t.kinds[c]
	for _, x := range g.steps() {
		if x.k == k {
			n := x.to
			n.free[k.role] = 0
			return []Ghost{&n}
		}
	}
	panic(undecided{"an impossible token"})
}

// parsing follows a parser.
type parsing struct {
	t       *Defs
	pkg     *types.Package
	appends map[token.Pos]bool
}

// entry tells which of the parser's structs a type points to.
func (p *parsing) entry(t types.Type) string {
	q, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := q.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() != p.pkg {
		return ""
	}
	switch s := n.Obj().Name(); s {
	case "Field", "HTTPBinding", "Method":
		return s
	}
	return ""
}

func (p *parsing) get(m *Machine, s *State, v Val, typ, field string) Val {
	o := p.pkg.Scope().Lookup(typ)
	if o == nil || v.K != Ptr || v.N < 0 {
		return Val{}
	}
	st := structOf(o.Type())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			x, ok := m.load(s, Val{K: Ptr, N: v.N, S: fmt.Sprintf("%s.%d", v.S, i)}, st.Field(i).Type())
			if ok {
				return x
			}
		}
	}
	return Val{}
}

func unknown(what string) { panic(undecided{what + " is not known"}) }

func none(v Val) bool { return v.K == Nil || v.K == Lit && len(v.L) == 0 }

// taken checks that a text is the one of a token with the role.
func (p *parsing) taken(v Val, what string, role int) (age int, bad string) {
	switch {
	case v.K == Text && v.S == "":
		return 0, what + " is not set"
	case v.K == Text:
		return 0, fmt.Sprintf("%s is %q whatever the definition says", what, v.S)
	case (v.K == Str || v.K == Buf) && v.Bad != "" && v.Bad != "?":
		return 0, what + " " + v.Bad
	case v.K != Part || v.Bad == "?":
		unknown(what)
	case v.Bad != "":
		return 0, what + " " + v.Bad
	}
	k := p.t.kinds[v.N]
	switch {
	case k.role != role:
		return 0, fmt.Sprintf("%s is taken from another place of the definition (%s)", what, p.t.Label(int(v.N)))
	case role >= rVal && v.S != "unq":
		return 0, what + " is the literal, not its value"
	}
	return v.E, ""
}

// whole tells whether a list holds everything of a role.
func (p *parsing) whole(g *DefRun, v Val, role int, what string) string {
	switch {
	case none(v):
		if g.count[role] > 0 {
			return "lacks " + what
		}
	case v.K != List:
		unknown("a list")
	case v.Bad == "?":
		unknown("a list")
	case v.Bad != "":
		return v.Bad
	case v.S != fmt.Sprint(role):
		return "holds something else than " + what
	case v.E == 0 && g.count[role] > 0 || v.E > 0 && (!v.A || v.N != 0):
		return "lacks some of " + what
	}
	return ""
}

// scope of a binding's list.
func listRole(v Val) int {
	r := 0
	if v.K == List {
		fmt.Sscan(v.S, &r)
	}
	return r
}

// one makes the list of one entry.
func (p *parsing) one(m *Machine, s *State, e Val, typ string, pos token.Pos) Val {
	g := s.G.(*DefRun)
	fail := func(msg string) {
		m.found(s, "parse:"+strings.ToLower(typ), pos, msg)
		panicState()
	}
	if e.K == Nil {
		fail("an entry is nil")
	}
	if e.K != Ptr || e.N < 0 || s.objs[e.N] == nil || e.S != "" {
		unknown("what is appended")
	}
	o := s.objs[e.N]
	if g.late != "" {
		fail(g.late)
	}
	if _, ok := o.f["!pub"]; ok {
		fail("one " + typ + " is in a list twice")
	}
	o.f["!pub"] = Val{K: Bool, N: 1}
	r, bad, unset := p.check(m, s, e, typ)
	switch {
	case bad == "":
	case !unset:
		fail(bad)
	case g.due[dueOf(typ)].n == 2:
		unknown("what is appended")
	default:
		// it may be filled in yet
		d := &g.due[dueOf(typ)]
		if d.n > 0 && typ != "HTTPBinding" {
			fail(d.msg)
		}
		*d = due{d.n + 1, bad, pos}
		o.f["!due"] = Val{K: Text, S: r.S + fmt.Sprint(r.EA)}
	}
	return r
}

// due are entries in lists which lack something so far.
type due struct {
	n   int
	msg string
	pos token.Pos
}

func dueOf(typ string) int { return strings.Index("FHM", typ[:1]) }

// check tells what is wrong with an entry, and whether that is that something
// is not set.
func (p *parsing) check(m *Machine, s *State, e Val, typ string) (r Val, bad string, unset bool) {
	g := s.G.(*DefRun)
	unset = true
	no := func(msg string, isUnset bool) bool {
		if msg != "" && (bad == "" || unset && !isUnset) {
			bad, unset = msg, isUnset
		}
		return msg == ""
	}
	empty := func(v Val) bool { return v.K == Text && v.S == "" }
	r = Val{K: List, E: 1}
	switch typ {
	case "Field":
		k, v := p.get(m, s, e, typ, "Kind"), p.get(m, s, e, typ, "Value")
		role := rKind
		for _, x := range []Val{k, v} {
			if x.K == Part {
				if x := p.t.kinds[x.N].role; x >= rKind && x <= rAddCustomVal {
					role = rKind + (x-rKind)%(rVal-rKind)
					break
				}
			}
		}
		if empty(k) && empty(v) {
			// it is the last one
			role = g.role()
		}
		age, msg := p.taken(k, "the kind of a field", role)
		no(msg, empty(k))
		a, msg2 := p.taken(v, "the value of a field", role+rVal-rKind)
		no(msg2, empty(v))
		if msg != "" {
			age = a
		}
		switch {
		case msg2 != "":
		case age == stale:
			no("a field is taken from another binding", false)
		case a != age:
			no("a field has the value of another one", false)
		}
		r.S, r.N = fmt.Sprint(role), int64(age)
		if age > 0 || g.count[role] == some {
			unknown("which field of its binding is appended")
		}
		r.A = g.count[role] == 1
	case "HTTPBinding":
		f, c := p.get(m, s, e, typ, "Fields"), p.get(m, s, e, typ, "CustomHTTPPattern")
		scope := -1
		if x := listRole(f); x != 0 {
			scope = (x - rKind) / 2
		} else if x := listRole(c); x != 0 {
			scope = (x - rKind) / 2
		}
		if none(f) && none(c) {
			// most likely
			scope = b2i(g.scope == 1 && g.at < pSemi)
			no("a binding has no fields", true)
		}
		if f.K == List && f.Bad != "" {
			no("the list of fields of a binding "+f.Bad, false)
		}
		if c.K == List && c.Bad != "" {
			no("the custom pattern of a binding "+c.Bad, false)
		}
		if scope < 0 || scope > 1 {
			unknown("which binding is appended")
		}
		if msg := p.whole(g, f, rKind+2*scope, "the fields of the binding"); msg != "" {
			no("the list of fields of a binding "+msg, none(f))
		}
		if msg := p.whole(g, c, rMainCustom+2*scope, "the custom pattern of the binding"); msg != "" {
			no("the custom pattern of a binding "+msg, none(c))
		}
		g.pub[scope] = g.pub[scope] || bad == ""
		r.S = fmt.Sprint(rBind)
		if scope == 0 {
			r.E, r.EA = 0, true
		} else {
			r.A = g.count[rBind] == 1
		}
	case "Method":
		for _, x := range []struct {
			f    string
			role int
		}{{"Name", rRpc}, {"RequestType", rReq}, {"ResponseType", rRes}} {
			v := p.get(m, s, e, typ, x.f)
			age, msg := p.taken(v, "the "+x.f+" of a method", x.role)
			if msg == "" && age > 0 {
				msg = "the " + x.f + " of a method is that of another one, or not the last part of its name"
			}
			no(msg, empty(v))
		}
		b := p.get(m, s, e, typ, "HTTPBindings")
		r.S = fmt.Sprint(rMeth)
		if !g.opt {
			if b.K == List {
				no("a method has the bindings of another one", false)
			}
			// not needed, but no harm
			r.E = 0
			break
		}
		msg := p.whole(g, b, rBind, "the additional bindings")
		if msg == "" && (none(b) || !b.EA) {
			msg = "lacks the main binding"
		}
		if msg != "" {
			msg = "the list of bindings of a method " + msg
		}
		no(msg, none(b))
		g.pub[2] = g.pub[2] || bad == ""
		r.A = g.count[rMeth] == 1
	}
	return r, bad, unset
}

// filled checks an entry again of which a part was set.
func (p *parsing) filled(m *Machine, s *State, id int64, typ string) {
	o := s.objs[id]
	g := s.G.(*DefRun)
	r, bad, unset := p.check(m, s, Val{K: Ptr, N: id}, typ)
	if o.f["!due"].S != r.S+fmt.Sprint(r.EA) {
		unknown("which entry it is")
	}
	switch {
	case bad == "":
		delete(o.f, "!due")
		if d := &g.due[dueOf(typ)]; d.n > 1 {
			d.n--
		} else {
			*d = due{}
		}
	case !unset:
		m.found(s, "parse:"+strings.ToLower(typ), m.pos, bad)
		panicState()
	}
}

// join appends the list b to a.
func (p *parsing) join(a, b Val) Val {
	if none(a) {
		return b
	}
	if none(b) {
		return a
	}
	if a.Bad != "" {
		return a
	}
	if b.Bad != "" {
		return b
	}
	if a.S != b.S {
		a.Bad = "mixes entries from different places"
		return a
	}
	if a.EA && b.EA {
		a.Bad = "holds the main binding twice"
		return a
	}
	a.EA = a.EA || b.EA
	switch {
	case b.E == 0:
	case a.E == 0:
		a.E, a.A, a.N = b.E, b.A, b.N
	case a.N == stale || b.N == stale || b.E >= p.t.many[listRole(b)] || a.E == some:
		a.Bad = "?"
		if a.N <= b.N {
			a.Bad = "holds an entry twice or out of order"
		}
	case a.N < b.N+int64(b.E):
		a.Bad = "holds an entry twice or out of order"
	case a.N > b.N+int64(b.E):
		a.Bad = "lacks an entry in the middle"
	default:
		a.N = b.N
		if a.E += b.E; a.E > p.t.many[listRole(a)] {
			a.E = p.t.many[listRole(a)]
		}
	}
	return a
}

// size is how long a list is at least, and whether that is all.
func (p *parsing) size(v Val) (int, bool) {
	switch v.E {
	case some:
		return 1 + b2i(v.EA), false
	case p.t.many[listRole(v)]:
		return v.E + b2i(v.EA), false
	}
	return v.E + b2i(v.EA), true
}

// lengths are how long a list must at least be for nothing to be compared with
// its length.
func (p *parsing) lengths(fns []*ssa.Function) map[string]int {
	n := map[string]int{"Field": 2, "HTTPBinding": 2, "Method": 2}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var l, c ssa.Value
				switch x := ins.(type) {
				case *ssa.BinOp:
					l, c = x.X, x.Y
					if _, ok := l.(*ssa.Const); ok {
						l, c = c, l
					}
				case *ssa.Slice:
					l, c = x.X, x.High
					if x.High == nil {
						c = x.Low
					}
				}
				if call, ok := l.(*ssa.Call); ok {
					if f, ok := call.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
						continue
					}
					l = call.Call.Args[0]
				}
				if l == nil || c == nil {
					continue
				}
				sl, ok := l.Type().Underlying().(*types.Slice)
				k, ok2 := c.(*ssa.Const)
				if !ok || !ok2 || k.Value == nil {
					continue
				}
				if typ, v := p.entry(sl.Elem()), constVal(k); typ != "" && v.K == Int && v.N >= 0 && v.N < 8 && int(v.N)+2 > n[typ] {
					n[typ] = int(v.N) + 2
				}
			}
		}
	}
	return n
}

// parser finds what a parser of definitions works with.
func parser(inRepo func(*ssa.Function) bool, root *ssa.Function) (lexer types.Type, t *Defs, p *parsing, fns []*ssa.Function, err error) {
	sig := root.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		err = fmt.Errorf("%s is not a parser of tokens", root)
		return
	}
	lexer = sig.Params().At(0).Type()
	out, tok, val := tokensOf(lexer)
	if out == nil {
		err = fmt.Errorf("the lexer's list of tokens was not found")
		return
	}
	fns = reach(root, inRepo)
	t = newDefs(out, tok, val, fns)
	for _, n := range []string{"IDENT", "WHITESPACE", "COMMENT", "STRING_LITERAL", "SYMBOL", "OPEN_PAREN", "CLOSE_PAREN", "OPEN_BRACE", "CLOSE_BRACE"} {
		if _, ok := t.types[n]; !ok {
			err = fmt.Errorf("the token type %s was not found", n)
			return
		}
	}
	p = &parsing{t: t, pkg: root.Pkg.Pkg}
	for _, n := range []string{"Field", "HTTPBinding", "Method", "Service"} {
		if o := p.pkg.Scope().Lookup(n); o == nil || structOf(o.Type()) == nil {
			err = fmt.Errorf("the type %s was not found", n)
			return
		}
	}
	return
}

// lexer makes the lexer at its start.
func (p *parsing) lexer(m *Machine, lexer types.Type) func(s *State) []Val {
	return func(s *State) []Val {
		st := lexer.Underlying().(*types.Pointer).Elem()
		id := s.next
		s.next++
		s.objs[id] = &Obj{st, map[string]Val{}}
		f := structOf(lexer)
		for i := 0; i < f.NumFields(); i++ {
			x := zero(f.Field(i).Type())
			switch {
			case p.t.IsTape(f.Field(i).Type()):
				x = Val{K: Tape}
			case x.K == Nil:
				x = Val{}
			}
			m.store(s, Val{K: Ptr, N: id, S: fmt.Sprintf(".%d", i)}, x, m.class[fieldKey(st, i)])
		}
		return []Val{{K: Ptr, N: id}}
	}
}

// Parse follows the parser over every definition.
func Parse(prog *ssa.Program, inRepo func(*ssa.Function) bool, root *ssa.Function, want func(key string) bool) (*Result, error) {
	lexer, t, p, fns, err := parser(inRepo, root)
	if err != nil {
		return nil, err
	}
	desc := map[string]string{} // what is not followed
	for _, n := range []string{"Field", "HTTPBinding", "Method"} {
		st := structOf(p.pkg.Scope().Lookup(n).Type())
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Description" {
				desc[n] = fmt.Sprintf(".%d", i)
			}
		}
	}
	n := p.lengths(fns)
	for r := range t.many {
		switch {
		case r == rMeth:
			t.many[r] = n["Method"]
		case r == rBind:
			t.many[r] = n["HTTPBinding"]
		default:
			t.many[r] = n["Field"]
		}
	}
	r := &Result{Appends: map[token.Pos]bool{}, Funcs: fns}
	m := &Machine{Prog: prog, InRepo: inRepo, Input: t, Words: words(fns), Want: want, Cap: lengths(fns), Back: 1}
	m.Viol, m.Unsure = r.sink(m)
	m.List = func(m *Machine, s *State, elem types.Type, a, b Val, pos token.Pos) (Val, bool) {
		typ := p.entry(elem)
		if typ == "" {
			return Val{}, false
		}
		r.Appends[pos] = true
		if !none(a) && a.K != List || !none(b) && b.K != List {
			unknown("a list of entries")
		}
		if a.K == Nil && b.K == Lit {
			return a, true
		}
		return p.join(a, b), true
	}
	m.ListOf = func(m *Machine, s *State, elem types.Type, l []Val, pos token.Pos) (Val, bool) {
		typ := p.entry(elem)
		if typ == "" {
			return Val{}, false
		}
		if !pos.IsValid() {
			pos = m.pos
		}
		a := Val{K: Lit}
		for _, e := range l {
			a = p.join(a, p.one(m, s, e, typ, pos))
		}
		return a, true
	}
	m.ListLen = func(v Val) Val {
		n, all := p.size(v)
		switch {
		case v.Bad != "":
			return Val{}
		case all:
			return Val{K: Int, N: int64(n)}
		}
		return Val{K: Ge1, N: int64(n)}
	}
	m.ListCut = func(m *Machine, s *State, v Val, lo, hi Val, pos token.Pos) Val {
		n, all := p.size(v)
		if v.Bad != "" {
			return v
		}
		if lo.K == Int && lo.N == 0 && hi.K == Nil {
			return v
		}
		cut := v
		cut.Bad = "is cut"
		if lo.K == Int && lo.N > 0 && hi.K == Nil && (int(lo.N) < n || !all) {
			return cut
		}
		if lo.K == Int && lo.N == 0 && hi.K == Int {
			switch {
			case all && int(hi.N) == n:
				return v
			case int(hi.N) < n:
				return cut
			}
		}
		return Val{}
	}
	m.Stored = func(m *Machine, s *State, a, v Val) func() {
		o := s.objs[a.N]
		if _, ok := o.f["!pub"]; !ok {
			return nil
		}
		n, ok := o.t.(*types.Named)
		var i int
		if k, _ := fmt.Sscanf(a.S, ".%d", &i); !ok || k != 1 || a.S != fmt.Sprintf(".%d", i) || n.Obj().Pkg() != p.pkg {
			return nil
		}
		st := structOf(n)
		if st == nil || i >= st.NumFields() {
			return nil
		}
		switch n.Obj().Name() + "." + st.Field(i).Name() {
		case "Field.Kind", "Field.Value", "HTTPBinding.Fields", "HTTPBinding.CustomHTTPPattern", "Method.Name", "Method.RequestType", "Method.ResponseType", "Method.HTTPBindings":
		default:
			return nil
		}
		was, _ := m.load(s, a, st.Field(i).Type())
		var x, y strings.Builder
		id := func(n int64) int64 { return n }
		was.key(&x, id)
		v.key(&y, id)
		switch {
		case x.String() == y.String():
		case o.f["!due"].K == Text && (none(was) || was.K == Text && was.S == ""):
			return func() { p.filled(m, s, a.N, n.Obj().Name()) }
		case was.K == Top || v.K == Top || was.K == Nil || was.K == Lit || was.K == Text:
			unknown("what an entry which is in a list already holds")
		default:
			m.found(s, "parse:changed", m.pos, fmt.Sprintf("%s.%s of an entry which is in a list already is changed", n.Obj().Name(), st.Field(i).Name()))
			panicState()
		}
		return nil
	}
	m.Looked = func(m *Machine, s *State) {
		k := t.kinds[s.Cls[0]]
		s.values(func(v *Val) {
			switch v.K {
			case Free, Ge1:
				if v.K == Free || v.EA {
					*v = Val{}
				}
			case Part, Elem, Deep:
				x := t.kinds[v.N]
				if x.role == rNone {
					switch {
					case v.K != Part:
					case x.text != other && v.S == "value" && v.Bad == "":
						*v = Val{K: Text, S: x.text}
					default:
						*v = Val{}
					}
					return
				}
				v.E = t.older(k, x.role, v.E)
				if v.K != Part || x.role >= rKind && v.E == 0 {
					return
				}
				// whether it is a keyword is forgotten; what it is else only
				// when there is another one
				if v.E > 0 || keywords[x.text] {
					x.text = other
					v.N = int64(t.id(x))
				}
				v.A = true
			case List:
				v.N = int64(t.older(k, listRole(*v), int(v.N)))
				if v.A && v.N == 0 && v.E > 0 && s.G.(*DefRun).count[listRole(*v)] == some {
					v.E = some
				}
			}
		})
		for _, o := range s.objs {
			if n, ok := o.t.(*types.Named); ok && n.Obj().Pkg() == p.pkg {
				if i, ok := desc[n.Obj().Name()]; ok {
					o.f[i] = Val{}
				}
			}
		}
	}
	m.Return = func(m *Machine, s *State, v Val, pos token.Pos) {
		r.Returned++
		g := s.G.(*DefRun)
		if v.K != Tuple || len(v.L) != 2 {
			m.Unsure(pos, "what the parser returns is not known")
			return
		}
		e := v.L[1]
		switch {
		case e.K != Err && e.K != Nil:
			m.Unsure(pos, "whether the parser returns an error is not known")
		case e.K == Err:
			switch {
			case g.odd || s.Know == 2 && g.at != pDone:
			default:
				m.found(s, "parse:error", pos, "a definition is rejected")
			}
		case g.at != pDone && s.Know == 2:
			m.found(s, "parse:cut", pos, "a definition that is cut off is accepted")
		case g.at != pDone:
			m.found(s, "parse:early", pos, "the parser ends before the end of the definition")
		case g.due[0].n+g.due[1].n+g.due[2].n > 0:
			for i, d := range g.due {
				if d.n > 0 {
					m.found(s, "parse:"+[]string{"field", "httpbinding", "method"}[i], d.pos, d.msg)
				}
			}
		default:
			fail := func(msg string) { m.found(s, "parse:service", pos, msg) }
			x := v.L[0]
			if x.K == Nil {
				fail("no service is returned")
				return
			}
			if g.late != "" {
				fail(g.late)
				return
			}
			if _, bad := p.taken(p.get(m, s, x, "Service", "Name"), "the name of the service", rSvc); bad != "" {
				fail(bad)
				return
			}
			if bad := p.whole(g, p.get(m, s, x, "Service", "Methods"), rMeth, "the methods with bindings"); bad != "" {
				fail("the list of methods " + bad)
			}
		}
	}
	m.Debug = DebugHook
	m.setup = p.lexer(m, lexer)
	err = m.Run(root, nil, &DefRun{t: t})
	r.States, r.Edges, r.Classes = m.States, m.Edges, len(t.kinds)
	return r, err
}
