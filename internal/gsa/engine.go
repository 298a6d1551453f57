package gsa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is something a function does that is visible outside its locals.
type Effect struct {
	Kind     string // call, store, mapupdate, delete, panic, exit, go, send, assert
	Name     string // callee, for calls and exits
	Cond     Node
	Pos      token.Pos
	Fn       *ssa.Function
	Instr    ssa.Instruction
	Args     []GV
	Res      *Term
	Err      GV // the error among the results
	Loops    []*Loop
	Seq      int
	Deferred bool
	Stack    []string
}

// Exit is an early exit edge of a loop.
type Exit struct {
	From, To *ssa.BasicBlock
	Cond     Node
}

// PhiInfo describes a value carried around a loop.
type PhiInfo struct {
	Loop       *Loop
	Term       *Term
	Init, Next GV
	Post       GV
	Ssa        *ssa.Phi
	Key        *Term // memory location, for carried memory
}

// Loop is the record of one evaluated loop.
type Loop struct {
	ID        string
	Fn        *ssa.Function
	Head      *ssa.BasicBlock
	Kind      string // slice, map, string, count, "" (no range test found)
	Over      *Term  // collection ranged over, or the bound for count
	Offset    int64  // added to the iteration number where compared
	Entry     Node
	Back      Node
	none      Node // when there is nothing to iterate over
	Exits     []Exit
	HasNormal bool
	Phis      []*PhiInfo
	Mem       []*PhiInfo
	Parent    *Loop
	Pos       token.Pos
	Unrolled  int
	Params    []*Term // of the callback, for walks
	Results   []GV    // of the callback, for walks
	Err       *Term   // what the walk returns
	OverG     GV      // Over with its conditions
	Overs     []*Term // the slices its number of iterations is compared with
	callback  *Closure
	state     memState
	body      map[*ssa.BasicBlock]bool
	normal    [][2]*ssa.BasicBlock
}

// Policy tells what is inlined.
type Policy struct {
	// Inline says whether a function with a body is evaluated in place.
	Inline func(fn *ssa.Function) bool
	// Pure says whether an opaque function has neither effects nor state.
	Pure func(name string) bool
	// Fallible says of which pure functions failures are recorded.
	Fallible func(name string) bool
	// MaxDepth bounds the inlining depth.
	MaxDepth int
	// Recur is how many recursive activations are followed.
	Recur int
	// Go says whether goroutines are followed, as if they ran at once.
	Go bool
}

type mapEntry struct {
	Key  *Term
	Val  GV
	Cond Node // when it was made, given that the map was
}

type trackedMap struct {
	entries []mapEntry // in the order made; a later one hides an earlier one of the same key
	dynamic bool
	made    Node // when the map was made
}

// Engine holds the state of an analysis.
type Engine struct {
	Prog       *ssa.Program
	B          *BDD
	Pol        Policy
	terms      map[string]*Term
	vars       []*Term
	varOf      map[*Term]int
	mem        map[*Term]GV
	snaps      map[*Term]map[string]GV
	maps       map[*Term]*trackedMap
	mapVer     map[*Term]string
	havoc      map[*Term][]havocRec
	allocLoops map[*Term]map[string]bool
	// RecordLog records log calls as effects.
	RecordLog bool
	// RecordIndex records index and slice operations as effects.
	RecordIndex bool

	Effects []*Effect
	LoopTab map[string]*Loop
	phiTab  map[*Term]*PhiInfo
	loopStk []*Loop
	callStk []*ssa.Function
	seq     int
	ctxIDs  map[string]int
	allocs  []*Term              // allocation log (for loops)
	globals map[*ssa.Global]bool // mutated outside init
	// Funcs counts function activations evaluated, by function.
	Funcs map[*ssa.Function]int
	// Notes lists imprecisions met.
	Notes map[string]bool
	// CallHook may handle a call before the models (returns handled).
	CallHook func(e *Engine, name string, args []GV, cond Node, pos token.Pos) (res []GV, handled bool)
	// Slashless tells which values are single path elements.
	Slashless func(t *Term) bool
	// InlineHook is told about each inlined activation.
	natLoops map[*ssa.Function]*loopNest
	satMemo  map[Node]bool
}

// New returns an engine for prog.
func New(prog *ssa.Program, pol Policy) *Engine {
	e := &Engine{Prog: prog, B: NewBDD(), Pol: pol,
		terms: map[string]*Term{}, varOf: map[*Term]int{}, mem: map[*Term]GV{},
		snaps: map[*Term]map[string]GV{}, maps: map[*Term]*trackedMap{}, mapVer: map[*Term]string{},
		havoc: map[*Term][]havocRec{}, allocLoops: map[*Term]map[string]bool{}, LoopTab: map[string]*Loop{}, phiTab: map[*Term]*PhiInfo{},
		ctxIDs: map[string]int{}, globals: map[*ssa.Global]bool{}, Funcs: map[*ssa.Function]int{},
		Notes: map[string]bool{}, natLoops: map[*ssa.Function]*loopNest{}, satMemo: map[Node]bool{}}
	if e.Pol.MaxDepth == 0 {
		e.Pol.MaxDepth = 24
	}
	return e
}

func (e *Engine) note(format string, a ...any) { e.Notes[fmt.Sprintf(format, a...)] = true }

// V is an unconditional value.
func V(t *Term) GV { return GV{{True, t}} }

// ---- conditions -----------------------------------------------------------

// Atom returns the condition node of a boolean term.
func (e *Engine) Atom(t *Term) Node {
	if b, ok := t.BoolVal(); ok {
		if b {
			return True
		}
		return False
	}
	switch t.Op {
	case "not":
		return e.B.Not(e.Atom(t.Args[0]))
	case "boolnode":
		return t.X.(Node)
	case "box":
		return e.NodeOf(t.X.(GV))
	}
	v, ok := e.varOf[t]
	if !ok {
		v = len(e.vars)
		e.vars = append(e.vars, t)
		e.varOf[t] = v
	}
	return e.B.Var(v)
}

// VarTerm returns the atom of BDD variable v.
func (e *Engine) VarTerm(v int) *Term { return e.vars[v] }

// NodeOf converts a boolean value to a condition.
func (e *Engine) NodeOf(g GV) Node {
	r := False
	for _, a := range g {
		r = e.B.Or(r, e.B.And(a.C, e.Atom(a.T)))
	}
	return r
}

// BoolGV converts a condition to a boolean value.
func (e *Engine) BoolGV(n Node) GV {
	if n == True || n == False {
		return V(e.Bool(n == True))
	}
	return GV{{n, e.Bool(true)}, {e.B.Not(n), e.Bool(false)}}
}

// Axioms returns the theory constraints among the atoms in the support of n.
func (e *Engine) Axioms(ns ...Node) Node {
	vars := map[int]bool{}
	for _, n := range ns {
		for _, v := range e.supp(n) {
			vars[v] = true
		}
	}
	var vs []int
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	ax := True
	type grp struct{ vs []int }
	excl := map[string][]int{}
	nonnil := map[*Term]int{}
	for _, v := range vs {
		t := e.vars[v]
		switch t.Op {
		case "eq":
			if t.Args[1].IsNil() {
				nonnil[t.Args[0]] = v
			} else if t.Args[1].IsConst() {
				k := "eq" + strconv.Itoa(t.Args[0].ID)
				excl[k] = append(excl[k], v)
			}
		case "typeis":
			k := "ty" + strconv.Itoa(t.Args[0].ID)
			excl[k] = append(excl[k], v)
		}
	}
	keys := make([]string, 0, len(excl))
	for k := range excl {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := excl[k]
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				ax = e.B.And(ax, e.B.Not(e.B.And(e.B.Var(g[i]), e.B.Var(g[j]))))
			}
			t := e.vars[g[i]]
			if t.Op == "typeis" {
				if nv, ok := nonnil[t.Args[0]]; ok {
					ax = e.B.And(ax, e.B.Not(e.B.And(e.B.Var(g[i]), e.B.Var(nv))))
				}
			}
		}
	}
	// errors.Is(e, x) implies e != nil; has(m,k) relations; lt/eq on one term
	for _, v := range vs {
		t := e.vars[v]
		if t.Op == "call" && t.CallName() == "errors.Is" && len(t.Args) == 2 {
			if nv, ok := nonnil[t.Args[0]]; ok {
				ax = e.B.And(ax, e.B.Not(e.B.And(e.B.Var(v), e.B.Var(nv))))
			}
		}
		if t.Op == "eq" && !t.Args[1].IsNil() && nonnilTerm(t.Args[1]) {
			// x == <a non-nil value> implies x != nil
			if nv, ok := nonnil[t.Args[0]]; ok {
				ax = e.B.And(ax, e.B.Not(e.B.And(e.B.Var(v), e.B.Var(nv))))
			}
		}
		if t.Op == "lt" {
			// lt(x,c1) implies lt(x,c2) for c1<c2; eq(x,c)
			if c1, ok := t.Args[1].IntVal(); ok {
				for _, w := range vs {
					u := e.vars[w]
					if u == t || len(u.Args) < 2 || u.Args[0] != t.Args[0] {
						continue
					}
					c2, ok := u.Args[1].IntVal()
					if !ok {
						continue
					}
					switch {
					case u.Op == "lt" && c1 <= c2:
						ax = e.B.And(ax, e.B.Or(e.B.Not(e.B.Var(v)), e.B.Var(w)))
					case u.Op == "eq" && c2 < c1:
						ax = e.B.And(ax, e.B.Or(e.B.Not(e.B.Var(w)), e.B.Var(v)))
					case u.Op == "eq" && c2 >= c1:
						ax = e.B.And(ax, e.B.Not(e.B.And(e.B.Var(w), e.B.Var(v))))
					}
				}
			}
		}
	}
	return ax
}

func nonnilTerm(t *Term) bool {
	if t.Op == "load" && t.Args[0].Op == "global" {
		a := t.Args[0].Aux
		// package error variables: io.EOF, filepath.SkipDir, ErrX
		return strings.HasSuffix(a, ".EOF") || strings.HasSuffix(a, ".SkipDir") || strings.Contains(a, ".Err")
	}
	return false
}

// Sat reports whether the conjunction is satisfiable under the axioms.
func (e *Engine) Sat(ns ...Node) bool {
	n := e.B.And(ns...)
	if n <= 1 {
		return n == True
	}
	if r, ok := e.satMemo[n]; ok {
		return r
	}
	r := e.B.And(n, e.Axioms(n)) != False
	e.satMemo[n] = r
	return r
}

// Implies reports whether a implies b under the axioms.
func (e *Engine) Implies(a, b Node) bool {
	d := e.B.AndNot(a, b)
	if d == False {
		return true
	}
	return e.B.And(d, e.Axioms(a, b)) == False
}

// Equiv reports equivalence under the axioms.
func (e *Engine) Equiv(a, b Node) bool { return e.Implies(a, b) && e.Implies(b, a) }

// Witness renders an assignment satisfying n (with axioms).
func (e *Engine) Witness(n Node) string {
	as := e.B.OneSat(e.B.And(n, e.Axioms(n)))
	var vs []int
	for v := range as {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var s []string
	for _, v := range vs {
		x := e.vars[v].String()
		if len(x) > 140 {
			x = x[:137] + "..."
		}
		if !as[v] {
			x = "¬" + x
		}
		s = append(s, x)
	}
	if len(s) > 14 {
		s = append(s[:14], "…")
	}
	return strings.Join(s, " ∧ ")
}

// ---- guarded values ---------------------------------------------------------

func (e *Engine) norm(g GV) GV {
	if len(g) <= 1 {
		if len(g) == 1 && g[0].C != False {
			return g
		}
		return g
	}
	out := make(GV, 0, len(g))
	idx := map[*Term]int{}
	for _, a := range g {
		if a.C == False {
			continue
		}
		if i, ok := idx[a.T]; ok {
			out[i].C = e.B.Or(out[i].C, a.C)
		} else {
			idx[a.T] = len(out)
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		out[0].C = True
	}
	return out
}

// Under restricts g to the alternatives possible under cond.
func (e *Engine) Under(g GV, cond Node) GV {
	var out GV
	for _, a := range g {
		c := e.B.And(a.C, cond)
		if c != False && e.Sat(c) {
			out = append(out, Alt{a.C, a.T})
		}
	}
	return out
}

// One returns the only alternative of g, or nil.
func (g GV) One() *Term {
	if len(g) == 1 {
		return g[0].T
	}
	return nil
}

// Merge selects g1 under c and g2 otherwise.
func (e *Engine) Merge(c Node, g1, g2 GV) GV {
	if c == True {
		return g1
	}
	if c == False {
		return g2
	}
	var out GV
	for _, a := range g1 {
		out = append(out, Alt{e.B.And(a.C, c), a.T})
	}
	nc := e.B.Not(c)
	for _, a := range g2 {
		out = append(out, Alt{e.B.And(a.C, nc), a.T})
	}
	return e.norm(out)
}

// TermOf packs a guarded value into one term.
func (e *Engine) TermOf(g GV) *Term {
	if len(g) == 1 {
		return g[0].T
	}
	var sb strings.Builder
	for _, a := range g {
		fmt.Fprintf(&sb, "%d:%d;", a.C, a.T.ID)
	}
	gg := append(GV(nil), g...)
	return e.mkTerm("box", sb.String(), nil, gg)
}

// Unbox expands a box term.
func Unbox(t *Term) GV {
	if t.Op == "box" {
		return t.X.(GV)
	}
	return V(t)
}

// Lift applies f to every combination of alternatives.
func (e *Engine) Lift(f func(ts []*Term) GV, args ...GV) GV {
	total := 1
	for _, a := range args {
		total *= len(a)
	}
	if total > 96 {
		boxed := make([]GV, len(args))
		for i, a := range args {
			boxed[i] = V(e.TermOf(a))
		}
		e.note("guarded arguments boxed (%d combinations)", total)
		args = boxed
	}
	var out GV
	ts := make([]*Term, len(args))
	var rec func(i int, c Node)
	rec = func(i int, c Node) {
		if c == False {
			return
		}
		if i == len(args) {
			for _, a := range f(ts) {
				out = append(out, Alt{e.B.And(c, a.C), a.T})
			}
			return
		}
		for _, a := range args[i] {
			ts[i] = a.T
			rec(i+1, e.B.And(c, a.C))
		}
	}
	rec(0, True)
	return e.norm(out)
}

// Lift1 is Lift for functions giving one term.
func (e *Engine) Lift1(f func(ts []*Term) *Term, args ...GV) GV {
	return e.Lift(func(ts []*Term) GV { return V(f(ts)) }, args...)
}

// ---- operators --------------------------------------------------------------

// NilNode is the condition that t is nil.
func (e *Engine) NilNode(t *Term) Node {
	switch t.Op {
	case "const":
		if t.IsNil() {
			return True
		}
		return False
	case "alloc", "mk", "closure", "func", "makemap", "slicelit", "app", "fa", "ia", "as", "object", "errw", "asset":
		return False
	case "mkslice":
		return False
	case "box":
		r := False
		for _, a := range t.X.(GV) {
			r = e.B.Or(r, e.B.And(a.C, e.NilNode(a.T)))
		}
		return r
	case "lookup":
		if pointerish(t.Typ) {
			return e.B.Not(e.Atom(e.mkTerm("has", t.Aux, nil, nil, t.Args...)))
		}
	case "call":
		switch t.CallName() {
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage",
			"github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Cause":
			return e.NilNode(t.Args[0])
		case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
			return False
		}
	}
	if nonnilTerm(t) {
		return False
	}
	return e.Atom(e.mkTerm("eq", "", nil, nil, t, e.Nil()))
}

func pointerish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return true
	}
	return false
}

// EqNode is the condition that a equals b.
func (e *Engine) EqNode(a, b *Term) Node {
	if a == b {
		return True
	}
	if a.Op == "box" || b.Op == "box" {
		r := False
		for _, x := range Unbox(a) {
			for _, y := range Unbox(b) {
				r = e.B.Or(r, e.B.And(x.C, y.C, e.EqNode(x.T, y.T)))
			}
		}
		return r
	}
	if a.IsNil() {
		return e.NilNode(b)
	}
	if b.IsNil() {
		return e.NilNode(a)
	}
	if a.IsConst() && b.IsConst() {
		return False // hash-consed: different constants
	}
	if a.Op == "mk" && b.Op == "mk" {
		return e.EqNode(a.Args[0], b.Args[0])
	}
	if (wraps(a) || wraps(b)) && !causeOf(a) && !causeOf(b) {
		// a wrapped error is a new value: equal to another one only if nil
		return e.B.And(e.NilNode(a), e.NilNode(b))
	}
	if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
		a, b = b, a
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return False
	}
	if _, ok := b.BoolVal(); ok {
		n := e.Atom(a)
		if v, _ := b.BoolVal(); v {
			return n
		}
		return e.B.Not(n)
	}
	if c, ok := b.IntVal(); ok {
		// (x + k) == c
		if a.Op == "op" && a.Aux == "+" {
			if k, ok := a.Args[1].IntVal(); ok {
				return e.EqNode(a.Args[0], e.Int(c-k))
			}
		}
		if a.Op == "len" {
			if c < 0 {
				return False
			}
			if c == 0 && isString(a.Args[0].Typ) {
				return e.EqNode(a.Args[0], e.Str(""))
			}
		}
		if c == -1 && a.Op == "call" && a.CallName() == "strings.Index" {
			return e.B.Not(e.Atom(e.mkTerm("call", "strings.Contains", types.Typ[types.Bool], nil, a.Args...)))
		}
		// constant tables: eq over conv
		if a.Op == "conv" {
			return e.EqNode(a.Args[0], b)
		}
	}
	if a.Op == "cat" || b.Op == "cat" {
		x, y, ok := e.stripCommon(a, b)
		if !ok {
			return False
		}
		if x != a && x != b {
			return e.EqNode(x, y)
		}
	}
	return e.Atom(e.mkTerm("eq", "", nil, nil, a, b))
}

// stripCommon removes the parts two texts begin and end with; it is false if
// they cannot be equal.
func (e *Engine) stripCommon(a, b *Term) (*Term, *Term, bool) {
	parts := func(t *Term) []*Term {
		if t.Op == "cat" {
			return append([]*Term(nil), t.Args...)
		}
		return []*Term{t}
	}
	x, y := parts(a), parts(b)
	changed := false
	for len(x) > 0 && len(y) > 0 {
		if x[0] == y[0] {
			x, y, changed = x[1:], y[1:], true
			continue
		}
		s, ok1 := x[0].StrVal()
		t, ok2 := y[0].StrVal()
		if !ok1 || !ok2 || len(x) == 1 && len(y) == 1 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[n] == t[n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, false
		}
		x, y = append([]*Term{e.Str(s[n:])}, x[1:]...), append([]*Term{e.Str(t[n:])}, y[1:]...)
		if s[n:] == "" {
			x = x[1:]
		}
		if t[n:] == "" {
			y = y[1:]
		}
		changed = true
	}
	for len(x) > 0 && len(y) > 0 {
		i, j := len(x)-1, len(y)-1
		if x[i] == y[j] {
			x, y, changed = x[:i], y[:j], true
			continue
		}
		s, ok1 := x[i].StrVal()
		t, ok2 := y[j].StrVal()
		if !ok1 || !ok2 || len(x) == 1 && len(y) == 1 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[len(s)-1-n] == t[len(t)-1-n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, false
		}
		x, y = append(x[:i:i], e.Str(s[:len(s)-n])), append(y[:j:j], e.Str(t[:len(t)-n]))
		if len(s) == n {
			x = x[:i]
		}
		if len(t) == n {
			y = y[:j]
		}
		changed = true
	}
	for _, w := range [][2][]*Term{{x, y}, {y, x}} {
		if len(w[0]) == 0 {
			for _, t := range w[1] {
				if s, ok := t.StrVal(); ok && s != "" {
					return nil, nil, false
				}
			}
		}
	}
	if !changed {
		return a, b, true
	}
	return e.Cat(x...), e.Cat(y...), true
}

func wraps(t *Term) bool {
	return t.Op == "errw" || t.Op == "call" && (t.CallName() == "github.com/pkg/errors.Wrap" || t.CallName() == "github.com/pkg/errors.New" ||
		t.CallName() == "errors.New" || t.CallName() == "github.com/pkg/errors.Errorf" || t.CallName() == "fmt.Errorf")
}

// causeOf: what is at the bottom of an unknown error, which can be any of the
// errors made when the program started
func causeOf(t *Term) bool {
	return t.CallName() == "github.com/pkg/errors.Cause" && t.Args[0].Op == "res"
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// LtNode is the condition a < b.
func (e *Engine) LtNode(a, b *Term) Node {
	if a == b {
		return False
	}
	if a.Op == "box" || b.Op == "box" {
		r := False
		for _, x := range Unbox(a) {
			for _, y := range Unbox(b) {
				r = e.B.Or(r, e.B.And(x.C, y.C, e.LtNode(x.T, y.T)))
			}
		}
		return r
	}
	ia, oka := a.IntVal()
	ib, okb := b.IntVal()
	if oka && okb {
		if ia < ib {
			return True
		}
		return False
	}
	if okb {
		if a.Op == "op" && a.Aux == "+" {
			if k, ok := a.Args[1].IntVal(); ok {
				return e.LtNode(a.Args[0], e.Int(ib-k))
			}
		}
		if a.Op == "iter" && ib <= 0 {
			return False
		}
		if a.Op == "len" {
			if ib <= 0 {
				return False
			}
			if ib == 1 {
				return e.EqNode(a, e.Int(0))
			}
		}
		if ib == 0 && a.Op == "call" && a.CallName() == "strings.Index" {
			return e.B.Not(e.Atom(e.mkTerm("call", "strings.Contains", types.Typ[types.Bool], nil, a.Args...)))
		}
		return e.Atom(e.mkTerm("lt", "", nil, nil, a, b))
	}
	if oka {
		// c < b  ⇔  ¬(b < c+1)
		return e.B.Not(e.LtNode(b, e.Int(ia+1)))
	}
	// x < y ; canonical as is
	return e.Atom(e.mkTerm("lt", "", nil, nil, a, b))
}

// Cat concatenates string terms.
func (e *Engine) Cat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if t.Op == "cat" {
			parts = append(parts, t.Args...)
		} else {
			parts = append(parts, t)
		}
	}
	var out []*Term
	for _, t := range parts {
		if s, ok := t.StrVal(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].StrVal(); ok {
					out[n-1] = e.Str(p + s)
					continue
				}
			}
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return e.Str("")
	case 1:
		return out[0]
	}
	return e.mkTerm("cat", "", types.Typ[types.String], nil, out...)
}

func (e *Engine) binop(op token.Token, a, b *Term, typ types.Type) GV {
	switch op {
	case token.EQL:
		return e.BoolGV(e.EqNode(a, b))
	case token.NEQ:
		return e.BoolGV(e.B.Not(e.EqNode(a, b)))
	case token.LSS:
		return e.BoolGV(e.LtNode(a, b))
	case token.GTR:
		return e.BoolGV(e.LtNode(b, a))
	case token.LEQ:
		return e.BoolGV(e.B.Not(e.LtNode(b, a)))
	case token.GEQ:
		return e.BoolGV(e.B.Not(e.LtNode(a, b)))
	}
	if op == token.ADD && (isString(typ) || isString(a.Typ)) {
		return V(e.Cat(a, b))
	}
	ia, oka := a.IntVal()
	ib, okb := b.IntVal()
	if oka && okb {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			v := constant.BinaryOp(constant.MakeInt64(ia), op, constant.MakeInt64(ib))
			return V(e.constVal(v, typ))
		}
	}
	if op == token.SUB && okb {
		return V(e.add(a, -ib, typ))
	}
	if op == token.ADD {
		if okb {
			return V(e.add(a, ib, typ))
		}
		if oka {
			return V(e.add(b, ia, typ))
		}
	}
	return V(e.mkTerm("op", op.String(), typ, nil, a, b))
}

func (e *Engine) add(a *Term, k int64, typ types.Type) *Term {
	if a.Op == "op" && a.Aux == "+" {
		if k2, ok := a.Args[1].IntVal(); ok {
			a, k = a.Args[0], k+k2
		}
	}
	if k == 0 {
		return a
	}
	return e.mkTerm("op", "+", typ, nil, a, e.Int(k))
}

// Len is the length of a term.
func (e *Engine) Len(t *Term) *Term {
	if s, ok := t.StrVal(); ok {
		return e.Int(int64(len(s)))
	}
	switch t.Op {
	case "const":
		if t.IsNil() {
			return e.Int(0)
		}
	case "slicelit":
		if n, ok := t.X.(int64); ok {
			return e.Int(n)
		}
	case "mkslice":
		return t.Args[0]
	case "app":
		if t.Args[0].IsNil() || (t.Args[0].Op == "mkslice" && t.Args[0].Args[0] == e.Int(0)) {
			for _, a := range t.Args[1:] {
				if a.Op == "spread" {
					return e.mkTerm("len", "", types.Typ[types.Int], nil, t)
				}
			}
			return e.Int(int64(len(t.Args) - 1))
		}
	}
	ver := ""
	if v, ok := e.mapVer[t]; ok {
		ver = v
	}
	return e.mkTerm("len", ver, types.Typ[types.Int], nil, t)
}

// Call makes a pure call term (used by models and queries).
func (e *Engine) Call(name string, typ types.Type, args ...*Term) *Term {
	return e.mkTerm("call", name, typ, nil, args...)
}

// ---- memory -----------------------------------------------------------------

func addrRoot(t *Term) *Term {
	for t.Op == "fa" || t.Op == "ia" {
		t = t.Args[0]
	}
	return t
}

// FA is the address of a field.
func (e *Engine) FA(p *Term, name string, typ types.Type) *Term {
	return e.mkTerm("fa", name, typ, nil, p)
}

// IA is the address of an element.
func (e *Engine) IA(base, idx *Term, typ types.Type) *Term {
	if base.Op == "slicelit" {
		base = base.Args[0]
	}
	return e.mkTerm("ia", "", typ, nil, base, idx)
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return e.Int(0)
		}
	case *types.Struct, *types.Array:
		return e.mkTerm("zero", typeStr(t), t, nil)
	}
	return e.Nil()
}

func (e *Engine) local(root *Term) bool {
	switch root.Op {
	case "alloc", "mkslice", "object":
		return true
	}
	return false
}

// LoadAddr reads memory.
func (e *Engine) LoadAddr(addr *Term, typ types.Type) GV {
	if addr.Op == "box" {
		return e.Lift(func(ts []*Term) GV { return e.LoadAddr(ts[0], typ) }, addr.X.(GV))
	}
	if g, ok := e.mem[addr]; ok {
		return g
	}
	if st, ok := structOf(typ); ok {
		// whole-struct load: snapshot if any field is known
		root := addrRoot(addr)
		if e.local(root) || e.anyUnder(addr) {
			fields := map[string]GV{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fields[f.Name()] = e.LoadAddr(e.FA(addr, f.Name(), f.Type()), f.Type())
			}
			return V(e.snap(fields, typ))
		}
	}
	root := addrRoot(addr)
	if root != addr && addr.Op == "ia" {
		base := addr.Args[0]
		if base.Op == "app" {
			if i, ok := addr.Args[1].IntVal(); ok && base.Args[0].IsNil() && i >= 0 && int(i) < len(base.Args)-1 {
				okk := true
				for _, a := range base.Args[1:] {
					if a.Op == "spread" {
						okk = false
					}
				}
				if okk {
					return Unbox(base.Args[1+int(i)])
				}
			}
		}
		if i := addr.Args[1]; base.Op == "app" && i.Op == "op" && i.Aux == "+" && i.Args[0].Op == "len" && i.Args[0].Args[0] == base && i.Args[1] == e.Int(-1) {
			if last := base.Args[len(base.Args)-1]; last.Op != "spread" {
				return Unbox(last) // what was just appended
			}
		}
		if base.Op == "call" && base.CallName() == "strings.Split" || base.Op == "call" && base.CallName() == "strings.SplitN" {
			if i, ok := addr.Args[1].IntVal(); ok && i == 0 {
				return V(e.Call("before", types.Typ[types.String], base.Args[0], base.Args[1]))
			}
		}
	}
	if e.local(root) {
		g := V(e.zero(typ))
		if root.Op == "mkslice" || addr != root {
			if e.symIndexed(addr) {
				g = V(e.mkTerm("load", "sym", typ, nil, addr))
			}
		}
		for _, h := range e.havoc[root] {
			g = e.Merge(h.cond, V(e.mkTerm("load", "h"+h.tag, typ, nil, addr)), g)
		}
		return g
	}
	return V(e.mkTerm("load", "", typ, nil, addr))
}

func (e *Engine) anyUnder(addr *Term) bool {
	for k := range e.mem {
		for x := k; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
			if x.Args[0] == addr {
				return true
			}
		}
	}
	return false
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (e *Engine) snap(fields map[string]GV, typ types.Type) *Term {
	names := make([]string, 0, len(fields))
	for n := range fields {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString(typeStr(typ))
	for _, n := range names {
		sb.WriteString(";" + n + "=")
		for _, a := range fields[n] {
			fmt.Fprintf(&sb, "%d:%d,", a.C, a.T.ID)
		}
	}
	t := e.mkTerm("snap", sb.String(), typ, nil)
	e.snaps[t] = fields
	return t
}

// FieldOf reads a field of a struct value.
func (e *Engine) FieldOf(v *Term, name string, typ types.Type) GV {
	switch v.Op {
	case "snap":
		if g, ok := e.snaps[v][name]; ok {
			return g
		}
		return V(e.zero(typ))
	case "zero":
		return V(e.zero(typ))
	case "load":
		return e.LoadAddr(e.FA(v.Args[0], name, typ), typ)
	case "box":
		return e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], name, typ) }, v.X.(GV))
	}
	return V(e.mkTerm("field", name, typ, nil, v))
}

// storeAddr writes memory under cond.
func (e *Engine) storeAddr(addr *Term, typ types.Type, val GV, cond Node) {
	if st, ok := structOf(typ); ok && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fv := e.Lift(func(ts []*Term) GV { return e.FieldOf(ts[0], f.Name(), f.Type()) }, val)
			e.storeAddr(e.FA(addr, f.Name(), f.Type()), f.Type(), fv, cond)
		}
		return
	}
	if cond == True {
		e.mem[addr] = val
		return
	}
	old := e.LoadAddr(addr, typ)
	e.mem[addr] = e.Merge(cond, val, old)
}

// symIndexed reports whether an element address of a local array may have been
// written through another index.
func (e *Engine) symIndexed(addr *Term) bool {
	var ia *Term
	for x := addr; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
		if x.Op == "ia" {
			ia = x
		}
	}
	if ia == nil {
		return false
	}
	_, isConst := ia.Args[1].IntVal()
	for k := range e.mem {
		for x := k; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
			if x.Op == "ia" && x.Args[0] == ia.Args[0] && x != ia {
				_, kc := x.Args[1].IntVal()
				if !kc || !isConst {
					return true
				}
			}
		}
	}
	return false
}

const contentField = "$content"

// Content is what reading r to its end gives (as a string value).
func (e *Engine) Content(r *Term) GV {
	if r.Op == "mk" {
		r = r.Args[0]
	}
	if r.Op == "box" {
		return e.Lift(func(ts []*Term) GV { return e.Content(ts[0]) }, r.X.(GV))
	}
	k := e.FA(r, contentField, types.Typ[types.String])
	if g, ok := e.mem[k]; ok {
		return g
	}
	if r.Op == "reader" {
		return V(r.Args[0])
	}
	if r.Op == "alloc" || r.Op == "object" {
		return V(e.Str(""))
	}
	return V(e.Call("content", types.Typ[types.String], r))
}

func (e *Engine) setContent(w *Term, val GV, cond Node) {
	if w.Op == "mk" {
		w = w.Args[0]
	}
	k := e.FA(w, contentField, types.Typ[types.String])
	e.mem[k] = e.Merge(cond, val, e.Content(w))
}

// InMemory reports whether r is an in-memory reader (which cannot fail).
func (e *Engine) InMemory(r *Term) bool {
	if r.Op == "mk" {
		r = r.Args[0]
	}
	if r.Op == "reader" || r.Op == "object" {
		return true
	}
	if r.Op == "alloc" {
		return true
	}
	return false
}

func (e *Engine) effect(f *frame, kind, name string, cond Node, instr ssa.Instruction, args []GV, res *Term) *Effect {
	if cond == False {
		return nil
	}
	e.seq++
	ef := &Effect{Kind: kind, Name: name, Cond: cond, Args: args, Res: res, Seq: e.seq, Instr: instr}
	if instr != nil {
		ef.Pos = instr.Pos()
	}
	if f != nil {
		ef.Fn = f.fn
	}
	ef.Loops = append([]*Loop(nil), e.loopStk...)
	for _, fn := range e.callStk {
		ef.Stack = append(ef.Stack, fn.String())
	}
	e.Effects = append(e.Effects, ef)
	return ef
}

func (e *Engine) ctxID(s string) string {
	id, ok := e.ctxIDs[s]
	if !ok {
		id = len(e.ctxIDs)
		e.ctxIDs[s] = id
	}
	return strconv.Itoa(id)
}

// PhiInfo returns the loop-carried information of t, if it is such a value.
func (e *Engine) PhiInfo(t *Term) *PhiInfo { return e.phiTab[t] }

// MemDump lists known memory below addr (debugging).
func (e *Engine) MemDump(root *Term) []string {
	var out []string
	for k, v := range e.mem {
		if addrRoot(k) == root {
			out = append(out, k.String()+" = "+e.GVString(v))
		}
	}
	sort.Strings(out)
	return out
}

// NumVars is how many atoms there are.
func (e *Engine) NumVars() int { return len(e.vars) }

// termKeys lists the keys of a map in the order they were made.
func termKeys[V any](m map[*Term]V) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// supp lists the atoms n depends on, in order.
func (e *Engine) supp(n Node) []int {
	s := e.B.Support(n)
	out := make([]int, 0, len(s))
	for v := range s {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// Vars returns the terms of all conditions met so far.
func (e *Engine) Vars() []*Term { return e.vars }
