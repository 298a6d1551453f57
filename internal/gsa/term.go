package gsa

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed canonical value expression.
type Term struct {
	Known bool // set by checks which know what this map holds
	ID    int
	Op    string
	Aux   string
	Args  []*Term
	Typ   types.Type
	X     any
}

// Alt is one guarded alternative of a value.
type Alt struct {
	C Node
	T *Term
}

// GV is a guarded value: alternatives with (mutually exclusive) conditions.
type GV []Alt

// Closure is the payload of closure terms.
type Closure struct {
	Fn       *ssa.Function
	Bindings []GV
}

func (e *Engine) mkTerm(op, aux string, typ types.Type, x any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := e.terms[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(e.terms), Op: op, Aux: aux, Args: append([]*Term(nil), args...), Typ: typ, X: x}
	e.terms[k] = t
	return t
}

// Find is the term of that form, if it was made before.
func (e *Engine) Find(op, aux string, args ...*Term) *Term {
	k := op + "|" + aux
	for _, a := range args {
		k += "|" + strconv.Itoa(a.ID)
	}
	return e.terms[k]
}

// Str returns the constant string term.
func (e *Engine) Str(s string) *Term {
	return e.mkTerm("const", "s:"+s, types.Typ[types.String], constant.MakeString(s))
}

// Int returns the constant int term.
func (e *Engine) Int(i int64) *Term {
	return e.mkTerm("const", "n:"+strconv.FormatInt(i, 10), types.Typ[types.Int], constant.MakeInt64(i))
}

// Bool returns the constant bool term.
func (e *Engine) Bool(b bool) *Term {
	return e.mkTerm("const", "b:"+strconv.FormatBool(b), types.Typ[types.Bool], constant.MakeBool(b))
}

// Nil is the nil constant.
func (e *Engine) Nil() *Term { return e.mkTerm("const", "nil", nil, nil) }

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if b, ok := c.Type().Underlying().(*types.Struct); ok {
			_ = b
			return e.mkTerm("zero", typeStr(c.Type()), c.Type(), nil)
		}
		if _, ok := c.Type().Underlying().(*types.Array); ok {
			return e.mkTerm("zero", typeStr(c.Type()), c.Type(), nil)
		}
		return e.Nil()
	}
	return e.constVal(c.Value, c.Type())
}

func (e *Engine) constVal(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.String:
		return e.Str(constant.StringVal(v))
	case constant.Bool:
		return e.Bool(constant.BoolVal(v))
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return e.Int(i)
		}
	}
	return e.mkTerm("const", "n:"+v.ExactString(), typ, v)
}

// IsConst reports whether t is a constant.
func (t *Term) IsConst() bool { return t.Op == "const" }

// IsNil reports whether t is the nil constant.
func (t *Term) IsNil() bool { return t.Op == "const" && t.Aux == "nil" }

// StrVal returns the value of a constant string term.
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "s:") {
		return t.Aux[2:], true
	}
	return "", false
}

// IntVal returns the value of a constant int term.
func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "n:") {
		i, err := strconv.ParseInt(t.Aux[2:], 10, 64)
		return i, err == nil
	}
	return 0, false
}

// BoolVal returns the value of a constant bool term.
func (t *Term) BoolVal() (bool, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "b:") {
		return t.Aux == "b:true", true
	}
	return false, false
}

// CallName is the callee of a call term ("" if t is none).
func (t *Term) CallName() string {
	if t.Op != "call" {
		return ""
	}
	if i := strings.IndexByte(t.Aux, '#'); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// String renders the term for reports.
func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if d > 12 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].render(d + 1) }
	all := func() string {
		var s []string
		for i := range t.Args {
			s = append(s, arg(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if s, ok := t.StrVal(); ok {
			if len(s) > 60 {
				s = s[:57] + "..."
			}
			return strconv.Quote(s)
		}
		if t.Aux == "nil" {
			return "nil"
		}
		return t.Aux[2:]
	case "param", "global":
		return path.Base(t.Aux)
	case "load":
		a := t.Args[0]
		switch a.Op {
		case "fa":
			return a.Args[0].render(d+1) + "." + a.Aux + t.Aux
		case "ia":
			return a.Args[0].render(d+1) + "[" + a.Args[1].render(d+1) + "]" + t.Aux
		case "global":
			return path.Base(a.Aux) + t.Aux
		}
		return "*" + arg(0) + t.Aux
	case "fa":
		return "&" + arg(0) + "." + t.Aux
	case "ia":
		return "&" + arg(0) + "[" + arg(1) + "]"
	case "field":
		return arg(0) + "." + t.Aux
	case "call":
		n := t.CallName()
		return shortName(n) + "(" + all() + ")"
	case "res":
		return arg(0) + "→" + t.Aux
	case "iter":
		return "i" + "‹" + path.Base(t.Aux) + "›"
	case "eq":
		return arg(0) + "==" + arg(1)
	case "lt":
		return arg(0) + "<" + arg(1)
	case "op":
		return "(" + arg(0) + " " + t.Aux + " " + arg(1) + ")"
	case "typeis":
		return arg(0) + " is " + shortName(t.Aux)
	case "alloc":
		return "new‹" + path.Base(t.Aux) + "›"
	case "cat":
		return "cat(" + all() + ")"
	case "box":
		gv := t.X.(GV)
		var s []string
		for _, a := range gv {
			s = append(s, a.T.render(d+1))
		}
		return "{" + strings.Join(s, " | ") + "}"
	}
	aux := t.Aux
	if aux != "" {
		aux = "‹" + path.Base(aux) + "›"
	}
	if len(t.Args) == 0 {
		return t.Op + aux
	}
	return t.Op + aux + "(" + all() + ")"
}

func shortName(n string) string {
	// github.com/a/b/pkg.Func → pkg.Func, (*a/b/pkg.T).M → (*pkg.T).M
	pre := ""
	for strings.HasPrefix(n, "(") || strings.HasPrefix(n, "*") {
		pre += n[:1]
		n = n[1:]
	}
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return pre + n
}

// CondString renders a condition as a small sum of products.
func (e *Engine) CondString(n Node) string {
	if n == True {
		return "always"
	}
	if n == False {
		return "never"
	}
	var out []string
	var rec func(n Node, lits []string)
	rec = func(n Node, lits []string) {
		if len(out) > 4 {
			return
		}
		if n == False {
			return
		}
		if n == True {
			out = append(out, strings.Join(lits, " ∧ "))
			return
		}
		nd := e.B.nodes[n]
		t := e.vars[nd.v]
		rec(nd.hi, append(append([]string(nil), lits...), t.String()))
		rec(nd.lo, append(append([]string(nil), lits...), "¬"+t.String()))
	}
	rec(n, nil)
	if len(out) > 4 {
		out = append(out[:4], "…")
	}
	return strings.Join(out, "  ∨  ")
}

// GVString renders a guarded value.
func (e *Engine) GVString(g GV) string {
	if len(g) == 1 {
		return g[0].T.String()
	}
	var s []string
	for i, a := range g {
		if i == 6 {
			s = append(s, "…")
			break
		}
		s = append(s, fmt.Sprintf("[%s] %s", e.CondString(a.C), a.T))
	}
	return strings.Join(s, " | ")
}

// Walk visits t and its arguments (into boxes as well).
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		if gv, ok := t.X.(GV); ok {
			for _, a := range gv {
				rec(a.T)
			}
		}
	}
	rec(t)
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

// StrValEmpty says whether t is the empty string.
func (t *Term) StrValEmpty() bool { s, ok := t.StrVal(); return ok && s == "" }
