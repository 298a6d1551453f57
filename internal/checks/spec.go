package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"verif/internal/gsa"
)

type GV = gsa.GV
type Term = gsa.Term
type Node = gsa.Node

// verdict of an obligation.
type verdict int

const (
	holds verdict = iota
	broken
	undecided
)

// knownCalls are functions whose result is a plain observation of their
// arguments: a condition on it is a condition on the input.
var knownCalls = map[string]bool{
	"go/ast.IsExported": true, "(*go/ast.FieldList).NumFields": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true,
	"strings.EqualFold": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strings.Index": true, "strings.Count": true, "strings.TrimSpace": true,
	"unicode.IsUpper": true, "unicode.IsLower": true, "unicode.IsSpace": true, "unicode.IsDigit": true, "unicode.IsLetter": true,
	"(go/ast.Node).Pos": true, "(go/ast.Node).End": true, "go/parser.ParseFile": true,
	"(*go/ast.FuncDecl).Pos": true, "(*go/ast.FuncDecl).End": true, "(go/ast.Decl).Pos": true, "(go/ast.Decl).End": true,
	"go/token.NewFileSet": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true,
	"before": true, "content": true, "io.ReadAll": true, "go/format.Source": true, "printed": true, "executed": true,
	"github.com/pkg/errors.Wrap": true, "errors.Is": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "strings.Split": true, "strings.SplitN": true,
}

func knownCall(n string) bool {
	if knownCalls[n] || ownCall(n) {
		return true
	}
	for _, p := range []string{"strings.", "bytes.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "strconv.", "os.Stat", "os.Lstat", "os.Getenv"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ownPure names functions of the repository that are not followed and are
// judged by themselves: what they give is taken as an observation of their
// arguments, except whether it is nil, which comes with an error.
var ownPure []string

func ownCall(n string) bool {
	for _, o := range ownPure {
		if strings.HasSuffix(n, o) && strings.Contains(n, moduleMark) {
			return true
		}
	}
	return false
}

// ownNil is a question whether such a result (not an error) is nil.
func ownNil(t *Term) bool {
	if t.Op != "eq" || len(t.Args) != 2 {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if a.IsNil() {
		a, b = b, a
	}
	return b.IsNil() && a.Op == "res" && a.Args[0].Op == "call" && ownCall(a.Args[0].CallName()) && a.Typ != nil && !types.Identical(a.Typ, types.Universe.Lookup("error").Type())
}

// opaqueTerm reports whether the meaning of t is not known to the analysis.
func opaqueTerm(t *Term) bool {
	bad := false
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "undef", "lm", "recv", "app", "slice":
			bad = true
		case "eq":
			bad = ownNil(x)
		case "phi":
			bad = true
		case "has", "lookup":
			// what a map of the program's own holds
			if x.Args[0].Op == "makemap" && !x.Args[0].Known {
				bad = true
			}
		case "call":
			if !knownCall(x.CallName()) {
				bad = true
			}
		}
		return !bad
	})
	return bad
}

// errAtom reports whether the atom says that a call of an external function
// returned no error, which can be either for any arguments.
func errAtom(t *Term) bool {
	if t.Op != "eq" || len(t.Args) != 2 {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if a.IsNil() {
		a, b = b, a
	}
	if !b.IsNil() || a.Typ == nil || !types.Identical(a.Typ, types.Universe.Lookup("error").Type()) {
		return false
	}
	if a.Op == "res" {
		a = a.Args[0]
	}
	return a.Op == "call" && (!strings.Contains(a.CallName(), moduleMark) || ownCall(a.CallName()))
}

// moduleMark is part of the name of every function of the repository.
const moduleMark = "teamlint/baron"

// decide tells whether bad can happen: opaque atoms may make it undecided.
func decide(e *gsa.Engine, bad Node, opaque func(*Term) bool) (verdict, string) {
	if bad == gsa.False || !e.Sat(bad) {
		return holds, ""
	}
	n := e.B.And(bad, e.Axioms(bad))
	q := n
	for v := range e.B.Support(n) {
		if opaque(e.VarTerm(v)) && !errAtom(e.VarTerm(v)) {
			q = e.B.And(e.B.Restrict(q, v, false), e.B.Restrict(q, v, true))
			if q == gsa.False {
				if os.Getenv("VSTAT_DEBUG") != "" {
					for v := range e.B.Support(n) {
						if t := e.VarTerm(v); opaque(t) && !errAtom(t) {
							fmt.Println("OPAQUE", t.String())
						}
					}
				}
				return undecided, e.Witness(bad)
			}
		}
	}
	return broken, e.Witness(q)
}

// oblige decides bad and records the outcome.
func (r *Report) oblige(e *gsa.Engine, bad Node, key string, ef *gsa.Effect, what, complaint string) verdict {
	return r.obligeX(e, bad, key, ef, what, complaint, opaqueTerm)
}

func (r *Report) obligeX(e *gsa.Engine, bad Node, key string, ef *gsa.Effect, what, complaint string, opaque func(*Term) bool) verdict {
	v, w := decide(e, bad, opaque)
	switch v {
	case holds:
		r.Ok("%s", what)
	case broken:
		if ef != nil {
			r.Viol(key, ef.Pos, "%s; for example when %s", complaint, w)
		} else {
			r.Viol(key, 0, "%s; for example when %s", complaint, w)
		}
	case undecided:
		r.Unknown("%s (depends on %s)", what, w)
	}
	return v
}

// fieldGV reads a chain of fields starting from a term ("Recv.List").
func fieldGV(e *gsa.Engine, t *Term, path string) *Term { return e.Path(t, path) }

func lookupType(c *Ctx, pkg, name string) types.Type {
	for _, p := range c.P.Pkgs {
		if t := findType(p.Types, pkg, name, map[*types.Package]bool{}); t != nil {
			return t
		}
	}
	return nil
}

func findType(p *types.Package, pkg, name string, seen map[*types.Package]bool) types.Type {
	if p == nil || seen[p] {
		return nil
	}
	seen[p] = true
	if p.Path() == pkg {
		if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	for _, q := range p.Imports() {
		if t := findType(q, pkg, name, seen); t != nil {
			return t
		}
	}
	return nil
}

// identTheory says that identifiers contain neither dots nor asterisks: it
// returns the conjunction of ¬a for the equations a that cannot hold.
func identTheory(e *gsa.Engine, ns ...Node) Node {
	ax := gsa.True
	seen := map[int]bool{}
	for _, n := range ns {
		for v := range e.B.Support(n) {
			if seen[v] {
				continue
			}
			seen[v] = true
			t := e.VarTerm(v)
			if t.Op != "eq" {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			ca, oka := punct(a)
			cb, okb := punct(b)
			if oka && okb && ca != cb {
				ax = e.B.And(ax, e.B.Not(e.Atom(t)))
			}
		}
	}
	return ax
}

// punct is the sequence of dots and asterisks of a string built of constants
// and identifiers.
func punct(t *Term) (string, bool) {
	switch t.Op {
	case "const":
		s, ok := t.StrVal()
		if !ok {
			return "", false
		}
		out := ""
		for _, r := range s {
			if r == '.' || r == '*' {
				out += string(r)
			}
		}
		return out, true
	case "cat":
		out := ""
		for _, a := range t.Args {
			p, ok := punct(a)
			if !ok {
				return "", false
			}
			out += p
		}
		return out, true
	case "load":
		if a := t.Args[0]; a.Op == "fa" && a.Aux == "Name" {
			return "", true
		}
	case "call":
		switch t.CallName() {
		case "strings.ToLower", "strings.ToUpper", "strings.Title":
			return punct(t.Args[0])
		}
	}
	return "", false
}

// mentions reports whether t involves sub.
func mentions(t, sub *Term) bool { return t != nil && sub != nil && t.Contains(sub) }

// memoryRoot is the object an address or value is derived from by field,
// element and pointer steps.
func derivedFrom(t, root *Term) bool {
	for i := 0; i < 60 && t != nil; i++ {
		if t == root {
			return true
		}
		switch t.Op {
		case "fa", "ia", "load", "as", "mk", "slice", "field", "slicelit":
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}

func gvTerms(g GV) []*Term {
	var out []*Term
	for _, a := range g {
		for _, b := range gsa.Unbox(a.T) {
			out = append(out, b.T)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n-1] + "…"
	}
	return s
}

var _ = strings.Contains
var _ = fmt.Sprint
