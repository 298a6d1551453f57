package checks

import (
	"fmt"
	"go/ast"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"strings"

	"verif/internal/gsa"
)

// scene evaluates terms of an engine for schematic inputs: leaves (what is
// reached from the parameters) have given values, conditions are decided by
// them, and texts put together from them are symbols again.
type scene struct {
	c       *Ctx
	e       *gsa.Engine
	leaf    func(chain string) (tval, bool)
	when    Node // what holds anyway
	special func(t *Term) (tval, bool)
	deep    int
	exact   bool // texts are those of one instance, compared as they are
}

type tnonnil struct{}

// symLen is the length of a text with names in it, or a number near it.
type symLen struct{ n int64 }

func (s *scene) no(format string, a ...any) tval { return noIdea{fmt.Sprintf(format, a...)} }

// val is what a value is.
func (s *scene) val(g GV) tval {
	e := s.e
	if s.deep++; s.deep > 60 {
		s.deep--
		return s.no("nested too deeply")
	}
	defer func() { s.deep-- }()
	if len(g) == 1 && g[0].C == gsa.True {
		return s.term(g[0].T)
	}
	var ns []Node
	for _, a := range g {
		ns = append(ns, a.C)
	}
	sit := s.situation(ns...)
	var out []tval
	for _, a := range g {
		if !e.Sat(e.B.And(a.C, sit)) {
			continue
		}
		v := s.term(a.T)
		dup := false
		for _, o := range out {
			if sameVal(o, v) {
				dup = true
			}
		}
		if !dup {
			out = append(out, v)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return s.no("no value is possible")
	}
	var alts []string
	for _, o := range out {
		alts = append(alts, fmt.Sprint(o))
	}
	if os.Getenv("VSTAT_SCENE") != "" {
		for _, a := range g {
			if c := e.B.And(a.C, sit); e.Sat(c) {
				debug("SCENE %s IF %s", a.T, e.CondString(c))
			}
		}
	}
	return s.no("it can be any of %s", short(strings.Join(alts, " or "), 300))
}

func sameVal(a, b tval) bool {
	switch a.(type) {
	case string, bool, int64, nil:
		switch b.(type) {
		case string, bool, int64, nil:
			return a == b
		}
	case *tobj:
		return a == b
	case tlist:
		x := a.(tlist)
		y, ok := b.(tlist)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case noIdea:
		_, ok := b.(noIdea)
		return ok
	}
	return false
}

// situation is what is known about the atoms of conditions.
func (s *scene) situation(ns ...Node) Node {
	e := s.e
	sit := s.when
	if sit == 0 {
		sit = gsa.True
	}
	sup := support(e, append(ns, sit)...)
	for v := range sup {
		t := e.VarTerm(v)
		b, ok := s.atom(t)
		if !ok {
			continue
		}
		n := e.Atom(t)
		if !b {
			n = e.B.Not(n)
		}
		sit = e.B.And(sit, n)
	}
	return sit
}

// atom decides an atomic condition.
func (s *scene) atom(t *Term) (val, ok bool) {
	if errAtom(t) {
		// what makes a template fail is found when it is expanded
		for _, a := range t.Args {
			if a.Op == "res" && (a.Args[0].CallName() == "(*text/template.Template).Execute" || a.Args[0].CallName() == "(*text/template.Template).Parse") {
				return true, true
			}
		}
	}
	switch t.Op {
	case "eq":
		a, b := s.term(t.Args[0]), s.term(t.Args[1])
		if a == nil && b == nil {
			return true, true
		}
		switch {
		case a == nil:
			a, b = b, a
			fallthrough
		case b == nil:
			switch x := a.(type) {
			case tnonnil, *tobj, tast:
				return false, true
			case tlist:
				return len(x) == 0, true
			case noIdea:
				return false, false
			}
			return false, false
		}
		sa, ok1 := a.(string)
		sb, ok2 := b.(string)
		if ok1 && ok2 {
			if !s.exact && sa != sb && (symbolic(sa) || symbolic(sb)) && sa != "" && sb != "" && !exportedIsNot(sa, sb) && !exportedIsNot(sb, sa) {
				return false, false // depends on the name
			}
			return sa == sb, true
		}
		switch a.(type) {
		case bool, int64:
			switch b.(type) {
			case bool, int64:
				return a == b, true
			}
		}
		return false, false
	case "lt":
		x, y := s.term(t.Args[0]), s.term(t.Args[1])
		// a name is longer than any small number of letters
		if l, ok := x.(symLen); ok && l.n > 4 {
			if b, ok := y.(int64); ok && b <= 4 {
				return false, true
			}
		}
		if l, ok := y.(symLen); ok && l.n > 4 {
			if a, ok := x.(int64); ok && a < 4 {
				return true, true
			}
		}
		a, ok1 := x.(int64)
		b, ok2 := y.(int64)
		return a < b, ok1 && ok2
	}
	v, ok := s.term(t).(bool)
	return v, ok
}

// leafName is the chain of a term with package paths dropped.
func leafName(t *Term) (string, bool) {
	n, ok := shortChain(t)
	if !ok {
		return "", false
	}
	root := n
	rest := ""
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		root = n[i+1:]
	}
	return root + rest, true
}

// term is what a term is.
func (s *scene) term(t *Term) tval {
	if s.deep++; s.deep > 200 {
		s.deep--
		return s.no("nested too deeply")
	}
	defer func() { s.deep-- }()
	if s.special != nil {
		if v, ok := s.special(t); ok {
			return v
		}
	}
	if n, ok := leafName(t); ok && s.leaf != nil {
		if v, ok := s.leaf(n); ok {
			return v
		}
	}
	switch t.Op {
	case "const":
		if str, ok := t.StrVal(); ok {
			return str
		}
		if b, ok := t.BoolVal(); ok {
			return b
		}
		if i, ok := t.IntVal(); ok {
			return i
		}
		if t.IsNil() {
			return nil
		}
	case "zero":
		if t.Typ != nil && isStringType(t.Typ) {
			return ""
		}
	case "mk":
		return s.term(t.Args[0])
	case "box":
		return s.val(t.X.(GV))
	case "cat":
		var sb strings.Builder
		for _, a := range t.Args {
			v := s.term(a)
			str, ok := v.(string)
			if !ok {
				return s.no("part of a text: %v", v)
			}
			sb.WriteString(str)
		}
		return sb.String()
	case "len":
		switch x := s.term(t.Args[0]).(type) {
		case string:
			if !symbolic(x) {
				return int64(len(x))
			}
			return symLen{int64(len(x))}
		case tlist:
			return int64(len(x))
		}
	case "index":
		if x, ok := s.term(t.Args[0]).(string); ok {
			switch i := s.term(t.Args[1]).(type) {
			case int64:
				if i >= 0 && i < int64(len(x)) && (!symbolic(x) || i == 0) {
					return int64(x[i])
				}
			case symLen:
				if i.n == int64(len(x))-1 {
					return int64(x[i.n])
				}
			}
		}
	case "slice":
		// the first letter of a name, and the rest
		if x, ok := s.term(t.Args[0]).(string); ok && len(t.Args) == 3 {
			lo, ok1 := s.term(t.Args[1]).(int64)
			hi, ok2 := int64(len(x)), t.Args[2].IsNil()
			if !ok2 {
				hi, ok2 = s.term(t.Args[2]).(int64)
			}
			if ok1 && ok2 && 0 <= lo && lo <= hi && hi <= int64(len(x)) && (!symbolic(x) || lo <= 1 && (hi <= 1 || hi == int64(len(x)))) {
				return x[lo:hi]
			}
		}
	case "op":
		if len(t.Args) == 2 {
			a, b := s.term(t.Args[0]), s.term(t.Args[1])
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				switch t.Aux {
				case "+":
					return x + y
				case "-":
					return x - y
				}
			}
			if l, ok := a.(symLen); ok && ok2 {
				switch t.Aux {
				case "+":
					return symLen{l.n + y}
				case "-":
					return symLen{l.n - y}
				}
			}
		}
	case "field":
		if o, ok := s.term(t.Args[0]).(*tobj); ok {
			if v, ok := o.get(t.Aux); ok {
				return v
			}
		}
	case "not":
		if b, ok := s.term(t.Args[0]).(bool); ok {
			return !b
		}
	case "res":
		if t.Aux == "0" {
			switch v := s.term(t.Args[0]).(type) {
			case string, *tobj:
				return v
			}
		}
		if b, ok := s.call(t.Args[0], t.Aux); ok {
			return b
		}
	case "call":
		if v, ok := s.call(t, ""); ok {
			return v
		}
	case "snap", "param", "alloc", "load":
		typ := t.Typ
		if typ != nil {
			if p, ok := types.Unalias(typ).Underlying().(*types.Pointer); ok {
				typ = p.Elem()
			}
			if st, ok := types.Unalias(typ).Underlying().(*types.Struct); ok {
				return s.object(t, typ, st)
			}
		}
	}
	return s.no("unknown value %s", short(t.String(), 160))
}

// object is a structure of the program as template data.
func (s *scene) object(t *Term, typ types.Type, st *types.Struct) tval {
	return &tobj{shortTypeName(typ), func(f string) (tval, bool) {
		for i := 0; i < st.NumFields(); i++ {
			if fd := st.Field(i); fd.Name() == f && fd.Exported() {
				if t.Op == "snap" {
					return s.val(s.e.FieldOf(t, f, fd.Type())), true
				}
				return s.val(s.e.LoadAddr(s.e.FA(t, f, fd.Type()), fd.Type())), true
			}
		}
		if typeHasMethod(typ, f) {
			return noIdea{"method " + f}, true
		}
		return nil, false
	}}
}

func shortTypeName(t types.Type) string {
	s := t.String()
	return s[strings.LastIndexByte(s, '/')+1:]
}

func typeHasMethod(typ types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(typ))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// call evaluates the call of a function that is not followed.
func (s *scene) call(t *Term, res string) (tval, bool) {
	if t.Op != "call" {
		return nil, false
	}
	n := t.CallName()
	switch {
	case n == "executed" && res == "":
		text, ok := templateText(t.Args[0])
		if !ok {
			return s.no("unknown template %s", short(t.Args[0].String(), 200)), true
		}
		tx := s.term(text)
		str, ok := tx.(string)
		if !ok {
			return s.no("the text of a template: %v", tx), true
		}
		data := s.term(t.Args[1])
		all, why, bad := expand("(in the source)", str, s.c.templateFuncs(funcsPkg(t.Args[0])), data)
		switch {
		case bad != "":
			return broke{bad}, true
		case why != "":
			return s.no("%s", why), true
		case len(all) != 1:
			return s.no("the text of a template depends on names"), true
		}
		return all[0].text, true
	case n == "go/format.Source":
		switch res {
		case "0":
			return s.term(t.Args[0]), true
		}
		return nil, false
	case strings.HasSuffix(n, "httptransport.EnglishNumber"):
		if i, ok := s.term(t.Args[0]).(int64); ok {
			return fmt.Sprintf("N%d", i), true
		}
	case strings.HasSuffix(n, "httptransport.basePath"):
		if p, ok := s.term(t.Args[0]).(string); ok {
			return strings.SplitN(p, "{", 2)[0], true
		}
	case n == "bytes" || n == "string":
		return s.term(t.Args[0]), true
	case n == "fmt.Sprintf" && res == "":
		return s.sprintf(t.Args), true
	}
	if res != "" {
		return nil, false
	}
	var vs []tval
	for _, a := range t.Args {
		vs = append(vs, s.term(a))
	}
	v, ok, _ := applyText(n, vs)
	return v, ok
}

// templateText is the text a template value was parsed from.
func templateText(t *Term) (text *Term, ok bool) {
	t.Walk(func(x *Term) bool {
		if x.Op == "call" && x.CallName() == "(*text/template.Template).Parse" && len(x.Args) == 2 {
			if text != nil && text != x.Args[1] {
				ok = false
				return false
			}
			if text == nil {
				text, ok = x.Args[1], true
			}
			return false
		}
		return true
	})
	return
}

// funcsPkg is the package whose functions a template was given ("" for any).
func funcsPkg(t *Term) string {
	pkgs := map[string]bool{}
	t.Walk(func(x *Term) bool {
		if x.Op == "call" && x.CallName() == "(*text/template.Template).Funcs" && len(x.Args) == 2 {
			x.Args[1].Walk(func(y *Term) bool {
				if m, ok := y.X.(*ssa.MakeMap); ok && m.Parent().Pkg != nil {
					pkgs[m.Parent().Pkg.Pkg.Path()] = true
				}
				return true
			})
		}
		return true
	})
	if len(pkgs) == 1 {
		for p := range pkgs {
			return p
		}
	}
	return ""
}

// templateFuncs reads the functions templates can use out of the source, those
// declared in one package if there are any in it.
func (c *Ctx) templateFuncs(pkg string) map[string]string {
	key := "templfuncs:" + pkg
	if f, ok := c.cache[key]; ok {
		return f.(map[string]string)
	}
	out := map[string]string{}
	own, _ := c.cache["templfuncs"].(map[string]*ssa.Function)
	if own == nil {
		own = map[string]*ssa.Function{}
		c.cache["templfuncs"] = own
		ownText = c.ownText
	}
	for _, p := range c.P.Pkgs {
		if pkg != "" && p.PkgPath != pkg && !strings.HasSuffix(p.PkgPath, "/"+pkg) {
			continue
		}
		for _, f := range p.Syntax {
			{
				ast.Inspect(f, func(n ast.Node) bool {
					cl, ok := n.(*ast.CompositeLit)
					if !ok {
						return true
					}
					tv, ok := p.TypesInfo.Types[cl]
					if !ok || tv.Type.String() != "text/template.FuncMap" {
						return true
					}
					for _, el := range cl.Elts {
						kv, ok := el.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						k := p.TypesInfo.Types[kv.Key]
						if k.Value == nil {
							continue
						}
						name, _ := constOf(k.Value).(string)
						var obj types.Object
						switch x := kv.Value.(type) {
						case *ast.Ident:
							obj = p.TypesInfo.Uses[x]
						case *ast.SelectorExpr:
							obj = p.TypesInfo.Uses[x.Sel]
						}
						fn := "a function of its own"
						if o, ok := obj.(*types.Func); ok {
							fn = o.FullName()
							if o.Pkg() != nil && fn == o.Pkg().Path()+"."+o.Name() {
								if sf := c.P.Func(o.Pkg().Path(), o.Name()); sf != nil && c.P.InRepo(sf) {
									own[fn] = sf
								}
							}
						}
						if l, ok := kv.Value.(*ast.FuncLit); ok {
							if init := c.P.Func(p.PkgPath, "init"); init != nil {
								for _, a := range init.AnonFuncs {
									if a.Syntax() == l {
										fn = fmt.Sprintf("the function %s", a.String())
										own[fn] = a
									}
								}
							}
						}
						if old, ok := out[name]; ok && old != fn {
							fn = "different functions"
						}
						out[name] = fn
					}
					return true
				})
			}
		}
	}
	if len(out) == 0 && pkg != "" {
		out = c.templateFuncs("")
	}
	c.cache[key] = out
	return out
}

// ownText applies a function of the repository that templates can use.
var ownText func(fn string, vs []tval) (tval, bool)

func (c *Ctx) ownText(fn string, vs []tval) (tval, bool) {
	own, _ := c.cache["templfuncs"].(map[string]*ssa.Function)
	f := own[fn]
	if f == nil || len(f.Params) != len(vs) || f.Signature.Results().Len() != 1 {
		return nil, false
	}
	for _, o := range []string{"pkg.GoCamelCase", "httptransport.LowCamelName", "httptransport.EnglishNumber"} {
		if strings.HasSuffix(fn, o) {
			return nil, false
		}
	}
	rv, ok := c.cache["own "+fn].(*rootEval)
	if !ok {
		rv = c.evalFn(f, func(n string) bool {
			return strings.HasSuffix(n, "pkg.GoCamelCase") || strings.HasSuffix(n, "httptransport.LowCamelName")
		})
		c.cache["own "+fn] = rv
	}
	s := &scene{c: c, e: rv.e, when: rv.ok}
	s.special = func(t *Term) (tval, bool) {
		for i, p := range f.Params {
			if t == rv.e.Param(f, p) {
				return vs[i], true
			}
		}
		return nil, false
	}
	v := s.val(rv.e.Under(rv.res[0], rv.ok))
	if _, no := v.(noIdea); no {
		return nil, false
	}
	return v, true
}

// sprintf formats texts.
func (s *scene) sprintf(args []*Term) tval {
	f, ok := s.term(args[0]).(string)
	if !ok {
		return s.no("format %v", s.term(args[0]))
	}
	rest := args[1:]
	if len(rest) == 1 && rest[0].Op != "mk" && rest[0].Typ != nil {
		if _, ok := types.Unalias(rest[0].Typ).Underlying().(*types.Slice); ok {
			return s.no("operands of a format: %s", short(rest[0].String(), 120))
		}
	}
	var sb strings.Builder
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		if i++; i >= len(f) {
			return s.no("format %q", f)
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if n >= len(rest) {
			return s.no("format %q has too few operands", f)
		}
		v := s.term(rest[n])
		n++
		switch v.(type) {
		case string, int64, bool:
		default:
			return s.no("operand of a format: %v", v)
		}
		switch f[i] {
		case 's', 'v', 'd', 'q', 't':
			fmt.Fprintf(&sb, "%"+f[i:i+1], v)
		default:
			return s.no("format %q", f)
		}
	}
	if n != len(rest) {
		// as fmt reports them
		var extra []string
		for _, t := range rest[n:] {
			v, ok := s.term(t).(string)
			if !ok {
				return s.no("format %q has too many operands", f)
			}
			extra = append(extra, "string="+v)
		}
		sb.WriteString("%!(EXTRA " + strings.Join(extra, ", ") + ")")
	}
	return sb.String()
}
