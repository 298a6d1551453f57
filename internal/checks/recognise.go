package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C05", Rule: "The templates of service.go (whole file and appended handlers) are expanded for generic services; each function the text declares is substituted for the declaration in the condition under which regeneration keeps a declaration and in the condition under which it counts an RPC as handled: a generated handler must satisfy both for its RPC, a generated constructor and every other generated function the first.",
		Assumptions: []string{svcAssume, "the functions applied to names by the templates are those of the FuncMap (ToLower, ToUpper, Title, GoName); GoName leaves Go names alone"}, Run: runC05})
}

// tast is a part of a syntax tree.
type tast struct{ v reflect.Value }

func astVal(v reflect.Value) tval {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return astVal(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return tast{v}
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int:
		return v.Int()
	case reflect.Slice:
		var l tlist
		for i := 0; i < v.Len(); i++ {
			l = append(l, astVal(v.Index(i)))
		}
		if l == nil && !v.IsNil() {
			l = tlist{}
		}
		return l
	case reflect.Struct:
		return tast{v}
	}
	return noIdea{"a " + v.Kind().String()}
}

// declScene evaluates conditions about the previous file's declaration for one
// declaration.
func (m *svcModel) declScene(c *Ctx, w *world, fd *ast.FuncDecl) *scene {
	s := &scene{c: c, e: m.e, when: m.theory, exact: true}
	s.leaf = m.worldLeaf(c, w)
	d := tast{reflect.ValueOf(fd)}
	s.special = func(t *Term) (tval, bool) {
		if t == m.elem || t == m.fd {
			return d, true
		}
		switch t.Op {
		case "load":
			a := t.Args[0]
			switch a.Op {
			case "fa":
				if x, ok := s.term(a.Args[0]).(tast); ok {
					v := reflect.Indirect(x.v)
					if v.Kind() == reflect.Struct {
						if f := v.FieldByName(a.Aux); f.IsValid() {
							return astVal(f), true
						}
					}
				}
			case "ia":
				if l, ok := s.term(a.Args[0]).(tlist); ok {
					if i, ok := s.term(a.Args[1]).(int64); ok && i >= 0 && i < int64(len(l)) {
						return l[i], true
					}
				}
			}
		case "field":
			if x, ok := s.term(t.Args[0]).(tast); ok {
				v := reflect.Indirect(x.v)
				if v.Kind() == reflect.Struct {
					if f := v.FieldByName(t.Aux); f.IsValid() {
						return astVal(f), true
					}
				}
			}
		case "as":
			if x, ok := s.term(t.Args[0]).(tast); ok {
				if typ, ok := t.Typ.(types.Type); ok && astType(x) == typ.String() {
					return x, true
				}
				return nil, true
			}
		case "typeis":
			typ, _ := t.X.(types.Type)
			x, ok := s.term(t.Args[0]).(tast)
			if ok && typ != nil && !types.IsInterface(typ) {
				return astType(x) == typ.String(), true
			}
			if s.term(t.Args[0]) == nil {
				return false, true
			}
		case "has":
			if k, ok := s.term(t.Args[1]).(string); ok {
				if v, _ := m.filled(t.Args[0]); v == holds {
					return w.method(k) != nil, true
				}
			}
		case "call":
			switch t.CallName() {
			case "go/ast.IsExported":
				if n, ok := s.term(t.Args[0]).(string); ok {
					return ast.IsExported(n), true
				}
			case "(*go/ast.FieldList).NumFields":
				switch x := s.term(t.Args[0]).(type) {
				case nil:
					return int64(0), true
				case tast:
					if f, ok := x.v.Interface().(*ast.FieldList); ok {
						return int64(f.NumFields()), true
					}
				}
			case "(*go/ast.Ident).String":
				if x, ok := s.term(t.Args[0]).(tast); ok {
					if f, ok := x.v.Interface().(*ast.Ident); ok {
						return f.Name, true
					}
				}
			}
		}
		return nil, false
	}
	return s
}

// astType is the name of the dynamic type of a node.
func astType(x tast) string {
	return strings.Replace(x.v.Type().String(), "ast.", "go/ast.", 1)
}

// worldLeaf gives what generation is told.
func (m *svcModel) worldLeaf(c *Ctx, w *world) func(string) (tval, bool) {
	d := c.worldData(w)
	return leafOf(map[string]tval{
		"svcdef.Svcdef":  object("svcdef.Svcdef", map[string]tval{"PkgName": zqPkg, "Service": d.service}),
		"svcdef.Service": d.service,
	})
}

// stubData is what the template of appended handlers is executed with when no
// RPC of the world has a handler.
func (m *svcModel) stubData(c *Ctx, w *world) tval {
	e := m.e
	var data *Term
	for _, a := range e.Under(m.text, m.again) {
		if a.T.Op != "cat" {
			continue
		}
		for _, p := range a.T.Args[1:] {
			if p.Op == "call" && p.CallName() == "executed" && assetOf(p.Args[0]) == "service/service_methods.go.tmpl" {
				if data != nil && data != p.Args[1] {
					return noIdea{"the appended handlers are rendered with several data"}
				}
				data = p.Args[1]
			}
		}
	}
	if data == nil {
		return noIdea{"what the appended handlers are rendered with was not found"}
	}
	d := c.worldData(w)
	ms, _ := d.service.get("Methods")
	s := &scene{c: c, e: e, when: m.again, leaf: m.worldLeaf(c, w)}
	s.special = func(t *Term) (tval, bool) {
		if t.Typ != nil && types.Identical(t.Typ, m.methods.Typ) {
			if t == m.methods {
				return ms, true
			}
			// a list of some of them (which ones is C04's question)
			if !emptySlice(t) {
				return ms, true
			}
		}
		return nil, false
	}
	return s.term(data)
}

func runC05(c *Ctx, r *Report) {
	m, ok := startReport(c, r)
	if !ok {
		return
	}
	if !m.newText(r) {
		return
	}
	if m.allKept(c) {
		r.Ok("no declaration is removed")
		return
	}
	if err := m.prune(c); err != nil {
		r.Unknown("%v", err)
		return
	}
	if _, ok := m.rpc(r, m.keep); !ok {
		return
	}
	n := 0
	for _, w := range c.worlds() {
		b := c.buildWorld(w)
		for _, p := range b.bad {
			if strings.Contains(p.key, "service/service") {
				r.Unknown("%s (service %s)", p.text, w.id)
			}
		}
		for _, u := range append(b.aside, b.unknown...) {
			if strings.Contains(u, "service/service") {
				r.Unknown("%s (service %s)", u, w.id)
			}
		}
		found := map[string]bool{}
		for _, f := range b.files {
			if f.asset != "service/service.go.tmpl" && f.asset != "service/service_methods.go.tmpl" {
				continue
			}
			found[f.asset] = true
			file, err := parser.ParseFile(token.NewFileSet(), f.name, f.text, 0)
			if err != nil {
				r.Unknown("the text of %s does not parse: %v (service %s)", f.asset, err, w.id)
				continue
			}
			handlers := map[string]bool{}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				n += m.recognised(c, r, w, f, fd)
				if fd.Recv != nil {
					handlers[fd.Name.Name] = true
				}
			}
			for _, mt := range w.methods {
				if !handlers[mt.name] {
					r.Viol("handler:none", 0, "%s writes no method %s, the handler of RPC %s (service %s)", f.asset, mt.name, mt.name, w.id)
				}
			}
		}
		if len(b.bad)+len(b.unknown) == 0 && len(found) < 2 {
			r.Unknown("the templates of service.go were not found")
		}
	}
	r.Analysed["generated functions recognised"] = n
}

// recognised checks what the next run makes of a generated function.
func (m *svcModel) recognised(c *Ctx, r *Report, w *world, f *genFileText, fd *ast.FuncDecl) int {
	e := m.e
	name := fd.Name.Name
	handler := fd.Recv != nil && w.method(name) != nil
	what := "function " + name
	key := "other"
	switch {
	case handler:
		what, key = fmt.Sprintf("the handler of RPC %s, method of %s,", name, types.ExprString(fd.Recv.List[0].Type)), "handler"
	case fd.Recv == nil && strings.HasPrefix(name, "New"):
		what, key = "the constructor "+name, "constructor"
	case !ast.IsExported(name):
		key = "unexported"
	}
	s := m.declScene(c, w, fd)
	sit := s.situation(m.keep, m.loop.Back)
	if !e.Sat(e.B.And(sit, m.loop.Back)) {
		r.Unknown("what the next run makes of %s (%s, service %s): no situation found", what, f.asset, w.id)
		return 0
	}
	opaque := func(t *Term) bool { return true }
	switch {
	case e.Implies(e.B.And(sit, m.loop.Back), m.keep):
		r.Ok("%s that %s writes is kept by the next run (service %s)", what, f.asset, w.id)
	case !e.Sat(e.B.And(sit, m.loop.Back, m.keep)):
		r.Viol(key+":removed", m.loop.Pos, "%s that %s writes is not recognised by the next run, which removes it (service %s)", what, f.asset, w.id)
		return 1
	default:
		_, why := decide(e, e.B.And(sit, m.loop.Back, e.B.Not(m.keep)), opaque)
		r.Unknown("whether %s that %s writes is kept by the next run: not when %s (service %s)", what, f.asset, short(why, 200), w.id)
		return 0
	}
	if !handler {
		return 1
	}
	// it counts as the handler
	got, any := gsa.False, false
	for _, ef := range e.Effects {
		if ef.Kind != "delete" && ef.Kind != "mapupdate" || len(ef.Args) < 2 || ef.Args[1].One() != m.name {
			continue
		}
		for _, l := range ef.Loops {
			if l == m.loop {
				got, any = e.B.Or(got, ef.Cond), true
			}
		}
	}
	if !any {
		r.Unknown("how the next run notes which RPCs have a handler")
		return 1
	}
	sit = s.situation(got, m.loop.Back)
	switch {
	case e.Implies(e.B.And(sit, m.loop.Back), got):
		r.Ok("%s that %s writes counts as its handler in the next run (service %s)", what, f.asset, w.id)
	case !e.Sat(e.B.And(sit, m.loop.Back, got)):
		r.Viol("handler:again", m.loop.Pos, "%s that %s writes does not count as its handler in the next run, which writes a second one (service %s)", what, f.asset, w.id)
	default:
		_, why := decide(e, e.B.And(sit, m.loop.Back, e.B.Not(got)), opaque)
		r.Unknown("whether %s that %s writes counts as its handler in the next run: not when %s (service %s)", what, f.asset, short(why, 200), w.id)
	}
	return 1
}
