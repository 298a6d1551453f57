package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// GokitAsset evaluates GenerateGokit as if only the given templates existed.
func (c *Ctx) GokitAsset(assets ...string) (*gen, error) {
	key := "gokit:" + strings.Join(assets, ",")
	if g, ok := c.cache[key]; ok {
		return g.(*gen), nil
	}
	hook, err := c.assetHook()
	if err != nil {
		return nil, err
	}
	fn := c.fn("gengokit/generator", "GenerateGokit")
	if fn == nil {
		return nil, fmt.Errorf("generator.GenerateGokit is missing")
	}
	e := c.P.RepoEngine(gsa.Policy{Recur: 1,
		Inline: func(fn *ssa.Function) bool {
			return c.P.InRepo(fn) && !strings.Contains(fn.String(), "/httptransport.")
		},
		Pure: func(n string) bool { return strings.Contains(n, "/httptransport.") },
	})
	e.RecordIndex = true
	tp := c.P.TemplatePkg()
	e.CallHook = func(e *gsa.Engine, name string, args []gsa.GV, cond gsa.Node, pos token.Pos) ([]gsa.GV, bool) {
		if len(assets) > 0 && name == tp+".AssetNames" {
			return []gsa.GV{gsa.V(e.Strings(assets))}, true
		}
		return hook(e, name, args, cond, pos)
	}
	g := &gen{e: e, fn: fn, assets: assets}
	g.res, g.normal = e.Eval(fn)
	if len(fn.Params) < 2 || len(g.res) < 2 {
		return nil, fmt.Errorf("unexpected signature of GenerateGokit")
	}
	g.sd, g.conf = e.Param(fn, fn.Params[0]), e.Param(fn, fn.Params[1])
	g.ok = gsa.False
	for _, a := range g.res[1] {
		g.ok = e.B.Or(g.ok, e.B.And(a.C, e.NilNode(a.T)))
	}
	g.ok = e.B.And(g.ok, g.normal)
	g.svcName = e.Path(g.sd, "Service.Name")
	if g.svcName == nil {
		return nil, fmt.Errorf("Svcdef.Service.Name is missing")
	}
	// entries of the result map
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" || len(ef.Args) < 3 {
			continue
		}
		m := ef.Args[0].One()
		inRes := false
		for _, a := range g.res[0] {
			if a.T == m {
				inRes = true
			}
		}
		if inRes {
			for _, k := range ef.Args[1] {
				c := e.B.And(k.C, ef.Cond)
				if c == gsa.False || !e.Sat(c) {
					continue
				}
				g.files = append(g.files, genFile{key: k.T, val: ef.Args[2], eff: ef})
			}
		}
	}
	c.cache[key] = g
	return g, nil
}

// unformat strips readers, byte conversions and gofmt from a file value.
func unformat(e *gsa.Engine, g GV) GV {
	return e.Lift(func(ts []*Term) GV {
		t := ts[0]
		for {
			switch {
			case t.Op == "mk" || t.Op == "reader":
				t = t.Args[0]
			case t.Op == "object" || t.Op == "alloc":
				n := e.Content(t)
				if len(n) == 1 && n[0].T != t {
					t = n[0].T
				} else {
					return unformat(e, n)
				}
			case t.Op == "res" && t.Args[0].CallName() == "go/format.Source":
				t = t.Args[0].Args[0]
			case t.Op == "call" && t.CallName() == "content":
				if t.Args[0].Op == "lookup" || t.Args[0].Op == "load" {
					return gsa.V(t)
				}
				t = t.Args[0]
			case t.Op == "box":
				return unformat(e, gsa.Unbox(t))
			default:
				return gsa.V(t)
			}
		}
	}, g)
}

const serviceAsset = "service/service.go.tmpl"

// svcModel is what regeneration does with the previous service.go.
type svcModel struct {
	g       *gen
	e       *gsa.Engine
	prev    *Term // the previous file
	hasPrev Node
	parse   *gsa.Effect
	file    *Term // *ast.File
	fset    *Term
	entry   *genFile
	text    GV   // content of the new file, before gofmt
	again   Node // success with a previous file
	phi     *gsa.PhiInfo
	loop    *gsa.Loop
	elem    *Term
	keep    Node
	fd      *Term // the declaration as *ast.FuncDecl
	isFunc  Node
	name    *Term
	theory  Node
	methods *Term // sd.Service.Methods
	lower   *Term // lower-cased service name
}

func (c *Ctx) svc() (*svcModel, error) {
	if m, ok := c.cache["svc"]; ok {
		return m.(*svcModel), nil
	}
	g, err := c.GokitAsset(serviceAsset)
	if err != nil {
		return nil, err
	}
	e := g.e
	m := &svcModel{g: g, e: e}
	for i := range g.files {
		if s, ok := g.files[i].key.StrVal(); ok && s == "service/service.go" {
			m.entry = &g.files[i]
		}
	}
	if m.entry == nil {
		return nil, fmt.Errorf("GenerateGokit puts nothing under service/service.go")
	}
	pf := e.Path(g.conf, "PreviousFiles")
	if pf == nil {
		return nil, fmt.Errorf("Config.PreviousFiles is missing")
	}
	mt, ok := pf.Typ.Underlying().(*types.Map)
	if !ok {
		return nil, fmt.Errorf("Config.PreviousFiles is not a map")
	}
	m.prev = e.Op("lookup", "", mt.Elem(), pf, e.Str("service/service.go"))
	m.hasPrev = e.B.Not(e.NilNode(m.prev))
	m.methods = e.Path(g.sd, "Service.Methods")
	m.lower = e.Call("strings.ToLower", strT, g.svcName)
	for _, ef := range e.Effects {
		if ef.Kind == "call" && ef.Name == "go/parser.ParseFile" && len(ef.Args) == 4 {
			src := unformat(e, ef.Args[2]).One()
			if src != nil && (src == m.prev || src.Op == "call" && src.CallName() == "content" && src.Args[0] == m.prev) {
				m.parse = ef
			}
		}
	}
	if m.parse == nil {
		return nil, fmt.Errorf("no call of go/parser.ParseFile on the previous service.go was found")
	}
	ft := lookupType(c, "go/ast", "File")
	m.file = e.Op("res", "0", types.NewPointer(ft), m.parse.Res)
	m.fset = m.parse.Args[0].One()
	m.text = unformat(e, m.entry.val)
	m.again = e.B.And(m.entry.eff.Cond, g.ok, m.hasPrev)
	// a successful parse gives a file
	m.theory = e.B.Not(e.NilNode(m.file))
	m.again = e.B.And(m.again, m.theory)
	c.cache["svc"] = m
	for _, ef := range e.Effects {
		if ef.Kind == "mapupdate" {
			if t := ef.Args[0].One(); t != nil && t.Op == "makemap" && m.filledByName(t) {
				t.Known = true
			}
		}
	}
	return m, nil
}

// prune finds the loop which filters the declarations.
func (m *svcModel) prune(c *Ctx) error {
	if m.phi != nil {
		return nil
	}
	e := m.e
	fdT := lookupType(c, "go/ast", "FuncDecl")
	declT := lookupType(c, "go/ast", "Decl")
	fileT := lookupType(c, "go/ast", "File").Underlying().(*types.Struct)
	var declsT types.Type
	for i := 0; i < fileT.NumFields(); i++ {
		if fileT.Field(i).Name() == "Decls" {
			declsT = fileT.Field(i).Type()
		}
	}
	addr := e.FA(m.file, "Decls", declsT)
	orig := e.Op("load", "", declsT, addr)
	final := e.Under(e.LoadAddr(addr, declsT), m.again)
	var cand *gsa.PhiInfo
	for _, a := range final {
		t := a.T
		if pi := e.PhiInfo(t); pi != nil {
			if cand != nil && cand != pi {
				return fmt.Errorf("the declarations of the new file have several sources")
			}
			cand = pi
			continue
		}
		return fmt.Errorf("the declarations of the new file are %s", short(t.String(), 120))
	}
	if cand == nil {
		return fmt.Errorf("no loop that collects the declarations was found")
	}
	m.phi, m.loop = cand, cand.Loop
	if m.loop.Kind != "slice" || m.loop.Over != orig {
		m.phi = nil
		return fmt.Errorf("the loop that collects the declarations does not range over those of the previous file")
	}
	m.elem = e.Elem(m.loop, declT)
	m.isFunc = e.TypeIs(m.elem, types.NewPointer(fdT))
	m.fd = e.As(m.elem, types.NewPointer(fdT))
	m.name = e.Path(m.fd, "Name.Name")
	m.keep = gsa.False
	for _, a := range cand.Next {
		if a.T != cand.Term {
			m.keep = e.B.Or(m.keep, a.C)
		}
	}
	return nil
}

// astTheory collects facts about parsed declarations for the atoms in ns.
func (m *svcModel) astTheory(ns ...Node) Node {
	e := m.e
	ax := e.B.And(m.theory, identTheory(e, ns...))
	for _, n := range ns {
		for v := range e.B.Support(n) {
			t := e.VarTerm(v)
			switch t.Op {
			case "eq":
				a, b := t.Args[0], t.Args[1]
				// parsed nodes have their mandatory parts
				if b.IsNil() && a.Op == "load" && a.Args[0].Op == "fa" && derivedFrom(a, m.file) {
					switch a.Args[0].Aux {
					case "Type", "X", "Name", "Sel", "Params":
						ax = e.B.And(ax, e.B.Not(e.Atom(t)))
					}
				}
				if b.IsNil() && a.Op == "load" && a.Args[0].Op == "ia" && derivedFrom(a, m.file) {
					ax = e.B.And(ax, e.B.Not(e.Atom(t)))
				}
				// NumFields(p) == c with c > 0: p has fields
				if k, ok := b.IntVal(); ok && a.Op == "call" && a.CallName() == "(*go/ast.FieldList).NumFields" {
					p := a.Args[0]
					l := e.Path(p, "List")
					if l != nil && k > 0 {
						ln := e.Len(l)
						no := e.B.Or(e.NilNode(p), e.EqNode(ln, e.Int(0)))
						for j := k + 1; j <= k+2; j++ {
							no = e.B.Or(no, e.EqNode(ln, e.Int(j)))
						}
						no = e.B.Or(no, e.LtNode(e.Int(k), ln))
						ax = e.B.And(ax, e.B.Or(e.B.Not(e.Atom(t)), e.B.Not(no)))
					}
				}
			}
		}
	}
	return ax
}

// rpcAtoms finds the tests "is an RPC of this name" in n.
func (m *svcModel) rpcAtoms(n Node) []*Term {
	e := m.e
	var out []*Term
	for v := range e.B.Support(n) {
		t := e.VarTerm(v)
		if t.Op == "has" && t.Args[1] == m.name {
			out = append(out, t)
		}
	}
	return out
}

// filledByName reports whether map mp holds exactly the RPCs by their names.
func (m *svcModel) filledByName(mp *Term) bool {
	e := m.e
	n := 0
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" || ef.Args[0].One() != mp {
			continue
		}
		n++
		if len(ef.Loops) != 1 {
			return false
		}
		l := ef.Loops[0]
		if l.Kind != "slice" || l.Over != m.methods || l.Offset != 0 || len(l.Exits) > 0 {
			return false
		}
		el := e.Elem(l, m.methods.Typ.Underlying().(*types.Slice).Elem())
		if ef.Args[1].One() != e.Path(el, "Name") || ef.Args[2].One() != el {
			return false
		}
		// unconditional within the loop
		if !e.Implies(l.Entry, ef.Cond) {
			return false
		}
	}
	return n == 1
}

// handlerSpec is the condition that a function declaration is the handler of
// a current RPC.
func (m *svcModel) recvSpec(c *Ctx) Node {
	e := m.e
	recv := e.Path(m.fd, "Recv")
	list := e.Path(recv, "List")
	fieldT := lookupType(c, "go/ast", "Field")
	star := types.NewPointer(lookupType(c, "go/ast", "StarExpr"))
	ident := types.NewPointer(lookupType(c, "go/ast", "Ident"))
	fld := e.TermOf(e.LoadAddr(e.IA(list, e.Int(0), types.NewPointer(fieldT)), types.NewPointer(fieldT)))
	t := e.Path(fld, "Type")
	x := e.Path(e.As(t, star), "X")
	nm := e.Path(e.As(x, ident), "Name")
	return e.B.And(e.B.Not(e.NilNode(recv)), e.B.Not(e.EqNode(e.Len(list), e.Int(0))),
		e.TypeIs(t, star), e.TypeIs(x, ident), e.EqNode(nm, e.Cat(m.lower, e.Str("Service"))))
}
