package checks

import (
	"go/token"
	"go/types"
	"strings"

	"verif/internal/gsa"
)

const svcAssume = "go/parser gives well-formed trees (mandatory parts of nodes present, names without dots and asterisks); go/printer and go/format print what they are given; identifiers of RPCs and services are protobuf identifiers"

func init() {
	register(&Check{ID: "C01", Rule: "Evaluates GenerateGokit symbolically for service/service.go (guarded value flow over SSA, everything inlined); the declarations printed must be collected by one loop over all declarations of the previous file, in order, and the condition under which a declaration is collected must follow from the condition under which the property says it stays.",
		Assumptions: []string{svcAssume}, Run: runC01})
	register(&Check{ID: "C02", Rule: "Lists every store, map change and call reachable in GenerateGokit whose target is derived from the parsed previous service.go; only the list of declarations and the selected type name of handler signatures may be written; the file must be parsed with comments and printed whole.",
		Assumptions: []string{svcAssume}, Run: runC02})
	register(&Check{ID: "C03", Rule: "For the second parameter and the first result of a kept handler, in the forms X.T and *X.T: the condition and the value of the store to T must be exactly 'kept handler with two parameters (results)' and the request (response) type name of the RPC with the handler's name; indexes into the signature are within bounds.",
		Assumptions: []string{svcAssume}, Run: runC03})
	register(&Check{ID: "C04", Rule: "Exported functions are collected only if they are handlers of a current RPC on the service type (or the constructor); the RPCs rendered as stubs are those of the definition, in order, for which no handler was collected; the stubs follow the printed file; a first generation renders the full template.",
		Assumptions: []string{svcAssume}, Run: runC04})
}

// newText splits the content of the regenerated file: the printed previous
// file and what follows it.
func (m *svcModel) newText(r *Report) (ok bool) {
	e := m.e
	want := func(t *Term) bool {
		return t.Op == "call" && t.CallName() == "printed" && t.Args[0] == m.fset && t.Args[1] == m.file
	}
	ok = true
	for _, a := range e.Under(m.text, m.again) {
		t := a.T
		first := t
		if t.Op == "cat" {
			first = t.Args[0]
		}
		if want(first) {
			continue
		}
		ok = false
		c := e.B.And(a.C, m.again)
		v, w := decide(e, c, opaqueTerm)
		unknown := false
		if opaqueTerm(t) {
			unknown = true
		}
		if v == broken && !unknown {
			r.Viol("content", m.entry.eff.Pos, "with a previous service.go the new file does not start with the previous one as printed from its tree but is %s, when %s", short(t.String(), 160), w)
		} else if v != holds {
			r.Unknown("content of the regenerated service.go: %s", short(t.String(), 160))
		} else {
			ok = true
		}
	}
	return ok
}

func startReport(c *Ctx, r *Report) (*svcModel, bool) {
	m, err := c.svc()
	if err != nil {
		r.Unknown("%v", err)
		return nil, false
	}
	r.Analysed["entry"] = m.g.fn.String()
	r.Analysed["functions"] = funcsAnalysed(m.e)
	r.Analysed["effects"] = len(m.e.Effects)
	if n := notes(m.e); len(n) > 0 {
		r.Analysed["imprecisions"] = n
	}
	return m, true
}

// collector checks the shape of the loop collecting declarations.
func (m *svcModel) collector(c *Ctx, r *Report) bool {
	e := m.e
	if err := m.prune(c); err != nil {
		r.Unknown("%v", err)
		return false
	}
	good := true
	for _, a := range m.phi.Init {
		if !emptySlice(a.T) {
			good = false
			if a.T == m.loop.Over {
				r.Viol("decls.init", m.loop.Pos, "the collected declarations start out as the previous ones, so removed ones stay and kept ones double")
			} else {
				r.Unknown("initial value of the collected declarations: %s", short(a.T.String(), 100))
			}
		}
	}
	for _, a := range m.phi.Next {
		if a.T == m.phi.Term {
			continue
		}
		t := a.T
		if t.Op != "app" || t.Args[0] != m.phi.Term {
			good = false
			if t.Op == "app" || emptySlice(t) {
				r.oblige(e, e.B.And(m.loop.Back, a.C, m.astTheory(a.C)), "decls.reset", &gsa.Effect{Pos: m.loop.Pos}, "declarations collected so far are kept",
					"an iteration of the loop over the declarations discards those collected before ("+short(t.String(), 100)+")")
			} else {
				r.Unknown("collected declarations: %s", short(t.String(), 120))
			}
			continue
		}
		n := 0
		for _, it := range t.Args[1:] {
			if it == m.elem {
				n++
				continue
			}
			good = false
			if opaqueTerm(it) || it.Op == "box" {
				r.Unknown("collected declaration: %s", short(it.String(), 120))
			} else {
				r.Viol("decls.other", m.loop.Pos, "something else than the declaration itself is collected: %s", short(it.String(), 120))
			}
		}
		if n > 1 {
			good = false
			r.Viol("decls.twice", m.loop.Pos, "a declaration is collected twice in one iteration")
		}
	}
	for _, x := range m.loop.Exits {
		v, w := decide(e, e.B.And(x.Cond, m.g.ok, m.astTheory(x.Cond)), opaqueTerm)
		if v == broken {
			good = false
			r.Viol("decls.exit", m.loop.Pos, "the loop over the declarations can stop before the last one although generation succeeds, for example when %s", w)
		} else if v == undecided {
			r.Unknown("early exit of the loop over the declarations when %s", w)
		}
	}
	if good {
		r.Ok("the new declarations are those of the previous file that the loop collects, each at most once and in their order")
	}
	return good
}

func emptySlice(t *Term) bool {
	if t.IsNil() {
		return true
	}
	switch t.Op {
	case "mkslice":
		n, ok := t.Args[0].IntVal()
		return ok && n == 0
	case "slice":
		n, ok := t.Args[2].IntVal()
		return ok && n == 0
	case "slicelit":
		return t.X.(int64) == 0
	}
	return false
}

// rpc gives the condition "an RPC has the declaration's name".
func (m *svcModel) rpc(r *Report, n Node) (Node, bool) {
	e := m.e
	ats := m.rpcAtoms(n)
	if len(ats) == 0 {
		return e.Atom(e.Op("rpcnamed", "", boolT, m.name)), true
	}
	res := gsa.True
	var mp *Term
	for _, t := range ats {
		if mp != nil && mp != t.Args[0] {
			r.Unknown("the RPCs are looked up in two maps")
			return res, false
		}
		mp = t.Args[0]
		res = e.B.And(res, e.Atom(t))
	}
	v, why := m.filled(mp)
	switch v {
	case holds:
		r.Ok("the map of RPCs is filled with every RPC of the definition under its name")
	case broken:
		r.Viol("rpcmap", 0, "the map of RPCs does not hold every RPC of the definition under its name: %s", why)
		return res, false
	default:
		r.Unknown("how the map of RPCs is filled: %s", why)
		return res, false
	}
	return res, true
}

// filled decides whether a map holds exactly the RPCs by name when the
// declarations are looked at.
func (m *svcModel) filled(mp *Term) (verdict, string) {
	e := m.e
	n := 0
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" || ef.Args[0].One() != mp {
			continue
		}
		n++
		if len(ef.Loops) != 1 {
			return undecided, "update outside of a loop"
		}
		l := ef.Loops[0]
		if l.Kind != "slice" || l.Over != m.methods {
			return undecided, "loop over something else than the methods"
		}
		el := e.Elem(l, m.methods.Typ.Underlying().(*types.Slice).Elem())
		if l.Offset != 0 {
			return broken, "the loop does not start at the first RPC"
		}
		for _, x := range l.Exits {
			if v, w := decide(e, e.B.And(x.Cond, m.g.ok), opaqueTerm); v != holds {
				return v, "the loop can stop early when " + w
			}
		}
		k := ef.Args[1].One()
		if k != e.Path(el, "Name") {
			if k != nil && !opaqueTerm(k) {
				return broken, "the key is " + short(k.String(), 80)
			}
			return undecided, "the key is not the name of the RPC"
		}
		if ef.Args[2].One() != el {
			return undecided, "the value is not the RPC"
		}
		if v, w := decide(e, e.B.AndNot(l.Entry, ef.Cond), opaqueTerm); v != holds {
			return v, "not when " + w
		}
	}
	if n == 0 {
		return undecided, "no update found"
	}
	if n > 1 {
		return undecided, "several updates"
	}
	return holds, ""
}

func (m *svcModel) exported() Node {
	return m.e.Atom(m.e.Call("go/ast.IsExported", boolT, m.name))
}

func (m *svcModel) constructor() Node {
	return m.e.B.And(m.e.EqNode(m.name, m.e.Str("NewService")), m.e.NilNode(m.e.Path(m.fd, "Recv")))
}

// facts about names: NewService is exported.
func (m *svcModel) nameFacts() Node {
	e := m.e
	return e.B.Or(e.B.Not(e.EqNode(m.name, e.Str("NewService"))), m.exported())
}

// allKept reports whether the declarations are not filtered at all.
func (m *svcModel) allKept(c *Ctx) bool {
	e := m.e
	fileT := lookupType(c, "go/ast", "File").Underlying().(*types.Struct)
	for i := 0; i < fileT.NumFields(); i++ {
		if fileT.Field(i).Name() == "Decls" {
			addr := e.FA(m.file, "Decls", fileT.Field(i).Type())
			g := e.Under(e.LoadAddr(addr, fileT.Field(i).Type()), m.again)
			t := g.One()
			return t != nil && t.Op == "load" && t.Args[0] == addr
		}
	}
	return false
}

// opaque: the number of declarations collected so far can be anything.
func (m *svcModel) opaque(t *Term) bool {
	if (t.Op == "eq" || t.Op == "lt") && m.phi != nil {
		for i, a := range t.Args {
			if a.Op == "len" && a.Args[0] == m.phi.Term && !opaqueTerm(t.Args[1-i]) {
				return false
			}
		}
	}
	return opaqueTerm(t)
}

func runC01(c *Ctx, r *Report) {
	m, ok := startReport(c, r)
	if !ok {
		return
	}
	e := m.e
	if !m.newText(r) {
		return
	}
	r.Ok("the regenerated service.go starts with the previous one, printed from its tree")
	if m.allKept(c) {
		r.Ok("no declaration is removed")
		return
	}
	if !m.collector(c, r) {
		return
	}
	rpc, ok := m.rpc(r, m.keep)
	if !ok {
		return
	}
	ctx := e.B.And(m.loop.Back, m.nameFacts())
	kinds := []struct {
		key, what string
		cond      Node
	}{
		{"keep.nonfunc", "imports, types, constants and variables stay", e.B.Not(m.isFunc)},
		{"keep.unexported", "unexported functions and methods stay", e.B.And(m.isFunc, e.B.Not(m.exported()))},
		{"keep.constructor", "the constructor NewService stays", e.B.And(m.isFunc, m.constructor())},
		{"keep.handler", "handlers of current RPCs on the service type stay", e.B.And(m.isFunc, m.exported(), rpc, m.recvSpec(c))},
	}
	for _, k := range kinds {
		bad := e.B.And(ctx, k.cond, e.B.Not(m.keep))
		bad = e.B.And(bad, m.astTheory(bad, m.keep))
		r.obligeX(e, bad, k.key, &gsa.Effect{Pos: m.loop.Pos}, k.what, "not all of these stay: "+k.what, m.opaque)
	}
}

// astMutators change the tree they are given.
var astMutators = map[string]bool{
	"go/ast.SortImports": true, "go/ast.FileExports": true, "go/ast.FilterFile": true, "go/ast.FilterDecl": true, "go/ast.PackageExports": true,
}

func runC02(c *Ctx, r *Report) {
	m, ok := startReport(c, r)
	if !ok {
		return
	}
	e := m.e
	if !m.newText(r) {
		return
	}
	r.Ok("the regenerated service.go starts with the previous file, printed whole from its tree")
	// what follows the printed file must not be changed text of it
	mode := m.parse.Args[3].One()
	if mode == nil {
		r.Unknown("mode of the parser")
	} else if k, ok := mode.IntVal(); ok {
		r.Require(k&4 != 0, "comments", m.parse.Pos, "the previous file is parsed with its comments", "the previous service.go is parsed without comments, so they are lost")
		r.Require(k&3 == 0, "partial", m.parse.Pos, "the previous file is parsed to its end", "the previous service.go is parsed only in part")
	} else {
		r.Unknown("mode of the parser: %s", mode)
	}
	m.prune(c)
	stores := 0
	for _, ef := range e.Effects {
		switch ef.Kind {
		case "store", "lstore":
			for _, a := range ef.Args[0] {
				if !derivedFrom(a.T, m.file) {
					continue
				}
				stores++
				m.judgeStore(r, ef, a.T)
			}
		case "call", "defer", "go":
			if ef.Name == "go/printer.Fprint" || ef.Name == "go/format.Node" || ef.Name == "(*go/printer.Config).Fprint" {
				continue
			}
			for _, g := range ef.Args {
				for _, t := range gvTerms(g) {
					if !derivedFrom(t, m.file) || t == m.parse.Res {
						continue
					}
					if t.Op == "const" {
						continue
					}
					if !mutablePart(t) {
						continue
					}
					if astMutators[ef.Name] || strings.Contains(ef.Name, "/astutil.") {
						r.Viol("mutator", ef.Pos, "%s changes the user's file", ef.Name)
					} else {
						r.Unknown("%s is given a part of the previous file", ef.Name)
					}
				}
			}
		case "copy":
			if t := ef.Args[0].One(); t != nil && derivedFrom(t, m.file) {
				r.Viol("copy", ef.Pos, "copies over a part of the user's file: %s", short(t.String(), 100))
			}
		case "mapupdate", "delete":
			for _, a := range ef.Args[0] {
				if derivedFrom(a.T, m.file) {
					r.Viol("map", ef.Pos, "changes a map inside the user's file: %s", short(a.T.String(), 100))
				}
			}
		}
	}
	r.Analysed["stores_into_the_tree"] = stores
	r.Ok("%d stores into the parsed file were examined", stores)
}

// mutablePart reports whether t refers to memory of the tree.
func mutablePart(t *Term) bool {
	if t.Typ == nil {
		return true
	}
	switch t.Typ.Underlying().(type) {
	case *types.Basic:
		return false
	}
	return true
}

// judgeStore decides whether a store into the tree is one of the allowed.
func (m *svcModel) judgeStore(r *Report, ef *gsa.Effect, addr *Term) {
	if addr.Op == "fa" && addr.Aux == "Decls" && addr.Args[0] == m.file {
		r.Ok("store to the list of declarations (C01, C04)")
		return
	}
	kind, ok := m.sigName(addr)
	if ok {
		r.Ok("store to the %s type name", kind)
		return
	}
	if opaqueTerm(addr) {
		r.Unknown("store to %s", short(addr.String(), 160))
		return
	}
	r.Viol("store", ef.Pos, "changes a part of the user's code other than the request and response type names: %s", short(addr.String(), 200))
}

// sigName recognises the address of the type name of the second parameter or
// first result of the current declaration.
func (m *svcModel) sigName(addr *Term) (string, bool) {
	if m.fd == nil || addr.Op != "fa" || addr.Aux != "Name" {
		return "", false
	}
	sel := addr.Args[0] // load(fa(as(SelectorExpr)(T), Sel))
	if sel.Op != "load" || sel.Args[0].Op != "fa" || sel.Args[0].Aux != "Sel" {
		return "", false
	}
	as := sel.Args[0].Args[0]
	if as.Op != "as" || !strings.HasSuffix(as.Aux, "go/ast.SelectorExpr") {
		return "", false
	}
	t := as.Args[0]
	star := false
	if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Aux == "X" {
		st := t.Args[0].Args[0]
		if st.Op == "as" && strings.HasSuffix(st.Aux, "go/ast.StarExpr") {
			star = true
			t = st.Args[0]
		}
	}
	// t = load(fa(load(ia(list, idx)), Type))
	if t.Op != "load" || t.Args[0].Op != "fa" || t.Args[0].Aux != "Type" {
		return "", false
	}
	fld := t.Args[0].Args[0]
	if fld.Op != "load" || fld.Args[0].Op != "ia" {
		return "", false
	}
	list, idx := fld.Args[0].Args[0], fld.Args[0].Args[1]
	suffix := ""
	if star {
		suffix = "*"
	}
	ps := m.e.Path(m.fd, "Type.Params.List")
	rs := m.e.Path(m.fd, "Type.Results.List")
	switch list {
	case ps:
		if k, ok := idx.IntVal(); ok && k == 1 {
			return suffix + "request", true
		}
		if idx == m.lastIndex(ps) {
			return suffix + "request", true
		}
	case rs:
		if k, ok := idx.IntVal(); ok && k == 0 {
			return suffix + "response", true
		}
	}
	return "", false
}

func (m *svcModel) lastIndex(l *Term) *Term {
	return m.e.Add(m.e.Len(l), -1)
}

func runC03(c *Ctx, r *Report) {
	m, ok := startReport(c, r)
	if !ok {
		return
	}
	e := m.e
	if !m.newText(r) || !m.collector(c, r) {
		return
	}
	rpc, ok := m.rpc(r, m.keep)
	if !ok {
		return
	}
	handler := e.B.And(m.loop.Back, m.isFunc, m.exported(), rpc, m.recvSpec(c), m.keep, e.B.Not(m.constructor()))
	for _, part := range []struct{ kind, list, typ string }{{"request", "Type.Params", "RequestType"}, {"response", "Type.Results", "ResponseType"}} {
		fl := e.Path(m.fd, part.list)
		lst := e.Path(fl, "List")
		num := e.EqNode(e.Call("(*go/ast.FieldList).NumFields", types.Typ[types.Int], fl), e.Int(2))
		stored := map[bool]Node{false: gsa.False, true: gsa.False}
		starT := types.NewPointer(lookupType(c, "go/ast", "StarExpr"))
		selT := types.NewPointer(lookupType(c, "go/ast", "SelectorExpr"))
		fieldP := types.NewPointer(lookupType(c, "go/ast", "Field"))
		var first *gsa.Effect
		for _, ef := range e.Effects {
			if ef.Kind != "store" && ef.Kind != "lstore" {
				continue
			}
			for _, a := range ef.Args[0] {
				k, ok := m.sigName(a.T)
				if !ok || strings.TrimPrefix(k, "*") != part.kind {
					continue
				}
				cond := e.B.And(ef.Cond, a.C)
				if first == nil {
					first = ef
				}
				star := strings.HasPrefix(k, "*")
				stored[star] = e.B.Or(stored[star], cond)
				m.judgeValue(r, ef, cond, part.kind, part.typ)
				// only in kept handlers with two fields
				bad := e.B.AndNot(cond, e.B.And(m.keep, num))
				bad = e.B.And(bad, m.astTheory(bad, m.keep), m.nameFacts())
				r.oblige(e, bad, part.kind+".toooften", ef, "the "+part.kind+" type is changed only in kept handlers with two "+part.list,
					"the "+part.kind+" type is changed in a declaration that is not a kept handler with exactly two of them")
			}
		}
		if first == nil {
			m.noStore(r, part.kind)
			continue
		}
		for _, star := range []bool{false, true} {
			// the type of the field, in the two ways a field can be addressed
			var covered, form Node = gsa.False, gsa.False
			idxs := []*Term{e.Int(0)}
			if part.kind == "request" {
				idxs = []*Term{e.Int(1), m.lastIndex(lst)}
			}
			covered = stored[star]
			bad := gsa.True
			for _, ix := range idxs {
				fld := e.TermOf(e.LoadAddr(e.IA(lst, ix, fieldP), fieldP))
				t := e.Path(fld, "Type")
				if star {
					form = e.TypeIs(t, starT)
					t = e.Path(e.As(t, starT), "X")
				} else {
					form = e.B.Not(e.TypeIs(t, starT))
				}
				form = e.B.And(form, e.TypeIs(t, selT))
				bad = e.B.And(bad, form)
			}
			bad = e.B.And(bad, handler, num, e.B.Not(covered))
			bad = e.B.And(bad, m.astTheory(bad, m.keep), m.nameFacts(), m.sameField(lst, num, fieldP))
			f := "X.T"
			if star {
				f = "*X.T"
			}
			r.oblige(e, bad, part.kind+".missing"+f, first, "every kept handler whose "+part.kind+" has the form "+f+" gets the current type",
				"a kept handler whose "+part.kind+" has the form "+f+" keeps its old type")
		}
	}
	m.bounds(c, r, e.B.And(m.keep, m.isFunc))
}

// sameField: with two parameters the last field is the second one if there
// are two fields.
func (m *svcModel) sameField(lst *Term, num Node, fieldP types.Type) Node {
	return gsa.True
}

func (m *svcModel) noStore(r *Report, kind string) {
	// is there any store in the tree besides the declarations?
	for _, ef := range m.e.Effects {
		if ef.Kind == "store" || ef.Kind == "lstore" {
			for _, a := range ef.Args[0] {
				if derivedFrom(a.T, m.file) && !(a.T.Op == "fa" && a.T.Aux == "Decls") {
					if _, ok := m.sigName(a.T); !ok && opaqueTerm(a.T) {
						r.Unknown("how the %s type is updated", kind)
						return
					}
				}
			}
		}
	}
	r.Viol(kind+".never", m.loop.Pos, "the %s type of kept handlers is never updated", kind)
}

// judgeValue decides whether a stored type name is that of the handler's RPC.
func (m *svcModel) judgeValue(r *Report, ef *gsa.Effect, cond Node, kind, field string) {
	e := m.e
	for _, v := range ef.Args[1] {
		c := e.B.And(cond, v.C)
		if c == gsa.False || !e.Sat(c) {
			continue
		}
		for _, t := range gvTerms(gsa.V(v.T)) {
			// load(fa(load(fa(lookup(M, name), field)), Name))
			ok := false
			if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Aux == "Name" {
				ty := t.Args[0].Args[0]
				if ty.Op == "load" && ty.Args[0].Op == "fa" && ty.Args[0].Aux == field {
					rpc := ty.Args[0].Args[0]
					if rpc.Op == "lookup" && rpc.Args[1] == m.name {
						if v, why := m.filled(rpc.Args[0]); v == holds {
							ok = true
						} else if v == broken {
							r.Viol(kind+".map", ef.Pos, "the RPC is looked up in a map that does not hold every RPC under its name: %s", why)
							ok = true
						} else {
							r.Unknown("the RPC is looked up in a map whose filling is unclear: %s", why)
							ok = true
						}
					}
				}
			}
			if ok {
				r.Ok("the %s type name comes from the RPC named like the handler", kind)
				continue
			}
			if opaqueTerm(t) {
				r.Unknown("value of the %s type name: %s", kind, short(t.String(), 120))
				continue
			}
			r.Viol(kind+".value", ef.Pos, "the %s type name is set to %s instead of the %s of the RPC named like the handler", kind, short(t.String(), 160), field)
		}
	}
}

// bounds checks the indexes into signatures.
func (m *svcModel) bounds(c *Ctx, r *Report, ctx Node) {
	e := m.e
	n := 0
	for _, ef := range e.Effects {
		if ef.Kind != "index" || len(ef.Args) < 2 {
			continue
		}
		inLoop := false
		for _, l := range ef.Loops {
			if l == m.loop {
				inLoop = true
			}
		}
		x, ix := ef.Args[0].One(), ef.Args[1].One()
		if !inLoop || x == nil || ix == nil || !derivedFrom(x, m.fd) {
			continue
		}
		n++
		k, isConst := ix.IntVal()
		var out Node
		ln := e.Len(x)
		switch {
		case isConst:
			out = e.B.Not(e.LtNode(e.Int(k), ln))
		case ix == m.lastIndex(x):
			out = e.EqNode(ln, e.Int(0))
		default:
			continue
		}
		bad := e.B.And(ef.Cond, out)
		bad = e.B.And(bad, m.astTheory(bad, m.keep, out), m.nameFacts())
		r.oblige(e, bad, "bounds", ef, "index "+short(x.String(), 80)+"["+ix.String()+"] is within bounds",
			"panics on index "+short(x.String(), 80)+"["+ix.String()+"]")
	}
	r.Analysed["index_operations"] = n
}

func runC04(c *Ctx, r *Report) {
	m, ok := startReport(c, r)
	if !ok {
		return
	}
	e := m.e
	if !m.newText(r) {
		return
	}
	if m.allKept(c) {
		r.Viol("keepall", m.entry.eff.Pos, "the declarations of the previous file are not filtered, so handlers of removed RPCs stay")
		return
	}
	if !m.collector(c, r) {
		return
	}
	rpc, ok := m.rpc(r, m.keep)
	if !ok {
		return
	}
	spec := e.B.Or(e.B.Not(m.isFunc), e.B.Not(m.exported()), m.constructor(), e.B.And(rpc, m.recvSpec(c)))
	bad := e.B.And(m.loop.Back, m.keep, e.B.Not(spec))
	bad = e.B.And(bad, m.astTheory(bad, m.keep, spec), m.nameFacts())
	r.oblige(e, bad, "remove", &gsa.Effect{Pos: m.loop.Pos}, "exported functions stay only as handlers of current RPCs on the service type (or as the constructor)",
		"an exported function that is no handler of a current RPC on the service type stays")
	m.stubs(c, r, rpc)
	m.first(c, r)
}

// stubs checks which RPCs are rendered after the kept code.
func (m *svcModel) stubs(c *Ctx, r *Report, rpc Node) {
	e := m.e
	handler := e.B.And(m.isFunc, m.exported(), rpc, m.recvSpec(c), m.keep, e.B.Not(m.constructor()))
	// condition under which nothing is appended / stubs are appended
	none, some := gsa.False, gsa.False
	var data []*Term
	for _, a := range e.Under(m.text, m.again) {
		t := a.T
		if t.Op != "cat" {
			none = e.B.Or(none, e.B.And(a.C, m.again))
			continue
		}
		some = e.B.Or(some, e.B.And(a.C, m.again))
		for _, p := range t.Args[1:] {
			if s, ok := p.StrVal(); ok && strings.TrimSpace(s) == "" {
				continue
			}
			if p.Op == "call" && p.CallName() == "executed" {
				if as := assetOf(p.Args[0]); as == "service/service_methods.go.tmpl" {
					data = append(data, p.Args[1])
					continue
				}
				r.Unknown("template rendered after the kept code: %s", short(p.String(), 120))
				return
			}
			r.Unknown("text after the kept code: %s", short(p.String(), 120))
			return
		}
	}
	if len(data) == 0 {
		r.Viol("stubs.never", m.entry.eff.Pos, "no stubs are added for RPCs without a handler")
		return
	}
	for _, d := range data {
		nameF, listF := stubFields(d, m.methods.Typ)
		if nameF == "" || listF == "" {
			r.Unknown("the data of the stubs: %s", short(d.String(), 120))
			continue
		}
		sn := e.Under(e.FieldOf(d, nameF, strT), some)
		if one := sn.One(); one == m.g.svcName || one == m.lower {
			r.Ok("the stubs are rendered for the service of the definition")
		} else if one != nil && !opaqueTerm(one) && !one.Contains(m.g.svcName) {
			r.Viol("stubs.service", m.entry.eff.Pos, "the stubs are rendered for service %s", short(one.String(), 80))
		} else {
			r.Unknown("service name of the stubs")
		}
		ms := e.Under(e.FieldOf(d, listF, m.methods.Typ), some)
		mt := ms.One()
		if mt == nil {
			r.Unknown("the methods rendered as stubs have several sources")
			continue
		}
		if mt == m.methods {
			r.Viol("stubs.all", m.entry.eff.Pos, "stubs are rendered for every RPC, also for those with a kept handler")
			continue
		}
		pi := e.PhiInfo(mt)
		if pi == nil {
			r.Unknown("methods rendered as stubs: %s", short(mt.String(), 120))
			continue
		}
		l := pi.Loop
		if l.Kind == "map" {
			r.Viol("stubs.maporder", l.Pos, "stubs are rendered in the order of a map, not of the definition")
			continue
		}
		if l.Kind != "slice" || l.Over != m.methods {
			r.Unknown("the stubs are collected by a loop over %v", l.Over)
			continue
		}
		if l.Offset != 0 || len(l.Exits) > 0 {
			r.Viol("stubs.partial", l.Pos, "the loop that collects the RPCs without a handler does not visit every RPC")
			continue
		}
		el := e.Elem(l, m.methods.Typ.Underlying().(*types.Slice).Elem())
		want := gsa.False
		shape := true
		for _, a := range pi.Next {
			if a.T == pi.Term {
				continue
			}
			if a.T.Op != "app" || a.T.Args[0] != pi.Term || len(a.T.Args) != 2 || a.T.Args[1] != el {
				shape = false
				continue
			}
			want = e.B.Or(want, a.C)
		}
		for _, a := range pi.Init {
			if !emptySlice(a.T) {
				shape = false
			}
		}
		if !shape {
			r.Unknown("the methods rendered as stubs are collected in an unexpected way")
			continue
		}
		// want must be: no handler of this RPC was kept
		var at *Term
		for v := range e.B.Support(want) {
			t := e.VarTerm(v)
			if t.Op == "has" && t.Args[1] == e.Path(el, "Name") {
				at = t
			}
		}
		if at == nil {
			if want == gsa.True || e.Implies(l.Back, want) {
				r.Viol("stubs.all", l.Pos, "stubs are rendered for every RPC, also for those with a kept handler")
			} else {
				r.Unknown("which RPCs are rendered as stubs: %s", short(e.CondString(want), 160))
			}
			continue
		}
		mp := at.Args[0]
		hasIt := e.Atom(at)
		isFilled, why := m.filled(mp)
		switch {
		case isFilled == holds:
			m.iff(r, e.B.And(l.Back, want), e.B.And(l.Back, hasIt), "stubs.which", l.Pos, "stubs are rendered for exactly the RPCs left in the map")
			m.removed(c, r, mp, handler, "delete")
		case isFilled == broken:
			r.Viol("stubs.map", l.Pos, "the map of RPCs without handler does not start with every RPC: %s", why)
		default:
			// a set of the handlers seen?
			ups := 0
			for _, ef := range e.Effects {
				if ef.Kind == "mapupdate" && ef.Args[0].One() == mp {
					ups++
				}
			}
			if ups == 0 {
				r.Unknown("which RPCs are rendered as stubs: %s", why)
				continue
			}
			m.iff(r, e.B.And(l.Back, want), e.B.AndNot(l.Back, hasIt), "stubs.which", l.Pos, "stubs are rendered for exactly the RPCs not in the set of kept handlers")
			m.removed(c, r, mp, handler, "mapupdate")
		}
	}
	// nothing is appended only if no RPC lacks a handler
	if none != gsa.False {
		for v := range e.B.Support(none) {
			_ = v
		}
		ok := false
		ats := gsa.False
		for v := range e.B.Support(e.B.And(none, m.again)) {
			t := e.VarTerm(v)
			if t.Op == "eq" && t.Args[0].Op == "len" && t.Args[0].Args[0].Op == "makemap" {
				if fv, _ := m.filled(t.Args[0].Args[0]); fv == holds {
					ats = e.B.Or(ats, e.EqNode(t.Args[0], e.Int(0)))
					ok = true
				}
			}
			if t.Op == "eq" && t.Args[0].Op == "len" && e.PhiInfo(t.Args[0].Args[0]) != nil {
				ats = e.B.Or(ats, e.EqNode(t.Args[0], e.Int(0)))
				ok = true
			}
		}
		if !ok {
			v, w := decide(e, none, opaqueTerm)
			if v == broken {
				r.Viol("stubs.skipped", m.entry.eff.Pos, "no stubs are added, whatever RPCs lack a handler, when %s", w)
			} else {
				r.Unknown("when no stubs are added (%s)", w)
			}
		} else {
			bad := e.B.AndNot(none, ats)
			r.oblige(e, bad, "stubs.skipped", m.entry.eff, "no stubs are added only when no RPC is left", "no stubs are added although RPCs lack a handler")
		}
	}
}

// stubFields are the fields of the data of the stubs with the name of the
// service and the list of the methods.
func stubFields(d *Term, list types.Type) (nameF, listF string) {
	if d.Typ == nil {
		return
	}
	st, ok := types.Unalias(d.Typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		switch f := st.Field(i); {
		case isStringType(f.Type()):
			nameF = f.Name()
			n++
		case types.Identical(f.Type(), list):
			listF = f.Name()
			n++
		}
	}
	if n != 2 {
		return "", ""
	}
	return
}

func (m *svcModel) iff(r *Report, a, b Node, key string, pos token.Pos, what string) {
	e := m.e
	r.oblige(e, e.B.AndNot(a, b), key, &gsa.Effect{Pos: pos}, what+" (⇒)", "not true that "+what)
	r.oblige(e, e.B.AndNot(b, a), key, &gsa.Effect{Pos: pos}, what+" (⇐)", "not true that "+what)
}

// removed checks that the map is changed exactly for kept handlers.
func (m *svcModel) removed(c *Ctx, r *Report, mp *Term, handler Node, kind string) {
	e := m.e
	got := gsa.False
	var at *gsa.Effect
	for _, ef := range e.Effects {
		if ef.Kind != kind || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T != mp {
				continue
			}
			in := false
			for _, l := range ef.Loops {
				if l == m.loop {
					in = true
				}
			}
			if !in {
				if kind == "delete" {
					v, w := decide(e, e.B.And(ef.Cond, a.C, m.g.ok), opaqueTerm)
					if v == broken {
						r.Viol("handled.elsewhere", ef.Pos, "an RPC is taken off the list of those without a handler for another reason than a kept handler, when %s", w)
					} else if v == undecided {
						r.Unknown("RPC removed outside of the loop over the declarations")
					}
				}
				continue
			}
			if k := ef.Args[1].One(); k != m.name {
				if k != nil && !opaqueTerm(k) {
					r.Viol("handled.key", ef.Pos, "the RPC marked as having a handler is %s, not the one named like the handler", short(k.String(), 100))
				} else {
					r.Unknown("which RPC is marked as having a handler")
				}
				return
			}
			at = ef
			got = e.B.Or(got, e.B.And(ef.Cond, a.C))
		}
	}
	if at == nil {
		r.Viol("handled.never", m.loop.Pos, "RPCs with a kept handler are never taken off the list of those without one, so they get a second handler")
		return
	}
	th := m.astTheory(got, handler, m.keep)
	ctx := e.B.And(m.loop.Back, th, m.nameFacts())
	r.oblige(e, e.B.And(ctx, got, e.B.Not(handler)), "handled.toomany", at, "an RPC counts as handled only if its handler was kept",
		"an RPC counts as having a handler although none was kept for it")
	r.oblige(e, e.B.And(ctx, handler, e.B.Not(got)), "handled.missed", at, "every kept handler's RPC counts as handled",
		"a handler is kept but its RPC still counts as having none, so it gets a second one")
}

func assetOf(t *Term) string {
	out := ""
	t.Walk(func(x *Term) bool {
		if x.Op == "asset" {
			out = x.Aux
		}
		return out == ""
	})
	return out
}

// first checks what is generated when there is no previous service.go.
func (m *svcModel) first(c *Ctx, r *Report) {
	e := m.e
	cond := e.B.And(m.entry.eff.Cond, m.g.ok, e.NilNode(m.prev))
	if !e.Sat(cond) {
		r.Viol("first.none", m.entry.eff.Pos, "without a previous service.go none is generated")
		return
	}
	for _, a := range e.Under(m.text, cond) {
		t := a.T
		if t.Op == "call" && t.CallName() == "executed" && assetOf(t.Args[0]) == serviceAsset {
			sv := e.Path(t.Args[1], "Service")
			if sv != nil && sv == e.Path(m.g.sd, "Service") {
				r.Ok("the first generation renders the service template with the service of the definition")
				continue
			}
			if sv != nil && !opaqueTerm(sv) {
				r.Viol("first.service", m.entry.eff.Pos, "the first generation renders the template for %s", short(sv.String(), 100))
				continue
			}
			r.Unknown("data of the service template: %s", short(t.Args[1].String(), 100))
			continue
		}
		if opaqueTerm(t) {
			r.Unknown("first generation gives %s", short(t.String(), 120))
			continue
		}
		v, w := decide(e, e.B.And(a.C, cond), opaqueTerm)
		if v == broken {
			r.Viol("first.text", m.entry.eff.Pos, "without a previous file service.go is %s, when %s", short(t.String(), 120), w)
		} else {
			r.Unknown("first generation gives %s", short(t.String(), 120))
		}
	}
}
