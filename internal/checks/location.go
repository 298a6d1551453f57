package checks

import (
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C20", Rule: "Evaluates svcdef.New symbolically (the parser of the definition files gives an arbitrary service). The location stored for each parameter must be \"path\" exactly when the field's name equals the Go name of the first component of a variable of the binding's path, else \"body\" exactly when a body option is * or names the field, else \"query\"; the loops that look for a match must go through every path variable and every option. The verb and path stored, and the path the variables are taken from, must be those of the custom pattern when there is one and else those of the get, put, post, delete or patch option.", Run: runC20})
}

// defEval is the evaluation of svcdef.New.
type defEval struct {
	e  *gsa.Engine
	rv *rootEval
}

func (c *Ctx) defEval() *defEval {
	if d, ok := c.cache["svcdef.New"].(*defEval); ok {
		return d
	}
	op := func(n string) bool {
		return strings.Contains(n, "/svcparse.") || strings.HasSuffix(n, "pkg.GoCamelCase")
	}
	rv := c.RootEval("svcdef", "New", op)
	if rv == nil {
		return nil
	}
	d := &defEval{e: rv.e, rv: rv}
	c.cache["svcdef.New"] = d
	return d
}

// fieldStore is what a field of a struct made somewhere is set to.
type fieldStore struct {
	base *Term // the struct
	val  GV
	cond Node // when it is made
	eff  *gsa.Effect
}

// stores lists the values a field of the structs of a type gets, by struct.
func stores(e *gsa.Engine, typ, field string) (out []*fieldStore) {
	by := map[*Term]*fieldStore{}
	for _, ef := range e.Effects {
		if ef.Kind != "store" && ef.Kind != "lstore" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op != "fa" || a.T.Aux != field || a.T.Args[0].Typ == nil || !strings.HasSuffix(typeName(a.T.Args[0]), typ) {
				continue
			}
			cond := e.B.And(ef.Cond, a.C)
			if !e.Sat(cond) {
				continue
			}
			b := a.T.Args[0]
			s := by[b]
			if s == nil {
				s = &fieldStore{base: b, val: e.Under(ef.Args[1], cond), cond: cond, eff: ef}
				by[b] = s
				out = append(out, s)
				continue
			}
			s.val = e.Merge(cond, ef.Args[1], s.val)
			s.cond = e.B.Or(s.cond, cond)
			s.eff = ef
		}
	}
	return out
}

func typeName(t *Term) string {
	if t.Typ == nil {
		return ""
	}
	return strings.TrimLeft(t.Typ.String(), "*")
}

var httpVerbs = []string{"get", "put", "post", "delete", "patch"}

// optElem recognises an element of a list of options of a binding and says
// which list it is of: the standard options or the custom pattern.
func optElem(t *Term) (custom bool, ok bool) {
	if t.Op != "load" || t.Args[0].Op != "ia" || t.Args[0].Args[1].Op != "iter" {
		return false, false
	}
	l := t.Args[0].Args[0]
	if l.Op != "load" || l.Args[0].Op != "fa" || !strings.HasSuffix(typeName(l.Args[0].Args[0]), "svcparse.HTTPBinding") {
		return false, false
	}
	switch l.Args[0].Aux {
	case "CustomHTTPPattern":
		return true, true
	case "Fields":
		return false, true
	}
	return false, false
}

// optPart recognises Kind and Value of such an element.
func optPart(t *Term) (elem *Term, part string, custom, ok bool) {
	if t.Op != "load" || t.Args[0].Op != "fa" || t.Aux != "" {
		return nil, "", false, false
	}
	custom, ok = optElem(t.Args[0].Args[0])
	return t.Args[0].Args[0], t.Args[0].Aux, custom, ok
}

// locCheck decides C20 for the evaluation of svcdef.New.
type locCheck struct {
	c    *Ctx
	r    *Report
	e    *gsa.Engine
	why  string
	done map[string]bool
}

// sides gives both sides of an equation, in both orders.
func sides(t *Term) [][2]*Term {
	if t.Op != "eq" || len(t.Args) != 2 {
		return nil
	}
	return [][2]*Term{{t.Args[0], t.Args[1]}, {t.Args[1], t.Args[0]}}
}

// goName strips pkg.GoCamelCase.
func goName(t *Term) (*Term, bool) {
	if strings.HasSuffix(t.CallName(), "/pkg.GoCamelCase") && len(t.Args) == 1 {
		return t.Args[0], true
	}
	return t, false
}

// component strips the choice of the first component of a dotted name.
func (k *locCheck) component(t *Term) (*Term, bool) {
	if t.CallName() == "before" && len(t.Args) == 2 && t.Args[1] == k.e.Str(".") {
		return t.Args[0], true
	}
	if t.Op == "res" && t.Aux == "0" && t.Args[0].CallName() == "strings.Cut" && t.Args[0].Args[1] == k.e.Str(".") {
		return t.Args[0].Args[0], true
	}
	return t, false
}

// custom is the condition that the binding has a custom pattern, as far as
// the atoms of the terms go.
func (k *locCheck) noCustom(elem *Term) Node {
	e := k.e
	l := elem.Args[0].Args[0] // the list
	b := l.Args[0].Args[0]    // the binding
	cl := e.Path(b, "CustomHTTPPattern")
	if cl == nil {
		return gsa.False
	}
	return e.NilNode(cl)
}

// customFacts: a custom pattern that is there has parts.
func (k *locCheck) customFacts(ns ...Node) Node {
	e := k.e
	ax := gsa.True
	seen := map[*Term]bool{}
	for _, n := range ns {
		for v := range e.B.Support(n) {
			e.VarTerm(v).Walk(func(t *Term) bool {
				if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Aux == "CustomHTTPPattern" && !seen[t] {
					seen[t] = true
					z := e.EqNode(e.Len(t), e.Int(0))
					ax = e.B.And(ax, e.B.Not(e.B.Xor(z, e.NilNode(t))))
					ax = e.B.And(ax, e.B.Not(e.B.Xor(z, e.B.Not(e.LtNode(e.Int(0), e.Len(t))))))
				}
				return true
			})
		}
	}
	return ax
}

func (k *locCheck) anyVerb(kind *Term) Node {
	n := gsa.False
	for _, v := range httpVerbs {
		n = k.e.B.Or(n, k.e.EqNode(kind, k.e.Str(v)))
	}
	return n
}

// verbPath decides that a value is the verb or the path of the binding.
func (k *locCheck) verbPath(g GV, ctx Node, part string, ef *gsa.Effect, what string) bool {
	e, r := k.e, k.r
	key := "custom pattern " + part
	ckind := map[string]string{"Kind": "kind", "Value": "path"}[part]
	var std, cus *Term // the elements the value is taken from
	var mine, others Node
	facts := k.customFacts(append(condsOf(g), ctx)...)
	ctx = e.B.And(ctx, facts)
	for _, a := range unphi(e, g) {
		cond := e.B.And(ctx, a.C)
		if !e.Sat(cond) {
			continue
		}
		a.C = e.B.Simplify(a.C, ctx)
		elem, p, custom, ok := optPart(a.T)
		s, isStr := a.T.StrVal()
		switch {
		case isStr && s == "":
			continue
		case ok && custom:
			if p != "Value" {
				r.Viol(key, ef.Pos, "%s is the %s of a part of the custom pattern", what, p)
				return false
			}
			cus = elem
			bad := e.B.AndNot(a.C, e.B.And(e.B.Not(k.noCustom(elem)), e.EqNode(e.Path(elem, "Kind"), e.Str(ckind))))
			if k.obligeIn(ctx, bad, key, ef, what+" is taken from the custom pattern's "+ckind+" only", what+" is taken from a part of the custom pattern which is not its "+ckind, opaqueLocation) != holds {
				return false
			}
			mine = e.B.Or(mine, a.C)
		case ok:
			if p != part {
				r.Viol("option "+part, ef.Pos, "%s is the %s of an option", what, p)
				return false
			}
			std = elem
			bad := e.B.AndNot(a.C, e.B.And(k.noCustom(elem), k.anyVerb(e.Path(elem, "Kind"))))
			if k.obligeIn(ctx, bad, "option "+part, ef, what+" is taken from the option get, put, post, delete or patch, and only without a custom pattern", what+" is taken from another option than get, put, post, delete or patch, or in spite of a custom pattern", opaqueLocation) != holds {
				return false
			}
			others = e.B.Or(others, a.C)
		case isStr && part == "Kind":
			var kind *Term
			for v := range e.B.Support(a.C) {
				for _, s := range sides(e.VarTerm(v)) {
					if el, p, cu, ok := optPart(s[0]); ok && !cu && p == "Kind" {
						std, kind = el, s[0]
					}
				}
			}
			if kind == nil {
				r.Unknown("%s: %s", what, short(a.T.String(), 80))
				return false
			}
			bad := e.B.AndNot(a.C, e.B.And(k.noCustom(std), e.EqNode(kind, a.T)))
			if k.obligeIn(ctx, bad, "option "+part, ef, what+" "+s+" is that of the option "+s, what+" "+s+" is used for another option, or in spite of a custom pattern", opaqueLocation) != holds {
				return false
			}
			others = e.B.Or(others, a.C)
		default:
			r.Unknown("%s: %s", what, short(a.T.String(), 100))
			return false
		}
	}
	// nothing is left out
	if std == nil {
		r.Viol("option "+part, ef.Pos, "%s is never taken from an option", what)
		return false
	}
	if cus == nil {
		r.Viol(key, ef.Pos, "%s is never taken from the custom pattern", what)
		return false
	}
	kind := e.Path(std, "Kind")
	for _, v := range httpVerbs {
		need := e.B.And(k.noCustom(std), e.EqNode(kind, e.Str(v)))
		if k.obligeIn(ctx, e.B.AndNot(need, others), "option "+part, ef, what+" is taken from the option "+v, what+" is not taken from the option "+v, opaqueLocation) != holds {
			return false
		}
	}
	need := e.B.And(e.B.Not(k.noCustom(cus)), e.EqNode(e.Path(cus, "Kind"), e.Str(ckind)))
	if k.obligeIn(ctx, e.B.AndNot(need, mine), key, ef, what+" is taken from the custom pattern's "+ckind, what+" is not taken from the custom pattern's "+ckind, opaqueLocation) != holds {
		return false
	}
	ok := k.wholeLoop(std, ctx, k.anyVerb(kind), ef, what+": the options")
	return k.wholeLoop(cus, ctx, e.EqNode(e.Path(cus, "Kind"), e.Str(ckind)), ef, what+": the custom pattern") && ok
}

// wholeLoop decides that the loop an element belongs to goes through the
// whole list unless it stops at a match.
func (k *locCheck) wholeLoop(elem *Term, ctx, match Node, ef *gsa.Effect, what string) bool {
	l := k.e.LoopByID(elem.Args[0].Args[1].Aux)
	if l == nil {
		k.r.Unknown("%s: no loop", what)
		return false
	}
	return k.whole(l, elem.Args[0].Args[0], ctx, match, ef, what)
}

func (k *locCheck) whole(l *gsa.Loop, list *Term, ctx, match Node, ef *gsa.Effect, what string) bool {
	r, e := k.r, k.e
	if l.Kind != "slice" && l.Kind != "count" {
		r.Unknown("%s: not a plain loop", what)
		return false
	}
	if l.Offset > 0 {
		r.Viol("loop "+what, l.Pos, "%s are not gone through from the first one", what)
		return false
	}
	over := l.Over == list || l.Over != nil && l.Over.Op == "len" && l.Over.Args[0] == list
	for _, x := range l.OverG {
		over = over || x.T == list
	}
	if !over {
		r.Unknown("%s: a loop over %v", what, l.Over)
		return false
	}
	ok := true
	for _, x := range l.Exits {
		bad := e.B.AndNot(e.B.Simplify(x.Cond, l.Entry), match)
		if k.obligeIn(e.B.And(ctx, x.Cond, k.customFacts(x.Cond, match)), bad, "loop "+what, ef, what+" are gone through up to a match", what+" are not gone through to the end", opaqueTermInLoop) != holds {
			ok = false
		}
	}
	return ok
}

// unphi replaces values carried around a loop by what they are set to.
func unphi(e *gsa.Engine, g GV) (out GV) {
	for _, a := range g {
		pi := e.PhiInfo(a.T)
		if a.T.Op != "phi" || pi == nil {
			out = append(out, a)
			continue
		}
		set := gsa.False
		for _, n := range pi.Next {
			if n.T != a.T {
				set = e.B.Or(set, n.C)
				out = append(out, gsa.Alt{C: e.B.And(a.C, n.C), T: n.T})
			}
		}
		for _, n := range pi.Init {
			out = append(out, gsa.Alt{C: e.B.And(e.B.AndNot(a.C, set), n.C), T: n.T})
		}
	}
	return out
}

func condsOf(g GV) (out []Node) {
	for _, a := range g {
		out = append(out, a.C)
	}
	return out
}

// pathVar decides whether a term is the current one of the variables of the
// path of the binding.
func (k *locCheck) pathVar(t *Term, ctx Node, ef *gsa.Effect) verdict {
	t = stripBraces(t, nil)
	if t.Op != "load" || t.Args[0].Op != "ia" {
		return undecided
	}
	list, i := t.Args[0].Args[0], t.Args[0].Args[1]
	if i.Op != "iter" {
		if _, c := i.IntVal(); c {
			if v := k.pathVars(list, ctx, ef); v != holds {
				return v
			}
			k.why = "only one of the variables of the path is looked at"
			return broken
		}
		return undecided
	}
	return k.pathVars(list, ctx, ef)
}

// stripBraces removes what takes the braces off a variable.
func stripBraces(t *Term, did *bool) *Term {
	set := func() {
		if did != nil {
			*did = true
		}
	}
	for {
		switch {
		case t.CallName() == "(*regexp.Regexp).ReplaceAllString" && len(t.Args) == 3 && t.Args[2].StrValEmpty():
			p := pattern(t.Args[0])
			if p != "{|}" && p != "[{}]" && p != `\{|\}` && p != `[\{\}]` {
				return t
			}
			set()
			t = t.Args[1]
		case t.CallName() == "strings.Trim" || t.CallName() == "strings.TrimSuffix" || t.CallName() == "strings.TrimPrefix" || t.CallName() == "strings.TrimLeft" || t.CallName() == "strings.TrimRight":
			s, ok := t.Args[1].StrVal()
			if !ok || strings.Trim(s, "{}") != "" {
				return t
			}
			set()
			t = t.Args[0]
		default:
			return t
		}
	}
}

// pattern is the text of a compiled regular expression.
func pattern(t *Term) string {
	if t.Op == "res" {
		t = t.Args[0]
	}
	if t.CallName() == "regexp.MustCompile" || t.CallName() == "regexp.Compile" {
		s, _ := t.Args[0].StrVal()
		return s
	}
	return ""
}

// bracePatterns are the ways to write "a variable in braces" whose variants
// are told apart here; the value tells whether it is one.
var bracePatterns = map[string]bool{
	"{(.*?)}": true, "{.*?}": true, `\{(.*?)\}`: true, `\{.*?\}`: true, "{([^}]*)}": true, "{[^}]*}": true, `\{([^}]*)\}`: true, `\{[^}]*\}`: true,
	"{(.+?)}": true, `\{(.+?)\}`: true, "{([^}]+)}": true, "{[^}]+}": true, `\{([^}]+)\}`: true, `\{[^}]+\}`: true, "{([^{}]*)}": true, `\{([^{}]*)\}`: true, "{([^{}]+)}": true, `\{([^{}]+)\}`: true,
}

// pathVars decides whether a list has all variables of the path.
func (k *locCheck) pathVars(list *Term, ctx Node, ef *gsa.Effect) verdict {
	e := k.e
	d := &defLists{e: e, at: gsa.True, known: map[*Term]verdict{}}
	if n := list.CallName(); n == "(*regexp.Regexp).FindAllString" || n == "(*regexp.Regexp).FindAllStringSubmatch" {
		return k.found(list, gsa.True, ctx, ef)
	}
	if list.Op == "slice" {
		if v := k.pathVars(list.Args[0], ctx, ef); v != holds {
			return v
		}
		_, c1 := list.Args[1].IntVal()
		_, c2 := list.Args[2].IntVal()
		if c1 && list.Args[1] != e.Int(0) || c2 {
			k.why = "only some of the variables of the path are looked at"
			return broken
		}
		return undecided
	}
	segs, ok := d.segments(list)
	if !ok || len(segs) != 1 || segs[0].loop == nil {
		k.why = "the list " + short(list.String(), 80)
		return undecided
	}
	s := segs[0]
	cover := gsa.False
	var paths GV
	for _, it := range s.items {
		t := stripBraces(it.t, nil)
		if t.Op == "load" && t.Args[0].Op == "ia" && t.Args[0].Args[1] == e.Int(1) && t.Args[0].Args[0].Op == "load" {
			t = t.Args[0].Args[0]
		}
		if t.Op != "load" || t.Args[0].Op != "ia" || t.Args[0].Args[1] != e.Iter(s.loop) {
			k.why = short(it.t.String(), 80)
			return undecided
		}
		p, v := k.findAll(t.Args[0].Args[0])
		if v != holds {
			return v
		}
		cover = e.B.Or(cover, it.cond)
		paths = append(paths, gsa.Alt{C: it.cond, T: p})
	}
	if v, w := d.leftOut(s.loop, cover, gsa.True); v != holds {
		k.why = "a variable is left out when " + w
		return v
	}
	if s.loop.Offset > 0 {
		k.why = "the first variable is left out"
		return broken
	}
	for _, x := range s.loop.Exits {
		if v, w := decide(e, x.Cond, opaqueTermInLoop); v != holds {
			k.why = "the variables after one are left out when " + w
			return v
		}
	}
	return k.pathOf(paths, ctx, ef)
}

func (k *locCheck) found(list *Term, cond, ctx Node, ef *gsa.Effect) verdict {
	p, v := k.findAll(list)
	if v != holds {
		return v
	}
	return k.pathOf(GV{{C: cond, T: p}}, ctx, ef)
}

// findAll recognises the list of all variables of a path.
func (k *locCheck) findAll(t *Term) (*Term, verdict) {
	if n := t.CallName(); n != "(*regexp.Regexp).FindAllString" && n != "(*regexp.Regexp).FindAllStringSubmatch" {
		k.why = short(t.String(), 80)
		return nil, undecided
	}
	if n, ok := t.Args[2].IntVal(); !ok || n >= 0 {
		k.why = "not all variables of the path are looked for"
		if ok {
			return nil, broken
		}
		return nil, undecided
	}
	p := pattern(t.Args[0])
	if bracePatterns[p] {
		return t.Args[1], holds
	}
	k.why = "the pattern " + p
	switch v := judgeBraces(p); v {
	case broken:
		k.why = "the pattern " + p + " does not find every variable, and nothing else"
		return nil, broken
	case holds:
		return t.Args[1], holds
	}
	return nil, undecided
}

// pathOf decides that the paths the variables are taken from are the
// binding's path.
func (k *locCheck) pathOf(paths GV, ctx Node, ef *gsa.Effect) verdict {
	n, u := len(k.r.Violations), len(k.r.Undecided)
	if k.verbPath(paths, ctx, "Value", ef, "the path whose variables are looked for") {
		return holds
	}
	if len(k.r.Violations) > n {
		k.why = "see above"
		return broken
	}
	if len(k.r.Undecided) > u {
		return undecided
	}
	return undecided
}

func runC20(c *Ctx, r *Report) {
	d := c.defEval()
	if d == nil {
		r.Unknown("svcdef.New is missing")
		return
	}
	e := d.e
	k := &locCheck{c: c, r: r, e: e}
	r.Analysed["functions"] = funcsAnalysed(e)
	r.Analysed["imprecisions"] = notes(e)
	n := 0
	for _, s := range stores(e, "svcdef.HTTPBinding", "Verb") {
		if zeroOnly(s.val) {
			continue
		}
		n++
		k.verbPath(s.val, s.cond, "Kind", s.eff, "the verb of a binding")
	}
	for _, s := range stores(e, "svcdef.HTTPBinding", "Path") {
		if zeroOnly(s.val) {
			continue
		}
		n++
		k.verbPath(s.val, s.cond, "Value", s.eff, "the path of a binding")
	}
	if n < 2 {
		r.Unknown("the verb and the path of a binding are not found to be set in svcdef.New")
	}
	fields := map[*Term]*fieldStore{}
	for _, s := range stores(e, "svcdef.HTTPParameter", "Field") {
		fields[s.base] = s
	}
	n = 0
	for _, s := range stores(e, "svcdef.HTTPParameter", "Location") {
		if zeroOnly(s.val) {
			continue
		}
		n++
		f := fields[s.base]
		if f == nil || f.val.One() == nil {
			r.Unknown("the field that a location is set for is not known")
			continue
		}
		k.location(s, f.val.One())
	}
	if n == 0 {
		r.Unknown("the location of a parameter is not found to be set in svcdef.New")
	}
}

// given is what is known before: of what the analysis knows nothing about and
// the question does not mention, it is only said that it can be so.
func given(e *gsa.Engine, ctx Node, about ...Node) Node {
	sup := support(e, about...)
	for v := range e.B.Support(ctx) {
		if !sup[v] {
			ctx = e.B.Or(e.B.Restrict(ctx, v, false), e.B.Restrict(ctx, v, true))
		}
	}
	return ctx
}

// obligeIn is oblige for a question bad in a context.
func (k *locCheck) obligeIn(ctx, bad Node, key string, ef *gsa.Effect, what, complaint string, opaque func(*Term) bool) verdict {
	e := k.e
	if !e.Sat(e.B.And(ctx, bad)) {
		k.r.Ok("%s", what)
		return holds
	}
	return k.r.obligeX(e, e.B.And(bad, given(e, ctx, bad)), key, ef, what, complaint, opaque)
}

func zeroOnly(g GV) bool {
	for _, a := range g {
		if a.T.Op != "zero" && !a.T.StrValEmpty() {
			return false
		}
	}
	return true
}

// location decides what the location of one field is.
func (k *locCheck) location(s *fieldStore, field *Term) {
	e, r := k.e, k.r
	name := e.Path(field, "Name")
	pb := e.Path(field, "PBFieldName")
	// every condition seen, with what was known before taken as given
	got := map[string]Node{}
	for _, a := range s.val {
		cond := e.B.And(s.cond, a.C)
		if !e.Sat(cond) {
			continue
		}
		v, ok := a.T.StrVal()
		if !ok {
			r.Unknown("the location %s", short(a.T.String(), 80))
			return
		}
		if v != "path" && v != "body" && v != "query" {
			r.Viol("location", s.eff.Pos, "a parameter gets the location %q when %s", v, e.Witness(cond))
			return
		}
		got[v] = e.B.Or(got[v], a.C)
	}
	for _, v := range []string{"path", "body", "query"} {
		if got[v] == gsa.False {
			r.Viol(v, s.eff.Pos, "no field ever gets the location %s", v)
			return
		}
	}
	// what the atoms of the conditions mean
	path, body := gsa.False, gsa.False
	var opt *Term
	loops := map[*Term]Node{}
	facts := gsa.True
	for v := range support(e, e.B.Simplify(got["path"], s.cond), e.B.Simplify(got["body"], s.cond), e.B.Simplify(got["query"], s.cond)) {
		at := e.VarTerm(v)
		for _, p := range sides(at) {
			if el, part, cu, ok := optPart(p[0]); ok && !cu && (part == "Value" || part == "Kind" && p[1] == e.Str("body")) {
				opt = el
			}
			if p[0] == name || p[0] == pb {
				x, camel := goName(p[1])
				if camel != (p[0] == name) {
					// the names are compared in different forms
					if y, is := k.component(x); is || p[0] == name {
						if k.isVar(y, s) {
							r.Viol("names", s.eff.Pos, "the name of a field is compared with a path variable in another form: %s", short(at.String(), 200))
							return
						}
					}
					continue
				}
				y, first := k.component(x)
				switch v := k.pathVar(y, s.cond, s.eff); v {
				case broken:
					if k.why != "see above" {
						r.Viol("path variables", s.eff.Pos, "the location of a field: %s", k.why)
					}
					return
				case holds:
					if !first {
						r.Viol("path variables", s.eff.Pos, "the name of a field is compared with the whole of a path variable, not with its first component: %s", short(at.String(), 200))
						return
					}
					path = e.B.Or(path, e.Atom(at))
					loops[stripBraces(y, nil)] = gsa.True
				}
			}
		}
	}
	if path == gsa.False && got["path"] != gsa.False && k.why != "" {
		r.Unknown("the location of a field: %s", k.why)
		return
	}
	if opt == nil {
		if e.Sat(e.B.And(s.cond, got["body"])) || path == gsa.False {
			r.Unknown("how the location body is chosen is not known")
			return
		}
		r.Viol("body", s.eff.Pos, "no field ever gets the location body")
		return
	}
	val, kind := e.Path(opt, "Value"), e.Path(opt, "Kind")
	camel := func(t *Term) *Term {
		return e.Call(k.c.mod("pkg")+".GoCamelCase", strT, t)
	}
	first := e.Call("before", strT, val, e.Str("."))
	match := e.B.Or(e.EqNode(val, e.Str("*")), e.EqNode(name, camel(first)))
	// the name itself is one way to name the field
	own := e.B.Or(e.EqNode(val, name), e.EqNode(val, pb))
	facts = e.B.And(e.B.Or(e.B.Not(own), e.EqNode(name, camel(first))))
	isBody := e.EqNode(kind, e.Str("body"))
	body = e.B.And(isBody, match)
	spec := map[string]Node{"path": path, "body": e.B.AndNot(body, path), "query": e.B.Not(e.B.Or(path, body))}
	words := map[string]string{"path": "its name is the first component of a path variable", "body": "it is not in the path and the body option is * or names it", "query": "it is neither in the path nor in the body"}
	for _, loc := range []string{"path", "body", "query"} {
		bad := e.B.And(facts, e.B.Xor(e.B.Simplify(got[loc], s.cond), spec[loc]))
		k.obligeIn(s.cond, bad, loc, s.eff, "a field's location is "+loc+" exactly when "+words[loc], "it is not so that a field's location is "+loc+" exactly when "+words[loc], opaqueLocation)
	}
	// the loops look at everything
	for el := range loops {
		if l := e.LoopByID(el.Args[0].Args[1].Aux); l != nil {
			k.whole(l, el.Args[0].Args[0], e.B.And(s.cond, gsa.True), path, s.eff, "the path variables")
		}
	}
	k.wholeLoop(opt, e.B.And(s.cond, facts), e.B.Or(isBody, path), s.eff, "the options with a body")
}

func (k *locCheck) isVar(t *Term, s *fieldStore) bool {
	return k.pathVar(t, s.cond, s.eff) == holds
}

// opaque atoms of a location: other ways to compare names with what the path
// and the options say.
func opaqueLocation(t *Term) bool {
	switch t.Op {
	case "has", "lookup", "undef", "lm":
		return true
	}
	if t.Op == "eq" {
		for _, p := range sides(t) {
			if _, _, _, ok := optPart(p[0]); ok {
				return false
			}
		}
	}
	bad := false
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "has", "lookup":
			bad = bad || x.Args[0].Op == "makemap"
		case "call":
			n := x.CallName()
			if strings.Contains(n, "/svcparse.") {
				return false
			}
			bad = bad || !knownCall(n) && !strings.Contains(n, "GoCamelCase") && !strings.HasPrefix(n, "(*regexp.Regexp)") && !strings.HasPrefix(n, "regexp.")
		}
		return !bad
	})
	return bad
}

func support(e *gsa.Engine, ns ...Node) map[int]bool {
	out := map[int]bool{}
	for _, n := range ns {
		for v := range e.B.Support(n) {
			out[v] = true
		}
	}
	return out
}
