package checks

import (
	"strings"

	"verif/internal/gsa"
	"verif/internal/tape"
)

func init() {
	register(&Check{ID: "C19", Rule: "Evaluates symbolically each function that carries the definition from one form to the next (svcdef.New, NewMessage, NewField, NewService, NewServiceMethod, consolidation, httptransport.NewHelper). Every list must get one item, made from the element, in every iteration of loops over the whole source list, unless the element is of a kind that is to be left out; every name and type must be that of the same element.", Run: runC19})
}

func runC19(c *Ctx, r *Report) {
	c.carriedMessage(r)
	c.carriedField(r)
	c.carriedHTTP(r)
	c.carriedMethod(r, c.carriedService(r))
	c.carriedTypes(r)
	c.carriedBindings(r)
	c.carriedDefinition(r)
	c.carriedParser(r)
}

// carriedParser: what is read from the text of a definition (see C33).
func (c *Ctx) carriedParser(r *Report) {
	x, err := c.parsed()
	var own []tape.Finding
	if x != nil {
		for _, f := range x.Kind {
			if f.Key != "parse:error" && f.Key != "parse:cut" {
				own = append(own, f)
			}
		}
	}
	c.follow(r, "parser", x, err, own, []string{
		"the parser returns every method with HTTP options with its names, bindings and fields as the definition has them",
	})
}

// nameOf recognises the name of the element a loop is at.
func atomOn(t *Term) (fn string, arg *Term, lit string) {
	switch {
	case t.Op == "call" && (t.CallName() == "strings.HasPrefix" || t.CallName() == "strings.HasSuffix") && len(t.Args) == 2:
		s, _ := t.Args[1].StrVal()
		return strings.TrimPrefix(t.CallName(), "strings."), t.Args[0], s
	case t.Op == "call" && t.CallName() == "go/ast.IsExported" && len(t.Args) == 1:
		return "IsExported", t.Args[0], ""
	}
	return "", nil, ""
}

// carriedMessage: a message keeps its name and all its exported fields.
func (c *Ctx) carriedMessage(r *Report) {
	k := c.carry(r, "svcdef", "NewMessage", "svcdef.NewField")
	if k == nil {
		return
	}
	o := k.object("the message made from a struct")
	if o == nil {
		return
	}
	k.part(o, "Name", "message.name", "a message has the name of its type", gsa.True, func(t *Term) verdict { return k.is(t, "TypeSpec.Name.Name") })
	const list = "TypeSpec.Type.(StructType).Fields.List"
	name := func(t *Term) bool { s, ok := shortChain(t); return ok && s == list+"[*].Names[0].Name" }
	k.every("message.fields", "a message has a field made from every exported field of its struct", k.field(o, "Fields"),
		k.overIs(list),
		func(l leaf) verdict {
			a, ok := callOf(l.t, "svcdef.NewField")
			if !ok {
				k.why = "it gets " + short(l.t.String(), 80)
				return undecided
			}
			if v := k.elemOf(a[0], l.loop, list); v != holds {
				return v
			}
			return k.onlyExported(l, name)
		},
		func(t *Term) (bool, bool) {
			switch fn, a, s := atomOn(t); {
			case fn == "IsExported" && name(a):
				return true, true
			case fn == "HasPrefix" && name(a) && (strings.HasPrefix(s, "XXX_")):
				return false, true
			}
			return false, false
		})
}

// onlyExported judges that an item is only made from something exported.
func (k *carry) onlyExported(l leaf, name func(t *Term) bool) verdict {
	e := k.e
	exported := gsa.True
	for v := range support(e, l.cond) {
		t := e.VarTerm(v)
		if fn, a, _ := atomOn(t); fn == "IsExported" && name(a) {
			exported = e.Atom(t)
		} else if fn == "" {
			// a test of the name in another form
			bad := false
			t.Walk(func(x *Term) bool { bad = bad || name(x); return !bad })
			if bad {
				k.why = "it depends on " + short(t.String(), 80)
				return undecided
			}
		}
	}
	if exported == gsa.True {
		k.why = "it is added without being exported"
		return broken
	}
	if e.Sat(e.B.AndNot(l.cond, exported)) {
		k.why = "it is added without being exported"
		return broken
	}
	return holds
}

// shape is the situation in which values have the given dynamic types.
func (k *carry) shape(types map[string]string) Node {
	e := k.e
	out := gsa.True
	for v := 0; v < e.NumVars(); v++ {
		t := e.VarTerm(v)
		if t.Op != "typeis" {
			continue
		}
		s, ok := shortChain(t.Args[0])
		if !ok {
			continue
		}
		want, given := types[s]
		if !given {
			continue
		}
		n := e.Atom(t)
		if strings.TrimPrefix(strings.ReplaceAll(t.Aux, "go/ast.", ""), "*") != want {
			n = e.B.Not(n)
		}
		out = e.B.And(out, n)
	}
	return out
}

// carriedMethod: a method keeps its name and the types of its request and
// response.
func (c *Ctx) carriedMethod(r *Report, skipped map[string]bool) {
	k := c.carry(r, "svcdef", "NewServiceMethod")
	if k == nil {
		return
	}
	o := k.object("the method made from a method of the interface")
	if o == nil {
		return
	}
	e := k.e
	k.part(o, "Name", "method.name", "a method has the name of the interface's method", gsa.True, func(t *Term) verdict { return k.is(t, "Field.Names[0].Name") })
	const ft = "Field.Type.(FuncType)"
	for _, x := range []struct{ field, list, what string }{
		{"RequestType", ft + ".Params.List[1]", "request"},
		{"ResponseType", ft + ".Results.List[0]", "response"},
	} {
		typ := x.list + ".Type"
		for _, s := range []struct{ sel, name string }{
			{"SelectorExpr", typ + ".(StarExpr).X.(SelectorExpr).Sel.Name"},
			{"Ident", typ + ".(StarExpr).X.(Ident).Name"},
		} {
			when := k.shape(map[string]string{"Field.Type": "FuncType", typ: "StarExpr", typ + ".(StarExpr).X": s.sel})
			what := "the " + x.what + " type of a method is the one of the interface's method (" + s.sel + ")"
			// nothing but a nil error for it
			k.part(o, x.field, "method."+x.what, what, when, func(t *Term) verdict {
				if t.IsNil() {
					k.why = "it is nil"
					return broken
				}
				if t.Op != "alloc" {
					k.why = "it is " + short(t.String(), 80)
					return undecided
				}
				return k.all(k.field(t, "Name"), when, func(n *Term) verdict { return k.is(n, s.name) })
			})
		}
	}
	// a method that has a context and a request is not turned down as
	// unsupported
	bad := gsa.False
	for _, a := range k.rv.res[1] {
		if !e.Sat(a.C) {
			continue
		}
		for s := range sentinels(a.T) {
			if skipped[s] {
				bad = e.B.Or(bad, a.C)
			}
		}
	}
	enough := gsa.True
	for v := range support(e, bad) {
		t := e.VarTerm(v)
		if t.Op == "lt" && t.Args[0].Op == "len" {
			if s, ok := shortChain(t.Args[0].Args[0]); ok && s == ft+".Params.List" {
				if n, isInt := t.Args[1].IntVal(); isInt && n <= 2 {
					enough = e.B.And(enough, e.B.Not(e.Atom(t)))
				}
			}
		}
	}
	r.oblige(e, e.B.And(bad, enough), "method.unsupported", &gsa.Effect{Pos: k.pos}, "only methods without a context and a request are left out as unsupported", "a method with a context and a request is left out as unsupported")
}

// sentinels are the errors made by a package when the program starts that t
// mentions.
func sentinels(t *Term) map[string]bool {
	out := map[string]bool{}
	t.Walk(func(x *Term) bool {
		if strings.HasSuffix(x.CallName(), "errors.New") && x.Op == "call" && len(x.Args) == 1 {
			if s, ok := x.Args[0].StrVal(); ok {
				out[s] = true
			}
		}
		return true
	})
	return out
}

// carriedService: a service keeps its name and all its exported methods. The
// errors for which a method is skipped are returned.
func (c *Ctx) carriedService(r *Report) map[string]bool {
	skipped := map[string]bool{}
	k := c.carry(r, "svcdef", "NewService", "svcdef.NewServiceMethod")
	if k == nil {
		return skipped
	}
	o := k.object("the service made from an interface")
	if o == nil {
		return skipped
	}
	k.part(o, "Name", "service.name", "a service has the name of its interface without Server", gsa.True, func(t *Term) verdict {
		if t.CallName() == "strings.TrimSuffix" && len(t.Args) == 2 {
			if s, _ := t.Args[1].StrVal(); s == "Server" {
				return k.is(t.Args[0], "TypeSpec.Name.Name")
			}
		}
		if t.Op == "slice" {
			k.why = "it is " + short(t.String(), 80)
			return undecided
		}
		return k.is(t)
	})
	const list = "TypeSpec.Type.(InterfaceType).Methods.List"
	name := func(t *Term) bool { s, ok := shortChain(t); return ok && s == list+"[*].Names[0].Name" }
	k.every("service.methods", "a service has a method made from every exported, supported method of its interface", k.field(o, "Methods"),
		k.overIs(list),
		func(l leaf) verdict {
			a, ok := callOf(l.t, "svcdef.NewServiceMethod")
			if !ok {
				k.why = "it gets " + short(l.t.String(), 80)
				return undecided
			}
			if v := k.elemOf(a[0], l.loop, list); v != holds {
				return v
			}
			return k.onlyExported(l, name)
		},
		func(t *Term) (bool, bool) {
			if fn, a, _ := atomOn(t); fn == "IsExported" && name(a) {
				return true, true
			}
			if t.Op == "eq" && len(sentinels(t)) > 0 {
				for _, a := range t.Args {
					if a.CallName() == "github.com/pkg/errors.Cause" || a.CallName() == "errors.Cause" {
						a = a.Args[0]
					}
					if _, ok := callOf(a, "svcdef.NewServiceMethod"); ok {
						for s := range sentinels(t) {
							skipped[s] = true
						}
						return false, true
					}
				}
			}
			return false, false
		})
	return skipped
}

// carriedField: a field keeps its name, its name in the definition and its
// type.
func (c *Ctx) carriedField(r *Report) {
	c.Recur = 3
	k := c.carry(r, "svcdef", "NewField")
	c.Recur = 0
	if k == nil {
		return
	}
	e := k.e
	pos := &gsa.Effect{Pos: k.pos}
	const T = "Field.Type"
	id := func(s string) string { return s + ".(Ident).Name" }
	for _, x := range []struct {
		what        string
		shape       map[string]string
		names       []string
		star, array bool
		key, val    string // for maps
		valStar     bool
	}{
		{what: "a plain type", shape: map[string]string{T: "Ident"}, names: []string{id(T)}},
		{what: "a pointer", shape: map[string]string{T: "StarExpr", T + ".(StarExpr).X": "Ident"}, names: []string{id(T + ".(StarExpr).X")}, star: true},
		{what: "a pointer to a type of another package", shape: map[string]string{T: "StarExpr", T + ".(StarExpr).X": "SelectorExpr", T + ".(StarExpr).X.(SelectorExpr).X": "Ident"},
			names: []string{id(T + ".(StarExpr).X.(SelectorExpr).X"), ".", T + ".(StarExpr).X.(SelectorExpr).Sel.Name"}, star: true},
		{what: "a slice", shape: map[string]string{T: "ArrayType", T + ".(ArrayType).Elt": "Ident"}, names: []string{id(T + ".(ArrayType).Elt")}, array: true},
		{what: "a slice of pointers", shape: map[string]string{T: "ArrayType", T + ".(ArrayType).Elt": "StarExpr", T + ".(ArrayType).Elt.(StarExpr).X": "Ident"},
			names: []string{id(T + ".(ArrayType).Elt.(StarExpr).X")}, array: true, star: true},
		{what: "a slice of slices", shape: map[string]string{T: "ArrayType", T + ".(ArrayType).Elt": "ArrayType", T + ".(ArrayType).Elt.(ArrayType).Elt": "Ident"},
			names: []string{"[]", id(T + ".(ArrayType).Elt.(ArrayType).Elt")}, array: true},
		{what: "a map", shape: map[string]string{T: "MapType", T + ".(MapType).Value": "Ident"}, key: id(T + ".(MapType).Key"), val: id(T + ".(MapType).Value")},
		{what: "a map of pointers", shape: map[string]string{T: "MapType", T + ".(MapType).Value": "StarExpr", T + ".(MapType).Value.(StarExpr).X": "Ident"},
			key: id(T + ".(MapType).Key"), val: id(T + ".(MapType).Value.(StarExpr).X"), valStar: true},
	} {
		when := k.shape(x.shape)
		if x.key != "" {
			when = e.B.And(when, k.shape(map[string]string{T + ".(MapType).Key": "Ident"}))
		}
		tag := x.what + " as the type of a field"
		var objs []*Term
		for _, a := range k.e.Under(k.rv.res[0], when) {
			if e.Sat(e.B.And(a.C, when)) {
				objs = append(objs, a.T)
			}
		}
		obj := func() *Term {
			if len(objs) == 1 && objs[0].Op == "alloc" {
				return objs[0]
			}
			return nil
		}()
		if obj == nil {
			r.Unknown("%s: the field that is made is not known", tag)
			continue
		}
		at := func(o *Term, f string) GV { return e.Under(loadField(e, o, f), when) }
		say := func(key, what string, v verdict) { r.judge(v, "field."+key, pos, what+", with "+tag, k.why) }
		say("name", "a field has the name of the struct's field", k.all(at(obj, "Name"), when, func(t *Term) verdict { return k.is(t, "Field.Names[0].Name") }))
		ty := at(obj, "Type").One()
		if ty == nil || ty.Op != "alloc" {
			r.Unknown("%s: the type that is made is not known", tag)
			continue
		}
		isBool := func(want bool) func(*Term) verdict {
			return func(t *Term) verdict {
				b, ok := t.BoolVal()
				k.why = "it is " + short(t.String(), 80)
				if !ok {
					return undecided
				}
				if b != want {
					return broken
				}
				return holds
			}
		}
		if x.key == "" {
			say("type", "a field has the type of the struct's field", k.all(at(ty, "Name"), when, func(t *Term) verdict { return k.isCat(t, x.names) }))
			say("star", "a field is a pointer exactly if the struct's field is", k.all(at(ty, "StarExpr"), when, isBool(x.star)))
			say("array", "a field is repeated exactly if the struct's field is", k.all(at(ty, "ArrayType"), when, isBool(x.array)))
			say("map", "a field is no map", k.all(at(ty, "Map"), when, func(t *Term) verdict {
				k.why = "it is " + short(t.String(), 80)
				if t.IsNil() {
					return holds
				}
				if t.Op == "alloc" {
					return broken
				}
				return undecided
			}))
			continue
		}
		mp := at(ty, "Map").One()
		if mp != nil && mp.IsNil() {
			k.why = "it is nil"
			say("map", "a field is a map", broken)
			continue
		}
		var kt, vt *Term
		if mp != nil && mp.Op == "alloc" {
			kt, vt = at(mp, "KeyType").One(), at(mp, "ValueType").One()
		}
		if kt == nil || vt == nil || kt.Op != "alloc" || vt.Op != "alloc" {
			r.Unknown("%s: the map that is made is not known", tag)
			continue
		}
		say("mapkey", "the keys of a map have the type of the struct's field's", k.all(at(kt, "Name"), when, func(t *Term) verdict { return k.is(t, x.key) }))
		say("mapval", "the values of a map have the type of the struct's field's", k.all(at(vt, "Name"), when, func(t *Term) verdict { return k.is(t, x.val) }))
		say("mapstar", "the values of a map are pointers exactly if the struct's field's are", k.all(at(vt, "StarExpr"), when, isBool(x.valStar)))
	}

	// the name in the definition
	plain := k.shape(map[string]string{T: "Ident"})
	for _, a := range e.Under(k.rv.res[0], plain) {
		obj := a.T
		if obj.Op != "alloc" {
			continue
		}
		v := e.Under(loadField(e, obj, "PBFieldName"), plain)
		for _, packed := range []bool{false, true} {
			want := 3
			if packed {
				want = 4
			}
			when := e.B.And(plain, k.must(func(t *Term) (bool, bool) { return tagAtom(t, packed) }, append(condsOf(v), plain)...))
			what := "the definition's name of a field is the value of name= in its tag"
			if packed {
				what += " (packed)"
			}
			k.opaque = func(t *Term) bool {
				if _, known := tagAtom(t, packed); known {
					return false
				}
				own := false
				t.Walk(func(x *Term) bool {
					key, i, ok := tagPart(x)
					own = own || ok && key == "protobuf" && i <= want
					return !own
				})
				return own
			}
			vd := k.all(v, when, func(t *Term) verdict {
				key, i, ok := tagName(t)
				k.why = "it is " + short(t.String(), 160)
				if t.IsConst() {
					return broken
				}
				if !ok {
					if t.Op == "slice" {
						if _, j, ok := tagPart(t.Args[0]); ok && j != want {
							return broken
						}
					}
					return undecided
				}
				if key != "protobuf" || i != want {
					return broken
				}
				return holds
			})
			r.judge(vd, "field.pbname", pos, what, k.why)
		}
	}
}

// isCat judges a concatenation of parts of the definition and constants.
func (k *carry) isCat(t *Term, want []string) verdict {
	ps := []*Term{t}
	if t.Op == "cat" {
		ps = t.Args
	}
	var got []string
	for _, p := range ps {
		if s, ok := p.StrVal(); ok {
			if s != "" {
				got = append(got, s)
			}
		} else if s, ok := shortChain(p); ok {
			got = append(got, s)
		} else {
			k.why = "it is " + short(t.String(), 100)
			if plainlyOther(t) {
				return broken
			}
			return undecided
		}
	}
	if strings.Join(got, "") != strings.Join(want, "") {
		k.why = "it is " + strings.Join(got, "")
		return broken
	}
	return holds
}

// tagPart recognises an element of the comma separated list that a struct tag
// has for a key.
func tagPart(t *Term) (key string, i int, ok bool) {
	if t.Op != "load" || t.Args[0].Op != "ia" || t.Aux != "" {
		return "", 0, false
	}
	n, isInt := t.Args[0].Args[1].IntVal()
	if !isInt {
		return "", 0, false
	}
	key, ok = tagParts(t.Args[0].Args[0])
	return key, int(n), ok
}

func tagParts(s *Term) (string, bool) {
	if n := s.CallName(); n != "strings.Split" && n != "strings.SplitN" || len(s.Args) < 2 {
		return "", false
	}
	if sep, _ := s.Args[1].StrVal(); sep != "," {
		return "", false
	}
	g := s.Args[0]
	if g.Op == "res" {
		g = g.Args[0]
	}
	if n := g.CallName(); n != "(reflect.StructTag).Get" && n != "(reflect.StructTag).Lookup" {
		return "", false
	}
	key, ok := g.Args[1].StrVal()
	return key, ok
}

// tagName recognises what follows = in such an element.
func tagName(t *Term) (key string, i int, ok bool) {
	switch {
	case t.Op == "slice":
		lo := t.Args[1]
		if !t.Args[2].IsNil() && !(t.Args[2].Op == "len" && t.Args[2].Args[0] == t.Args[0]) {
			return "", 0, false
		}
		p := t.Args[0]
		if k, isInt := lo.IntVal(); isInt {
			if k != int64(len("name=")) {
				return "", 0, false
			}
			return tagPart(p)
		}
		if !strings.Contains(lo.String(), `"="`) {
			return "", 0, false
		}
		found := false
		lo.Walk(func(x *Term) bool {
			found = found || (x.CallName() == "strings.Index" || x.CallName() == "strings.IndexByte" || x.CallName() == "strings.IndexRune") && x.Args[0] == p
			return true
		})
		if !found || !strings.HasSuffix(lo.String(), "+ 1)") {
			return "", 0, false
		}
		return tagPart(p)
	case t.CallName() == "strings.TrimPrefix":
		if s, _ := t.Args[1].StrVal(); s == "name=" {
			return tagPart(t.Args[0])
		}
	case t.Op == "load" && t.Aux == "" && t.Args[0].Op == "ia":
		s := t.Args[0].Args[0]
		if n, isInt := t.Args[0].Args[1].IntVal(); !isInt || n != 1 {
			return "", 0, false
		}
		if n := s.CallName(); n == "strings.Split" || n == "strings.SplitN" {
			if sep, _ := s.Args[1].StrVal(); sep == "=" {
				return tagPart(s.Args[0])
			}
		}
	}
	return "", 0, false
}

// tagAtom tells what is so for the tag that protoc-gen-go writes for a field:
// it has at least five elements, the fourth is name=... unless it is packed.
func tagAtom(t *Term, packed bool) (val, known bool) {
	switch {
	case t.Op == "eq" && (t.Args[0].IsNil() || t.Args[1].IsNil()):
		for _, a := range t.Args {
			if s, ok := shortChain(a); ok && s == "Field.Tag" {
				return false, true
			}
		}
	case t.Op == "lt" && t.Args[0].Op == "len":
		if _, ok := tagParts(t.Args[0].Args[0]); ok {
			if n, isInt := t.Args[1].IntVal(); isInt && n <= 5 {
				return false, true
			}
		}
	case t.CallName() == "strings.Contains" || t.CallName() == "strings.HasPrefix":
		if key, i, ok := tagPart(t.Args[0]); ok && key == "protobuf" {
			if s, _ := t.Args[1].StrVal(); s == "=" && t.CallName() == "strings.Contains" || s == "name=" {
				switch i {
				case 0, 1, 2:
					return false, true
				case 3:
					return !packed, true
				case 4:
					return true, packed
				}
			}
		}
	}
	return false, false
}
