package checks

import (
	"sort"
	"strings"

	"verif/internal/gsa"
)

// goesOver judges that an effect inside of loops is come past for everything:
// the loops go over the given collections, outermost first, without leaving
// anything out, unless the situation is another than must.
func (k *carry) goesOver(efs []*gsa.Effect, conds []Node, over []string, must func(t *Term) (val, known bool)) verdict {
	var fs []func(l *gsa.Loop) verdict
	for _, o := range over {
		fs = append(fs, k.overIs(o))
	}
	return k.goesOverAll(efs, conds, fs, must)
}

func (k *carry) goesOverAll(efs []*gsa.Effect, conds []Node, over []func(l *gsa.Loop) verdict, must func(t *Term) (val, known bool)) verdict {
	e := k.e
	loops := efs[0].Loops
	for _, ef := range efs {
		if len(ef.Loops) != len(over) {
			k.why = "the loops around it are others"
			return undecided
		}
		for i := range loops {
			if ef.Loops[i] != loops[i] {
				k.why = "it is done in several loops"
				return undecided
			}
		}
	}
	for i, l := range loops {
		k.why = ""
		if v := over[i](l); v != holds {
			return v
		}
		cover := gsa.False
		if i+1 < len(loops) {
			cover = loops[i+1].Entry
		} else {
			for _, c := range conds {
				cover = e.B.Or(cover, c)
			}
		}
		d := &defLists{e: e, at: k.rv.ok}
		if v, why := d.leftOut(l, cover, k.must(must, cover, l.Back)); v != holds {
			k.why = "one is left out when " + why
			return v
		}
		if v := d.stops(l); v != holds {
			k.why = d.why
			return v
		}
	}
	if v, why := decide(e, e.B.AndNot(e.B.And(k.rv.ok, k.must(must, loops[0].Entry)), loops[0].Entry), opaqueChain); v != holds {
		k.why = "it is not done when " + why
		return v
	}
	return holds
}

// worst of two verdicts.
func worst(a, b verdict) verdict {
	if a == broken || b == broken {
		return broken
	}
	if a == undecided || b == undecided {
		return undecided
	}
	return holds
}

// carriedTypes: every field and method is tied to the message or enum its type
// names.
func (c *Ctx) carriedTypes(r *Report) {
	k := c.carry(r, "svcdef", "resolveTypes")
	if k == nil {
		return
	}
	e := k.e
	entries := map[*Term]bool{}
	type target struct {
		base string // the type that is resolved
		kind string // Message or Enum
	}
	type put struct {
		ef   *gsa.Effect
		cond Node
		val  GV
	}
	puts := map[target][]put{}
	var order []target
	unclear := false
	for _, ef := range e.Effects {
		if ef.Kind != "store" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op != "fa" || a.T.Aux != "Message" && a.T.Aux != "Enum" {
				continue
			}
			c := e.B.And(ef.Cond, a.C)
			s, ok := shortChain(a.T.Args[0])
			if !ok || !e.Sat(c) {
				unclear = unclear || !ok && a.T.Args[0].Op != "alloc"
				continue
			}
			t := target{s, a.T.Aux}
			if puts[t] == nil {
				order = append(order, t)
			}
			puts[t] = append(puts[t], put{ef, c, ef.Args[1]})
		}
	}
	// what is stored has the type's own name
	for _, t := range order {
		for _, p := range puts[t] {
			v := k.all(p.val, p.cond, func(x *Term) verdict {
				k.why = "it is " + short(x.String(), 100)
				m, key, field, ok := entryOf(x)
				if !ok {
					if x.IsNil() {
						return broken
					}
					return undecided
				}
				entries[m] = true
				if field != t.kind {
					return broken
				}
				return k.is(key, t.base+".Name")
			})
			r.judge(v, "types.name", p.ef, "the "+strings.ToLower(t.kind)+" of "+t.base+" is the one with its type's name", k.why)
		}
	}
	// and it is stored for all of them
	for _, x := range []struct {
		base string
		over []string
	}{
		{"svcdef.Svcdef.Messages[*].Fields[*].Type", []string{"svcdef.Svcdef.Messages", "svcdef.Svcdef.Messages[*].Fields"}},
		{"svcdef.Svcdef.Service.Methods[*].RequestType", []string{"svcdef.Svcdef.Service.Methods"}},
		{"svcdef.Svcdef.Service.Methods[*].ResponseType", []string{"svcdef.Svcdef.Service.Methods"}},
	} {
		for _, kind := range []string{"Message", "Enum"} {
			for _, of := range []string{"", ".Map.ValueType"} {
				if of != "" && (kind == "Enum" || len(x.over) == 1) {
					continue
				}
				base := x.base + of
				what := "the " + strings.ToLower(kind) + " of " + base + " is found"
				ps := puts[target{base, kind}]
				if len(ps) == 0 {
					if unclear || len(order) == 0 {
						r.Unknown("%s: nothing is stored there", what)
					} else {
						r.judge(broken, "types.all", &gsa.Effect{Pos: k.pos}, what, "nothing is stored there")
					}
					continue
				}
				var efs []*gsa.Effect
				var conds []Node
				for _, p := range ps {
					efs = append(efs, p.ef)
					conds = append(conds, p.cond)
				}
				v := k.goesOver(efs, conds, x.over, func(t *Term) (bool, bool) {
					switch {
					case t.Op == "has" && len(t.Args) == 2:
						s, ok := shortChain(t.Args[1])
						return true, ok && s == base+".Name"
					case t.Op == "eq":
						for i, a := range t.Args {
							if !t.Args[1-i].IsNil() {
								continue
							}
							if _, key, field, ok := entryOf(a); ok {
								s, ok := shortChain(key)
								return field != kind, ok && s == base+".Name"
							}
							s, _ := shortChain(a)
							switch s {
							case x.base + ".Map":
								return of == "", true
							case "svcdef.Svcdef.Service":
								return false, true
							}
						}
					}
					if s, _ := shortChain(t); s == x.base+".Map.ValueType.StarExpr" && of != "" {
						return true, true
					}
					return false, false
				})
				r.judge(v, "types.all", efs[0], what, k.why)
			}
		}
	}
	// what can be found
	for _, list := range []string{"Messages", "Enums"} {
		kind := strings.TrimSuffix(list, "s")
		what := "every " + strings.ToLower(kind) + " can be found by its name"
		var efs []*gsa.Effect
		var conds []Node
		v := holds
		elem := "svcdef.Svcdef." + list + "[*]"
		for _, ef := range e.Effects {
			if ef.Kind != "mapupdate" || len(ef.Args) < 3 || len(ef.Loops) != 1 || ef.Loops[0].Over == nil {
				continue
			}
			m := ef.Args[0].One()
			if m == nil || !entries[m] {
				continue
			}
			if s, _ := shortChain(ef.Loops[0].Over); s != "svcdef.Svcdef."+list {
				continue
			}
			efs, conds = append(efs, ef), append(conds, ef.Cond)
			v = worst(v, k.all(ef.Args[1], ef.Cond, func(x *Term) verdict { return k.is(x, elem+".Name") }))
			v = worst(v, k.all(ef.Args[2], ef.Cond, func(x *Term) verdict {
				k.why = "it is " + short(x.String(), 80)
				if x.Op != "snap" && x.Op != "alloc" {
					return undecided
				}
				p := snapField(e, x, kind)
				if x.Op == "alloc" {
					p = madeField(e, x, kind)
				}
				return k.all(p, ef.Cond, func(y *Term) verdict {
					if y.IsNil() {
						k.why = "it is nil"
						return broken
					}
					return k.is(y, elem)
				})
			}))
		}
		if len(efs) == 0 {
			r.Unknown("%s: where they are entered is not known", what)
			continue
		}
		if v == holds {
			v = k.goesOver(efs, conds, []string{"svcdef.Svcdef." + list}, func(*Term) (bool, bool) { return false, false })
		}
		r.judge(v, "types.known", efs[0], what, k.why)
	}
}

// entryOf recognises a part of the entry of a map.
func entryOf(t *Term) (m, key *Term, field string, ok bool) {
	switch {
	case t.Op == "lookup" && len(t.Args) == 2:
		return t.Args[0], t.Args[1], "", true
	case (t.Op == "field" || t.Op == "sel") && len(t.Args) == 1:
		m, key, field, ok = entryOf(t.Args[0])
		return m, key, t.Aux, ok && field == ""
	case t.Op == "load" && t.Aux == "" && t.Args[0].Op == "fa":
		m, key, field, ok = entryOf(t.Args[0].Args[0])
		return m, key, t.Args[0].Aux, ok && field == ""
	}
	return nil, nil, "", false
}

// carriedBindings: every HTTP binding of the definition goes to the method it
// is declared for, with a parameter for every field of the request.
func (c *Ctx) carriedBindings(r *Report) {
	k := c.carry(r, "svcdef", "assembleHTTPParams", "pkg.GoCamelCase", "svcdef.paramLocation", "svcdef.getVerb")
	if k == nil {
		return
	}
	e := k.e
	const methods = "svcdef/svcparse.Service.Methods"
	const binding = "svcdef/svcparse.Service.Methods[*].HTTPBindings[*]"
	const method = "svcdef.Service.Methods[*]"
	var efs []*gsa.Effect
	var conds []Node
	// methods that were looked for before
	found := map[*Term]func() verdict{}
	chainRoot = func(t *Term) (string, bool) {
		if t.Op != "phi" && t.Op != "lookup" {
			return "", false
		}
		_, ok := found[t]
		return method, ok
	}
	defer func() { chainRoot = nil }()
	unclear := false
	for _, ef := range e.Effects {
		if ef.Kind != "store" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			cond := e.B.And(ef.Cond, a.C)
			if a.T.Op != "fa" || a.T.Aux != "Bindings" || !e.Sat(cond) {
				continue
			}
			m := a.T.Args[0]
			s, ok := shortChain(m)
			own := func() verdict { return k.ownName(m, cond) }
			if !ok {
				if own = k.foundBefore(m, cond, method); own != nil {
					found[m] = own
					s, ok = method, true
				}
			} else if f := found[m]; f != nil {
				own = f
			}
			if !ok || s != method {
				r.Unknown("the bindings of %s are set", short(m.String(), 80))
				unclear = true
				continue
			}
			efs, conds = append(efs, ef), append(conds, cond)
			r.judge(own(), "bindings.method", ef, "a binding goes to the method it is declared for", k.why)
			for _, b := range ef.Args[1] {
				if c := e.B.And(cond, b.C); e.Sat(c) {
					k.oneBinding(r, ef, a.T, b.T, c, binding, method)
				}
			}
		}
	}
	if len(efs) == 0 {
		r.Unknown("where bindings are added to methods is not known")
		return
	}
	all := k.goesOver(efs, conds, []string{methods, methods + "[*].HTTPBindings"}, func(*Term) (bool, bool) { return false, false })
	if all == broken && unclear {
		all = undecided
	}
	r.judge(all, "bindings.all", efs[0], "every binding of the definition is added to its method, or there is an error", k.why)
}

// foundBefore recognises a method that was looked for by its name, in a loop
// or in a map, and returns the judgement of how its name was compared.
func (k *carry) foundBefore(m *Term, cond Node, method string) func() verdict {
	e := k.e
	switch m.Op {
	case "phi":
		pi := e.PhiInfo(m)
		if pi == nil {
			return nil
		}
		var alts GV
		for _, a := range append(append(GV{}, pi.Init...), pi.Next...) {
			if a.T == m || a.T.IsNil() || !e.Sat(a.C) {
				continue
			}
			if s, ok := shortChain(a.T); !ok || s != method {
				return nil
			}
			alts = append(alts, a)
		}
		if len(alts) == 0 {
			return nil
		}
		return func() verdict {
			v := holds
			for _, a := range alts {
				v = worst(v, k.ownName(a.T, a.C))
			}
			return v
		}
	case "lookup":
		if len(m.Args) != 2 {
			return nil
		}
		n := 0
		for _, ef := range e.Effects {
			if ef.Kind != "mapupdate" || len(ef.Args) < 3 || ef.Args[0].One() != m.Args[0] {
				continue
			}
			for i, want := range []string{method + ".Name", method} {
				for _, a := range ef.Args[1+i] {
					if s, ok := shortChain(a.T); !ok || s != want {
						return nil
					}
				}
			}
			n++
		}
		if n == 0 {
			return nil
		}
		return func() verdict {
			k.why = "the name it is looked for is " + short(m.Args[1].String(), 100)
			x, ok := callOf(m.Args[1], "pkg.GoCamelCase")
			if !ok {
				if plainCall(m.Args[1]) {
					return broken
				}
				return worst(undecided, k.is(m.Args[1]))
			}
			return k.is(x[0], "svcdef/svcparse.Service.Methods[*].Name")
		}
	}
	return nil
}

// ownName judges that a method is only taken if it has the name of the
// definition's.
func (k *carry) ownName(m *Term, cond Node) verdict {
	e := k.e
	k.why = ""
	about := false
	res := undecided
	for v := range support(e, cond) {
		t := e.VarTerm(v)
		names := 0
		t.Walk(func(x *Term) bool {
			s, ok := shortChain(x)
			if ok && (s == "svcdef/svcparse.Service.Methods[*].Name" || s == "svcdef.Service.Methods[*].Name") {
				names++
			}
			return !ok
		})
		if names < 2 {
			continue
		}
		about = true
		if t.Op == "eq" {
			for i, a := range t.Args {
				x, ok := callOf(a, "pkg.GoCamelCase")
				if !ok {
					continue
				}
				o := t.Args[1-i]
				if s, _ := shortChain(x[0]); s != "svcdef/svcparse.Service.Methods[*].Name" || o.Op != "load" || o.Args[0].Op != "fa" || o.Args[0].Aux != "Name" || o.Args[0].Args[0] != m {
					continue
				}
				if e.Sat(e.B.AndNot(cond, e.Atom(t))) {
					k.why = "it goes to a method of another name"
					return broken
				}
				return holds
			}
			for i := range t.Args {
				_, ok1 := shortChain(t.Args[0])
				if _, ok := shortChain(t.Args[1-i]); ok && (ok1 || plainCall(t.Args[i])) {
					res = broken
				}
			}
		} else if plainCall(t) {
			res = broken
		}
	}
	if !about {
		k.why = "it goes to a method without regard to its name"
		if x, _ := decide(e, cond, opaqueChain); x == broken {
			return broken
		}
		return undecided
	}
	k.why = "the names are compared otherwise"
	return res
}

// plainCall is a call of a known function that changes a string.
func plainCall(t *Term) bool {
	return t.Op == "call" && strings.HasPrefix(t.CallName(), "strings.")
}

// oneBinding judges what is stored as the bindings of a method.
func (k *carry) oneBinding(r *Report, ef *gsa.Effect, addr, val *Term, cond Node, binding, method string) {
	e := k.e
	add := func(v verdict, why string) {
		r.judge(v, "bindings.add", ef, "a binding is added after those the method has", why)
	}
	if val.Op != "app" || len(val.Args) != 2 {
		w := undecided
		if val.Op == "app" && (emptySlice(val.Args[0]) || val.Args[0].IsNil() || val.Args[0].Op == "slicelit") && val.Args[len(val.Args)-1].Op == "spread" {
			why := "it is added in front: " + short(val.String(), 80)
			add(broken, why)
			return
		}
		if val.Op == "slicelit" || val.IsNil() {
			w = broken
		}
		add(w, "they become "+short(val.String(), 80))
		return
	}
	old := val.Args[0]
	same := old.Op == "load" && old.Args[0] == addr
	if old.Op == "lm" || old.Op == "phi" {
		if pi := e.PhiInfo(old); pi != nil {
			same = old.Op == "lm" && len(old.Args) > 0 && old.Args[0] == addr || strings.HasSuffix(old.String(), "("+addr.String()+")")
		}
	}
	if !same {
		w := undecided
		if old.IsNil() {
			w = broken
		}
		add(w, "they become "+short(val.String(), 80))
		return
	}
	add(holds, "")
	b := val.Args[1]
	if b.Op != "alloc" {
		r.Unknown("the binding that is added is %s", short(b.String(), 80))
		return
	}
	for i, f := range []string{"Verb", "Path"} {
		v := k.all(madeField(e, b, f), cond, func(t *Term) verdict {
			k.why = "it is " + short(t.String(), 100)
			a, ok := callOf(t, "svcdef.getVerb")
			if !ok || t.Op != "res" {
				if t.IsConst() {
					return broken
				}
				return undecided
			}
			if t.Aux != itoa(i) {
				return broken
			}
			return k.is(a[0], binding)
		})
		r.judge(v, "bindings."+strings.ToLower(f), ef, "a binding has the "+strings.ToLower(f)+" it is declared with", k.why)
	}
	list := method + ".RequestType.Message.Fields"
	at := func(l leaf, t *Term) verdict { return k.elemOf(t, l.loop, list) }
	k.every("bindings.params", "a binding has a parameter for every field of the request", madeField(e, b, "Params"), k.overIs(list), func(l leaf) verdict {
		if l.t.Op != "alloc" {
			k.why = "it gets " + short(l.t.String(), 80)
			return undecided
		}
		if v := k.all(madeField(e, l.t, "Field"), l.cond, func(t *Term) verdict { return at(l, t) }); v != holds {
			k.why = "its field: " + k.why
			return v
		}
		v := k.all(madeField(e, l.t, "Location"), l.cond, func(t *Term) verdict {
			a, ok := callOf(t, "svcdef.paramLocation")
			if !ok {
				k.why = "it is " + short(t.String(), 100)
				if t.IsConst() {
					return broken
				}
				return undecided
			}
			return worst(at(l, a[0]), k.is(a[1], binding))
		})
		if v != holds {
			k.why = "its location: " + k.why
		}
		return v
	}, nil)
}

// carriedDefinition: the messages, enums and the service of all files are
// kept.
func (c *Ctx) carriedDefinition(r *Report) {
	k := c.carry(r, "svcdef", "New", "svcparse.", "pkg.GoCamelCase", "svcdef.NewService", "svcdef.NewMessage", "svcdef.NewEnum")
	if k == nil {
		return
	}
	o := k.object("the definition made from the files")
	if o == nil {
		return
	}
	e := k.e
	specs := map[*Term]bool{}
	chainRoot = func(t *Term) (string, bool) {
		if specs[t] {
			return "specs", true
		}
		if t.Op == "res" && t.Aux == "0" && t.Args[0].CallName() == "go/parser.ParseFile" {
			return "File", true
		}
		return "", false
	}
	defer func() { chainRoot = nil }()
	const spec = "File.Decls[*].(GenDecl).Specs[*].(TypeSpec)"
	isType := func(t *Term) (bool, bool) {
		if t.Op != "typeis" {
			return false, false
		}
		switch s, _ := shortChain(t.Args[0]); s {
		case "File.Decls[*]":
			return strings.HasSuffix(t.Aux, "ast.GenDecl"), true
		case "File.Decls[*].(GenDecl).Specs[*]":
			return strings.HasSuffix(t.Aux, "ast.TypeSpec"), true
		}
		return false, false
	}
	// quiet runs a judgement without reporting it
	quiet := func(v GV, over func(l *gsa.Loop) verdict, accept func(leaf) verdict, tell func(t *Term) (bool, bool)) verdict {
		q := *k
		sub := &Report{ctx: r.ctx, Analysed: map[string]any{}, seen: map[string]bool{}}
		q.r = sub
		q.every("x", "x", v, over, accept, tell)
		switch {
		case len(sub.Violations) > 0:
			k.why = "a list to loop over that is not complete: " + q.why
			return broken
		case len(sub.Undecided) > 0:
			k.why = "a list to loop over of which this is not known: " + sub.Undecided[0]
			return undecided
		}
		return holds
	}
	judged := map[*Term]verdict{}
	var source func(l *gsa.Loop) verdict
	source = func(l *gsa.Loop) verdict {
		over := l.Over
		if over != nil && over.Op == "len" {
			over = over.Args[0]
		}
		if over == nil {
			k.why = "a loop of another kind"
			return undecided
		}
		if s, ok := shortChain(over); ok {
			switch {
			case strings.HasPrefix(s, "specs["):
				k.why = "a loop over " + s
				return broken
			case l.Kind == "map" && over.Op == "param", l.Kind == "slice" && (s == "File.Decls" || s == "File.Decls[*].(GenDecl).Specs"), s == "specs":
				return holds
			}
		}
		if v, ok := judged[over]; ok {
			return v
		}
		judged[over] = undecided
		v := func() verdict {
			g := GV{{C: gsa.True, T: over}}
			if over.Op != "phi" {
				k.why = "a loop over " + short(over.String(), 80)
				if s, ok := shortChain(over); ok {
					k.why = "a loop over " + s
					return broken
				}
				return undecided
			}
			f, ok := k.fill(g, k.rv.ok)
			if !ok || len(f.leaves) == 0 {
				return undecided
			}
			if f.leaves[0].t.Op == "mapkey" {
				return quiet(g, source, func(l leaf) verdict {
					if l.t.Op != "mapkey" || l.t.Args[0].Op != "param" {
						return undecided
					}
					return holds
				}, nil)
			}
			return quiet(g, source, func(l leaf) verdict { return k.is(l.t, spec) }, isType)
		}()
		judged[over] = v
		return v
	}
	// the lists of type specs are known before anything that uses them
	var loops []*gsa.Loop
	seen := map[*gsa.Loop]bool{}
	for _, ef := range e.Effects {
		for _, l := range ef.Loops {
			if !seen[l] {
				seen[l] = true
				loops = append(loops, l)
			}
		}
	}
	sort.Slice(loops, func(i, j int) bool { return loops[i].ID < loops[j].ID })
	for _, l := range loops {
		over := l.Over
		for over != nil && over.Op == "slice" {
			over = over.Args[0]
		}
		if over == nil || over.Op != "phi" || l.Kind != "slice" || specs[over] {
			continue
		}
		if f, ok := k.fill(GV{{C: gsa.True, T: over}}, k.rv.ok); ok && len(f.leaves) > 0 {
			if s, ok := shortChain(f.leaves[0].t); ok && strings.HasPrefix(s, "File.Decls") {
				if v := source(&gsa.Loop{Kind: "slice", Over: over}); v != holds {
					r.judge(v, "definition.specs", &gsa.Effect{Pos: l.Pos}, "the type declarations of a file are all looked at", k.why)
					return
				}
				specs[over] = true
			}
		}
	}
	at := func(t *Term) (string, bool) {
		s, ok := shortChain(t)
		if !ok {
			// what an empty list has in it
			if strings.HasPrefix(t.String(), "nil[") {
				return "nil", true
			}
			return "", false
		}
		s = strings.ReplaceAll(s, spec, "specs[*]")
		return s, true
	}
	elem := func(l leaf, fn string) verdict {
		a, ok := callOf(l.t, fn)
		if !ok || l.t.Op != "res" || l.t.Aux != "0" {
			k.why = "it gets " + short(l.t.String(), 80)
			return undecided
		}
		if s, ok := at(a[0]); !ok || s != "nil" && !(strings.HasPrefix(s, "specs[") && strings.HasSuffix(s, "[*]")) {
			k.why = "it is made from " + short(a[0].String(), 80)
			return undecided
		}
		return holds
	}
	options := k.optionNames(at)
	tell := func(typ, keep, drop string) func(t *Term) (bool, bool) {
		return func(t *Term) (bool, bool) {
			if v, known := isType(t); known {
				return v, true
			}
			switch {
			case t.Op == "typeis":
				if s, _ := at(t.Args[0]); s == "specs[*].Type" {
					return strings.HasSuffix(t.Aux, "ast."+typ), true
				}
			case t.Op == "has" && options[t.Args[0]]:
				return false, true
			case t.Op == "eq":
				for i, a := range t.Args {
					if a.Op == "lm" && strings.HasSuffix(a.String(), ".Service)") && t.Args[1-i].IsNil() {
						// one service is all there can be
						return true, true
					}
					if s, _ := at(a); s == "specs[*].Type.(Ident).Name" {
						v, isStr := t.Args[1-i].StrVal()
						return v == "int32", isStr
					}
				}
			}
			fn, a, lit := atomOn(t)
			if a == nil {
				return false, false
			}
			if s, _ := at(a); s != "specs[*].Name.Name" {
				return false, false
			}
			switch {
			case fn == "IsExported" && typ == "StructType":
				return true, true
			case keep != "" && fn == "HasSuffix" && lit == keep:
				return true, true
			case drop != "" && fn == "HasPrefix" && lit == drop:
				return false, true
			}
			return false, false
		}
	}
	k.unordered = true
	k.every("definition.messages", "every exported struct of every file that is no oneof option becomes a message", k.field(o, "Messages"), source,
		func(l leaf) verdict { return elem(l, "svcdef.NewMessage") }, tell("StructType", "", ""))
	k.every("definition.enums", "every int32 type of every file becomes an enum", k.field(o, "Enums"), source,
		func(l leaf) verdict { return elem(l, "svcdef.NewEnum") }, tell("Ident", "", ""))
	// the service is set, not added to a list
	const what = "the server interface of every file becomes the service"
	var efs []*gsa.Effect
	var conds []Node
	v := holds
	for _, ef := range e.Effects {
		if ef.Kind != "lstore" && ef.Kind != "store" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			cond := e.B.And(ef.Cond, a.C)
			if a.T.Op != "fa" || a.T.Aux != "Service" || a.T.Args[0] != o || !e.Sat(cond) {
				continue
			}
			efs, conds = append(efs, ef), append(conds, cond)
			for _, b := range ef.Args[1] {
				c := e.B.And(cond, b.C)
				if !e.Sat(c) {
					continue
				}
				w := elem(leaf{t: b.T}, "svcdef.NewService")
				if w == holds && !strings.Contains(b.T.String(), "nil[") {
					w = k.onlyServers(c, at)
				}
				v = worst(v, w)
			}
		}
	}
	if len(efs) == 0 {
		r.Unknown("%s: where it is set is not known", what)
		return
	}
	if v == holds {
		// (none is left out)
		v = k.goesOverAll(efs, conds, []func(l *gsa.Loop) verdict{source, source}, tell("InterfaceType", "Server", "Unsafe"))
	}
	r.judge(v, "definition.service", efs[0], what, k.why)
}

// onlyServers judges that a service is only made from an interface with the
// name of a server's.
func (k *carry) onlyServers(cond Node, at func(t *Term) (string, bool)) verdict {
	e := k.e
	for _, x := range []struct {
		fn, lit string
		val     bool
	}{{"HasSuffix", "Server", true}, {"HasPrefix", "Unsafe", false}} {
		n, found, about := gsa.True, false, false
		for v := range support(e, cond) {
			t := e.VarTerm(v)
			if t.Op == "typeis" {
				continue
			}
			t.Walk(func(y *Term) bool {
				if fn, _, _ := atomOn(t); fn != "" {
					return false
				}
				s, ok := at(y)
				about = about || ok && s == "specs[*].Name.Name"
				return !ok
			})
			if fn, a, lit := atomOn(t); a != nil && fn == x.fn && lit == x.lit {
				if s, _ := at(a); s == "specs[*].Name.Name" {
					n, found = e.Atom(t), true
				}
			}
		}
		if !x.val {
			n = e.B.Not(n)
		}
		if !found || e.Sat(e.B.AndNot(cond, n)) {
			k.why = "it is made from an interface of another name than the server's"
			if !found && about {
				return undecided
			}
			if w, _ := decide(e, e.B.AndNot(cond, n), opaqueChain); found && w != broken {
				return undecided
			}
			return broken
		}
	}
	return holds
}

// optionNames are the maps that hold the names of the options of a oneof.
func (k *carry) optionNames(at func(t *Term) (string, bool)) map[*Term]bool {
	out := map[*Term]bool{}
	for _, ef := range k.e.Effects {
		if ef.Kind != "mapupdate" || len(ef.Args) < 2 {
			continue
		}
		m := ef.Args[0].One()
		if m == nil {
			continue
		}
		good := true
		for _, a := range ef.Args[1] {
			s, ok := at(a.T)
			good = good && ok && s == "File.Decls[*].(FuncDecl).Recv.List[0].Type.(StarExpr).X.(Ident).Name"
		}
		if _, ok := out[m]; !ok {
			out[m] = true
		}
		out[m] = out[m] && good
	}
	return out
}
