package checks

import (
	"strings"

	"verif/internal/gsa"
)

// carriedHTTP: the HTTP transport gets every method with bindings, every
// binding of it and every field.
func (c *Ctx) carriedHTTP(r *Report) {
	c.httpHelper(r)
	c.httpMethod(r)
	c.httpBinding(r)
}

const httpPkg = "gengokit/httptransport"

func (c *Ctx) httpHelper(r *Report) {
	k := c.carry(r, httpPkg, "NewHelper", "httptransport.NewMethod")
	if k == nil {
		return
	}
	o := k.object("the data of the HTTP transport")
	if o == nil {
		return
	}
	const list = "svcdef.Service.Methods"
	k.every("http.methods", "the HTTP transport has every method with HTTP bindings", k.field(o, "Methods"), k.overIs(list),
		func(l leaf) verdict {
			a, ok := callOf(l.t, "httptransport.NewMethod")
			if !ok {
				k.why = "it gets " + short(l.t.String(), 80)
				return undecided
			}
			return k.elemOf(a[0], l.loop, list)
		},
		func(t *Term) (bool, bool) { return emptyTest(t, list+"[*].Bindings") })
}

// emptyTest recognises questions whether a list has elements; it is taken to
// have some.
func emptyTest(t *Term, list string) (val, known bool) {
	is := func(x *Term) bool { s, ok := shortChain(x); return ok && s == list }
	switch {
	case t.Op == "eq":
		a, b := t.Args[0], t.Args[1]
		if b.Op == "len" || a.IsNil() {
			a, b = b, a
		}
		if n, ok := b.IntVal(); a.Op == "len" && is(a.Args[0]) && ok && n == 0 || b.IsNil() && is(a) {
			return false, true
		}
	case t.Op == "lt" && t.Args[0].Op == "len" && is(t.Args[0].Args[0]):
		if n, ok := t.Args[1].IntVal(); ok && n <= 1 {
			return false, true
		}
	}
	return false, false
}

func (c *Ctx) httpMethod(r *Report) {
	k := c.carry(r, httpPkg, "NewMethod", "httptransport.NewBinding")
	if k == nil {
		return
	}
	o := k.object("a method of the HTTP transport")
	if o == nil {
		return
	}
	const m = "svcdef.ServiceMethod"
	k.part(o, "Name", "http.method.name", "a method of the HTTP transport has its method's name", gsa.True, func(t *Term) verdict { return k.is(t, m+".Name") })
	k.part(o, "RequestType", "http.method.request", "a method of the HTTP transport has its method's request type", gsa.True, func(t *Term) verdict { return k.is(t, m+".RequestType.Name") })
	k.part(o, "ResponseType", "http.method.response", "a method of the HTTP transport has its method's response type", gsa.True, func(t *Term) verdict { return k.is(t, m+".ResponseType.Name") })
	items := map[*Term]bool{}
	k.every("http.bindings", "a method of the HTTP transport has every binding of its method", k.field(o, "Bindings"), k.overIs(m+".Bindings"),
		func(l leaf) verdict {
			a, ok := callOf(l.t, "httptransport.NewBinding")
			if !ok || len(a) != 2 {
				k.why = "it gets " + short(l.t.String(), 80)
				return undecided
			}
			items[l.t] = true
			if v := k.is(a[1], m); v != holds {
				return v
			}
			if a[0] == k.e.Iter(l.loop) {
				return holds
			}
			k.why = "it is binding " + short(a[0].String(), 80)
			if a[0].IsConst() || a[0].Op == "op" {
				return broken
			}
			return undecided
		}, nil)
	// each knows the method it is of
	parent := map[*Term]bool{}
	for _, ef := range k.e.Effects {
		if ef.Kind != "store" && ef.Kind != "lstore" || len(ef.Args) < 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op == "fa" && a.T.Aux == "Parent" && items[a.T.Args[0]] {
				parent[a.T.Args[0]] = true
				k.r.judge(k.all(ef.Args[1], gsa.True, func(t *Term) verdict {
					k.why = "it is " + short(t.String(), 80)
					if t == o {
						return holds
					}
					if t.IsNil() || t.Op == "alloc" {
						return broken
					}
					return undecided
				}), "http.parent", ef, "a binding belongs to the method it was made for", k.why)
			}
		}
	}
	for t := range items {
		if !parent[t] {
			r.Unknown("the method that a binding belongs to is not set where it is made")
		}
	}
}

func (c *Ctx) httpBinding(r *Report) {
	k := c.carry(r, httpPkg, "NewBinding", "pkg.GoCamelCase", "httptransport.EnglishNumber", "httptransport.createDecodeConvertFunc", "httptransport.createDecodeTypeConversion",
		"httptransport.getZeroValue", "httptransport.basePath", "httptransport.LowCamelName", "pkg.IsGoBaseType")
	if k == nil {
		return
	}
	o := k.object("a binding of the HTTP transport")
	if o == nil {
		return
	}
	e := k.e
	const m = "svcdef.ServiceMethod"
	const b = m + ".Bindings[int]"
	const p = b + ".Params[*]"
	const f = p + ".Field"
	k.part(o, "Verb", "http.binding.verb", "a binding of the HTTP transport has its binding's verb", gsa.True, func(t *Term) verdict { return k.is(t, b+".Verb") })
	k.part(o, "PathTemplate", "http.binding.path", "a binding of the HTTP transport has its binding's path", gsa.True, func(t *Term) verdict { return k.is(t, b+".Path") })
	k.part(o, "Label", "http.binding.label", "a binding of the HTTP transport is called by its method's name and its number", gsa.True, func(t *Term) verdict {
		k.why = "it is " + short(t.String(), 100)
		if t.Op != "cat" || len(t.Args) != 2 {
			return k.is(t)
		}
		a, ok := callOf(t.Args[1], "httptransport.EnglishNumber")
		if !ok {
			return undecided
		}
		if v := k.is(t.Args[0], m+".Name"); v != holds {
			return v
		}
		return k.is(a[0], "int")
	})
	camel := func(of string) func(t *Term) verdict {
		return func(t *Term) verdict {
			a, ok := callOf(t, "pkg.GoCamelCase")
			if !ok {
				return k.is(t)
			}
			return k.is(a[0], of)
		}
	}
	is := func(s string) func(t *Term) verdict { return func(t *Term) verdict { return k.is(t, s) } }
	oneof := func(t *Term) (bool, bool) {
		// whether the field is a oneof
		if t.Op == "eq" {
			for i, a := range t.Args {
				if s, ok := shortChain(a); ok && s == f+".Type.Oneof" && t.Args[1-i].IsNil() {
					return true, true
				}
			}
		}
		return emptyTestNeg(t, f+".Type.Oneof")
	}
	spec := map[string]func(*Term) verdict{
		"Name": is(f + ".Name"), "QueryParamName": is(f + ".PBFieldName"), "CamelName": camel(f + ".Name"), "Location": is(p + ".Location"),
		"Repeated": is(f + ".Type.ArrayType"), "GoType": is(f + ".Type.Name"), "StarExpr": is(f + ".Type.StarExpr"),
	}
	parts := func(l leaf, spec map[string]func(*Term) verdict) verdict {
		if l.t.Op == "snap" || l.t.Op == "alloc" {
			for _, n := range sortedKeys(spec) {
				var v GV
				if l.t.Op == "snap" {
					v = snapField(e, l.t, n)
				} else {
					v = madeField(e, l.t, n)
				}
				if w := k.all(v, e.B.And(l.cond, l.loop.Entry), spec[n]); w != holds {
					k.why = n + ": " + k.why
					return w
				}
			}
			return holds
		}
		k.why = "it gets " + short(l.t.String(), 80)
		return undecided
	}
	k.every("http.fields", "a binding of the HTTP transport has a field with the names, type and location of every parameter that is no oneof", k.field(o, "Fields"), k.overIs(b+".Params"),
		func(l leaf) verdict {
			if v := parts(l, spec); v != holds {
				return v
			}
			// no oneof
			for x := range support(e, l.cond) {
				t := e.VarTerm(x)
				if val, known := oneof(t); known {
					n := e.Atom(t)
					if !val {
						n = e.B.Not(n)
					}
					if e.Sat(e.B.AndNot(l.cond, n)) {
						k.why = "a oneof is among them"
						return broken
					}
					return holds
				}
			}
			k.why = "whether it is a oneof does not matter"
			return broken
		},
		func(t *Term) (bool, bool) {
			if t.Op == "eq" {
				for i, a := range t.Args {
					if s, ok := shortChain(a); ok && s == f+".Type.Name" && t.Args[1-i].StrValEmpty() {
						return false, true
					}
				}
			}
			return oneof(t)
		})
	k.every("http.oneofs", "a binding of the HTTP transport has every parameter that is a oneof", k.field(o, "OneofFields"), k.overIs(b+".Params"),
		func(l leaf) verdict {
			return parts(l, map[string]func(*Term) verdict{"Name": is(f + ".Name"), "Location": is(p + ".Location")})
		},
		func(t *Term) (bool, bool) {
			val, known := oneof(t)
			return !val, known
		})
	const opt = f + ".Type.Oneof[*]"
	for _, s := range stores(e, "httptransport.OneofField", "Options") {
		if zeroOnly(s.val) {
			continue
		}
		// what the list is when the loop that fills it is done
		var v GV
		for _, l := range e.LoopTab {
			for _, pi := range l.Mem {
				if pi.Key != nil && pi.Key.Op == "fa" && pi.Key.Aux == "Options" && pi.Key.Args[0] == s.base && strings.HasPrefix(l.ID, "L") && l.Unrolled == 0 {
					v = gsa.V(pi.Term)
				}
			}
		}
		k.every("http.options", "a oneof of the HTTP transport has every option with its names and type", v, k.overIs(f+".Type.Oneof"),
			func(l leaf) verdict {
				return parts(l, map[string]func(*Term) verdict{
					"Name": is(opt + ".Name"), "QueryParamName": is(opt + ".PBFieldName"), "Repeated": is(opt + ".Type.ArrayType"), "GoType": is(opt + ".Type.Name"),
				})
			}, nil)
	}
}

func emptyTestNeg(t *Term, list string) (bool, bool) {
	val, known := emptyTest(t, list)
	return !val, known
}
