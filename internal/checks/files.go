package checks

import (
	"go/types"
	"strings"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C06", Rule: "Evaluates GenerateGokit and GenerateBaronFile symbolically (guarded value flow, everything inlined, all embedded templates). For every template the entry of the result map must exist exactly when the property says and its value must be, under every path condition, the previous content of the same key (user-owned files, when given) or the output of the template of that file. In main.main every entry of that map is written, whole and from memory, to its place.",
		Assumptions: []string{"text/template, go/format and readers behave as documented"}, Run: runC06})
}

// userOwned are the templates whose files the user may edit, apart from
// service/service.go which is merged.
var userOwned = map[string]bool{
	"cmd/NAME/main.go.tmpl": true, "cmd/NAME-client/main.go.tmpl": true, "server/endpoints.go.tmpl": true,
	"server/interrupt.go.tmpl": true, "server/wrapper.go.tmpl": true, "service/wrapper.go.tmpl": true,
}

const (
	clientAsset  = "cmd/NAME-client/main.go.tmpl"
	baronAsset   = "baron/NAME.pb.baron.go.tmpl"
	methodsAsset = "service/service_methods.go.tmpl"
)

// outName is the key under which the file of a template is returned.
func (g *gen) outName(asset string) *Term {
	e := g.e
	lower := e.Call("strings.ToLower", strT, g.svcName)
	var parts []*Term
	for i, p := range strings.Split(strings.TrimSuffix(asset, ".tmpl"), "NAME") {
		if i > 0 {
			parts = append(parts, lower)
		}
		parts = append(parts, e.Str(p))
	}
	return e.Cat(parts...)
}

func runC06(c *Ctx, r *Report) {
	g, err := c.GokitAsset()
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	if m, err := c.MainEval(false); err != nil {
		r.Unknown("%v", err)
	} else if p, err := c.outPaths(m); err != nil {
		r.Unknown("%v", err)
	} else {
		c.deliver(r, m, p)
		for _, w := range p.belowService(mutations(m.e)) {
			if w.kind == "create" {
				c.heldInMemory(r, m.e, w)
			}
		}
	}
	e := g.e
	r.Analysed["functions"] = funcsAnalysed(e)
	r.Analysed["effects"] = len(e.Effects)
	names, err := c.AssetNames()
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	r.Analysed["templates"] = names
	pf := e.Path(g.conf, "PreviousFiles")
	genClient := e.Path(g.conf, "GenClient")
	if pf == nil || genClient == nil {
		r.Unknown("Config.PreviousFiles or Config.GenClient is missing")
		return
	}
	mt, ok := pf.Typ.Underlying().(*types.Map)
	if !ok {
		r.Unknown("Config.PreviousFiles is not a map")
		return
	}
	if !e.Sat(g.ok) {
		r.Unknown("no successful path through GenerateGokit was found")
		return
	}
	wanted := map[*Term]string{}
	for _, n := range names {
		if n != baronAsset && n != methodsAsset {
			wanted[g.outName(n)] = n
		}
	}
	// everything put into the result
	opaqueKey := false
	for _, f := range g.files {
		if _, ok := wanted[f.key]; ok {
			continue
		}
		v, w := decide(e, e.B.And(f.eff.Cond, g.ok), opaqueTerm)
		if opaqueTerm(f.key) || f.key.Op == "box" || v == undecided {
			r.Unknown("a file is returned under %s", short(f.key.String(), 100))
			opaqueKey = true
		} else if v == broken {
			r.Viol("extra", f.eff.Pos, "a file is returned under %s, which belongs to no template of the service, when %s", short(f.key.String(), 100), w)
			opaqueKey = true
		}
	}
	for _, ef := range e.Effects {
		if ef.Kind == "delete" && len(ef.Args) > 1 {
			for _, a := range g.res[0] {
				if ef.Args[0].One() == a.T {
					r.Unknown("files are removed from the result")
					opaqueKey = true
				}
			}
		}
	}
	keys := map[string]*Term{}
	for k, n := range wanted {
		keys[n] = k
	}
	for _, n := range sortedKeys(keys) {
		key := keys[n]
		prev := e.Op("lookup", "", mt.Elem(), pf, key)
		hasPrev := e.B.Not(e.NilNode(prev))
		// final value
		there := gsa.False
		var val GV
		var at *gsa.Effect
		for i := range g.files {
			f := &g.files[i]
			if f.key != key {
				continue
			}
			cond := gsa.False
			for _, k := range f.eff.Args[1] {
				if k.T == key {
					cond = e.B.Or(cond, e.B.And(k.C, f.eff.Cond))
				}
			}
			text := unformat(e, f.val)
			if val == nil {
				val = text
			} else {
				val = e.Merge(cond, text, val)
			}
			there = e.B.Or(there, cond)
			at = f.eff
		}
		if at == nil {
			if opaqueKey {
				r.Unknown("whether %s is generated", key)
			} else {
				r.Viol("missing "+n, g.fn.Pos(), "the file of template %s is never returned under %s", n, key)
			}
			continue
		}
		want := gsa.True
		if n == clientAsset {
			want = e.Atom(genClient)
		}
		r.oblige(e, e.B.And(g.ok, want, e.B.Not(there)), "absent "+n, at, "a successful generation returns "+key.String(), "a successful generation lacks "+key.String())
		if n == clientAsset {
			r.oblige(e, e.B.And(g.ok, there, e.B.Not(want)), "unwanted "+n, at, key.String()+" is returned only if the client was asked for", key.String()+" is returned although the client was not asked for")
		}
		if n == serviceAsset {
			continue
		}
		for _, a := range e.Under(val, e.B.And(there, g.ok)) {
			t := a.T
			cond := e.B.And(a.C, there, g.ok)
			switch {
			case t.Op == "call" && t.CallName() == "executed" && assetOf(t.Args[0]) == n:
				if userOwned[n] {
					r.oblige(e, e.B.And(cond, hasPrev), "overwritten "+n, at, key.String()+" is rendered afresh only if there is no previous version",
						"the previous version of "+key.String()+" is replaced by the template")
				} else {
					r.Ok("%s is rendered from its template", key)
				}
			case t.Op == "call" && t.CallName() == "content" && (t.Args[0] == prev) || t == prev:
				if userOwned[n] {
					r.oblige(e, e.B.And(cond, e.B.Not(hasPrev)), "nil "+n, at, "the previous version of "+key.String()+" is passed through when there is one",
						"a previous version of "+key.String()+" is passed through although there is none")
				} else {
					r.oblige(e, cond, "stale "+n, at, key.String()+" never comes from a previous version", key.String()+" is taken from the previous version instead of being rendered")
				}
			default:
				what := key.String() + " is its previous version or its template"
				bad := key.String() + " becomes " + short(t.String(), 160)
				if opaqueTerm(t) {
					r.Unknown("%s: %s", what, short(t.String(), 120))
				} else {
					r.oblige(e, cond, "content "+n, at, what, bad)
				}
			}
		}
	}
	c.baronFile(r)
}

// baronFile checks what GenerateBaronFile writes.
func (c *Ctx) baronFile(r *Report) {
	fn := c.fn("gengokit/generator", "GenerateBaronFile")
	if fn == nil || len(fn.Params) < 3 {
		r.Unknown("generator.GenerateBaronFile has an unexpected form")
		return
	}
	e, _, _, err := c.generatorEval(fn)
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	n := 0
	for _, ef := range e.Effects {
		var src GV
		switch ef.Name {
		case "io.Copy", "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo":
			if ef.Kind != "call" || len(ef.Args) < 2 {
				continue
			}
			src = ef.Args[1]
		case "os.WriteFile", "io/ioutil.WriteFile":
			src = ef.Args[1]
		default:
			continue
		}
		for _, a := range unformat(e, src) {
			cond := e.B.And(a.C, ef.Cond)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			n++
			if a.T.Op == "call" && a.T.CallName() == "executed" && assetOf(a.T.Args[0]) == baronAsset {
				r.Ok("the .pb.baron.go file is the output of its template")
			} else if opaqueTerm(a.T) {
				r.Unknown("content of the .pb.baron.go file: %s", short(a.T.String(), 120))
			} else {
				r.oblige(e, cond, "baron", ef, "the .pb.baron.go file is the output of its template", "the .pb.baron.go file becomes "+short(a.T.String(), 160))
			}
		}
	}
	if n == 0 {
		r.Unknown("nothing that writes the .pb.baron.go file was found")
	}
}
