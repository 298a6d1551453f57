package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/internal/gsa"
)

// kind is a type a field of a request can have.
type kind struct {
	id     string
	name   string // as svcdef calls it
	array  bool
	star   bool
	enum   bool
	msg    bool
	mapped bool
	goType string // in the Go code
}

var scalarKinds = []string{"uint32", "uint64", "int32", "int64", "bool", "float32", "float64", "string"}

// kinds lists the types of fields.
func kinds() []kind {
	var out []kind
	for _, s := range scalarKinds {
		out = append(out,
			kind{id: s, name: s, goType: s},
			kind{id: "optional " + s, name: s, star: true, goType: "*" + s},
			kind{id: "repeated " + s, name: s, array: true, goType: "[]" + s})
	}
	return append(out,
		kind{id: "enum", name: "ZqEnum", enum: true, goType: "ZqEnum"},
		kind{id: "optional enum", name: "ZqEnum", enum: true, star: true, goType: "*ZqEnum"},
		kind{id: "repeated enum", name: "ZqEnum", enum: true, array: true, goType: "[]ZqEnum"})
}

// schemField is a field of a request of the schematic definition.
type schemField struct {
	kind
	field  string // Go name
	proto  string // name in the definition
	loc    string
	method string // Go name of the method
	msgOf  string // type of the message, for messages
	// the rule that carries it, if it is a particular one
	of  *wmethod
	nth int
}

// bindingModel is what NewBinding makes of a parameter.
type bindingModel struct {
	k     *carry
	field *Term // the structure made for a parameter
	loop  *gsa.Loop
	when  Node
	why   string
}

func (c *Ctx) bindingModel() *bindingModel {
	if m, ok := c.cache["bindingmodel"]; ok {
		return m.(*bindingModel)
	}
	m := &bindingModel{}
	c.cache["bindingmodel"] = m
	r := &Report{ctx: c, Analysed: map[string]any{}, seen: map[string]bool{}}
	k := c.carry(r, httpPkg, "NewBinding", "pkg.GoCamelCase", "httptransport.EnglishNumber", "httptransport.basePath", "httptransport.LowCamelName")
	if k == nil {
		m.why = "httptransport.NewBinding not found"
		return m
	}
	m.k = k
	o := k.object("a binding")
	if o == nil {
		m.why = "httptransport.NewBinding makes no single binding"
		return m
	}
	f, ok := k.fill(k.field(o, "Fields"), k.rv.ok)
	if !ok || len(f.leaves) != 1 {
		m.why = "how the fields of a binding are listed is not known"
		return m
	}
	m.field, m.loop, m.when = f.leaves[0].t, f.leaves[0].loop, f.leaves[0].cond
	return m
}

// attrs evaluates what NewBinding makes of a field of the schematic definition.
func (m *bindingModel) attrs(c *Ctx, f *schemField) *tobj {
	e := m.k.e
	s := &scene{c: c, e: e, when: m.when}
	meth, nth := f.of, f.nth
	if meth == nil {
		// a rule which carries another field too
		other := &schemField{kind: kind{name: "string"}, field: "ZqOther", proto: "zq_other", loc: "path"}
		meth = &wmethod{name: f.method, req: "ZqAsk", resp: "ZqTell", bindings: []*wbinding{
			{verb: "post", path: "/zqOther/{zq_other}", params: []*schemField{other}},
			{verb: "get", path: "/zqThis/{zq_other}", params: []*schemField{other, f}}}}
		nth = 1
	}
	s.leaf = methodLeaf(meth, nth, f)
	obj := c.P.Spkg[c.mod(httpPkg)].Pkg.Scope().Lookup("Field")
	if obj == nil {
		return nil
	}
	st, _ := obj.Type().Underlying().(*types.Struct)
	memo := map[string]tval{}
	var self *tobj
	self = &tobj{"httptransport.Field", func(n string) (tval, bool) {
		if v, ok := memo[n]; ok {
			return v, true
		}
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() != n {
				continue
			}
			var g GV
			if m.field.Op == "snap" {
				g = snapField(e, m.field, n)
			} else {
				g = madeField(e, m.field, n)
			}
			var v tval
			if len(g) == 0 {
				v = zeroVal(st.Field(i).Type())
			} else {
				v = s.val(g)
			}
			memo[n] = v
			return v, true
		}
		if v, ok := c.methodText("Field", n, self, f.loc); ok {
			memo[n] = v
			return v, true
		}
		return nil, false
	}}
	return self
}

func zeroVal(t types.Type) tval {
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return ""
		case b.Info()&types.IsBoolean != 0:
			return false
		case b.Info()&types.IsInteger != 0:
			return int64(0)
		}
	}
	return nil
}

// methodText evaluates a method of a structure that returns a text.
func (c *Ctx) methodText(typ, name string, recv *tobj, key string) (tval, bool) {
	fn := c.fn(httpPkg, typ+"."+name)
	if fn == nil {
		return nil, false
	}
	ck := "method " + typ + "." + name
	rv, ok := c.cache[ck].(*rootEval)
	if !ok {
		rv = c.RootEval(httpPkg, typ+"."+name, func(n string) bool {
			for _, o := range []string{"pkg.GoCamelCase", "httptransport.LowCamelName"} {
				if strings.HasSuffix(n, o) {
					return true
				}
			}
			return false
		})
		c.cache[ck] = rv
	}
	if rv == nil || len(rv.res) == 0 {
		return nil, false
	}
	root := "httptransport." + typ
	s := &scene{c: c, e: rv.e, when: rv.ok}
	s.leaf = func(n string) (tval, bool) {
		if n == root {
			return recv, true
		}
		if !strings.HasPrefix(n, root+".") {
			return nil, false
		}
		var v tval = recv
		for _, f := range strings.Split(strings.TrimPrefix(n, root+"."), ".") {
			o, ok := v.(*tobj)
			if !ok {
				return nil, false
			}
			if v, ok = o.get(f); !ok {
				return nil, false
			}
		}
		return v, true
	}
	return s.val(rv.e.Under(rv.res[0], rv.ok)), true
}

func init() {
	register(&Check{ID: "DBGDEC", Rule: "debug", Run: func(c *Ctx, r *Report) {
		m := c.bindingModel()
		if m.why != "" {
			debug("%s", m.why)
			return
		}
		for _, k := range kinds() {
			for _, l := range []string{"query", "path"} {
				f := &schemField{kind: k, field: "ZqCount", proto: "zq_count", loc: l, method: "ZqAlpha"}
				o := m.attrs(c, f)
				v, _ := o.get("GenQueryUnmarshaler")
				debug("---- %s in %s\n%v", k.id, l, v)
				for _, a := range []string{"IsBaseType", "IsEnum", "Repeated", "TypeConversion"} {
					v, _ := o.get(a)
					debug("    %s=%v", a, v)
				}
			}
		}
		_ = fmt.Sprint
	}})
}
