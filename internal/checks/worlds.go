package checks

import (
	"fmt"
	"strings"
)

// kindsBy finds a kind by its name.
func kindBy(id string) kind {
	for _, k := range kinds() {
		if k.id == id {
			return k
		}
	}
	panic(id)
}

// newField is a field of a message of a schematic definition.
func newField(name, proto, kindID, loc string) *schemField {
	return &schemField{kind: kindBy(kindID), field: name, proto: proto, loc: loc}
}

// mkWorld makes a schematic definition: three methods with requests and
// responses of their own, or shared ones.
func mkWorld(transport, http string, shared bool) *world {
	w := &world{id: fmt.Sprintf("%s/%s", transport, http), transport: transport, msgs: map[string][]*schemField{}}
	if shared {
		w.id += "/shared"
	}
	add := func(n string, fs ...*schemField) {
		if w.msgs[n] == nil {
			w.msgs[n] = fs
			w.order = append(w.order, n)
		}
	}
	for _, n := range []string{"ZqAlpha", "ZqBeta", "ZqGamma"} {
		m := &wmethod{name: n, req: n + "Ask", resp: n + "Answer"}
		if shared {
			m.req, m.resp = "ZqAsk", "ZqAnswer"
		}
		id := newField("ZqId", "zq_id", "int64", "path")
		page := newField("ZqPage", "zq_page", "int32", "query")
		tags := newField("ZqTags", "zq_tags", "repeated string", "query")
		nums := newField("ZqNums", "zq_nums", "repeated int32", "query")
		sort := newField("ZqSort", "zq_sort", "enum", "query")
		note := newField("ZqNote", "zq_note", "string", "body")
		add(m.req, id, page, tags, nums, sort, note)
		add(m.resp, newField("ZqTotal", "zq_total", "int64", "body"))
		in := func(f *schemField, loc string) *schemField { g := *f; g.loc = loc; return &g }
		switch {
		case http == "nohttp" || http == "mixed" && n == "ZqBeta":
		case http == "several" || http == "mixed":
			m.bindings = []*wbinding{
				{"post", "/zqone/{zq_id}/zqsub", []*schemField{id, page, tags, nums, sort, note}},
				{"get", "/zqtwo", []*schemField{in(id, "query"), page, tags, nums, sort}},
				{"put", "/zqthree/{zq_id}/{zq_sort}", []*schemField{id, in(page, "body"), in(tags, "body"), in(nums, "body"), in(sort, "path"), note}},
			}
			for _, b := range m.bindings {
				b.path = "/" + n + b.path
			}
			if n == "ZqGamma" {
				m.bindings = m.bindings[1:2]
			}
		}
		w.methods = append(w.methods, m)
	}
	return w
}

// worlds lists the schematic definitions with the options of a run.
func (c *Ctx) worlds() []*world {
	if w, ok := c.cache["worlds"]; ok {
		return w.([]*world)
	}
	var out []*world
	for _, t := range transports {
		for _, h := range []string{"nohttp", "mixed", "several"} {
			out = append(out, mkWorld(t, h, false))
		}
	}
	out = append(out, mkWorld("all", "several", true))
	for _, t := range transports {
		w := mkWorld(t, "several", false)
		w.id = t + "/one"
		w.methods = w.methods[2:]
		out = append(out, w)
	}
	out = append(out, c.kindWorld(), shapeWorld())
	c.cache["worlds"] = out
	return out
}

// transports are the values of the option.
var transports = []string{"all", "grpc", "nats"}

// kindWorld has an RPC for each type of field in each location, with that
// field alone, and RPCs with all of them.
func (c *Ctx) kindWorld() *world {
	if w, ok := c.cache["kindworld"]; ok {
		return w.(*world)
	}
	w := &world{id: "all/kinds", transport: "all", msgs: map[string][]*schemField{}}
	c.cache["kindworld"] = w
	n := 0
	add := func(loc string, ks ...kind) *wmethod {
		n++
		m := &wmethod{name: fmt.Sprintf("ZqRpc%c%c", 'A'+n/26, 'a'+n%26)}
		m.req, m.resp = m.name+"Ask", "ZqAnswer"
		path := "/" + m.name
		var fs []*schemField
		for i, k := range ks {
			f := &schemField{kind: k, proto: fmt.Sprintf("zq_item%c%c", 'a'+i/26, 'a'+i%26), loc: loc}
			f.field = goCamel(f.proto)
			fs = append(fs, f)
			if loc == "path" {
				path += "/{" + f.proto + "}"
			}
		}
		w.msgs[m.req], w.order = fs, append(w.order, m.req)
		m.bindings = []*wbinding{{"get", path, fs}}
		w.methods = append(w.methods, m)
		return m
	}
	w.msgs["ZqAnswer"], w.order = nil, append(w.order, "ZqAnswer")
	var single []kind
	for _, k := range kinds() {
		add("query", k)
		if !k.array {
			add("path", k)
			single = append(single, k)
		}
	}
	add("query", kinds()...)
	add("path", single...)
	return w
}

// goCamel is the Go name of a simple name.
func goCamel(s string) string {
	out := ""
	for _, w := range strings.Split(s, "_") {
		out += strings.ToUpper(w[:1]) + w[1:]
	}
	return out
}

// shapeWorld has rules with and without fields in each location, for each verb.
func shapeWorld() *world {
	w := &world{id: "all/shapes", transport: "all", msgs: map[string][]*schemField{}}
	for i := 0; i < 8; i++ {
		m := &wmethod{name: fmt.Sprintf("ZqRpc%c", 'A'+i)}
		m.req, m.resp = m.name+"Ask", m.name+"Answer"
		path := "/" + m.name
		var fs []*schemField
		if i&1 != 0 {
			fs = append(fs, newField("ZqId", "zq_id", "int64", "path"))
			path += "/{zq_id}"
		}
		if i&2 != 0 {
			fs = append(fs, newField("ZqPage", "zq_page", "uint32", "query"))
		}
		body := i&4 != 0
		if body {
			fs = append(fs, newField("ZqNote", "zq_note", "string", "body"), newField("ZqList", "zq_list", "repeated int64", "body"), newField("ZqSort", "zq_sort", "optional enum", "body"))
		}
		for _, v := range []string{"get", "post", "put", "patch", "delete", "head"} {
			if body && v == "get" {
				continue
			}
			m.bindings = append(m.bindings, &wbinding{v, path, fs})
		}
		w.msgs[m.req], w.msgs[m.resp] = fs, fs
		w.order = append(w.order, m.req, m.resp)
		w.methods = append(w.methods, m)
	}
	// paths that look unusual
	for i, path := range []string{"/zqShape/trail/", "/zqShape/{zq_id}/", "/zqShape/v1.2/a-B_c/{zq_id}"} {
		m := &wmethod{name: fmt.Sprintf("ZqOdd%c", 'A'+i)}
		m.req, m.resp = m.name+"Ask", m.name+"Answer"
		var fs []*schemField
		if i > 0 {
			fs = append(fs, newField("ZqId", "zq_id", "int64", "path"))
		}
		m.bindings = []*wbinding{{"get", path, fs}}
		w.msgs[m.req], w.msgs[m.resp] = fs, fs
		w.order = append(w.order, m.req, m.resp)
		w.methods = append(w.methods, m)
	}
	return w
}

func init() {
	register(&Check{ID: "DBGWORLD", Rule: "debug", Run: func(c *Ctx, r *Report) {
		for _, w := range c.worlds() {
			b := c.buildWorld(w)
			debug("=== %s: %d files, bad %d, unknown %d", w.id, len(b.files), len(b.bad), len(b.unknown))
			for _, p := range b.bad {
				debug("  BAD %s: %s", p.key, p.text)
			}
			for _, p := range b.unknown {
				debug("  UNKNOWN %s", p)
			}
			if w.id == "all/several" {
				for _, f := range b.files {
					debug("##### %s %s\n%s", f.asset, f.path, f.text)
				}
			}
		}
	}})
}
