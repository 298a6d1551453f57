package checks

import "go/ast"

// C23: for each option the generated code is complete.
func init() {
	register(&Check{
		ID: "C23",
		Rule: "schematic expansion and type checking: every compiled-in template is expanded for schematic services (names that stand for any name, lists of one, three or more elements), " +
			"with the data that gengokit.NewData, httptransport.NewMethod and NewBinding make, as read from their source; the text of each generated file is parsed, and the packages are type-checked together " +
			"with what protoc writes for the definition, against the declarations of the libraries; identifiers which are a name of an RPC in lower case are no identifiers for some names",
		Assumptions: []string{
			"templates only iterate over the lists of methods, bindings and fields, so services of up to a few elements stand for all",
			"the declarations of go-kit, nats.go, grpc, mux and protobuf listed in stubs.txt; a name they do not list is undecided, not an error",
			"requests and responses are messages of the definition's own package; names of RPCs differ not only in case; path variables are not repeated fields",
		},
		Run: func(c *Ctx, r *Report) {
			files, decls, worlds := 0, 0, 0
			seen := map[string]bool{}
			for _, w := range c.worlds() {
				b := c.buildWorld(w)
				worlds++
				for _, p := range b.bad {
					if seen[p.key] {
						continue
					}
					seen[p.key] = true
					r.Viol(p.key, 0, "%s (service %s)", p.text, w.id)
				}
				for _, u := range append(b.aside, b.unknown...) {
					r.Unknown("%s (service %s)", u, w.id)
				}
				if len(b.bad)+len(b.unknown) > 0 {
					continue
				}
				for _, f := range b.files {
					files++
					n := 0
					ast.Inspect(f.file, func(x ast.Node) bool {
						if _, ok := x.(*ast.Ident); ok {
							n++
						}
						return true
					})
					decls += n
				}
				for _, f := range b.files {
					r.Ok("%s of %s parses and type-checks", f.asset, w.id)
				}
			}
			c.labels(r)
			r.Analysed["services"] = worlds
			r.Analysed["generated files"] = files
			r.Analysed["identifiers resolved"] = decls
		},
	})
}
