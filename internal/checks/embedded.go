package checks

import (
	"go/constant"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

func init() {
	register(&Check{ID: "C22", Rule: "Reads the table of embedded templates out of the source of the program, decompresses the constants and compares every template with the file of the same path below the template directory, up to comments and blank lines; the set of names must be the same. Evaluates Asset symbolically for every name: what it returns must be the whole decompressed constant of that name. Every constant name given to a function that looks up templates must be in the table.",
		Assumptions: []string{"compress/gzip behaves as documented"}, Run: runC22})
}

var templComment = regexp.MustCompile(`(?s)\{\{-?\s*/\*.*?\*/\s*-?\}\}`)

// meaningful drops comments and blank lines.
func meaningful(s string) string {
	s = templComment.ReplaceAllString(strings.ReplaceAll(s, "\r\n", "\n"), "")
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(l, " \t")
		if t := strings.TrimSpace(l); t == "" || strings.HasPrefix(t, "//") && !strings.Contains(t, "{{") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func runC22(c *Ctx, r *Report) {
	as, err := c.Assets()
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	p := c.templPkg()
	dir := filepath.Join(filepath.Dir(p.GoFiles[0]), "NAME-service")
	files := map[string]string{}
	err = filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		if strings.HasSuffix(rel, ".swp") {
			return nil
		}
		b, err := os.ReadFile(path)
		files[filepath.ToSlash(rel)] = string(b)
		return err
	})
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	names, _ := c.AssetNames()
	r.Analysed["templates"] = names
	for _, n := range names {
		text, ok := files[n]
		if !r.Require(ok, "extra "+n, as[n].Pos, "template "+n+" has a source", "the program carries a template "+n+" for which there is no source") {
			continue
		}
		a, b := meaningful(as[n].Text), meaningful(text)
		r.Require(a == b, "differs "+n, as[n].Pos, "template "+n+" is its source", "the template "+n+" the program carries is not its source: "+firstDiff(a, b))
	}
	for _, n := range sortedKeys(files) {
		r.Require(as[n] != nil, "missing "+n, 0, "source "+n+" is carried", "the source "+n+" is not among the templates the program carries")
	}
	c.assetFns(r, as)
	c.assetRefs(r, as)
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "nothing"
			if i < len(y) {
				o = short(strings.TrimSpace(y[i]), 80)
			}
			return "it has " + short(strings.TrimSpace(x[i]), 80) + " where the source has " + o
		}
	}
	if len(x) >= len(y) {
		return "nothing"
	}
	return "it ends before " + short(strings.TrimSpace(y[len(x)]), 80)
}

// assetFns evaluates the functions that look up a template.
func (c *Ctx) assetFns(r *Report, as map[string]*Asset) {
	fn := c.fn("gengokit/template", "Asset")
	if fn == nil {
		r.Unknown("there is no function Asset")
		return
	}
	for _, n := range sortedKeys(as) {
		e := c.P.TemplateEngine(gsa.Policy{Recur: 1, Inline: func(fn *ssa.Function) bool { return c.P.InRepo(fn) }})
		res, ok := e.Eval(fn, gsa.V(e.Str(n)))
		if len(res) != 2 {
			r.Unknown("the results of Asset")
			return
		}
		noerr := gsa.False
		for _, a := range res[1] {
			noerr = e.B.Or(noerr, e.B.And(a.C, e.NilNode(a.T)))
		}
		fine := gsa.True
		for _, f := range failures(e) {
			fine = e.B.And(fine, e.B.Not(f.fail))
		}
		what := "Asset returns the template " + n
		got := gsa.False
		for _, a := range res[0] {
			cond := e.B.And(a.C, ok, fine)
			if cond == gsa.False || !e.Sat(cond) {
				continue
			}
			if text, known := a.T.StrVal(); known {
				if text == as[n].Text {
					got = e.B.Or(got, cond)
					r.Ok("%s", what)
				} else {
					r.Viol("asset "+n, fn.Pos(), "Asset returns another text for %s: %s", n, firstDiff(text, as[n].Text))
				}
				continue
			}
			if opaqueTerm(a.T) && !strings.Contains(a.T.String(), "gzip") {
				r.Unknown("%s: %s", what, short(a.T.String(), 100))
				continue
			}
			r.oblige(e, cond, "asset "+n, nil, what, "Asset returns "+short(a.T.String(), 100)+" for "+n)
		}
		r.oblige(e, e.B.And(ok, fine, e.B.Not(e.B.And(got, noerr))), "lookup "+n, nil, "looking up "+n+" succeeds", "looking up "+n+" does not give the template")
	}
}

// assetRefs checks the constant names of templates.
func (c *Ctx) assetRefs(r *Report, as map[string]*Asset) {
	type ref struct{ name, fn string }
	var refs []ref
	for _, fn := range c.repoFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != c.P.TemplatePkg() {
					continue
				}
				for _, a := range call.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						n := constant.StringVal(k.Value)
						if fn.Pkg != nil && fn.Pkg.Pkg.Path() == c.P.TemplatePkg() {
							continue
						}
						refs = append(refs, ref{n, fn.String()})
						r.Require(as[strings.ReplaceAll(n, `\`, "/")] != nil, "unknown "+n, ins.Pos(), "template "+n+" used in "+fn.Name()+" exists", fn.Name()+" uses the template "+n+", which does not exist")
					}
				}
			}
		}
	}
	var l []string
	for _, x := range refs {
		l = append(l, x.fn+": "+x.name)
	}
	sort.Strings(l)
	r.Analysed["references"] = l
}
