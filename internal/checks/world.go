package checks

import (
	"embed"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

//go:embed stubs/stubs.txt
var stubFS embed.FS

// stubSources are the declarations of the libraries that generated code is
// built with, by import path.
func stubSources() map[string]string {
	b, _ := stubFS.ReadFile("stubs/stubs.txt")
	out := map[string]string{}
	for _, s := range strings.Split(string(b), "\n== ")[1:] {
		i := strings.IndexByte(s, '\n')
		out[strings.TrimSpace(s[:i])] = s[i+1:]
	}
	return out
}

// wbinding is an HTTP rule of a method of a schematic definition.
type wbinding struct {
	verb, path string
	params     []*schemField
}

// wmethod is a method of a schematic definition.
type wmethod struct {
	name, req, resp string
	bindings        []*wbinding
}

// world is a schematic definition with the options of a run.
type world struct {
	id        string
	transport string
	methods   []*wmethod
	msgs      map[string][]*schemField // fields of the messages
	order     []string
	built     *built
}

const (
	zqSvc     = "ZqSvc"
	zqPkg     = "zqpb"
	zqPBPath  = "zqtest/zqpb"
	zqSvcPath = "zqtest/zqsvcservice"
	// the package of the definition, as protoc has it
	zqProtoPkg = "zqproto"
)

// tobj of everything templates see.
type worldData struct {
	c       *Ctx
	w       *world
	service *tobj
	helper  *tobj
	data    *tobj
	why     string
}

func typeObj(name string) *tobj {
	return object("svcdef.FieldType", map[string]tval{"Name": name, "StarExpr": true, "ArrayType": false})
}

// object is the method as the definition has it.
func (m *wmethod) object() *tobj {
	var bs tlist
	for _, b := range m.bindings {
		var ps tlist
		for _, f := range b.params {
			ps = append(ps, f.object())
		}
		bs = append(bs, object("svcdef.HTTPBinding", map[string]tval{"Verb": b.verb, "Path": b.path, "Params": ps}))
	}
	return object("svcdef.ServiceMethod", map[string]tval{
		"Name": m.name, "RequestType": typeObj(m.req), "ResponseType": typeObj(m.resp), "Bindings": bs})
}

// object is the field as a parameter of a rule.
func (f *schemField) object() *tobj {
	nn := func(b bool) tval {
		if b {
			return tnonnil{}
		}
		return nil
	}
	return object("svcdef.HTTPParameter", map[string]tval{"Location": f.loc, "Field": object("svcdef.Field", map[string]tval{
		"Name": f.field, "PBFieldName": f.proto, "Type": object("svcdef.FieldType", map[string]tval{
			"Name": f.name, "ArrayType": f.array, "StarExpr": f.star, "Enum": nn(f.enum), "Message": nn(f.msg), "Map": nn(f.mapped), "Oneof": nil})})})
}

// methodLeaf resolves what NewMethod and NewBinding read of a method: any part
// of it, of the rule at hand and of the parameter at hand.
func methodLeaf(m *wmethod, nth int, f *schemField) func(string) (tval, bool) {
	o := m.object()
	roots := map[string]tval{"svcdef.ServiceMethod": o, "int": int64(nth)}
	if nth < len(m.bindings) {
		b, _ := o.get("Bindings")
		roots["svcdef.ServiceMethod.Bindings[int]"] = b.(tlist)[nth]
	}
	if f != nil {
		roots["svcdef.ServiceMethod.Bindings[int].Params[*]"] = f.object()
	}
	return leafOf(roots)
}

// data is what the templates are executed with.
func (c *Ctx) worldData(w *world) *worldData {
	d := &worldData{c: c, w: w}
	var ms tlist
	for _, m := range w.methods {
		m := m
		ms = append(ms, m.object())
	}
	d.service = object("svcdef.Service", map[string]tval{"Name": zqSvc, "Methods": ms})
	var hms tlist
	for _, m := range w.methods {
		if len(m.bindings) > 0 {
			hms = append(hms, d.httpMethod(m))
		}
	}
	d.helper = object("httptransport.Helper", map[string]tval{"Methods": hms})
	conf := object("gengokit.Config", map[string]tval{
		"GoPackage": zqSvcPath, "PBPackage": zqPBPath, "Transport": w.transport, "Version": "v0.0.0", "VersionDate": "2000-01-01",
		"GenClient": true, "ServicePath": "/zqtest/zqsvcservice", "PBPath": "/zqtest/zqpb"})
	rv, ok := c.cache["newdata"].(*rootEval)
	if !ok {
		rv = c.RootEval("gengokit", "NewData", func(n string) bool { return strings.HasSuffix(n, "httptransport.NewHelper") })
		c.cache["newdata"] = rv
	}
	if rv == nil || len(rv.res) == 0 {
		d.why = "gengokit.NewData not found"
		return d
	}
	s := &scene{c: c, e: rv.e, when: rv.ok}
	s.special = func(t *Term) (tval, bool) {
		if a, ok := callOf(t, "httptransport.NewHelper"); ok && len(a) == 1 {
			if s.term(a[0]) == tval(d.service) {
				return d.helper, true
			}
		}
		return nil, false
	}
	s.leaf = leafOf(map[string]tval{
		"svcdef.Svcdef":   object("svcdef.Svcdef", map[string]tval{"PkgName": zqPkg, "Service": d.service}),
		"gengokit.Config": conf,
	})
	d.data, ok = s.val(rv.e.Under(rv.res[0], rv.ok)).(*tobj)
	if !ok {
		d.why = fmt.Sprintf("what gengokit.NewData makes is not known: %v", s.val(rv.e.Under(rv.res[0], rv.ok)))
	}
	return d
}

// leafOf resolves the chains that begin at the given roots.
func leafOf(roots map[string]tval) func(string) (tval, bool) {
	return func(n string) (tval, bool) {
		best, at := "", -1
		for r := range roots {
			if len(r) > at && (n == r || strings.HasPrefix(n, r+".") || strings.HasPrefix(n, r+"[")) {
				best, at = r, len(r)
			}
		}
		if at < 0 {
			return nil, false
		}
		v := roots[best]
		for rest := n[at:]; rest != ""; {
			if rest[0] == '[' {
				l, ok := v.(tlist)
				i := strings.IndexByte(rest, ']')
				if !ok || i < 0 {
					return nil, false
				}
				k, err := strconv.Atoi(rest[1:i])
				if err != nil || k < 0 || k >= len(l) {
					return nil, false
				}
				v, rest = l[k], rest[i+1:]
				continue
			}
			f := rest[1:]
			if i := strings.IndexAny(f, ".["); i >= 0 {
				f = f[:i]
			}
			o, ok := v.(*tobj)
			if !ok {
				return nil, false
			}
			if v, ok = o.get(f); !ok {
				return nil, false
			}
			rest = rest[1+len(f):]
		}
		return v, true
	}
}

// httpMethod is what NewMethod makes of a method.
func (d *worldData) httpMethod(m *wmethod) *tobj {
	c := d.c
	k, ok := c.cache["newmethod"].(*carry)
	if !ok {
		r := &Report{ctx: c, Analysed: map[string]any{}, seen: map[string]bool{}}
		k = c.carry(r, httpPkg, "NewMethod", "httptransport.NewBinding")
		c.cache["newmethod"] = k
	}
	var self *tobj
	var bs tlist
	memo := map[string]tval{}
	self = &tobj{"httptransport.Method", func(f string) (tval, bool) {
		if f == "Bindings" {
			return bs, true
		}
		if v, ok := memo[f]; ok {
			return v, true
		}
		if k == nil {
			return noIdea{"httptransport.NewMethod is not known"}, true
		}
		o := k.object("a method")
		if o == nil {
			return noIdea{"what httptransport.NewMethod makes is not known"}, true
		}
		g := k.field(o, f)
		if len(g) == 0 {
			return nil, false
		}
		s := &scene{c: c, e: k.e, when: k.rv.ok}
		s.leaf = methodLeaf(m, 0, nil)
		v := s.val(g)
		memo[f] = v
		return v, true
	}}
	for i, b := range m.bindings {
		bs = append(bs, d.httpBinding(m, b, i, self))
	}
	return self
}

// httpBinding is what NewBinding makes of a rule.
func (d *worldData) httpBinding(m *wmethod, b *wbinding, i int, parent *tobj) *tobj {
	c := d.c
	bm := c.bindingModel()
	if bm.why != "" {
		d.why = bm.why
	}
	var fields tlist
	for _, f := range b.params {
		g := *f
		g.method, g.of, g.nth = m.name, m, i
		if bm.why == "" {
			fields = append(fields, bm.attrs(c, &g))
		}
	}
	memo := map[string]tval{}
	var self *tobj
	self = &tobj{"httptransport.Binding", func(f string) (tval, bool) {
		switch f {
		case "Fields":
			return fields, true
		case "OneofFields":
			return tlist(nil), true
		case "Parent":
			return parent, true
		}
		if v, ok := memo[f]; ok {
			return v, true
		}
		if bm.why != "" {
			return noIdea{bm.why}, true
		}
		if f == "PathSections" {
			v := c.pathSections(self)
			memo[f] = v
			return v, true
		}
		k := bm.k
		o := k.object("a binding")
		g := k.field(o, f)
		if len(g) == 0 {
			return c.methodText("Binding", f, self, "")
		}
		s := &scene{c: c, e: k.e, when: k.rv.ok}
		s.leaf = methodLeaf(m, i, nil)
		v := s.val(g)
		memo[f] = v
		return v, true
	}}
	return self
}

// genFileText is one file a schematic run writes.
type genFileText struct {
	asset string
	path  string // import path of its package
	name  string
	text  string
	file  *ast.File
}

// built is the code generated for a world.
type built struct {
	w     *world
	files []*genFileText
	fset  *token.FileSet
	pkgs  map[string]*types.Package
	infos map[string]*types.Info
	asts  map[string][]*ast.File
	prog  *gsa.Program
	imp   *stubImporter
	// what was found
	bad     []genProblem
	unknown []string
	aside   []string // undecided, but only of handlers that are appended later
	// why the clients cannot be used
	noClient string
	sv       *server
	clients  map[string]*rootEval
}

type genProblem struct{ key, text string }

// goPkgOf is the package that a template's file belongs to.
func goPkgOf(asset string) string {
	switch {
	case strings.HasPrefix(asset, "baron/"):
		return zqPBPath
	case strings.HasPrefix(asset, "cmd/"):
		return zqSvcPath + "/" + strings.ReplaceAll(asset[:strings.LastIndexByte(asset, '/')], "NAME", "zqsvc")
	default:
		return zqSvcPath + "/" + asset[:strings.LastIndexByte(asset, '/')]
	}
}

// assetSuffix finds the part of a template's name below the service directory.
func assetSuffix(name string) string {
	if i := strings.IndexByte(name, '/'); i >= 0 && strings.HasPrefix(name, "NAME") {
		return name[i+1:]
	}
	return name
}

// buildWorld expands every template for a world and type-checks the result.
func (c *Ctx) buildWorld(w *world) *built {
	if w.built != nil {
		return w.built
	}
	b := &built{w: w, fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{}, asts: map[string][]*ast.File{}}
	w.built = b
	as, err := c.Assets()
	if err != nil {
		b.unknown = append(b.unknown, err.Error())
		return b
	}
	d := c.worldData(w)
	if d.why != "" {
		b.unknown = append(b.unknown, d.why)
		return b
	}
	for _, n := range sortedKeys(as) {
		short := assetSuffix(n)
		if strings.HasSuffix(short, "service_methods.go.tmpl") {
			continue
		}
		if !strings.HasSuffix(short, ".go.tmpl") {
			b.unknown = append(b.unknown, "template "+n+" is not of a Go file")
			continue
		}
		b.expand(c, short, as[n].Text, d.data, short)
	}
	// handlers appended to an existing file
	for n, a := range as {
		if strings.HasSuffix(n, "service_methods.go.tmpl") {
			var hd tval = noIdea{"the regeneration of service.go is not known"}
			if m, err := c.svc(); err == nil {
				hd = m.stubData(c, w)
			}
			b.expandOnly(c, assetSuffix(n), a.Text, hd, d.data, as)
		}
	}
	if len(b.bad)+len(b.unknown) == 0 {
		b.check(c)
	}
	return b
}

func (b *built) expand(c *Ctx, short, text string, data tval, as string) {
	all, why, bad := expand(short, text, c.templateFuncs("gengokit"), data)
	switch {
	case bad != "":
		b.bad = append(b.bad, genProblem{"expand:" + short, "executing the template fails: " + bad})
		return
	case why != "":
		b.unknown = append(b.unknown, short+": "+why)
		return
	case len(all) != 1:
		b.unknown = append(b.unknown, fmt.Sprintf("%s depends on what names look like: %s", short, decisions(all[0].dec)))
		return
	}
	b.files = append(b.files, &genFileText{asset: short, path: goPkgOf(as), name: strings.TrimSuffix(as[strings.LastIndexByte(as, '/')+1:], ".tmpl"), text: all[0].text})
}

// expandOnly puts the handlers that a later run appends into a service file of
// an interface without methods.
func (b *built) expandOnly(c *Ctx, short, text string, hd, data tval, as map[string]*Asset) {
	all, why, bad := expand(short, text, c.templateFuncs("gengokit"), hd)
	switch {
	case bad != "":
		b.bad = append(b.bad, genProblem{"expand:" + short, "executing the template fails: " + bad})
	case why != "":
		b.aside = append(b.aside, short+": "+why)
	case len(all) != 1:
		b.aside = append(b.aside, fmt.Sprintf("%s depends on what names look like: %s", short, decisions(all[0].dec)))
	default:
		for _, f := range b.files {
			if !strings.HasSuffix(f.asset, "service/service.go.tmpl") && f.asset != "service/service.go.tmpl" {
				continue
			}
			file, err := parser.ParseFile(token.NewFileSet(), f.name, f.text, 0)
			if err != nil {
				return // reported by check
			}
			// what the service file is without its handlers
			fs := token.NewFileSet()
			file, _ = parser.ParseFile(fs, f.name, f.text, 0)
			var sb strings.Builder
			last := 0
			for _, dcl := range file.Decls {
				fd, ok := dcl.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || b.w.method(fd.Name.Name) == nil {
					continue
				}
				from, to := fs.Position(fd.Pos()).Offset, fs.Position(fd.End()).Offset
				sb.WriteString(f.text[last:from])
				last = to
			}
			sb.WriteString(f.text[last:])
			sb.WriteString(all[0].text)
			b.files = append(b.files, &genFileText{asset: short, path: zqSvcPath + "/service+", name: "service.go", text: sb.String()})
		}
	}
}

func (w *world) method(name string) *wmethod {
	for _, m := range w.methods {
		if m.name == name {
			return m
		}
	}
	return nil
}

// line is the text of a line of a file.
func (f *genFileText) line(n int) string {
	ls := strings.Split(f.text, "\n")
	if n < 1 || n > len(ls) {
		return ""
	}
	return strings.TrimSpace(ls[n-1])
}

// stubImporter finds packages: the generated ones, the stubs, and the standard
// library from its source.
type stubImporter struct {
	b    *built
	src  map[string]string
	std  types.Importer
	made map[string]*types.Package
	fail map[string]bool
	stub map[*types.Package]bool
	info map[string]*types.Info
	file map[string]*ast.File
}

var stdImporter types.ImporterFrom
var stdFset = token.NewFileSet()

func std() types.ImporterFrom {
	if stdImporter == nil {
		cmd := exec.Command("go", "env", "GOROOT")
		cmd.Env = gsa.Env()
		if out, err := cmd.Output(); err == nil {
			build.Default.GOROOT = strings.TrimSpace(string(out))
		}
		build.Default.CgoEnabled = false
		stdImporter = importer.ForCompiler(stdFset, "source", nil).(types.ImporterFrom)
	}
	return stdImporter
}

// isStd says whether a path is of the standard library.
func isStd(path string) bool {
	return !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") && !strings.HasPrefix(path, "zqtest/")
}

func (im *stubImporter) Import(path string) (*types.Package, error) {
	if p := im.b.pkgs[path]; p != nil {
		return p, nil
	}
	if p := im.made[path]; p != nil {
		return p, nil
	}
	if src, ok := im.src[path]; ok {
		f, err := parser.ParseFile(im.b.fset, path+"/stub.go", src, 0)
		if err != nil {
			panic(err)
		}
		info := newInfo()
		conf := types.Config{Importer: im, Error: func(err error) {
			if !strings.Contains(err.Error(), "imported and not used") {
				panic(fmt.Sprintf("stub %s: %v", path, err))
			}
		}}
		p, _ := conf.Check(path, im.b.fset, []*ast.File{f}, info)
		im.made[path] = p
		im.stub[p] = true
		im.info[path], im.file[path] = info, f
		return p, nil
	}
	if isStd(path) {
		return std().ImportFrom(path, build.Default.GOROOT+"/src", 0)
	}
	im.fail[path] = true
	return nil, fmt.Errorf("unknown library %s", path)
}

func newInfo() *types.Info {
	return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
}

// check parses and type-checks the files of a world.
func (b *built) check(c *Ctx) {
	im := &stubImporter{b: b, src: stubSources(), made: map[string]*types.Package{}, fail: map[string]bool{}, stub: map[*types.Package]bool{}, info: map[string]*types.Info{}, file: map[string]*ast.File{}}
	b.imp = im
	parsed := true
	byPath := map[string][]*genFileText{}
	for _, f := range b.files {
		file, err := parser.ParseFile(b.fset, f.asset, f.text, parser.ParseComments)
		if err != nil {
			msg := err.Error()
			b.bad = append(b.bad, genProblem{"parse:" + f.asset, "the generated file does not parse: " + short(msg, 200)})
			parsed = false
			continue
		}
		f.file = file
		byPath[f.path] = append(byPath[f.path], f)
	}
	if !parsed {
		return
	}
	pbText := b.w.pbSource()
	pb, err := parser.ParseFile(b.fset, "(protoc)", pbText, 0)
	if err != nil {
		panic(err)
	}
	var order []string
	for p := range byPath {
		if p != zqPBPath && p != zqSvcPath+"/service" && p != zqSvcPath+"/server" {
			order = append(order, p)
		}
	}
	sort.Strings(order)
	order = append([]string{zqPBPath, zqSvcPath + "/service", zqSvcPath + "/server"}, order...)
	for _, path := range order {
		fs := byPath[path]
		var files []*ast.File
		byName := map[string]*genFileText{}
		for _, f := range fs {
			files = append(files, f.file)
			byName[f.asset] = f
		}
		if path == zqPBPath {
			files = append(files, pb)
		}
		if len(files) == 0 {
			b.unknown = append(b.unknown, "there are no templates for package "+path)
			continue
		}
		info := newInfo()
		conf := types.Config{Importer: im, GoVersion: "go1.21", Error: func(err error) {
			te, ok := err.(types.Error)
			if !ok {
				b.unknown = append(b.unknown, err.Error())
				return
			}
			pos := b.fset.Position(te.Pos)
			line := ""
			if f := byName[pos.Filename]; f != nil {
				line = f.line(pos.Line)
			}
			if strings.Contains(te.Msg, "could not import") || b.ofStub(files, info, te.Pos) {
				b.unknown = append(b.unknown, fmt.Sprintf("%s: %s (%s)", pos.Filename, te.Msg, line))
				return
			}
			b.bad = append(b.bad, genProblem{"type:" + pos.Filename + ":" + te.Msg, fmt.Sprintf("the generated %s does not compile: %s, in `%s`", strings.TrimSuffix(pos.Filename, ".tmpl"), te.Msg, line)})
		}}
		tpath := strings.TrimSuffix(path, "+")
		p, _ := conf.Check(tpath, b.fset, files, info)
		if path == tpath {
			b.pkgs[path] = p
		}
		b.infos[path] = info
		b.asts[path] = files
		if im.fail != nil {
			for f := range im.fail {
				b.unknown = append(b.unknown, "unknown library "+f)
			}
			im.fail = map[string]bool{}
		}
	}
	b.names()
}

// ofStub says whether the error is about a name that the declarations of a
// library do not list.
func (b *built) ofStub(files []*ast.File, info *types.Info, pos token.Pos) bool {
	for _, f := range files {
		if pos < f.Pos() || pos > f.End() {
			continue
		}
		found := false
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil || pos < n.Pos() || pos > n.End() {
				return false
			}
			var tag string
			switch x := n.(type) {
			case *ast.SelectorExpr:
				if x.Sel.Pos() != pos {
					return true
				}
				if id, ok := x.X.(*ast.Ident); ok {
					if pn, ok := info.Uses[id].(*types.PkgName); ok && b.imp.stub[pn.Imported()] {
						found = pn.Imported().Scope().Lookup(x.Sel.Name) == nil
						return !found
					}
				}
				if tv, ok := info.Types[x.X]; ok {
					if p := pkgOfType(tv.Type); p != nil && b.imp.stub[p] {
						found = true
					}
				}
			case *ast.KeyValueExpr:
				if id, ok := x.Key.(*ast.Ident); ok && id.Pos() == pos {
					tag = id.Name
				}
			}
			_ = tag
			return true
		})
		return found
	}
	return false
}

func pkgOfType(t types.Type) *types.Package {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// names looks for identifiers which are the bare name of a method in lower
// case: for some names that is a keyword of Go.
func (b *built) names() {
	low := map[string]string{strings.ToLower(zqSvc): "service"}
	for _, m := range b.w.methods {
		low[strings.ToLower(m.name)] = "RPC"
	}
	for _, f := range b.files {
		if f.file == nil {
			continue
		}
		f := f
		ast.Inspect(f.file, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && low[id.Name] != "" {
				ln := b.fset.Position(id.Pos()).Line
				b.bad = append(b.bad, genProblem{"keyword:" + f.asset, fmt.Sprintf("the generated %s uses the name of the %s in lower case as an identifier, which is no identifier for names like Select, Import, Type or Return: `%s`",
					strings.TrimSuffix(f.asset, ".tmpl"), low[id.Name], f.line(ln))})
			}
			return true
		})
	}
}

// pbSource is what protoc-gen-go and protoc-gen-go-grpc write for the
// definition: the declarations that matter to other code.
func (w *world) pbSource() string {
	var sb strings.Builder
	sb.WriteString("package " + zqPkg + "\n\nimport (\n\tcontext \"context\"\n\tgrpc \"google.golang.org/grpc\"\n\tprotoreflect \"google.golang.org/protobuf/reflect/protoreflect\"\n)\n\n")
	sb.WriteString("type ZqEnum int32\n\nfunc (x ZqEnum) Enum() *ZqEnum { p := new(ZqEnum); *p = x; return p }\nfunc (x ZqEnum) String() string { return \"\" }\n\n")
	for _, n := range w.order {
		fmt.Fprintf(&sb, "type %s struct {\n", n)
		for _, f := range w.msgs[n] {
			fmt.Fprintf(&sb, "\t%s %s\n", f.field, f.goType)
		}
		fmt.Fprintf(&sb, "}\n\nfunc (x *%s) ProtoReflect() protoreflect.Message { return nil }\nfunc (x *%s) Reset() { *x = %s{} }\nfunc (x *%s) String() string { return \"\" }\n", n, n, n, n)
		for _, f := range w.msgs[n] {
			t := strings.TrimPrefix(f.goType, "*")
			if t != f.goType {
				fmt.Fprintf(&sb, "func (x *%s) Get%s() (v %s) {\n\tif x != nil && x.%s != nil {\n\t\treturn *x.%s\n\t}\n\treturn\n}\n", n, f.field, t, f.field, f.field)
			} else {
				fmt.Fprintf(&sb, "func (x *%s) Get%s() (v %s) {\n\tif x != nil {\n\t\treturn x.%s\n\t}\n\treturn\n}\n", n, f.field, t, f.field)
			}
		}
		sb.WriteString("\n")
	}
	fmt.Fprintf(&sb, "type %sClient interface {\n", zqSvc)
	for _, m := range w.methods {
		fmt.Fprintf(&sb, "\t%s(ctx context.Context, in *%s, opts ...grpc.CallOption) (*%s, error)\n", m.name, m.req, m.resp)
	}
	fmt.Fprintf(&sb, "}\n\ntype %sServer interface {\n", zqSvc)
	for _, m := range w.methods {
		fmt.Fprintf(&sb, "\t%s(context.Context, *%s) (*%s, error)\n", m.name, m.req, m.resp)
	}
	fmt.Fprintf(&sb, "\tmustEmbedUnimplemented%sServer()\n}\n\ntype Unimplemented%sServer struct{}\n\n", zqSvc, zqSvc)
	for _, m := range w.methods {
		fmt.Fprintf(&sb, "func (Unimplemented%sServer) %s(context.Context, *%s) (*%s, error) { return nil, nil }\n", zqSvc, m.name, m.req, m.resp)
	}
	fmt.Fprintf(&sb, "func (Unimplemented%sServer) mustEmbedUnimplemented%sServer() {}\n\n", zqSvc, zqSvc)
	fmt.Fprintf(&sb, "type Unsafe%sServer interface{ mustEmbedUnimplemented%sServer() }\n\n", zqSvc, zqSvc)
	sb.WriteString("func zqReceived(s grpc.ServiceRegistrar, method string, in interface{}) (context.Context, error)\n")
	sb.WriteString("func zqReplied(s grpc.ServiceRegistrar, method string, out interface{}, err error)\n\n")
	fmt.Fprintf(&sb, "func Register%sServer(s grpc.ServiceRegistrar, srv %sServer) {\n", zqSvc, zqSvc)
	for _, m := range w.methods {
		p := "/" + zqProtoPkg + "." + zqSvc + "/" + m.name
		fmt.Fprintf(&sb, "\t{\n\t\tin := new(%s)\n\t\tif ctx, err := zqReceived(s, %q, in); err == nil {\n\t\t\tout, err := srv.%s(ctx, in)\n\t\t\tzqReplied(s, %q, out, err)\n\t\t}\n\t}\n", m.req, p, m.name, p)
	}
	sb.WriteString("}\n\n")
	fmt.Fprintf(&sb, "func New%sClient(cc grpc.ClientConnInterface) %sClient\n", zqSvc, zqSvc)
	return sb.String()
}

// program is the generated code in SSA form.
func (b *built) program() *gsa.Program {
	if b.prog != nil {
		return b.prog
	}
	prog := ssa.NewProgram(b.fset, ssa.InstantiateGenerics)
	gp := &gsa.Program{SSA: prog, Spkg: map[string]*ssa.Package{}}
	seen := map[*types.Package]bool{}
	var create func(p *types.Package)
	own := map[*types.Package]string{}
	for path, p := range b.pkgs {
		own[p] = path
	}
	create = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			create(i)
		}
		if path, ok := own[p]; ok {
			gp.Spkg[path] = prog.CreatePackage(p, b.asts[path], b.infos[path], true)
			return
		}
		if b.imp.stub[p] {
			prog.CreatePackage(p, []*ast.File{b.imp.file[p.Path()]}, b.imp.info[p.Path()], true)
			return
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	b.addHarness()
	if p := b.pkgs[zqHarness]; p != nil {
		own[p] = zqHarness
	}
	for _, path := range sortedKeys(b.pkgs) {
		create(b.pkgs[path])
	}
	prog.Build()
	b.prog = gp
	return gp
}

// pathSections is what Binding.PathSections makes of the path of a rule: for
// each element of the path what the loop over them adds.
func (c *Ctx) pathSections(binding *tobj) tval {
	k, ok := c.cache["pathsections"].(*carry)
	if !ok {
		r := &Report{ctx: c, Analysed: map[string]any{}, seen: map[string]bool{}}
		k = c.carry(r, httpPkg, "Binding.PathSections", "pkg.GoCamelCase")
		c.cache["pathsections"] = k
	}
	if k == nil || len(k.rv.res) == 0 {
		return noIdea{"Binding.PathSections is not known"}
	}
	f, ok := k.fill(k.result(0), k.rv.ok)
	if !ok || len(f.leaves) == 0 || len(f.fixed) > 0 || len(f.tail) > 0 || f.replace {
		return noIdea{"how Binding.PathSections puts its list together is not known"}
	}
	l := f.leaves[0].loop
	for _, x := range f.leaves {
		if x.loop != l || l == nil || l.Over == nil {
			return noIdea{"Binding.PathSections goes over more than one list"}
		}
	}
	e := k.e
	a, ok := callOf(l.Over, "strings.Split")
	if !ok || len(a) != 2 {
		return noIdea{"Binding.PathSections goes over " + short(l.Over.String(), 80)}
	}
	fv, _ := binding.get("Fields")
	fields, _ := fv.(tlist)
	base := &scene{c: c, e: e, when: k.rv.ok}
	base.leaf = leafOf(map[string]tval{"httptransport.Binding": binding})
	text, ok1 := base.term(a[0]).(string)
	sep, ok2 := base.term(a[1]).(string)
	if !ok1 || !ok2 || sep == "" {
		return noIdea{"Binding.PathSections splits something else"}
	}
	elem := e.Elem(l, strT)
	var out tlist
	for _, part := range strings.Split(text, sep) {
		s := &scene{c: c, e: e, when: k.rv.ok, leaf: base.leaf}
		s.special = func(t *Term) (tval, bool) {
			switch {
			case t == elem:
				return part, true
			case t.Op == "has" && len(t.Args) == 2:
				key := s.term(t.Args[1])
				str, ok := key.(string)
				if !ok {
					return noIdea{"key of a map"}, true
				}
				return s.mapHas(t.Args[0], str, map[string]tlist{"httptransport.Binding.Fields": fields}), true
			}
			return nil, false
		}
		var conds []Node
		for _, x := range f.leaves {
			conds = append(conds, x.cond)
		}
		sit := s.situation(conds...)
		var v tval
		n := 0
		for _, x := range f.leaves {
			if e.Sat(e.B.And(x.cond, sit)) {
				v = s.term(x.t)
				n++
			}
		}
		if n != 1 {
			return noIdea{fmt.Sprintf("%d different things can become of the part %s of a path", n, part)}
		}
		out = append(out, v)
	}
	return out
}

// mapHas tells whether a map that a loop over a list fills has a key.
func (s *scene) mapHas(m *Term, key string, lists map[string]tlist) tval {
	e := s.e
	known := true
	for _, ef := range e.Effects {
		if ef.Kind != "mapupdate" || len(ef.Args) < 2 {
			continue
		}
		mine := false
		for _, a := range ef.Args[0] {
			if a.T == m {
				mine = true
			}
		}
		if !mine {
			continue
		}
		if len(ef.Loops) != 1 || ef.Loops[0].Over == nil {
			return noIdea{"how a map is filled is not known"}
		}
		over, ok := leafName(ef.Loops[0].Over)
		list, ok2 := lists[over]
		if !ok || !ok2 {
			return noIdea{"how a map is filled is not known: " + over}
		}
		for _, el := range list {
			sub := &scene{c: s.c, e: e, when: s.when}
			sub.leaf = leafOf(map[string]tval{over + "[*]": el})
			sit := sub.situation(ef.Cond)
			can := e.Sat(e.B.And(ef.Cond, sit))
			must := can && !e.Sat(e.B.And(e.B.Not(ef.Cond), sit, ef.Loops[0].Entry))
			kv, ok := sub.val(ef.Args[1]).(string)
			if !ok {
				known = false
				continue
			}
			if kv != key || !can {
				continue
			}
			if must {
				return true
			}
			known = false
		}
	}
	if !known {
		return noIdea{"what is in a map is not known"}
	}
	return false
}
