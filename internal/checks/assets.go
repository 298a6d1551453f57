package checks

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"io"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Asset is a template compiled into the program.
type Asset struct {
	Name string
	Text string
	Pos  token.Pos
}

func (c *Ctx) templPkg() *packages.Package {
	for _, p := range c.P.Pkgs {
		if p.PkgPath == c.P.TemplatePkg() {
			return p
		}
	}
	return nil
}

// Assets reads the templates out of the source of the embedded table: a map
// from names to functions, each of which decompresses one byte literal.
func (c *Ctx) Assets() (map[string]*Asset, error) {
	if a, ok := c.cache["assets"]; ok {
		return a.(map[string]*Asset), nil
	}
	p := c.templPkg()
	if p == nil {
		return nil, fmt.Errorf("package %s is missing", c.P.TemplatePkg())
	}
	funcs := map[string]*ast.FuncDecl{}
	vars := map[string]ast.Expr{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					funcs[x.Name.Name] = x
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, n := range vs.Names {
							if i < len(vs.Values) {
								vars[n.Name] = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	str := func(e ast.Expr) (string, bool) {
		tv, ok := p.TypesInfo.Types[e]
		if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(tv.Value), true
	}
	// the table: the only map literal from strings to functions
	var table *ast.CompositeLit
	for _, v := range vars {
		cl, ok := v.(*ast.CompositeLit)
		if !ok || len(cl.Elts) == 0 {
			continue
		}
		if mt, ok := cl.Type.(*ast.MapType); ok {
			if _, ok := mt.Value.(*ast.FuncType); ok {
				table = cl
			}
		}
	}
	if table == nil {
		return nil, fmt.Errorf("no table of templates found in %s", p.PkgPath)
	}
	var literal func(fn string, depth int) ast.Expr
	literal = func(fn string, depth int) ast.Expr {
		fd := funcs[fn]
		if fd == nil || depth > 4 {
			return nil
		}
		var found ast.Expr
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if found != nil {
				return false
			}
			if ce, ok := n.(*ast.CallExpr); ok {
				for _, a := range ce.Args {
					if id, ok := a.(*ast.Ident); ok {
						if v, ok := vars[id.Name]; ok {
							if conv, ok := v.(*ast.CallExpr); ok && len(conv.Args) == 1 {
								if s, ok := str(conv.Args[0]); ok && strings.HasPrefix(s, "\x1f\x8b") {
									found = conv.Args[0]
									return false
								}
							}
						}
					}
				}
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name != fn {
					if l := literal(id.Name, depth+1); l != nil {
						found = l
						return false
					}
				}
			}
			return true
		})
		return found
	}
	out := map[string]*Asset{}
	for _, el := range table.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return nil, fmt.Errorf("unexpected table entry")
		}
		name, ok := str(kv.Key)
		if !ok {
			return nil, fmt.Errorf("table key is not constant")
		}
		id, ok := kv.Value.(*ast.Ident)
		if !ok {
			return nil, fmt.Errorf("table value of %s is not a function name", name)
		}
		lit := literal(id.Name, 0)
		if lit == nil {
			return nil, fmt.Errorf("no data found for template %s", name)
		}
		s, _ := str(lit)
		zr, err := gzip.NewReader(bytes.NewReader([]byte(s)))
		if err != nil {
			return nil, fmt.Errorf("data of %s: %v", name, err)
		}
		b, err := io.ReadAll(zr)
		if err != nil {
			return nil, fmt.Errorf("data of %s: %v", name, err)
		}
		out[name] = &Asset{Name: name, Text: string(b), Pos: kv.Pos()}
	}
	c.cache["assets"] = out
	return out, nil
}

// AssetNames lists the embedded templates in order.
func (c *Ctx) AssetNames() ([]string, error) {
	as, err := c.Assets()
	if err != nil {
		return nil, err
	}
	var ns []string
	for n := range as {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns, nil
}
