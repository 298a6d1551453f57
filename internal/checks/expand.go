package checks

import (
	"fmt"
	"go/constant"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"
	"unicode"
)

// Expansion of templates over schematic data. The data are symbols: names
// made of a prefix that occurs nowhere else. A condition that depends on what
// a name looks like goes both ways.

// tval is a schematic value: string, bool, int, nil, tlist, *tobj, *tmap.
type tval any

type tlist []tval

// tobj is a structure whose fields and methods are asked for by name.
type tobj struct {
	name string
	get  func(field string) (tval, bool)
}

// object makes a structure of fixed fields.
func object(name string, fields map[string]tval) *tobj {
	return &tobj{name, func(f string) (tval, bool) { v, ok := fields[f]; return v, ok }}
}

// symPrefix begins every symbol.
const symPrefix = "Zq"

// symbolic says that a text contains a symbol.
func symbolic(s string) bool { return strings.Contains(strings.ToLower(s), "zq") }

// noIdea aborts an expansion that cannot be decided.
type noIdea struct{ why string }

// broke aborts an expansion that fails for certain.
type broke struct{ why string }

type expander struct {
	funcs map[string]string // template function -> what it is
	dec   map[string]bool   // decisions about conditions on names
	asked []string
	out   strings.Builder
	name  string
	text  string
	vars  []tvar
	tree  map[string]*parse.Tree
	depth int
}

type tvar struct {
	name string
	val  tval
}

var builtinFuncs = map[string]any{"and": 1, "or": 1, "not": 1, "eq": 1, "ne": 1, "lt": 1, "le": 1, "gt": 1, "ge": 1, "index": 1, "slice": 1, "len": 1,
	"print": 1, "printf": 1, "println": 1, "html": 1, "js": 1, "urlquery": 1, "call": 1, "break": 1, "continue": 1}

// expansion is one way a template can come out.
type expansion struct {
	text string
	dec  map[string]bool
}

// expand lists the texts a template can produce for the data. why is not
// empty if that is unknown; bad if executing the template fails.
func expand(name, text string, funcs map[string]string, data tval) (all []expansion, why, bad string) {
	known := map[string]any{}
	for f := range funcs {
		known[f] = 1
	}
	trees, err := parse.Parse(name, text, "", "", known, builtinFuncs)
	if err != nil {
		return nil, "", err.Error()
	}
	todo := []map[string]bool{{}}
	for len(todo) > 0 {
		if len(all) > 64 {
			return nil, "the template asks too many questions about names", ""
		}
		dec := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		cur := map[string]bool{}
		for q, v := range dec {
			cur[q] = v
		}
		x := &expander{funcs: funcs, dec: cur, name: name, text: text, tree: trees}
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case noIdea:
					why = e.why
				case broke:
					bad = e.why
				default:
					panic(e)
				}
			}()
			x.vars = []tvar{{"$", data}}
			if t := trees[name]; t != nil && t.Root != nil {
				x.walk(t.Root, data)
			}
		}()
		if why != "" || bad != "" {
			return nil, why, bad
		}
		all = append(all, expansion{x.out.String(), x.dec})
		for _, q := range x.asked {
			if x.dec[q] {
				n := map[string]bool{}
				for p, v := range dec {
					n[p] = v
				}
				for _, p := range x.asked {
					if p == q {
						break
					}
					n[p] = x.dec[p]
				}
				n[q] = false
				todo = append(todo, n)
			}
		}
	}
	return all, "", ""
}

func (x *expander) where(n parse.Node) string {
	pos := int(n.Position())
	if pos > len(x.text) {
		pos = len(x.text)
	}
	return fmt.Sprintf("template %s, line %d", x.name, 1+strings.Count(x.text[:pos], "\n"))
}

func (x *expander) ask(q string) bool {
	if v, ok := x.dec[q]; ok {
		return v
	}
	x.dec[q] = true
	x.asked = append(x.asked, q)
	return true
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type loopStop struct{ brk bool }

func (x *expander) walk(n parse.Node, dot tval) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			x.walk(c, dot)
		}
	case *parse.TextNode:
		x.out.Write(n.Text)
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) == 0 {
			x.out.WriteString(x.print(n, v))
		}
	case *parse.IfNode:
		x.branch(n.Pipe, n.List, n.ElseList, dot, false)
	case *parse.WithNode:
		x.branch(n.Pipe, n.List, n.ElseList, dot, true)
	case *parse.RangeNode:
		mark := len(x.vars)
		v := x.pipe(n.Pipe, dot)
		// a declaration in the pipe is set anew for each element
		x.vars = x.vars[:mark]
		l, ok := v.(tlist)
		if !ok && v != nil {
			panic(noIdea{x.where(n) + ": cannot tell what is ranged over"})
		}
		if len(l) == 0 {
			x.walk(n.ElseList, dot)
			return
		}
		for i, el := range l {
			m := len(x.vars)
			switch len(n.Pipe.Decl) {
			case 1:
				x.vars = append(x.vars, tvar{n.Pipe.Decl[0].Ident[0], el})
			case 2:
				x.vars = append(x.vars, tvar{n.Pipe.Decl[0].Ident[0], int64(i)}, tvar{n.Pipe.Decl[1].Ident[0], el})
			}
			stop := x.body(n.List, el)
			x.vars = x.vars[:m]
			if stop {
				break
			}
		}
		x.vars = x.vars[:mark]
	case *parse.BreakNode:
		panic(loopStop{true})
	case *parse.ContinueNode:
		panic(loopStop{false})
	case *parse.TemplateNode:
		t := x.tree[n.Name]
		if t == nil {
			panic(broke{x.where(n) + ": no template " + n.Name})
		}
		var d tval
		if n.Pipe != nil {
			d = x.pipe(n.Pipe, dot)
		}
		if x.depth++; x.depth > 20 {
			panic(noIdea{x.where(n) + ": templates call each other too deeply"})
		}
		save := x.vars
		x.vars = []tvar{{"$", d}}
		x.walk(t.Root, d)
		x.vars = save
		x.depth--
	default:
		panic(noIdea{fmt.Sprintf("%s: unknown node %T", x.where(n), n)})
	}
}

func (x *expander) body(l *parse.ListNode, dot tval) (stop bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case loopStop:
			stop = e.brk
		default:
			panic(e)
		}
	}()
	x.walk(l, dot)
	return false
}

func (x *expander) branch(p *parse.PipeNode, yes, no *parse.ListNode, dot tval, with bool) {
	mark := len(x.vars)
	v := x.pipe(p, dot)
	if x.truth(p, v) {
		d := dot
		if with {
			d = v
		}
		x.walk(yes, d)
	} else {
		x.walk(no, dot)
	}
	x.vars = x.vars[:mark]
}

func (x *expander) truth(n parse.Node, v tval) bool {
	switch v := v.(type) {
	case nil:
		return false
	case bool:
		return v
	case string:
		return v != ""
	case int64:
		return v != 0
	case tlist:
		return len(v) > 0
	case *tobj:
		return true
	case *question:
		return x.ask(v.text) != v.neg
	}
	panic(noIdea{x.where(n) + ": cannot tell whether a value is set"})
}

// question is a truth value that depends on what a name looks like.
type question struct {
	text string
	neg  bool
}

func (x *expander) print(n parse.Node, v tval) string {
	switch v := v.(type) {
	case string:
		return v
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case nil:
		return "<no value>"
	}
	panic(noIdea{fmt.Sprintf("%s: cannot tell what a value is written as", x.where(n))})
}

func (x *expander) pipe(p *parse.PipeNode, dot tval) (v tval) {
	if p == nil {
		return nil
	}
	has := false
	for _, c := range p.Cmds {
		v = x.cmd(c, dot, v, has)
		has = true
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(x.vars) - 1; i >= 0; i-- {
				if x.vars[i].name == d.Ident[0] {
					x.vars[i].val = v
					break
				}
			}
		} else {
			x.vars = append(x.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (x *expander) cmd(c *parse.CommandNode, dot, final tval, has bool) tval {
	first := c.Args[0]
	if id, ok := first.(*parse.IdentifierNode); ok {
		return x.call(id, c.Args[1:], dot, final, has)
	}
	if len(c.Args) > 1 || has {
		panic(noIdea{x.where(first) + ": cannot follow a call of a method with arguments"})
	}
	return x.arg(first, dot)
}

func (x *expander) arg(n parse.Node, dot tval) tval {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return nil
	case *parse.FieldNode:
		return x.fields(n, dot, n.Ident)
	case *parse.VariableNode:
		for i := len(x.vars) - 1; i >= 0; i-- {
			if x.vars[i].name == n.Ident[0] {
				return x.fields(n, x.vars[i].val, n.Ident[1:])
			}
		}
		panic(broke{x.where(n) + ": undefined variable " + n.Ident[0]})
	case *parse.ChainNode:
		return x.fields(n, x.arg(n.Node, dot), n.Field)
	case *parse.PipeNode:
		return x.pipe(n, dot)
	case *parse.IdentifierNode:
		return x.call(n, nil, dot, nil, false)
	case *parse.StringNode:
		return n.Text
	case *parse.BoolNode:
		return n.True
	case *parse.NumberNode:
		if n.IsInt {
			return n.Int64
		}
	}
	panic(noIdea{fmt.Sprintf("%s: unknown operand %v", x.where(n), n)})
}

func (x *expander) fields(n parse.Node, v tval, names []string) tval {
	for _, f := range names {
		switch o := v.(type) {
		case *tobj:
			w, ok := o.get(f)
			if !ok {
				panic(broke{fmt.Sprintf("%s: %s has no field or method %s", x.where(n), o.name, f)})
			}
			v = w
		case nil:
			panic(broke{fmt.Sprintf("%s: field %s of nothing", x.where(n), f)})
		case string, bool, int64, tlist:
			panic(broke{fmt.Sprintf("%s: %v has no field %s", x.where(n), n, f)})
		default:
			panic(noIdea{fmt.Sprintf("%s: field %s of an unknown value", x.where(n), f)})
		}
	}
	if u, ok := v.(noIdea); ok {
		panic(noIdea{x.where(n) + ": " + u.why})
	}
	if b, ok := v.(broke); ok {
		panic(broke{x.where(n) + ": " + b.why})
	}
	return v
}

func (x *expander) call(id *parse.IdentifierNode, args []parse.Node, dot, final tval, has bool) tval {
	var vs []tval
	name := id.Ident
	if name == "and" || name == "or" {
		all := args
		var last tval
		for i := 0; i < len(all)+1; i++ {
			if i < len(all) {
				last = x.arg(all[i], dot)
			} else if has {
				last = final
			} else {
				break
			}
			if x.truth(id, last) == (name == "or") {
				return last
			}
		}
		return last
	}
	for _, a := range args {
		vs = append(vs, x.arg(a, dot))
	}
	if has {
		vs = append(vs, final)
	}
	if f, ok := x.funcs[name]; ok {
		return x.apply(id, f, vs)
	}
	need := func(n int) {
		if len(vs) < n {
			panic(broke{x.where(id) + ": too few operands of " + name})
		}
	}
	switch name {
	case "not":
		need(1)
		if q, ok := vs[0].(*question); ok {
			return &question{q.text, !q.neg}
		}
		return !x.truth(id, vs[0])
	case "eq":
		need(2)
		for _, w := range vs[1:] {
			if x.equal(id, vs[0], w) {
				return true
			}
		}
		return false
	case "ne":
		need(2)
		return !x.equal(id, vs[0], vs[1])
	case "len":
		need(1)
		switch v := vs[0].(type) {
		case tlist:
			return int64(len(v))
		case string:
			if !symbolic(v) {
				return int64(len(v))
			}
		}
	case "lt", "le", "gt", "ge":
		need(2)
		a, ok1 := vs[0].(int64)
		b, ok2 := vs[1].(int64)
		if ok1 && ok2 {
			switch name {
			case "lt":
				return a < b
			case "le":
				return a <= b
			case "gt":
				return a > b
			}
			return a >= b
		}
	case "index":
		need(2)
		if l, ok := vs[0].(tlist); ok && len(vs) == 2 {
			if i, ok := vs[1].(int64); ok {
				if i < 0 || int(i) >= len(l) {
					panic(broke{fmt.Sprintf("%s: index %d of a list of %d", x.where(id), i, len(l))})
				}
				return l[i]
			}
		}
	case "print", "println":
		s := ""
		for i, v := range vs {
			if _, isStr := v.(string); i > 0 && (!isStr || name == "println") {
				s += " "
			}
			s += x.print(id, v)
		}
		if name == "println" {
			s += "\n"
		}
		return s
	case "printf":
		need(1)
		if f, ok := vs[0].(string); ok && !symbolic(f) {
			var as []any
			for _, v := range vs[1:] {
				switch v.(type) {
				case string, bool, int64:
					as = append(as, v)
				default:
					panic(noIdea{x.where(id) + ": printf of an unknown value"})
				}
			}
			return fmt.Sprintf(f, as...)
		}
	}
	panic(noIdea{fmt.Sprintf("%s: cannot evaluate %s", x.where(id), name)})
}

func (x *expander) equal(n parse.Node, a, b tval) bool {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		if sa != sb && (symbolic(sa) || symbolic(sb)) && !(symbolic(sa) && symbolic(sb)) && sa != "" && sb != "" && !exportedIsNot(sa, sb) && !exportedIsNot(sb, sa) {
			return x.ask("is " + sa + " the text " + sb)
		}
		return sa == sb
	}
	switch a.(type) {
	case bool, int64, nil:
		switch b.(type) {
		case bool, int64, nil:
			return a == b
		}
	}
	panic(noIdea{x.where(n) + ": cannot compare"})
}

// exportedIsNot says whether a name that begins with an upper-case letter
// cannot be a text.
func exportedIsNot(name, text string) bool {
	return symbolic(name) && !symbolic(text) && text != "" && name != "" && unicode.IsUpper(rune(name[0])) && !unicode.IsUpper(rune(text[0]))
}

// apply applies a function given to the template.
func (x *expander) apply(n parse.Node, fn string, vs []tval) tval {
	v, ok, q := applyText(fn, vs)
	if !ok && q == "" && ownText != nil {
		v, ok = ownText(fn, vs)
	}
	if q != "" {
		return &question{q, false}
	}
	if !ok {
		panic(noIdea{x.where(n) + ": cannot evaluate " + fn})
	}
	return v
}

// applyText applies a function on texts. Of a name only what holds for every
// name is used; q is a question about a name.
func applyText(fn string, vs []tval) (v tval, ok bool, q string) {
	var s []string
	for _, v := range vs {
		t, isStr := v.(string)
		if !isStr {
			return nil, false, ""
		}
		s = append(s, t)
	}
	i := strings.LastIndexByte(fn, '/')
	short := fn[i+1:]
	switch {
	case len(s) == 1:
		switch short {
		case "strings.ToLower":
			return strings.ToLower(s[0]), true, ""
		case "strings.ToUpper":
			return strings.ToUpper(s[0]), true, ""
		case "strings.Title":
			if s[0] != "" && !symbolic(s[0][:min(2, len(s[0]))]) || symbolic(s[0]) {
				return strings.ToUpper(s[0][:1]) + s[0][1:], true, ""
			}
			return s[0], true, ""
		case "strings.TrimSpace":
			return strings.TrimSpace(s[0]), true, ""
		case "pkg.GoCamelCase":
			// names of Go identifiers stay as they are
			if symbolic(s[0]) {
				return symGoName(s[0]), true, ""
			}
		case "httptransport.LowCamelName":
			if n := symGoName(s[0]); n != "" {
				return strings.ToLower(n[:1]) + n[1:], true, ""
			}
		case "strconv.Quote":
			return strconv.Quote(s[0]), true, ""
		}
	case len(s) == 3 && (short == "strings.ReplaceAll"):
		if s[1] != "" && !identLike(s[1]) || !symbolic(s[0]) {
			return strings.ReplaceAll(s[0], s[1], s[2]), true, ""
		}
	case len(s) == 2:
		sym := symbolic(s[0]) || symbolic(s[1])
		switch short {
		case "strings.Contains":
			if !sym || s[1] == "" || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.Contains(s[0], s[1]), true, ""
			}
			return nil, false, "does " + s[0] + " contain " + s[1]
		case "strings.HasPrefix":
			if !sym || s[1] == "" || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.HasPrefix(s[0], s[1]), true, ""
			}
			return nil, false, "does " + s[0] + " begin with " + s[1]
		case "strings.HasSuffix":
			if !sym || s[1] == "" || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.HasSuffix(s[0], s[1]), true, ""
			}
			return nil, false, "does " + s[0] + " end with " + s[1]
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			if !sym || !symbolic(s[1]) && strings.IndexFunc(s[1], identRune) < 0 {
				return map[string]func(string, string) string{"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
					"strings.TrimRight": strings.TrimRight}[short](s[0], s[1]), true, ""
			}
		case "before":
			if !sym || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.SplitN(s[0], s[1], 2)[0], true, ""
			}
		case "strings.EqualFold":
			if !sym {
				return strings.EqualFold(s[0], s[1]), true, ""
			}
		case "strings.TrimPrefix":
			if !sym || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.TrimPrefix(s[0], s[1]), true, ""
			}
		case "strings.TrimSuffix":
			if !sym || !symbolic(s[1]) && !identLike(s[1]) {
				return strings.TrimSuffix(s[0], s[1]), true, ""
			}
		}
	}
	return nil, false, ""
}

// symGoName is the Go name of the symbol for a name of the definition: both are
// written with the same letters, the latter in lower case after an underscore.
func symGoName(s string) string {
	parts := strings.Split(s, "_")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(parts, "")
}

// decisions describes the answers an expansion is for.
func decisions(d map[string]bool) string {
	var s []string
	for q, v := range d {
		a := "yes"
		if !v {
			a = "no"
		}
		s = append(s, q+": "+a)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func constOf(v constant.Value) tval {
	switch v.Kind() {
	case constant.String:
		return constant.StringVal(v)
	case constant.Bool:
		return constant.BoolVal(v)
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return i
		}
	}
	return noIdea{"a constant"}
}

// identLike says whether a text can be part of a name.
func identLike(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool { return !identRune(r) }) < 0
}

func identRune(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 127
}
