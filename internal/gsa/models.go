package gsa

import (
	"compress/gzip"
	"go/types"
	"io"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureFuncs have no effects and depend on their arguments only.
var pureFuncs = map[string]bool{}

// readOnly functions have effects, but not on objects of the program.
var readOnly = map[string]bool{
	"go/parser.ParseFile":    true,
	"text/template.Must":     true,
	"os.Open":                true,
	"os.Create":              true,
	"os.OpenFile":            true,
	"path/filepath.Walk":     true,
	"(*os.File).Close":       true,
	"(*os.File).Write":       true,
	"(*os.File).WriteString": true,
	"io/ioutil.WriteFile":    true,
	"os.WriteFile":           true,

	"(*net/url.URL).Query":        true,
	"(*net/url.URL).String":       true,
	"(net/url.Values).Encode":     true,
	"(net/url.Values).Get":        true,
	"(*net/http.Request).Context": true,
	"(net/http.Header).Get":       true,
	"encoding/json.Marshal":       true,
	"(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal": true,
	"github.com/teamlint/baron/svcdef/svcparse.ParseService":                 true,
}

func init() {
	for _, n := range []string{
		"strings.ToLower", "strings.ToUpper", "strings.Title", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace",
		"strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.Replace", "strings.ReplaceAll", "strings.Contains",
		"strings.HasPrefix", "strings.HasSuffix", "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.Join", "strings.Index",
		"strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.Count", "strings.Fields", "strings.EqualFold", "strings.ContainsAny",
		"strings.ContainsRune", "strings.IndexRune", "strings.IndexAny", "strings.Repeat", "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "strings.Compare",
		"strconv.Itoa", "strconv.Atoi", "strconv.FormatInt", "strconv.Quote", "strconv.Unquote", "strconv.ParseInt", "strconv.ParseUint",
		"strconv.ParseFloat", "strconv.ParseBool",
		"path/filepath.Join", "path.Join", "path/filepath.Base", "path.Base", "path/filepath.Dir", "path.Dir", "path/filepath.Ext",
		"path.Ext", "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.Split", "path/filepath.Clean", "path.Clean",
		"path/filepath.Abs", "path/filepath.Rel", "path/filepath.IsAbs", "path/filepath.SplitList", "path/filepath.VolumeName",
		"unicode.IsSpace", "unicode.IsLetter", "unicode.IsDigit", "unicode.ToLower", "unicode.ToUpper", "unicode.IsUpper", "unicode.IsLower",
		"unicode/utf8.DecodeRuneInString", "bytes.Equal", "bytes.Contains", "bytes.Runes",
		"go/ast.IsExported", "(*go/ast.FieldList).NumFields", "go/build.IsLocalImport",
		"(go/ast.Node).Pos", "(go/ast.Node).End", "(*go/ast.Field).Pos", "(*go/token.FileSet).Position", "(go/ast.Expr).Pos",
		"(reflect.StructTag).Get", "(reflect.StructTag).Lookup", "(go/token.Token).String", "go/token.Lookup", "(go/token.Token).IsKeyword",
		"go/token.NewFileSet", "text/template.New", "(*text/template.Template).Funcs", "(*text/template.Template).Parse", "(*text/template.Template).Option",
		"go/format.Source", "os.Getenv", "os.Stat", "os.Lstat", "os.IsExist", "os.IsNotExist", "os.Getwd", "os.TempDir",
		"(os.FileInfo).IsDir", "(os.FileInfo).Name", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).Name", "(io/fs.DirEntry).IsDir", "(io/fs.DirEntry).Name",
		"(error).Error", "(*os.File).Name", "github.com/kr/pretty.Formatter", "github.com/kr/pretty.Sprint",
		"github.com/spf13/pflag.Args", "github.com/spf13/pflag.Arg", "github.com/spf13/pflag.NArg", "os/exec.LookPath",
		"errors.Is", "errors.Unwrap", "regexp.MustCompile", "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindAllStringSubmatch",
		"(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).ReplaceAllString", "regexp.Compile",
		"(*regexp.Regexp).FindAllStringIndex", "regexp.QuoteMeta",
		"github.com/spf13/pflag.StringP", "github.com/spf13/pflag.BoolP", "github.com/spf13/pflag.String", "github.com/spf13/pflag.Bool",
		"reflect.TypeOf", "reflect.ValueOf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "fmt.Errorf",
		"fmt.Sprint", "fmt.Sprintln", "fmt.Sprintf",
	} {
		pureFuncs[n] = true
	}
}

func isLog(name string) bool {
	return strings.HasPrefix(name, "github.com/sirupsen/logrus.") || strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") ||
		strings.HasPrefix(name, "(github.com/sirupsen/logrus.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)")
}

// IsExitCall reports whether the function named ends the process.
func IsExitCall(name string) bool {
	if name == "os.Exit" || name == "runtime.Goexit" || name == "syscall.Exit" {
		return true
	}
	if isLog(name) {
		base := name[strings.LastIndexByte(name, '.')+1:]
		return strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic") || base == "Exit"
	}
	return false
}

func (f *frame) elems(g GV, typ types.Type) ([]GV, bool) {
	e := f.e
	t := g.One()
	if t == nil {
		return nil, false
	}
	if t.IsNil() {
		return nil, true
	}
	et := elemType(typ)
	if t.Op == "slicelit" {
		var out []GV
		for i := int64(0); i < t.X.(int64); i++ {
			out = append(out, f.prune(e.LoadAddr(e.IA(t, e.Int(i), et), et)))
		}
		return out, true
	}
	if t.Op == "app" && t.Args[0].IsNil() {
		var out []GV
		for _, a := range t.Args[1:] {
			if a.Op == "spread" {
				return nil, false
			}
			out = append(out, Unbox(a))
		}
		return out, true
	}
	return nil, false
}

// model handles calls of known functions.
func (f *frame) model(ins ssa.Instruction, c *ssa.CallCommon, name string, args []GV) ([]GV, bool) {
	e := f.e
	one := func(g GV) ([]GV, bool) { return []GV{g}, true }
	str := types.Typ[types.String]
	sig := c.Signature()
	variadicType := func() types.Type { return sig.Params().At(sig.Params().Len() - 1).Type() }

	switch {
	case IsExitCall(name):
		e.effect(f, "exit", name, f.cur, ins, args, nil)
		f.cur = False
		return f.undefs(ins, c), true
	case isLog(name):
		if e.RecordLog {
			e.effect(f, "log", name, f.cur, ins, args, nil)
		}
		var out []GV
		rs := sig.Results()
		for i := 0; i < rs.Len(); i++ {
			out = append(out, V(e.mkTerm("object", "log", rs.At(i).Type(), nil)))
		}
		return out, true
	}

	switch name {
	case "strings.ToLower", "strings.ToUpper":
		return one(e.Lift1(func(ts []*Term) *Term { return e.caseOf(name, ts[0]) }, args[0]))
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.HasSuffix", "strings.HasPrefix", "strings.Contains", "strings.TrimSpace",
		"strings.Index", "strings.TrimRight", "strings.Title", "strings.ReplaceAll", "strings.Replace", "strings.Count":
		return one(e.Lift1(func(ts []*Term) *Term { return e.strFn(name, sig.Results().At(0).Type(), ts) }, args...))
	case "strings.Join":
		if els, ok := f.elems(args[0], types.NewSlice(str)); ok {
			if sep := args[1].One(); sep != nil {
				return one(e.Lift1(func(ts []*Term) *Term {
					var parts []*Term
					for i, t := range ts {
						if i > 0 {
							parts = append(parts, sep)
						}
						parts = append(parts, t)
					}
					return e.Cat(parts...)
				}, els...))
			}
		}
		return nil, false
	case "path/filepath.Join", "path.Join":
		els, ok := f.elems(args[0], variadicType())
		if !ok {
			return nil, false
		}
		return one(e.Lift1(func(ts []*Term) *Term { return e.Join(ts...) }, els...))
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return one(args[0])
	case "path/filepath.Base", "path.Base":
		return one(e.Lift1(func(ts []*Term) *Term {
			return e.Base(ts[0])
		}, args[0]))
	case "path/filepath.Dir", "path.Dir":
		return one(e.Lift1(func(ts []*Term) *Term {
			if s, ok := ts[0].StrVal(); ok {
				return e.Str(filepath.Dir(s))
			}
			if t := ts[0]; t.Op == "join" && len(t.Args) > 1 && e.lastPart(t) != nil {
				return e.Join(t.Args[:len(t.Args)-1]...)
			}
			return e.Call("path/filepath.Dir", str, ts[0])
		}, args[0]))
	case "path/filepath.Rel":
		res := make([]GV, 2)
		fail := False
		if len(args[0]) == 0 || len(args[1]) == 0 {
			return nil, false
		}
		ok := true
		res[0] = e.Lift1(func(ts []*Term) *Term {
			if r := e.relPath(ts[0], ts[1]); r != nil {
				return r
			}
			ok = false
			return ts[0]
		}, args[0], args[1])
		if !ok || fail != False {
			return nil, false
		}
		res[1] = V(e.Nil())
		return res, true
	case "path/filepath.Ext", "path.Ext":
		return one(e.Lift1(func(ts []*Term) *Term {
			if s, ok := ts[0].StrVal(); ok {
				return e.Str(filepath.Ext(s))
			}
			t := ts[0]
			if t.Op == "call" && t.CallName() == "path/filepath.Base" {
				t = t.Args[0]
			}
			if x := e.constTail(t); x != "" && strings.Contains(x, ".") && !strings.Contains(x, "/") {
				return e.Str(filepath.Ext(x))
			}
			return e.Call("path/filepath.Ext", str, t)
		}, args[0]))
	case "strconv.Itoa":
		return one(e.Lift1(func(ts []*Term) *Term {
			if i, ok := ts[0].IntVal(); ok {
				return e.Str(strconv.FormatInt(i, 10))
			}
			return e.Call(name, str, ts[0])
		}, args[0]))
	case "fmt.Sprintf":
		if g, ok := f.sprintf(args); ok {
			return one(g)
		}
		return nil, false
	case "fmt.Sprint":
		if els, ok := f.elems(args[0], variadicType()); ok && len(els) == 1 {
			if t := els[0].One(); t != nil && t.Op == "mk" && isString(t.Typ) {
				return one(V(t.Args[0]))
			}
		}
		return nil, false
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		e.effect(f, "print", name, f.cur, ins, args, nil)
		return []GV{V(e.Int(0)), V(e.Nil())}, true
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		w := args[0].One()
		if w != nil {
			w0 := w
			if w0.Op == "mk" {
				w0 = w0.Args[0]
			}
			if w0.Op == "load" && w0.Args[0].Op == "global" && (w0.Args[0].Aux == "os.Stderr" || w0.Args[0].Aux == "os.Stdout") {
				e.effect(f, "print", name, f.cur, ins, args, nil)
				return []GV{V(e.Int(0)), V(e.Nil())}, true
			}
			if e.InMemory(w) {
				txt := e.Call("fmt.text", str)
				if name == "fmt.Fprintf" {
					if g, ok := f.sprintf(args[1:]); ok {
						txt = e.TermOf(g)
					} else {
						txt = e.Call("fmt.Sprintf", str, e.TermOf(args[1]), e.TermOf(args[2]))
					}
				} else if els, ok := f.elems(args[1], variadicType()); ok && name == "fmt.Fprint" && len(els) == 1 {
					txt = e.TermOf(e.unmk(els[0]))
				}
				f.appendContent(w, V(txt))
				e.effect(f, "write", name, f.cur, ins, args, nil)
				return []GV{V(e.Int(0)), V(e.Nil())}, true
			}
		}
		return nil, false

	// errors
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef",
		"github.com/pkg/errors.WithStack":
		return one(e.Lift1(func(ts []*Term) *Term {
			if ts[0].IsNil() {
				return ts[0]
			}
			return e.Call("github.com/pkg/errors.Wrap", errType, ts[0])
		}, args[0]))
	case "github.com/pkg/errors.Cause":
		return one(e.Lift1(func(ts []*Term) *Term { return e.cause(ts[0]) }, args[0]))
	case "errors.Is", "github.com/pkg/errors.Is":
		n := False
		for _, a := range args[0] {
			for _, b := range args[1] {
				n = e.B.Or(n, e.B.And(a.C, b.C, e.errIs(a.T, b.T)))
			}
		}
		return one(e.BoolGV(n))
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
		// each call makes a distinct error
		if name == "fmt.Errorf" {
			if s := args[0].One(); s != nil {
				if v, ok := s.StrVal(); ok && strings.Contains(v, "%w") {
					if els, ok := f.elems(args[1], variadicType()); ok {
						for _, el := range els {
							t := el.One()
							if t != nil && (t.Op != "mk" || implementsError(t.Typ)) {
								return one(V(e.mkTerm("errw", f.instID(ins), errType, nil, t)))
							}
						}
					}
				}
			}
		}
		id := f.instID(ins)
		return one(V(e.mkTerm("call", name+"#"+id, errType, nil, e.TermOf(args[0]))))

	// readers and writers
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
		if name == "bytes.NewReader" || name == "strings.NewReader" {
			return one(e.Lift1(func(ts []*Term) *Term {
				return e.mkTerm("reader", f.instID(ins), sig.Results().At(0).Type(), nil, ts[0])
			}, args[0]))
		}
		t := e.mkTerm("object", f.instID(ins)+".buf", sig.Results().At(0).Type(), nil)
		f.fresh(t)
		init := args[0]
		if tt := init.One(); tt != nil && (tt.IsNil() || tt.Op == "mkslice") {
			init = V(e.Str(""))
		}
		e.mem[e.FA(t, contentField, str)] = init
		return one(V(t))
	case "compress/gzip.NewReader":
		content := f.drain(args[0])
		ct := e.mkTerm("call", name+"#"+f.instID(ins), nil, nil, e.TermOf(e.unmk(content)))
		sp := e.split(V(ct), sig.Results())
		if ef := e.effect(f, "query", name, f.cur, ins, args, nil); ef != nil {
			ef.Err = sp[1]
		}
		if s, ok := ct.Args[0].StrVal(); ok {
			if zr, err := gzip.NewReader(strings.NewReader(s)); err == nil {
				if b, err := io.ReadAll(zr); err == nil {
					// what a constant decompresses to is constant
					sp[0] = V(e.mkTerm("reader", f.instID(ins), sig.Results().At(0).Type(), nil, e.Str(string(b))))
				}
			}
		}
		return sp, true
	case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String":
		return one(e.Lift(func(ts []*Term) GV { return e.Content(ts[0]) }, args[0]))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return one(e.Lift1(func(ts []*Term) *Term { return e.Len(e.TermOf(e.Content(ts[0]))) }, args[0]))
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		f.appendContentG(args[0], args[1])
		e.effect(f, "write", name, f.cur, ins, args, nil)
		return []GV{V(e.Int(0)), V(e.Nil())}, true
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		ch := e.Lift1(func(ts []*Term) *Term {
			if i, ok := ts[0].IntVal(); ok {
				return e.Str(string(rune(i)))
			}
			return e.mkTerm("chr", "", str, nil, ts[0])
		}, args[1])
		f.appendContentG(args[0], ch)
		e.effect(f, "write", name, f.cur, ins, args, nil)
		if sig.Results().Len() == 1 {
			return one(V(e.Nil()))
		}
		return []GV{V(e.Int(1)), V(e.Nil())}, true
	case "(*bytes.Buffer).ReadFrom":
		g := f.drain(args[1])
		f.appendContentG(args[0], g)
		return []GV{V(e.Int(0)), f.readErr(ins, name, args, 1)}, true
	case "io.WriteString":
		if w := args[0].One(); w != nil && e.InMemory(w) {
			f.appendContent(w, args[1])
			e.effect(f, "write", name, f.cur, ins, args, nil)
			return []GV{V(e.Int(0)), V(e.Nil())}, true
		}
		return nil, false
	case "io.Copy":
		w := args[0].One()
		if w != nil && e.InMemory(w) {
			f.appendContent(w, f.drain(args[1]))
			return []GV{V(e.Int(0)), f.readErr(ins, name, args, 1)}, true
		}
		return nil, false
	case "io/ioutil.ReadAll", "io.ReadAll":
		g := f.drain(args[0])
		return []GV{g, f.readErr(ins, "io.ReadAll", args, 0)}, true
	case "go/parser.ParseFile":
		if len(args) == 4 {
			if t := args[2].One(); t == nil || !t.IsNil() {
				var rs GV
				for _, a := range args[2] {
					if a.T.Op == "mk" && (isString(a.T.Typ) || a.T.Typ.String() == "[]byte") || a.T.IsNil() {
						continue
					}
					rs = append(rs, a)
				}
				f.drain(rs)
			}
		}
		return nil, false
	case "io/ioutil.NopCloser", "io.NopCloser":
		return one(args[0])
	case "go/printer.Fprint", "go/format.Node", "(*go/printer.Config).Fprint":
		a := args
		if strings.HasPrefix(name, "(*go/printer.Config)") {
			a = args[1:]
		}
		txt := e.Lift1(func(ts []*Term) *Term { return e.Call("printed", str, ts...) }, e.unmk(a[1]), e.unmk(a[2]))
		f.appendContentG(a[0], txt)
		return one(f.callErr(ins, name, args))
	case "(*text/template.Template).Execute":
		txt := e.Lift1(func(ts []*Term) *Term { return e.Call("executed", str, ts...) }, args[0], e.unmk(args[2]))
		f.appendContentG(args[1], txt)
		return one(f.callErr(ins, name, args))
	case "text/template.Must":
		e.effect(f, "must", name, f.cur, ins, args, nil)
		return one(args[0])

	// go/ast helpers
	case "(*go/ast.Ident).IsExported", "go/token.IsExported":
		g := args[0]
		if name != "go/token.IsExported" {
			g = e.Lift(func(ts []*Term) GV { return e.LoadAddr(e.FA(ts[0], "Name", str), str) }, g)
		}
		return one(e.Lift1(func(ts []*Term) *Term { return e.Call("go/ast.IsExported", types.Typ[types.Bool], ts[0]) }, g))
	case "(*go/ast.Ident).String":
		return one(e.Lift(func(ts []*Term) GV { return e.LoadAddr(e.FA(ts[0], "Name", str), str) }, args[0]))

	case "sort.Strings", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Ints", "slices.Sort":
		e.effect(f, "sort", name, f.cur, ins, args, nil)
		return nil, true
	}
	return nil, false
}

var errType = types.Universe.Lookup("error").Type()

func implementsError(t types.Type) bool {
	return types.Implements(t, errType.Underlying().(*types.Interface))
}

// readErr is the error of reading args[i] to the end.
func (f *frame) readErr(ins ssa.Instruction, name string, args []GV, i int) GV {
	e := f.e
	if t := args[i].One(); t != nil && e.InMemory(t) {
		e.effect(f, "read", name, f.cur, ins, args, nil)
		return V(e.Nil())
	}
	return f.callErr(ins, name, args)
}

func (f *frame) callErr(ins ssa.Instruction, name string, args []GV) GV {
	e := f.e
	var ts []*Term
	for _, a := range args {
		ts = append(ts, e.TermOf(a))
	}
	ct := e.mkTerm("call", name+"#"+f.instID(ins), errType, nil, ts...)
	er := V(e.mkTerm("res", "err", errType, nil, ct))
	if ef := e.effect(f, "call", name, f.cur, ins, args, ct); ef != nil {
		ef.Err = er
	}
	return er
}

// drain reads g to its end.
func (f *frame) drain(g GV) GV {
	e := f.e
	out := e.Lift(func(ts []*Term) GV { return e.Content(ts[0]) }, g)
	for _, a := range g {
		c := e.B.And(f.cur, a.C)
		t := a.T
		if t.Op == "mk" {
			t = t.Args[0]
		}
		if c == False || t.IsConst() || t.Op == "box" {
			continue
		}
		e.setContent(t, V(e.Str("")), c)
	}
	return out
}

func (f *frame) appendContentG(w, txt GV) {
	for _, a := range w {
		c := f.e.B.And(f.cur, a.C)
		if c == False {
			continue
		}
		save := f.cur
		f.cur = c
		f.appendContent(a.T, txt)
		f.cur = save
	}
}

func (f *frame) appendContent(w *Term, txt GV) {
	e := f.e
	old := f.prune(e.Content(w))
	val := e.Lift1(func(ts []*Term) *Term { return e.Cat(ts...) }, old, f.prune(txt))
	e.setContent(w, val, f.cur)
}

func (e *Engine) cause(t *Term) *Term {
	switch t.Op {
	case "call":
		switch t.CallName() {
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Cause":
			return e.cause(t.Args[0])
		}
		if strings.HasPrefix(t.CallName(), "github.com/pkg/errors.") || t.CallName() == "errors.New" || t.CallName() == "fmt.Errorf" {
			return t
		}
	case "const", "mk":
		return t
	}
	if nonnilTerm(t) {
		return t
	}
	return e.Call("github.com/pkg/errors.Cause", errType, t)
}

func (e *Engine) errIs(a, b *Term) Node {
	for a.Op == "call" && a.CallName() == "github.com/pkg/errors.Wrap" || a.Op == "errw" {
		a = a.Args[0]
	}
	if a == b {
		return True
	}
	if a.IsNil() || b.IsNil() {
		return e.EqNode(a, b)
	}
	if a.Op == "box" {
		r := False
		for _, x := range a.X.(GV) {
			r = e.B.Or(r, e.B.And(x.C, e.errIs(x.T, b)))
		}
		return r
	}
	if a.Op == "mk" || a.Op == "call" && (strings.HasSuffix(a.CallName(), "errors.New") || strings.HasSuffix(a.CallName(), "rrorf")) {
		return False
	}
	if a.Op == "load" && a.Args[0].Op == "global" && nonnilTerm(a) && nonnilTerm(b) {
		return False
	}
	return e.Atom(e.Call("errors.Is", types.Typ[types.Bool], a, b))
}

func (e *Engine) caseOf(name string, t *Term) *Term {
	if s, ok := t.StrVal(); ok {
		if name == "strings.ToLower" {
			return e.Str(strings.ToLower(s))
		}
		return e.Str(strings.ToUpper(s))
	}
	if t.Op == "cat" {
		var ts []*Term
		for _, a := range t.Args {
			ts = append(ts, e.caseOf(name, a))
		}
		return e.Cat(ts...)
	}
	if t.Op == "call" && t.CallName() == name {
		return t
	}
	return e.Call(name, types.Typ[types.String], t)
}

// Slashless says that a value contains no path separator and is not empty.
func (e *Engine) slashless(t *Term) bool {
	if s, ok := t.StrVal(); ok {
		return s != "" && s != "." && s != ".." && !strings.Contains(s, "/")
	}
	switch t.Op {
	case "cat":
		for _, a := range t.Args {
			if s, ok := a.StrVal(); ok {
				if strings.Contains(s, "/") {
					return false
				}
			} else if !e.slashless(a) {
				return false
			}
		}
		return true
	case "call":
		switch t.CallName() {
		case "strings.ToLower", "strings.ToUpper", "strings.Title":
			return e.slashless(t.Args[0])
		}
	}
	return e.Slashless != nil && e.Slashless(t)
}

// Base is the last element of a path.
func (e *Engine) Base(t *Term) *Term {
	if s, ok := t.StrVal(); ok {
		return e.Str(filepath.Base(s))
	}
	if l := e.lastPart(t); l != nil {
		return l
	}
	return e.Call("path/filepath.Base", types.Typ[types.String], t)
}

// lastPart is the last element of a path, if it is known to be one.
func (e *Engine) lastPart(t *Term) *Term {
	if t.Op == "join" {
		if l := t.Args[len(t.Args)-1]; e.slashless(l) {
			return l
		}
		return nil
	}
	if e.slashless(t) {
		return t
	}
	return nil
}

// relPath is the path of target relative to base, if target was built by
// joining something to base.
func (e *Engine) relPath(base, target *Term) *Term {
	rest, ok := e.below(base, target)
	if !ok {
		return nil
	}
	if len(rest) == 0 {
		return e.Str(".")
	}
	var out []*Term
	for i, r := range rest {
		if !e.slashless(r) {
			return nil
		}
		if i > 0 {
			out = append(out, e.Str("/"))
		}
		out = append(out, r)
	}
	return e.Cat(out...)
}

// below gives the elements of target after those of base.
func (e *Engine) below(base, target *Term) ([]*Term, bool) {
	ps := func(t *Term) []*Term {
		if t.Op == "join" {
			return t.Args
		}
		return []*Term{t}
	}
	b, t := ps(base), ps(target)
	if len(t) < len(b) {
		return nil, false
	}
	for i := range b {
		if b[i] != t[i] {
			return nil, false
		}
	}
	return t[len(b):], true
}

// constTail is the constant a string ends with, if it is known.
func (e *Engine) constTail(t *Term) string {
	if t.Op == "join" || t.Op == "cat" {
		t = t.Args[len(t.Args)-1]
		if t.Op == "cat" {
			t = t.Args[len(t.Args)-1]
		}
	}
	s, _ := t.StrVal()
	return s
}

func (e *Engine) strFn(name string, typ types.Type, ts []*Term) *Term {
	var ss []string
	all := true
	for _, t := range ts {
		s, ok := t.StrVal()
		if !ok {
			if i, iok := t.IntVal(); iok && name == "strings.Replace" && i < 0 {
				continue
			}
			all = false
			break
		}
		ss = append(ss, s)
	}
	if name == "strings.Replace" {
		if i, ok := ts[3].IntVal(); ok && i < 0 {
			name = "strings.ReplaceAll"
			ts = ts[:3]
		} else {
			return e.Call(name, typ, ts...)
		}
	}
	if all {
		switch name {
		case "strings.TrimSuffix":
			return e.Str(strings.TrimSuffix(ss[0], ss[1]))
		case "strings.TrimPrefix":
			return e.Str(strings.TrimPrefix(ss[0], ss[1]))
		case "strings.HasSuffix":
			return e.Bool(strings.HasSuffix(ss[0], ss[1]))
		case "strings.HasPrefix":
			return e.Bool(strings.HasPrefix(ss[0], ss[1]))
		case "strings.Contains":
			return e.Bool(strings.Contains(ss[0], ss[1]))
		case "strings.TrimSpace":
			return e.Str(strings.TrimSpace(ss[0]))
		case "strings.TrimRight":
			return e.Str(strings.TrimRight(ss[0], ss[1]))
		case "strings.Title":
			return e.Str(strings.Title(ss[0]))
		case "strings.Index":
			return e.Int(int64(strings.Index(ss[0], ss[1])))
		case "strings.Count":
			return e.Int(int64(strings.Count(ss[0], ss[1])))
		case "strings.ReplaceAll":
			return e.Str(strings.ReplaceAll(ss[0], ss[1], ss[2]))
		}
	}
	if name == "strings.TrimPrefix" && ts[0].Op == "join" {
		base, slash := ts[1], false
		if base.Op == "cat" {
			if s, ok := base.Args[len(base.Args)-1].StrVal(); ok && s == "/" {
				base, slash = e.Cat(base.Args[:len(base.Args)-1]...), true
			}
		}
		if _, ok := e.below(base, ts[0]); ok && base != ts[0] {
			if r := e.relPath(base, ts[0]); r != nil {
				if slash {
					return r
				}
				return e.Cat(e.Str("/"), r)
			}
		}
	}
	if name == "strings.HasPrefix" && ts[0].Op == "join" {
		base := ts[1]
		if base.Op == "cat" {
			if s, ok := base.Args[len(base.Args)-1].StrVal(); ok && s == "/" {
				base = e.Cat(base.Args[:len(base.Args)-1]...)
			}
		}
		if _, ok := e.below(base, ts[0]); ok && base != ts[0] {
			return e.Bool(true)
		}
	}
	if name == "strings.HasSuffix" && ts[0].Op == "join" {
		if c, ok := ts[1].StrVal(); ok {
			if l := e.constTail(ts[0]); len(l) >= len(c) {
				return e.Bool(strings.HasSuffix(l, c))
			}
		}
	}
	if len(ts) > 1 {
		if c, ok := ts[1].StrVal(); ok {
			t := ts[0]
			switch name {
			case "strings.TrimSuffix", "strings.HasSuffix":
				if t.Op == "cat" {
					last := t.Args[len(t.Args)-1]
					if l, ok := last.StrVal(); ok {
						if strings.HasSuffix(l, c) {
							if name == "strings.HasSuffix" {
								return e.Bool(true)
							}
							return e.Cat(append(append([]*Term(nil), t.Args[:len(t.Args)-1]...), e.Str(strings.TrimSuffix(l, c)))...)
						}
						if len(l) >= len(c) {
							if name == "strings.HasSuffix" {
								return e.Bool(false)
							}
							return t
						}
					}
				}
			case "strings.TrimPrefix", "strings.HasPrefix":
				if t.Op == "cat" {
					if l, ok := t.Args[0].StrVal(); ok {
						if strings.HasPrefix(l, c) {
							if name == "strings.HasPrefix" {
								return e.Bool(true)
							}
							return e.Cat(append([]*Term{e.Str(strings.TrimPrefix(l, c))}, t.Args[1:]...)...)
						}
						if len(l) >= len(c) {
							if name == "strings.HasPrefix" {
								return e.Bool(false)
							}
							return t
						}
					}
				}
			case "strings.ReplaceAll":
				if s, ok := t.StrVal(); ok && c != "" {
					parts := strings.Split(s, c)
					var out []*Term
					for i, p := range parts {
						if i > 0 {
							out = append(out, ts[2])
						}
						out = append(out, e.Str(p))
					}
					return e.Cat(out...)
				}
			}
		}
	}
	return e.Call(name, typ, ts...)
}

// Join is the canonical path join.
func (e *Engine) Join(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if t.Op == "join" {
			parts = append(parts, t.Args...)
			continue
		}
		if s, ok := t.StrVal(); ok {
			if s == "" || s == "." {
				continue
			}
			abs := strings.HasPrefix(s, "/")
			for i, p := range strings.Split(s, "/") {
				if p == "" {
					if i == 0 && abs && len(parts) == 0 {
						parts = append(parts, e.Str("/"))
					}
					continue
				}
				parts = append(parts, e.Str(p))
			}
			continue
		}
		if t.Op == "cat" {
			// split constants at slashes
			var cur []*Term
			flush := func() {
				if len(cur) > 0 {
					parts = append(parts, e.Cat(cur...))
				}
				cur = nil
			}
			for _, a := range t.Args {
				if s, ok := a.StrVal(); ok {
					ps := strings.Split(s, "/")
					for i, p := range ps {
						if i > 0 {
							flush()
						}
						if p != "" {
							cur = append(cur, e.Str(p))
						}
					}
				} else {
					cur = append(cur, a)
				}
			}
			flush()
			continue
		}
		parts = append(parts, t)
	}
	if len(parts) == 0 {
		return e.Str("")
	}
	if len(parts) == 1 {
		if _, ok := parts[0].StrVal(); ok {
			return parts[0]
		}
	}
	allc := true
	var cs []string
	for _, p := range parts {
		s, ok := p.StrVal()
		if !ok || s == ".." {
			allc = false
			break
		}
		cs = append(cs, s)
	}
	if allc {
		return e.Str(filepath.Join(cs...))
	}
	return e.mkTerm("join", "", types.Typ[types.String], nil, parts...)
}

// sprintf formats when all verbs are %s, %v or %d of known kinds.
func (f *frame) sprintf(args []GV) (GV, bool) {
	e := f.e
	ft := args[0].One()
	if ft == nil {
		return nil, false
	}
	format, ok := ft.StrVal()
	if !ok {
		return nil, false
	}
	els, ok := f.elems(args[1], types.NewSlice(types.NewInterfaceType(nil, nil)))
	if !ok {
		return nil, false
	}
	var pieces []GV
	lit := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil, false
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(els) {
			return nil, false
		}
		el := els[n]
		n++
		verb := format[i]
		if verb != 's' && verb != 'v' && verb != 'd' && verb != 'q' {
			return nil, false
		}
		bad := false
		g := e.Lift1(func(ts []*Term) *Term {
			t := ts[0]
			if t.Op != "mk" {
				if verb == 's' || verb == 'v' {
					return e.Call("fmt.Sprint", types.Typ[types.String], t)
				}
				bad = true
				return t
			}
			if verb == 'q' {
				return e.Call("strconv.Quote", types.Typ[types.String], t.Args[0])
			}
			if isString(t.Typ) && verb != 'd' {
				return t.Args[0]
			}
			if iv, ok := t.Args[0].IntVal(); ok {
				return e.Str(strconv.FormatInt(iv, 10))
			}
			if _, named := types.Unalias(t.Typ).(*types.Named); named && verb == 'd' {
				// its number, whatever its String method says
				return e.Call("fmt.Sprint", types.Typ[types.String], e.mkTerm("conv", "int64", types.Typ[types.Int64], nil, t.Args[0]))
			}
			return e.Call("fmt.Sprint", types.Typ[types.String], t.Args[0])
		}, el)
		if bad {
			return nil, false
		}
		if lit != "" {
			pieces = append(pieces, V(e.Str(lit)))
			lit = ""
		}
		pieces = append(pieces, g)
	}
	if lit != "" {
		pieces = append(pieces, V(e.Str(lit)))
	}
	if n != len(els) {
		return nil, false
	}
	if len(pieces) == 0 {
		return V(e.Str("")), true
	}
	return e.Lift1(func(ts []*Term) *Term { return e.Cat(ts...) }, pieces...), true
}

// Strings is a slice of the given constants.
func (e *Engine) Strings(ss []string) *Term {
	var ts []*Term
	for _, s := range ss {
		ts = append(ts, e.Str(s))
	}
	return e.App(e.Nil(), types.NewSlice(types.Typ[types.String]), ts...)
}

// Op makes a term (for hooks and specifications).
func (e *Engine) Op(op, aux string, typ types.Type, args ...*Term) *Term {
	return e.mkTerm(op, aux, typ, nil, args...)
}

// Path reads fields below a pointer: Path(p, "A.B") is p.A.B.
func (e *Engine) Path(p *Term, path string) *Term {
	t := p
	for _, n := range strings.Split(path, ".") {
		if t == nil || t.Typ == nil {
			return nil
		}
		st, ok := structOf(deref(t.Typ))
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				ft = st.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		var g GV
		if _, isPtr := t.Typ.Underlying().(*types.Pointer); isPtr {
			g = e.LoadAddr(e.FA(t, n, ft), ft)
		} else {
			g = e.FieldOf(t, n, ft)
		}
		t = g.One()
	}
	return t
}

// Iter is the number of the current iteration of l.
func (e *Engine) Iter(l *Loop) *Term { return e.mkTerm("iter", l.ID, types.Typ[types.Int], nil) }

// Elem is the element visited by the current iteration of a loop over a slice.
func (e *Engine) Elem(l *Loop, typ types.Type) *Term {
	a := e.IA(l.Over, e.add(e.Iter(l), l.Offset, types.Typ[types.Int]), typ)
	return e.TermOf(e.LoadAddr(a, typ))
}

// MapVersion is the current version of a map.
func (e *Engine) MapVersion(m *Term) string { return e.mapVer[m] }

// AddrRoot is the object an address lies in.
func AddrRoot(t *Term) *Term { return addrRoot(t) }

// LoopOf finds a loop by its term's id.
func (e *Engine) LoopByID(id string) *Loop { return e.LoopTab[id] }

// Add is t+k.
func (e *Engine) Add(t *Term, k int64) *Term { return e.add(t, k, types.Typ[types.Int]) }

// Store writes memory under a condition (for hooks).
func (e *Engine) Store(addr *Term, typ types.Type, val GV, cond Node) {
	e.storeAddr(addr, typ, val, cond)
}
