package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// decoder is a generated function that makes a request of an HTTP request.
type decoder struct {
	b    *built
	name string
	msg  string // the message it makes
	rv   *rootEval
	req  *Term // the request it makes
	r    *Report
}

// httpDecoders finds the generated decoders of HTTP requests.
func (b *built) httpDecoders() []*decoder {
	var out []*decoder
	sp := b.program().Spkg[zqPBPath]
	for _, n := range sortedKeys(sp.Members) {
		fn, ok := sp.Members[n].(*ssa.Function)
		if !ok || fn.Blocks == nil {
			continue
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		if ps.Len() != 2 || rs.Len() != 2 || ps.At(1).Type().String() != "*net/http.Request" || !types.IsInterface(rs.At(0).Type()) || rs.At(1).Type().String() != "error" {
			continue
		}
		out = append(out, &decoder{b: b, name: n})
	}
	return out
}

// open evaluates a decoder.
func (d *decoder) open() string {
	d.rv = d.b.eval(zqPBPath, d.name)
	if d.rv == nil || len(d.rv.res) != 2 {
		return "not evaluated"
	}
	e := d.rv.e
	for _, a := range e.Under(d.rv.res[0], d.rv.ok) {
		if !e.Sat(e.B.And(a.C, d.rv.ok)) {
			continue
		}
		t := a.T
		if t.Op == "mk" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		if t.Op != "alloc" && t.Op != "new" {
			return "it returns " + short(t.String(), 80)
		}
		if d.req != nil && d.req != t {
			return "it returns different requests"
		}
		d.req = t
	}
	if d.req == nil {
		return "it returns no request"
	}
	p, ok := types.Unalias(d.req.Typ).Underlying().(*types.Pointer)
	if !ok {
		return "type of the request"
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return "type of the request"
	}
	d.msg = n.Obj().Name()
	return ""
}

// source says what text of the HTTP request a term is: that of a parameter,
// which is one of several with many.
func (d *decoder) source(t *Term) (loc, key string, elem *Term, ok bool) {
	if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "ia" {
		l, k, _, ok := d.list(t.Args[0].Args[0])
		return l, k, t.Args[0].Args[1], ok && l == "query"
	}
	if l, k, isList, ok := d.list(t); ok && !isList {
		return l, k, nil, true
	}
	// url.Values.Get gives the first value
	if a, ok := callOf(t, "net/url.Values).Get"); ok && len(a) == 2 {
		if k, ok := a[1].StrVal(); ok {
			if l, ok := params(a[0]); ok && l == "query" {
				return l, k, d.rv.e.Int(0), true
			}
		}
	}
	return "", "", nil, false
}

// params recognises the parameters of an HTTP request.
func params(t *Term) (string, bool) {
	if t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if _, ok := callOf(t, "gorilla/mux.Vars"); ok {
		return "path", true
	}
	if _, ok := callOf(t, "net/url.URL).Query"); ok {
		return "query", true
	}
	return "", false
}

// list recognises what the parameters have under a name.
func (d *decoder) list(t *Term) (loc, key string, many, ok bool) {
	if t.Op != "lookup" || len(t.Args) != 2 {
		return
	}
	key, ok = t.Args[1].StrVal()
	if !ok {
		return
	}
	loc, ok = params(t.Args[0])
	return loc, key, loc == "query", ok
}

// present is the condition that the HTTP request has a parameter.
func (d *decoder) present(f *schemField) Node {
	if f.loc == "path" {
		return gsa.True
	}
	e := d.rv.e
	n := gsa.False
	for _, t := range e.Vars() {
		if t.Op == "has" && len(t.Args) == 2 {
			k, ok := t.Args[1].StrVal()
			l, ok2 := params(t.Args[0])
			if ok && ok2 && k == f.proto && l == "query" {
				n = e.B.Or(n, e.Atom(t))
			}
		}
	}
	return n
}

// stored are the values that the fields of the request are given.
func (d *decoder) stored() map[string][]*gsa.Effect {
	out := map[string][]*gsa.Effect{}
	for _, ef := range d.rv.e.Effects {
		if ef.Kind != "lstore" || len(ef.Args) != 2 {
			continue
		}
		for _, a := range ef.Args[0] {
			if a.T.Op == "fa" && a.T.Args[0] == d.req {
				out[a.T.Aux] = append(out[a.T.Aux], ef)
			}
		}
	}
	return out
}

// want is how the text of a kind is parsed.
type parseSpec struct {
	fn   string
	base int64
	bits int64
	conv string
}

func (k kind) parse() parseSpec {
	switch {
	case k.enum:
		return parseSpec{"strconv.ParseInt", 10, 32, "ZqEnum"}
	case strings.HasPrefix(k.name, "uint"):
		return parseSpec{"strconv.ParseUint", 10, width(k.name), k.name}
	case strings.HasPrefix(k.name, "int"):
		return parseSpec{"strconv.ParseInt", 10, width(k.name), k.name}
	case strings.HasPrefix(k.name, "float"):
		return parseSpec{"strconv.ParseFloat", 0, width(k.name), k.name}
	case k.name == "bool":
		return parseSpec{fn: "strconv.ParseBool"}
	}
	return parseSpec{}
}

func width(t string) int64 {
	if strings.HasSuffix(t, "32") {
		return 32
	}
	return 64
}

func (p parseSpec) String() string {
	switch {
	case p.fn == "":
		return "the text itself"
	case p.base != 0:
		return fmt.Sprintf("%s(text, %d, %d)", p.fn, p.base, p.bits)
	case p.bits != 0:
		return fmt.Sprintf("%s(text, %d)", p.fn, p.bits)
	}
	return p.fn + "(text)"
}

// value is a judgement of a value stored for a field.
type judged struct {
	v       verdict
	why     string
	parses  []*Term // the calls that parse its text
	several bool    // it comes of each of several texts
	jsonOf  *Term   // it is what json.Unmarshal puts there
	bracket bool    // of the text in brackets
}

// scalar judges a term that should be the value of a text.
func (d *decoder) scalar(t *Term, f *schemField, elem bool) judged {
	want := f.kind.parse()
	goT := f.kind.goType
	goT = strings.TrimLeft(goT, "*[]")
	for {
		if t.Op == "conv" && len(t.Args) == 1 {
			w := typeWidth(t.Typ)
			if want.bits != 0 && w != 0 && w < want.bits {
				return judged{v: broken, why: fmt.Sprintf("it goes through a value of %d bits", w)}
			}
			t = t.Args[0]
			continue
		}
		break
	}
	if want.fn == "" {
		v, why := d.fromText(t, f, elem)
		return judged{v: v, why: why}
	}
	if t.Op != "res" || t.Aux != "0" || t.Args[0].Op != "call" {
		if loc, key, _, ok := d.source(t); ok {
			return judged{v: broken, why: fmt.Sprintf("it gets the text of the %s parameter %s", loc, key)}
		}
		if t.IsConst() || t.Op == "zero" {
			return judged{v: broken, why: "it gets " + t.String()}
		}
		return judged{v: undecided, why: "it gets " + short(t.String(), 120)}
	}
	call := t.Args[0]
	got := parseSpec{fn: call.CallName()}
	if !strings.HasPrefix(got.fn, "strconv.") || len(call.Args) == 0 {
		return judged{v: undecided, why: "it is made by " + got.fn}
	}
	num := func(i int) (int64, bool) {
		if i < len(call.Args) {
			return call.Args[i].IntVal()
		}
		return 0, false
	}
	okNum := true
	switch got.fn {
	case "strconv.ParseInt", "strconv.ParseUint":
		var a, b bool
		got.base, a = num(1)
		got.bits, b = num(2)
		okNum = a && b
		if got.bits == 0 {
			got.bits = 64
		}
	case "strconv.ParseFloat":
		got.bits, okNum = num(1)
		if got.bits != 32 {
			got.bits = 64
		}
	case "strconv.Atoi":
		got = parseSpec{"strconv.ParseInt", 10, 64, ""}
	case "strconv.ParseBool":
	default:
		return judged{v: undecided, why: "it is made by " + got.fn}
	}
	if !okNum {
		return judged{v: undecided, why: "operands of " + got.fn}
	}
	want.conv = ""
	if got != want {
		return judged{v: broken, why: fmt.Sprintf("its text is parsed by %s, not by %s", got, want)}
	}
	v, why := d.fromText(call.Args[0], f, elem)
	return judged{v: v, why: why, parses: []*Term{call}}
}

// typeWidth is the number of bits of a number type.
func typeWidth(t types.Type) int64 {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64:
		return 64
	}
	return 0
}

// fromText judges whether a text is that of the parameter of the field.
func (d *decoder) fromText(t *Term, f *schemField, elem bool) (verdict, string) {
	loc, key, ix, ok := d.source(t)
	if !ok {
		return undecided, "its text is " + short(t.String(), 120)
	}
	if loc != f.loc || key != f.proto {
		return broken, fmt.Sprintf("it comes from the %s parameter %s", loc, key)
	}
	if loc == "path" {
		return holds, ""
	}
	n, isConst := ix.IntVal()
	switch {
	case elem && ix.Op == "iter":
		return holds, ""
	case elem && isConst:
		return broken, fmt.Sprintf("each element comes from value %d of the parameter", n)
	case !elem && isConst && n == 0:
		return holds, ""
	case !elem && isConst:
		return broken, fmt.Sprintf("it comes from value %d of the parameter", n)
	}
	return undecided, "its text is " + short(t.String(), 120)
}

// whole judges a term stored in a field.
func (d *decoder) whole(t *Term, f *schemField) []judged {
	e := d.rv.e
	switch {
	case f.array:
		return d.repeated(t, f)
	case f.star:
		for t.Op == "mk" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		for _, n := range []string{"protobuf/proto.Uint32", "protobuf/proto.Int32", "protobuf/proto.Float32", "protobuf/proto.Uint64", "protobuf/proto.Int64",
			"protobuf/proto.Float64", "protobuf/proto.Bool", "protobuf/proto.String"} {
			if a, ok := callOf(t, n); ok && len(a) == 1 {
				return []judged{d.scalar(a[0], f, false)}
			}
		}
		if t.Op == "alloc" {
			var out []judged
			for _, ef := range e.Effects {
				if ef.Kind == "lstore" && len(ef.Args) == 2 && ef.Args[0].One() == t {
					for _, a := range ef.Args[1] {
						if !e.Sat(e.B.And(a.C, ef.Cond)) || initial(a.T) {
							continue
						}
						out = append(out, d.scalar(a.T, f, false))
					}
				}
			}
			if len(out) > 0 {
				return out
			}
		}
		if t.IsNil() {
			return []judged{{v: broken, why: "it gets nil"}}
		}
		return []judged{{v: undecided, why: "it gets " + short(t.String(), 120)}}
	}
	return []judged{d.scalar(t, f, false)}
}

// initial says whether a value is the zero value that a variable begins with.
func initial(t *Term) bool {
	if t.Op == "zero" || t.IsNil() {
		return true
	}
	n, ok := t.IntVal()
	return ok && n == 0 || t.StrValEmpty()
}

// repeated judges a list stored in a field.
func (d *decoder) repeated(t *Term, f *schemField) []judged {
	e := d.rv.e
	for (t.Op == "mk" || t.Op == "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if loc, key, many, ok := d.list(t); ok && many {
		if loc != f.loc || key != f.proto {
			return []judged{{v: broken, why: fmt.Sprintf("it gets the %s parameter %s", loc, key)}}
		}
		return []judged{{v: holds, several: true}}
	}
	if a, ok := callOf(t, "strings.Split"); ok && f.name == "string" && len(a) == 2 {
		if sep, ok := a[1].StrVal(); ok && sep == "," {
			v, why := d.fromText(a[0], f, false)
			return []judged{{v: v, why: why}}
		}
	}
	if t.Op == "mkslice" {
		var out []judged
		for _, ef := range e.Effects {
			if ef.Kind != "lstore" || len(ef.Args) != 2 {
				continue
			}
			for _, a := range ef.Args[0] {
				if a.T.Op != "ia" || a.T.Args[0] != t {
					continue
				}
				for _, v := range ef.Args[1] {
					j := d.scalar(v.T, f, true)
					j.several = true
					if j.v == holds && a.T.Args[1].Op != "iter" {
						j.v, j.why = undecided, "place of an element"
						if _, isConst := a.T.Args[1].IntVal(); isConst {
							j.v, j.why = broken, "every element is put in the same place"
						}
					}
					out = append(out, j)
				}
			}
		}
		if len(out) == 0 {
			return []judged{{v: broken, why: "it gets a list whose elements are not set", several: true}}
		}
		return out
	}
	// what json.Unmarshal left in a variable
	if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "alloc" {
		v := t.Args[0]
		var out []judged
		for _, ef := range e.Effects {
			if ef.Kind != "call" || ef.Name != "encoding/json.Unmarshal" || len(ef.Args) != 2 {
				continue
			}
			p := e.TermOf(ef.Args[1])
			for (p.Op == "mk" || p.Op == "conv") && len(p.Args) == 1 {
				p = p.Args[0]
			}
			if p != v {
				continue
			}
			for _, a := range ef.Args[0] {
				if !e.Sat(e.B.And(a.C, ef.Cond)) {
					continue
				}
				x, bracket := a.T, false
				for (x.Op == "mk" || x.Op == "conv") && len(x.Args) == 1 {
					x = x.Args[0]
				}
				if x.Op == "cat" && len(x.Args) == 3 {
					l, ok1 := x.Args[0].StrVal()
					r, ok2 := x.Args[2].StrVal()
					if ok1 && ok2 && l == "[" && r == "]" {
						x, bracket = x.Args[1], true
					}
				}
				w, why := d.fromText(x, f, false)
				out = append(out, judged{v: w, why: why, jsonOf: ef.Res, bracket: bracket})
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	if t.IsNil() || t.Op == "zero" {
		return []judged{{v: broken, why: "it gets no elements"}}
	}
	return []judged{{v: undecided, why: "it gets " + short(t.String(), 120)}}
}

// withValues is a condition when the query has so many values of the field.
func (d *decoder) withValues(when Node, f *schemField, n int64) Node {
	e := d.rv.e
	for v := range e.B.Support(when) {
		t := e.VarTerm(v)
		if (t.Op != "lt" && t.Op != "eq") || len(t.Args) != 2 {
			continue
		}
		var x [2]int64
		known, about := true, false
		for i, a := range t.Args {
			if k, ok := a.IntVal(); ok {
				x[i] = k
				continue
			}
			known = known && a.Op == "len"
			if a.Op == "len" {
				if loc, key, many, ok := d.list(a.Args[0]); ok && many && loc == f.loc && key == f.proto {
					x[i], about = n, true
				}
			}
		}
		if known && about {
			when = e.B.Restrict(when, v, t.Op == "lt" && x[0] < x[1] || t.Op == "eq" && x[0] == x[1])
		}
	}
	return when
}

// errNil is the condition that the call of a term fails not.
func (d *decoder) errNil(call *Term) Node {
	e := d.rv.e
	if call.Op != "call" {
		return gsa.True
	}
	if t := e.Find("res", "1", call); t != nil {
		return e.NilNode(t)
	}
	return e.NilNode(call)
}

// judge decides a decoder of a rule.
func (d *decoder) judge(r *Report, b *wbinding) {
	e, OK := d.rv.e, d.rv.ok
	say := func(f *schemField) string {
		return fmt.Sprintf("a field of type %s in the %s", f.kind.id, f.loc)
	}
	key := func(f *schemField, what string) string {
		return "decode:" + strings.ReplaceAll(f.kind.id, " ", "-") + ":" + f.loc + ":" + what
	}
	stores := d.stored()
	unsure := false
	mine := map[string]bool{}
	fine := map[*Term]bool{} // calls which may fail
	for _, f := range b.params {
		if f.loc == "body" {
			continue
		}
		mine[f.field] = true
		efs := stores[f.field]
		if len(efs) == 0 {
			r.Viol(key(f, "unset"), 0, "the generated decoder never sets %s", say(f))
			continue
		}
		good := true
		done := gsa.False
		seenSeveral, seenOne := false, false
		for _, ef := range efs {
			if !e.Sat(e.B.And(ef.Cond, OK)) {
				continue
			}
			done = e.B.Or(done, ef.Cond)
			for _, a := range ef.Args[1] {
				when := e.B.And(e.B.And(a.C, ef.Cond), OK)
				if !e.Sat(when) {
					continue
				}
				js := d.whole(a.T, f)
				if f.array && !f.enum && f.loc == "query" {
					one := len(js) > 0
					for _, j := range js {
						one = one && j.v == holds && !j.several
					}
					if one {
						switch v, w := decide(e, d.withValues(when, f, 2), d.opaque); v {
						case broken:
							good = false
							r.Viol(key(f, "values"), 0, "the generated decoder uses only the first of two values of %s, when %s (%s)", say(f), short(w, 200), d.name)
						case undecided:
							good = false
							r.Unknown("whether the generated decoder uses every value of %s", say(f))
						}
					}
				}
				anyJSON, failed := false, gsa.True
				for _, j := range js {
					if j.several {
						seenSeveral = true
					} else {
						seenOne = true
					}
					switch j.v {
					case broken:
						good = false
						r.Viol(key(f, "value"), 0, "the generated decoder does not convert the text of %s: %s (%s)", say(f), j.why, d.name)
					case undecided:
						good, unsure = false, true
						r.Unknown("how the generated decoder converts the text of %s: %s", say(f), j.why)
					}
					for _, p := range j.parses {
						fine[p] = true
						if e.Sat(e.B.And(when, e.B.Not(d.errNil(p)))) {
							good = false
							r.Viol(key(f, "error"), 0, "the generated decoder accepts text of %s that %s rejects (%s)", say(f), p.CallName(), d.name)
						}
					}
					if j.jsonOf != nil {
						anyJSON = true
						if f.name != "string" && (j.bracket || f.enum) {
							fine[j.jsonOf] = true
						}
						failed = e.B.And(failed, e.B.Not(e.NilNode(j.jsonOf)))
					}
				}
				if anyJSON && e.Sat(e.B.And(when, failed)) {
					good = false
					r.Viol(key(f, "error"), 0, "the generated decoder accepts text of %s that json.Unmarshal rejects (%s)", say(f), d.name)
				}
			}
		}
		p := d.present(f)
		if p == gsa.False {
			r.Unknown("when the generated decoder sets %s", say(f))
			continue
		}
		if v, w := decide(e, e.B.And(e.B.And(OK, p), e.B.Not(done)), d.opaque); v == broken {
			good = false
			r.Viol(key(f, "ignored"), 0, "the generated decoder ignores %s which the request has, when %s (%s)", say(f), short(w, 300), d.name)
		} else if v == undecided {
			good = false
			r.Unknown("when the generated decoder sets %s", say(f))
		}
		if good && f.array && !f.enum && !(seenSeveral && seenOne) {
			good = false
			r.Unknown("the generated decoder does not treat one and several values of %s apart", say(f))
		}
		if good {
			r.Ok("%s is decoded by %s: its own text, parsed, checked and assigned (%s)", say(f), f.kind.parse(), d.name)
		}
	}
	for _, n := range sortedKeys(stores) {
		if !mine[n] {
			r.Viol("decode:other", 0, "the generated decoder sets field %s, which is no parameter of its rule (%s)", n, d.name)
		}
	}
	if unsure {
		return
	}
	// rejected for no reason
	n := OK
	for v := range e.B.Support(OK) {
		t := e.VarTerm(v)
		if !errAtom(t) {
			continue
		}
		var calls []*Term
		aboutText := false
		t.Walk(func(x *Term) bool {
			if x.Op == "call" {
				calls = append(calls, x)
				if _, ok := params(x); ok {
					aboutText = true
				}
			}
			return true
		})
		ok := !aboutText
		for _, c := range calls {
			ok = ok || fine[c]
		}
		if ok {
			n = e.B.Restrict(n, v, true)
		}
	}
	switch v, w := decide(e, e.B.Not(n), d.opaque); v {
	case broken:
		r.Viol("decode:rejects", 0, "the generated decoder rejects a request whose parameters all parse, when %s (%s)", short(w, 400), d.name)
	case undecided:
		r.Unknown("whether the generated decoder %s rejects requests whose parameters all parse", d.name)
	default:
		r.Ok("%s rejects only requests that do not parse", d.name)
	}
}

func init() {
	register(&Check{
		ID: "C21",
		Rule: "value flow in generated decoders: for each type of field in each location the generated package is expanded from the templates and generator functions, type-checked and put in SSA form; " +
			"every value that reaches the field of the request is the result of the parse function of that type, with its base and bits, applied to the text of that parameter; it is stored exactly when the " +
			"parameter is present; a failed parse makes the decoder fail, and nothing else does",
		Assumptions: []string{"strconv, encoding/json, net/url and mux work as documented", "repeated fields are not put in paths; a field of another type than scalars and enums is out of scope"},
		Run: func(c *Ctx, r *Report) {
			ws := []*world{c.kindWorld()}
			for _, w := range c.worlds() {
				if w.id == "all/several" || w.id == "all/shapes" {
					ws = append(ws, w)
				}
			}
			n := 0
			for _, w := range ws {
				b := c.buildWorld(w)
				for _, p := range b.bad {
					r.Viol(p.key, 0, "%s (service %s)", p.text, w.id)
				}
				for _, u := range b.unknown {
					r.Unknown("%s (service %s)", u, w.id)
				}
				if len(b.bad)+len(b.unknown) > 0 {
					continue
				}
				byMsg := map[string][]*wbinding{}
				for _, m := range w.methods {
					byMsg[m.req] = append(byMsg[m.req], m.bindings...)
				}
				got := map[string]int{}
				for _, d := range b.httpDecoders() {
					if why := d.open(); why != "" {
						r.Unknown("the generated decoder %s: %s", d.name, why)
						continue
					}
					bs := byMsg[d.msg]
					i := got[d.msg]
					got[d.msg]++
					n++
					// the decoders of a method are named after the places of its rules
					if i < len(bs) {
						d.judge(r, bs[i])
					}
				}
				for _, m := range w.methods {
					if got[m.req] < len(m.bindings) {
						r.Viol("decode:missing", 0, "the rules of an RPC have %d generated decoders in place of %d", got[m.req], len(m.bindings))
					}
				}
			}
			r.Analysed["decoders"] = n
			r.Analysed["types of fields"] = len(kinds())
		},
	})
}

// opaque says whether a condition of a decoder is not one that depends freely
// on the HTTP request.
func (d *decoder) opaque(t *Term) bool {
	switch {
	case t.Op == "has" && len(t.Args) == 2:
		_, ok := params(t.Args[0])
		return !ok
	case (t.Op == "lt" || t.Op == "eq") && len(t.Args) == 2:
		for i, a := range t.Args {
			if !t.Args[1-i].IsConst() {
				continue
			}
			if a.Op == "len" {
				a = a.Args[0]
			}
			if _, _, _, ok := d.list(a); ok {
				return false
			}
			if _, _, _, ok := d.source(a); ok {
				return false
			}
			if a.Op == "content" {
				return false
			}
		}
	}
	return opaqueTerm(t)
}
