package checks

import (
	"fmt"
	"strings"
)

// labels decides whether the bindings of a method get names of their own: the
// name is that of the method and the words of the number of the binding, so
// different numbers must have different words. EnglishNumber is judged as a
// code: it puts a word for each digit of the decimal number, and no word
// begins with another.
func (c *Ctx) labels(r *Report) {
	const what = "the labels of the bindings of a method"
	rv := c.RootEval(httpPkg, "EnglishNumber", nil)
	if rv == nil || len(rv.res) != 1 {
		r.Unknown("%s: EnglishNumber not found", what)
		return
	}
	e := rv.e
	out := e.TermOf(rv.res[0])
	pi := e.PhiInfo(out)
	if out.Op != "phi" || pi == nil || pi.Loop == nil || pi.Loop.Kind != "string" {
		if a, ok := callOf(out, "strconv.Itoa"); ok && len(a) == 1 {
			r.Ok("%s are numbers", what)
			return
		}
		few := len(rv.res[0]) > 0
		for _, a := range rv.res[0] {
			_, isStr := a.T.StrVal()
			few = few && isStr
		}
		if few {
			r.Viol("label:few", 0, "EnglishNumber has only %d different results, so two bindings of a method can get the same label and functions of the same name are generated", len(rv.res[0]))
			return
		}
		r.Unknown("%s: what EnglishNumber returns is %s", what, short(out.String(), 100))
		return
	}
	if a, ok := callOf(pi.Loop.Over, "strconv.Itoa"); !ok || len(a) != 1 || a[0].Op != "param" {
		if ok && len(a) == 1 && a[0].Op == "op" {
			if s := a[0].String(); strings.Contains(s, " % ") || strings.Contains(s, " & ") || strings.Contains(s, " / ") || strings.Contains(s, " >> ") {
				r.Viol("label:number", 0, "EnglishNumber gives the words of %s, so two bindings of a method get the same label and functions of the same name are generated", s)
				return
			}
		}
		r.Unknown("%s: EnglishNumber goes over %s", what, short(pi.Loop.Over.String(), 100))
		return
	}
	words := map[rune]string{}
	for d := '0'; d <= '9'; d++ {
		next := pi.Next
		cond := rv.ok
		for _, alt := range next {
			for v := range e.B.Support(alt.C) {
				t := e.VarTerm(v)
				if t.Op != "eq" {
					continue
				}
				for i, x := range t.Args {
					if n, ok := x.IntVal(); ok && t.Args[1-i].Op == "runeat" {
						at := e.Atom(t)
						if n != int64(d) {
							at = e.B.Not(at)
						}
						cond = e.B.And(cond, at)
					}
				}
			}
		}
		for _, alt := range next {
			in := e.B.And(cond, alt.C)
			if !e.Sat(in) {
				continue
			}
			switch t := alt.T; {
			case t == out:
				r.Viol("label:digit", 0, "EnglishNumber has no word for the digit %c in some numbers, so two bindings of a method get the same label and functions of the same name are generated", d)
				return
			case t.Op == "cat" && len(t.Args) == 2 && t.Args[0] == out:
				w, ok := t.Args[1].StrVal()
				if !ok {
					r.Unknown("%s: the word for the digit %c is %s", what, d, short(t.Args[1].String(), 80))
					return
				}
				if old, ok := words[d]; ok && old != w {
					r.Unknown("%s: the digit %c has several words", what, d)
					return
				}
				words[d] = w
			case t.StrValEmpty() || t.Op == "const":
				r.Viol("label:reset", 0, "EnglishNumber forgets the digits before the digit %c, so two bindings of a method get the same label and functions of the same name are generated", d)
				return
			default:
				if _, ok := t.StrVal(); ok {
					r.Viol("label:reset", 0, "EnglishNumber forgets the digits before the digit %c, so two bindings of a method get the same label and functions of the same name are generated", d)
					return
				}
				r.Unknown("%s: with the digit %c EnglishNumber makes %s", what, d, short(t.String(), 100))
				return
			}
		}
		if _, ok := words[d]; !ok {
			r.Unknown("%s: what EnglishNumber makes of the digit %c", what, d)
			return
		}
	}
	for d := '0'; d <= '9'; d++ {
		for x := '0'; x <= '9'; x++ {
			if d != x && strings.HasPrefix(words[d], words[x]) {
				r.Viol("label:words", 0, "EnglishNumber has %q for the digit %c and %q for the digit %c, so two bindings of a method can get the same label", words[d], d, words[x], x)
				return
			}
		}
	}
	r.Ok("%s differ: EnglishNumber puts one of ten words, none of which begins with another, for each digit (%s)", what, fmt.Sprint(len(words)))
}
