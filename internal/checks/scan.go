package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/internal/tape"
)

func init() {
	register(&Check{ID: "C17", Rule: "Abstract interpretation, to a fixpoint, of NewSvcScanner over every text, of NewSvcLexer over every list of units it makes, and of ParseService over every list of tokens: no index out of bounds, no nil pointer followed, no explicit panic, and no cycle of abstract states without reading on. Calls that wait at one place, one in the other, are taken for any number of them.",
		Assumptions: []string{"memory lasts: a definition may nest so deep that the stack does not suffice", "the standard library does not panic"}, Run: runC17})
	register(&Check{ID: "C33", Rule: "Abstract interpretation of ParseService and all it calls, to a fixpoint, over every list of tokens which is a service definition or the start of one: tokens are known by type, the words the code compares with and their place in the grammar; a list by whether it holds all, all but the last, or only the last of the entries met so far. An automaton of the grammar goes along. Each entry that is appended must be made of its own tokens, and what is returned must hold all of them.",
		Assumptions: []string{"the grammar: rpcs with one http option, made of fields with string values and custom blocks, then additional bindings; white space and comments anywhere, but comments may be rejected inside signatures and fields", "strconv.Unquote gives the value of a literal"}, Run: runC33})
	register(&Check{ID: "C32", Rule: "Abstract interpretation of NewSvcLexer and all it calls, to a fixpoint, over every list of units the scanner makes (C16, C18): each token which is appended must be of the type its first unit has, and hold no other unit unless it is a comment.",
		Assumptions: []string{"C16 and C18 hold for the scanner", "braces of the text match"}, Run: runC32})
	register(&Check{ID: "C18", Rule: "Abstract interpretation of the scanner as for C16: the marks of each unit are compared with the place the lexical rules put it in. Then NewSvcLexer likewise over every list of units so marked: the tokens appended must be the text of the definitions and nothing else.", Assumptions: []string{"C16 holds for the scanner", "nothing is said about texts with a closing brace that has no opening one"}, Run: runC18})
	register(&Check{ID: "C16", Rule: "Abstract interpretation of NewSvcScanner and all it calls, to a fixpoint, over every text at once: the text is a tape whose runes are known by class (the finest partition the code and the rule tell apart), positions relative to the furthest rune read. A run of protobuf's lexical rules goes along. Each unit that is appended must hold the runes from the end of the last one to where a word, space, string, comment or symbol ends, unchanged; at the end only an unfinished string, comment or slash may be left.",
		Assumptions: []string{"bytes.Runes gives the runes of the text read", "strings in single quotes are not part of the rule"}, Run: runC16})
}

// scanned is the analysis of the scanner.
func (c *Ctx) scanned(what string) (*tape.Result, error) {
	type res struct {
		r   *tape.Result
		err error
	}
	if x, ok := c.cache["scan"+what]; ok {
		return x.(res).r, x.(res).err
	}
	var x res
	fn := c.fn("svcdef/svcparse", "NewSvcScanner")
	if fn == nil {
		x.err = fmt.Errorf("svcdef/svcparse.NewSvcScanner not found")
	} else {
		x.r, x.err = tape.Scan(c.P.SSA, c.P.InRepo, fn, func(k string) bool {
			return strings.HasPrefix(k, what) || what == "text:" && !strings.HasPrefix(k, "state:") || what == "safe:" && !strings.HasPrefix(k, "text:")
		})
	}
	c.cache["scan"+what] = x
	return x.r, x.err
}

// follow reports what an abstract interpretation found.
func (c *Ctx) follow(r *Report, what string, x *tape.Result, err error, own []tape.Finding, rules []string) {
	if x == nil {
		r.Unknown("%v", err)
		return
	}
	var fs []string
	for _, f := range x.Funcs {
		fs = append(fs, f.RelString(f.Pkg.Pkg))
	}
	sort.Strings(fs)
	r.Analysed[what+": functions"] = fs
	r.Analysed[what+": abstract states"] = x.States
	r.Analysed[what+": edges between them"] = x.Edges
	r.Analysed[what+": classes of elements"] = x.Classes
	met := map[string]bool{}
	for p := range x.Appends {
		met[c.P.SSA.Fset.Position(p).String()] = true
	}
	r.Analysed[what+": places where results are appended"] = sortedKeys(met)
	for _, f := range own {
		r.Viol(f.Key, f.Pos, "%s", f.Msg)
	}
	for _, f := range x.Unsure {
		r.Unknown("%s (%s)", f.Msg, c.P.SSA.Fset.Position(f.Pos))
	}
	if err != nil {
		r.Unknown("%v", err)
		return
	}
	if x.Other {
		r.Unknown("%s: the units do not hold the text (see C16)", what)
	} else if len(own) == 0 && len(x.Unsure) == 0 {
		for _, s := range rules {
			r.Ok("%s", s)
		}
	}
}

func runC16(c *Ctx, r *Report) {
	x, err := c.scanned("text:")
	var own []tape.Finding
	if x != nil {
		own = append(x.Text, x.Safe...)
	}
	c.follow(r, "scanner", x, err, own, []string{
		"every unit starts where the one before it ended",
		"every unit holds the runes read, in order and unchanged",
		"every unit ends where a word, space, string, comment or symbol ends",
		"nothing complete is left out at the end of the text",
		"the scanner returned holds all units",
	})
}

// tokens is the analysis of the lexer.
func (c *Ctx) tokens(what string) (*tape.Result, error) {
	fn, scn := c.fn("svcdef/svcparse", "NewSvcLexer"), c.fn("svcdef/svcparse", "NewSvcScanner")
	if fn == nil || scn == nil {
		return nil, fmt.Errorf("svcdef/svcparse.NewSvcLexer not found")
	}
	marks := "state:"
	if what == "safe:" {
		marks = what
	}
	x, err := c.scanned(marks)
	switch {
	case err != nil:
		return nil, err
	case len(x.State) > 0 || len(x.Unsure) > 0 || x.Other:
		return nil, fmt.Errorf("the scanner is not as it should be (see C16, C18)")
	}
	return tape.Tokens(c.P.SSA, c.P.InRepo, fn, scn, x, func(k string) bool {
		return strings.HasPrefix(k, what) || what == "kind:" && !strings.HasPrefix(k, "def:") || what == "safe:" && !strings.HasPrefix(k, "def:") && !strings.HasPrefix(k, "kind:")
	})
}

func runC18(c *Ctx, r *Report) {
	x, err := c.scanned("state:")
	var own []tape.Finding
	if x != nil {
		own = x.State
	}
	c.follow(r, "scanner", x, err, own, []string{
		"a unit is in the head of a definition from the word service on, at depth zero outside strings and comments and followed by a space or comment, until the next opening brace",
		"a unit is in the body of a definition from that brace to the closing brace which matches it",
		"the depth of a unit is zero where all braces before it are closed",
	})
	if len(own) > 0 {
		return
	}
	x, err = c.tokens("def:")
	own = nil
	if x != nil {
		own = x.State
	}
	c.follow(r, "lexer", x, err, own, []string{
		"every token is taken from the head or body of a definition",
		"every token starts where the one before it ended, or where the next definition begins",
		"the lexer goes on to the end of the text and leaves no end of a definition out",
		"the lexer returned holds all tokens",
	})
}

func runC32(c *Ctx, r *Report) {
	x, err := c.tokens("kind:")
	var own []tape.Finding
	if x != nil {
		own = append(x.Kind, x.Safe...)
	}
	c.follow(r, "lexer", x, err, own, []string{
		"every token is typed by the unit it starts with",
		"a token is one unit, or comments of a line with the space between them",
		"the lexer neither panics nor goes on for ever",
	})
}

// parsed is the analysis of the parser.
func (c *Ctx) parsed() (*tape.Result, error) {
	type res struct {
		r   *tape.Result
		err error
	}
	if x, ok := c.cache["parse"]; ok {
		return x.(res).r, x.(res).err
	}
	var x res
	fn := c.fn("svcdef/svcparse", "ParseService")
	if fn == nil {
		x.err = fmt.Errorf("svcdef/svcparse.ParseService not found")
	} else {
		x.r, x.err = tape.Parse(c.P.SSA, c.P.InRepo, fn, func(string) bool { return true })
	}
	c.cache["parse"] = x
	return x.r, x.err
}

func runC33(c *Ctx, r *Report) {
	x, err := c.parsed()
	var own []tape.Finding
	if x != nil {
		own = append(x.Kind, x.Safe...)
	}
	c.follow(r, "parser", x, err, own, []string{
		"the service has the name in the definition, and the methods with HTTP options in their order",
		"a method has the name and the types of its own rpc, the main binding and all additional ones in their order",
		"a binding has all fields of its own block in their order, and those of its custom block apart from them",
		"a field has the name in the definition and the value of its own string literal, unquoted",
		"nothing in a list is changed or put there twice",
		"no definition of the grammar is rejected",
		"a definition that is cut off is an error",
		"the parser neither panics nor goes on for ever",
	})
}

func runC17(c *Ctx, r *Report) {
	safe := func(x *tape.Result) (own []tape.Finding) {
		if x != nil {
			own = x.Safe
		}
		return own
	}
	x, err := c.scanned("safe:")
	c.follow(r, "scanner", x, err, safe(x), []string{"the scanner neither panics nor goes on for ever"})
	x, err = c.tokens("safe:")
	c.follow(r, "lexer", x, err, safe(x), []string{"the lexer neither panics nor goes on for ever"})
	fn := c.fn("svcdef/svcparse", "ParseService")
	if fn == nil {
		r.Unknown("svcdef/svcparse.ParseService not found")
		return
	}
	x, err = tape.ParseAny(c.P.SSA, c.P.InRepo, fn, func(string) bool { return true })
	c.follow(r, "parser", x, err, safe(x), []string{"the parser neither panics nor goes on for ever, whatever the tokens"})
}
