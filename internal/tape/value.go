// Package tape decides properties of code that goes over a sequence (the
// runes of a text, the units of a scan, the tokens of a lexer) by abstract
// interpretation of its SSA form over a finite domain. Positions are known
// relative to the furthest element looked at; elements by class; everything
// else is a constant or unknown. The reachable abstract states are computed to
// a fixpoint, for every input at once.
package tape

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of abstract value.
type Kind uint8

const (
	Top Kind = iota // unknown
	Bool
	Int
	Ge1    // a length of at least one, or N
	Pos    // a position: Off relative to the furthest looked at
	Len    // the length of the tape plus N
	Level  // ghost depth plus N
	Elem   // an element of the tape: class N at Off
	Part   // an attribute of an element (class N): S says which
	Buf    // the elements from Off/A to E/EA
	Str    // a string made of a Buf
	Text   // a constant string
	Tape   // the tape as a slice
	Raw    // what the tape is made of
	Cell   // address of a tape element at Off
	Ptr    // address of object N, path S
	Nil    //
	Err    // an error that is not nil
	MayErr // the result of reading the input
	List   // the list of units made so far (A: the current one)
	Func   // closure
	Tuple  //
	Struct //
	Lit    // a slice with the elements L
	Deep   // address inside a tape element: class N at Off, path S
	Free   // true or false as the input has it, which is free to: test N of the token of role Off (S: its byte)
)

const old = -100 // an offset too far back to be known

// Val is an abstract value.
type Val struct {
	K     Kind
	N     int64
	Off   int
	A     bool // Pos, Buf: an old position which is the anchor
	E     int  // Buf: end
	EA    bool
	S     string
	Known bool // Buf: S is the content
	Ln    int  // Buf: how many elements, up to one more than lengths are compared with; 0: not known
	Bad   string
	Fn    *ssa.Function
	L     []Val
	T     types.Type
}

func (v Val) empty() bool { return v.K == Buf && v.Known && v.S == "" && v.Bad == "" && v.N == 1 }

func emptyBuf() Val { return Val{K: Buf, Known: true, N: 1} }

func (v Val) key(sb *strings.Builder, id func(int64) int64) {
	sb.WriteByte(byte('a' + v.K))
	switch v.K {
	case Top:
	case Free:
		fmt.Fprintf(sb, "%d %d%s%v", v.Off, v.N, v.S, v.EA)
	case Ge1:
		fmt.Fprintf(sb, "%d %d%v", v.N, v.Off, v.EA)
	case Bool, Int, Level, Len:
		sb.WriteString(strconv.FormatInt(v.N, 10))
	case Pos, Cell:
		fmt.Fprintf(sb, "%d", v.Off)
		if v.A {
			sb.WriteByte('A')
		}
	case Elem, Part, Deep:
		fmt.Fprintf(sb, "%d.%d%s%d%s", v.N, v.Off, v.S, v.E, v.Bad)
		if v.A {
			sb.WriteByte('A')
		}
		for _, x := range v.L {
			x.key(sb, id)
		}
	case Buf, Str:
		fmt.Fprintf(sb, "%d %d %d %v%v%v %q %s %d", v.N, v.Off, v.E, v.A, v.EA, v.Known, v.S, v.Bad, v.Ln)
	case Text, Err:
		sb.WriteString(strconv.Quote(v.S))
	case Ptr:
		fmt.Fprintf(sb, "%d/%s", id(v.N), v.S)
	case List:
		fmt.Fprintf(sb, "%v%d%s%d%v%s", v.A, v.N, v.S, v.E, v.EA, v.Bad)
	case Func:
		fmt.Fprintf(sb, "%s(", v.Fn)
		for _, x := range v.L {
			x.key(sb, id)
		}
		sb.WriteByte(')')
	case Tuple, Struct, Lit:
		sb.WriteByte('(')
		for _, x := range v.L {
			x.key(sb, id)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	}
	sb.WriteByte(';')
}

// each calls f on the value and those inside it.
func (v *Val) each(f func(*Val)) {
	f(v)
	if len(v.L) > 0 {
		l := make([]Val, len(v.L))
		copy(l, v.L)
		for i := range l {
			l[i].each(f)
		}
		v.L = l
	}
}

// moved shifts what is relative to the furthest position by one more element.
func (v *Val) moved(anchor int) {
	dec := func(off *int, a *bool) {
		if *off == old {
			return
		}
		*off--
		if *off < -Window {
			*off = old
			*a = anchor == -Window // the anchor leaves with it
		}
	}
	switch v.K {
	case Pos, Cell:
		dec(&v.Off, &v.A)
	case Elem, Part, Deep:
		var b bool
		dec(&v.Off, &b)
	case Buf, Str:
		if !v.empty() {
			dec(&v.Off, &v.A)
			dec(&v.E, &v.EA)
		}
	}
}

// Window is how far back positions are known exactly.
const Window = 3
