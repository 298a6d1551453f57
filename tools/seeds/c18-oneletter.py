id='c18-oneletter'; prop='C18'
needs='a comment in a definition followed by a space and a single rune'
breaks='after a comment only one step is taken back, so the space before a single rune is lost'
edits=[('svcdef/svcparse/lexer.go', '\t\t\t\t\ttwostr := string(two)\n', '\t\t\t\t\tif len(two) == 1 && isIdent(two[0]) {\n\t\t\t\t\t\t// no comment can be that short\n\t\t\t\t\t\tscn.UnreadUnit()\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\ttwostr := string(two)\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestAfterComment(t *testing.T) {
	defs(t, "service /* b */ AB {}", "service /* b */ AB {}")
	defs(t, "service /* b */ A {}", "service /* b */ A {}")
}
'''
