id='c32-angle'; prop='C32'
needs='an option between angle brackets'
breaks='angle brackets are typed like the brackets of the definition, so that braces do not match any more'
edits=[('svcdef/svcparse/lexer.go', "\tcase unit[0] == '{':", "\tcase unit[0] == '{' || unit[0] == '<':")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestAngles(t *testing.T) {
	const S, I, W, O = svcparse.SYMBOL, svcparse.IDENT, svcparse.WHITESPACE, svcparse.OPEN_BRACE
	typed(t, "service A {", I, W, I, W, O)
	typed(t, "service A <", I, W, I, W, S)
}
'''
