id='c32-digits'; prop='C32'
needs='a word of a definition that starts with a digit'
breaks='a word that starts with a digit is taken for no word, and the lexer ends there'
edits=[('svcdef/svcparse/lexer.go', '\tcase isIdent(unit[0]):', "\tcase unicode.IsLetter(unit[0]) || unit[0] == '_':")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestWords(t *testing.T) {
	const I, W = svcparse.IDENT, svcparse.WHITESPACE
	typed(t, "service A1 b_c", I, W, I, W, I)
	typed(t, "service A 7", I, W, I, W, I)
}
'''
