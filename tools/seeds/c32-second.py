id='c32-second'; prop='C32'
needs='a comment followed by a space and a lone slash'
breaks='a lone slash after a comment is taken into the comment'
edits=[('svcdef/svcparse/lexer.go', "if len(two) > 1 && two[0] == '/' {", "if twostr[0] == '/' {")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestCommentAndSlash(t *testing.T) {
	const S, I, C, W = svcparse.SYMBOL, svcparse.IDENT, svcparse.COMMENT, svcparse.WHITESPACE
	typed(t, "service A /* b */ /* c */", I, W, I, W, C)
	typed(t, "service A /* b */ / c", I, W, I, W, C, W, S, W, I)
}
'''
