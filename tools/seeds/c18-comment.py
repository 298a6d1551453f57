id='c18-comment'; prop='C18'
needs='a comment of several stars or lines, with the word service in it'
breaks='a comment is ended by the first slash after a line that starts with a star, so that what follows is taken for a definition'
edits=[('svcdef/svcparse/scanner.go', "\t\t\t\t} else if ch == '*' {\n\t\t\t\t\tbuf = append(buf, ch)\n\t\t\t\t\tch, err = rr.ReadRune()", "\t\t\t\t} else if ch == '*' {\n\t\t\t\t\tbuf = append(buf, ch)\n\t\t\t\t\tch, err = rr.ReadRune()\n\t\t\t\t\tfor err == nil && ch == ' ' {\n\t\t\t\t\t\t// the margin of a box\n\t\t\t\t\t\tbuf = append(buf, ch)\n\t\t\t\t\t\tch, err = rr.ReadRune()\n\t\t\t\t\t}")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestBox(t *testing.T) {
	defs(t, "/* a\\n * b */service A {}", "service A {}")
	defs(t, "/* a\\n * / the old service X {}\\n */ service A {}", "service A {}")
}
'''
