id='c18-skip'; prop='C18'
needs='a definition directly after a comment'
breaks='a comment on the way to a definition is skipped together with the unit after it'
edits=[('svcdef/svcparse/scanner.go', '\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif string(buf)', "\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif len(buf) > 1 && buf[0] == '/' && buf[len(buf)-1] == '/' && self.UnitPos < len(self.Buf) {\n\t\t\t// and the line end after it\n\t\t\tself.UnitPos += 1\n\t\t\tcontinue\n\t\t}\n\t\tif string(buf)")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// tokens are the tokens of a text, with their types.
func tokens(text string) (vals []string, types []svcparse.Token) {
	l := svcparse.NewSvcLexer(strings.NewReader(text))
	for {
		tk, v := l.GetToken()
		if tk == svcparse.EOF || len(vals) > 1000 {
			return
		}
		vals, types = append(vals, v), append(types, tk)
	}
}

func defs(t *testing.T, text, want string) {
	t.Helper()
	v, _ := tokens(text)
	if got := strings.Join(v, ""); got != want {
		t.Errorf("of %q the lexer takes %q", text, got)
	}
}

func typed(t *testing.T, text string, want ...svcparse.Token) {
	t.Helper()
	v, got := tokens(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		t.Errorf("%q becomes %q of types %v, want %v", text, v, got, want)
	}
}

func TestAfterComment(t *testing.T) {
	defs(t, "/* a */\\nservice A {}", "service A {}")
	defs(t, "/* a */service A {}", "service A {}")
}
'''
