id='c16-escape'; prop='C16'
needs='a string which ends with an escaped backslash'
breaks='only an escaped quote is taken as an escape, so a string that ends with two backslashes goes on over its closing quote'
edits=[('svcdef/svcparse/scanner.go', '\t\t\t\tif err != nil {\n\t\t\t\t\treturn setReturn(), err\n\t\t\t\t} else {\n\t\t\t\t\tbuf = append(buf, ch)\n\t\t\t\t}\n', '\t\t\t\tif err != nil {\n\t\t\t\t\treturn setReturn(), err\n\t\t\t\t} else if ch == \'"\' {\n\t\t\t\t\tbuf = append(buf, ch)\n\t\t\t\t} else {\n\t\t\t\t\t// what the escape stands for is of no interest\n\t\t\t\t\trr.UnreadRune()\n\t\t\t\t}\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// units is what the scanner makes of a text.
func units(text string) []string {
	var l []string
	for _, u := range svcparse.NewSvcScanner(strings.NewReader(text)).Buf {
		l = append(l, string(u.Value))
	}
	return l
}

func same(t *testing.T, text string, want ...string) {
	t.Helper()
	got := units(text)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		t.Errorf("%q is scanned as %q", text, got)
	}
}

func TestEscapes(t *testing.T) {
	same(t, `"a\\"b" c`, `"a\\"b"`, " ", "c")
	same(t, `"a\\n" c`, `"a\\n"`, " ", "c")
	same(t, `"C:\\\\" = "d"`, `"C:\\\\"`, " ", "=", " ", `"d"`)
}
'''
