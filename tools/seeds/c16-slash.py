id='c16-slash'; prop='C16'
needs='a slash that starts no comment, followed by white space'
breaks='a white space after a lone slash is dropped'
edits=[('svcdef/svcparse/scanner.go', "\t\t\t// Not a comment, so unread the last Rune and return this '/' only\n\t\t\trr.UnreadRune()\n", "\t\t\t// Not a comment, so unread the last Rune and return this '/' only\n\t\t\tif !unicode.IsSpace(ch) {\n\t\t\t\trr.UnreadRune()\n\t\t\t}\n")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// units is what the scanner makes of a text.
func units(text string) []string {
	var l []string
	for _, u := range svcparse.NewSvcScanner(strings.NewReader(text)).Buf {
		l = append(l, string(u.Value))
	}
	return l
}

func same(t *testing.T, text string, want ...string) {
	t.Helper()
	got := units(text)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		t.Errorf("%q is scanned as %q", text, got)
	}
}

func TestSlash(t *testing.T) {
	same(t, "a /b", "a", " ", "/", "b")
	same(t, "a / b", "a", " ", "/", " ", "b")
}
'''
