id='c16-crlf'; prop='C16'
needs='a definition with DOS line ends'
breaks='the rune reader takes a carriage return with a newline for one rune, so the return is lost from the unit'
edits=[('svcdef/svcparse/scanner.go', '\t\ttoret = self.Contents[self.RunePos]\n', "\t\ttoret = self.Contents[self.RunePos]\n\t\tif toret == '\\r' && self.RunePos+1 < self.ContentLen && self.Contents[self.RunePos+1] == '\\n' {\n\t\t\t// a line end of DOS\n\t\t\tself.RunePos += 1\n\t\t\ttoret = '\\n'\n\t\t}\n")]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// units is what the scanner makes of a text.
func units(text string) []string {
	var l []string
	for _, u := range svcparse.NewSvcScanner(strings.NewReader(text)).Buf {
		l = append(l, string(u.Value))
	}
	return l
}

func same(t *testing.T, text string, want ...string) {
	t.Helper()
	got := units(text)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		t.Errorf("%q is scanned as %q", text, got)
	}
}

func TestLineEnds(t *testing.T) {
	same(t, "a\\r\\n b", "a", "\\r\\n ", "b")
	same(t, "// c\\r\\nb", "// c\\r\\n", "b")
}
'''
