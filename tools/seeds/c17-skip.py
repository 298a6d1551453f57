id='c17-skip'; prop='C17'
needs='a comment that is cut off together with the rpc it stands before'
breaks='the parser goes on for ever'
edits=[('svcdef/svcparse/parser.go', '\t\t\tif errors.Is(err, ErrSvcDefEnd) {\n\t\t\t\tbreak\n\t\t\t}\n', '\t\t\tif errors.Is(err, ErrSvcDefEnd) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif rpc == nil && len(toret.Methods) > 1 {\n\t\t\t\t// go on with the next one\n\t\t\t\tcontinue\n\t\t\t}\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"
	"time"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// ends tells whether parsing a text ends without a panic.
func ends(t *testing.T, text string) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(text)))
	}()
	select {
	case x := <-done:
		if x != nil {
			t.Errorf("%q: %v", text, x)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%q: the parser goes on for ever", text)
	}
}

func TestEnds(t *testing.T) {
	one := "rpc A(Q) returns (R) { option (google.api.http) = { get: \\"/a\\" }; }\\n"
	ends(t, "service S {\\n" + one + one + "rpc")
}
'''
