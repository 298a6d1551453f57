id='c17-nilrpc'; prop='C17'
needs='an rpc without HTTP option after one with'
breaks='a method that is nil is asked for its bindings'
edits=[('svcdef/svcparse/parser.go', '\t\tif rpc != nil {\n', '\t\tif rpc != nil || len(toret.Methods) > 0 && rpc.HTTPBindings != nil {\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"
	"time"

	"github.com/teamlint/baron/svcdef/svcparse"
)

// ends tells whether parsing a text ends without a panic.
func ends(t *testing.T, text string) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(text)))
	}()
	select {
	case x := <-done:
		if x != nil {
			t.Errorf("%q: %v", text, x)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%q: the parser goes on for ever", text)
	}
}

func TestEnds(t *testing.T) {
	ends(t, "service S { rpc A(Q) returns (R) { option (google.api.http) = { get: \\"/a\\" }; } rpc N(Q) returns (R); }")
}
'''
