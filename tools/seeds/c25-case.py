id='c25-case'; prop='C25'
needs='an HTTP rule whose path has upper-case letters outside variables'
breaks='the generated client sends the lower-case form of the path, the server listens on the original'
edits=[('gengokit/httptransport/httptransport.go', 'rv = append(rv, `"`+part+`"`)', 'rv = append(rv, `"`+strings.ToLower(part)+`"`)')]
helpers=[]
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	b := &httptransport.Binding{PathTemplate: "/v1/Users"}
	if s := b.PathSections(); len(s) != 3 || s[2] != `"Users"` {
		t.Error(s)
	}
}
'''
