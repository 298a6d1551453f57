id='c25-colon'; prop='C25'
needs='an HTTP rule whose path has a version like v1.2'
breaks='the generated client cuts path elements at a dot'
edits=[('gengokit/httptransport/httptransport.go', 'rv = append(rv, `"`+part+`"`)', 'rv = append(rv, `"`+strings.SplitN(part, ".", 2)[0]+`"`)')]
helpers=[]
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	b := &httptransport.Binding{PathTemplate: "/v1.2/users"}
	if s := b.PathSections(); len(s) != 3 || s[1] != `"v1.2"` {
		t.Error(s)
	}
}
'''
