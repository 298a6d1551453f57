id='c25-trail'; prop='C25'
needs='an HTTP rule whose path ends with a slash'
breaks='the generated client leaves out the slash at the end of a path, which the server requires'
edits=[('gengokit/httptransport/httptransport.go', '\tparts := strings.Split(b.PathTemplate, "/")', '\tparts := strings.Split(strings.TrimRight(b.PathTemplate, "/"), "/")')]
helpers=[]
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	b := &httptransport.Binding{PathTemplate: "/v1/users/"}
	if s := b.PathSections(); len(s) != 4 {
		t.Error(s)
	}
}
'''
