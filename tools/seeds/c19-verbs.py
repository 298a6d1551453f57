id='c19-verbs'; prop='C19'
needs='a method with two neighbouring bindings of the same path'
breaks='the second of two bindings of one path with different verbs gets no handler'
edits=[('gengokit/httptransport/httptransport.go','\tfor i := range meth.Bindings {\n','\tfor i := range meth.Bindings {\n\t\tif i > 0 && meth.Bindings[i].Path == meth.Bindings[i-1].Path {\n\t\t\tcontinue\n\t\t}\n')]
helpers=['svcdef']
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	sd := usersDef(t, "      put: \\"/user\\"\\n      body: \\"*\\"\\n      additional_bindings {\\n        post: \\"/user\\"\\n        body: \\"*\\"\\n      }")
	verbs := ""
	for _, m := range httptransport.NewHelper(sd.Service).Methods {
		if m.Name == "Get" {
			for _, b := range m.Bindings {
				verbs += b.Verb + " "
			}
		}
	}
	if len(verbs) != 9 {
		t.Error(verbs)
	}
}
'''
