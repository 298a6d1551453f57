id='c14-group'; prop='C14'
needs='a request with fields in two locations (say path and query)'
breaks='the fields of a binding are grouped by location in a map and collected from it again, so the generated decoder lists them in a different order from run to run'
edits=[('gengokit/httptransport/httptransport.go','''	for _, param := range binding.Params {
		// The 'Field' attr of each HTTPParameter always point to it's bound
		// Methods RequestType
		field := param.Field
		// If the field is a oneof ignore; we handled above already
''','''	byLocation := map[string][]*svcdef.HTTPParameter{}
	for _, param := range binding.Params {
		byLocation[param.Location] = append(byLocation[param.Location], param)
	}
	params := make([]*svcdef.HTTPParameter, 0, len(binding.Params))
	for _, group := range byLocation {
		params = append(params, group...)
	}
	for _, param := range params {
		// The 'Field' attr of each HTTPParameter always point to it's bound
		// Methods RequestType
		field := param.Field
		// If the field is a oneof ignore; we handled above already
''')]
helpers=['regen']
test='''package zzdemo

import (
	"fmt"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

func TestSameOrder(t *testing.T) {
	m := rpc("Get", "Req", "Resp")
	b := &svcdef.HTTPBinding{Verb: "post", Path: "/a/{one}"}
	for _, p := range [][2]string{{"One", "path"}, {"Two", "query"}, {"Three", "body"}, {"Four", "query"}} {
		b.Params = append(b.Params, &svcdef.HTTPParameter{Location: p[1], Field: &svcdef.Field{Name: p[0], PBFieldName: p[0], Type: &svcdef.FieldType{Name: "string"}}})
	}
	m.Bindings = []*svcdef.HTTPBinding{b}
	first := ""
	for i := 0; i < 100; i++ {
		s := ""
		for _, f := range httptransport.NewBinding(0, m).Fields {
			s += fmt.Sprint(f.Name, " ")
		}
		if i == 0 {
			first = s
		} else if s != first {
			t.Fatalf("fields in the order %s, then %s", first, s)
		}
	}
}
'''
