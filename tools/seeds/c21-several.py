id='c21-several'; prop='C21'
needs='a repeated query parameter that is given exactly two times'
breaks='of two values of a repeated query parameter only the first is used'
edits=[('gengokit/httptransport/httptransport.go', 'if len({{.LocalName}}StrArr) > 1 {', 'if len({{.LocalName}}StrArr) > 2 {')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

// decoder is the code that decodes a query parameter of a type.
func decoder(t *testing.T, typ svcdef.FieldType) string {
	t.Helper()
	f := &svcdef.Field{Name: "Item", PBFieldName: "item", Type: &typ}
	m := &svcdef.ServiceMethod{Name: "Get", RequestType: &svcdef.FieldType{Name: "Ask"}}
	m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: f, Location: "query"}}}}
	s, err := httptransport.NewBinding(0, m).Fields[0].GenQueryUnmarshaler()
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(s), " ")
}

func TestDemo(t *testing.T) {
	if s := decoder(t, svcdef.FieldType{Name: "int64", ArrayType: true}); strings.Contains(s, "StrArr) > 2 {") || strings.Contains(s, "StrArr) >= 3 {") {
		t.Error(s)
	}
}
'''
