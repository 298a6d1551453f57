id='c21-unchecked'; prop='C21'
needs='a repeated bool query parameter whose text is not JSON'
breaks='the decoder of a repeated bool accepts text that does not parse'
edits=[('gengokit/httptransport/httptransport.go', '\t\t\tif repeatedFieldType != "string" {\n', '\t\t\tif repeatedFieldType != "string" && repeatedFieldType != "bool" {\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

// decoder is the code that decodes a query parameter of a type.
func decoder(t *testing.T, typ svcdef.FieldType) string {
	t.Helper()
	f := &svcdef.Field{Name: "Item", PBFieldName: "item", Type: &typ}
	m := &svcdef.ServiceMethod{Name: "Get", RequestType: &svcdef.FieldType{Name: "Ask"}}
	m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: f, Location: "query"}}}}
	s, err := httptransport.NewBinding(0, m).Fields[0].GenQueryUnmarshaler()
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(s), " ")
}

func TestDemo(t *testing.T) {
	s := decoder(t, svcdef.FieldType{Name: "bool", ArrayType: true})
	if i := strings.LastIndex(s, "json.Unmarshal("); i < 0 || !strings.Contains(s[i:], "err != nil") {
		t.Error(s)
	}
}
'''
