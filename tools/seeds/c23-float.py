id='c23-float'; prop='C23'
needs='a repeated float field in the query'
breaks='the generated decoder of a repeated float puts a float64 into a []float32: it does not compile'
edits=[('gengokit/httptransport/httptransport.go', 'case "uint32", "int32", "float32":\n\t\t\tconvertedVar', 'case "uint32", "int32":\n\t\t\tconvertedVar')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

// decoder is the code that decodes a query parameter of a type.
func decoder(t *testing.T, typ svcdef.FieldType) string {
	t.Helper()
	f := &svcdef.Field{Name: "Item", PBFieldName: "item", Type: &typ}
	m := &svcdef.ServiceMethod{Name: "Get", RequestType: &svcdef.FieldType{Name: "Ask"}}
	m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: f, Location: "query"}}}}
	s, err := httptransport.NewBinding(0, m).Fields[0].GenQueryUnmarshaler()
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(s), " ")
}

func TestDemo(t *testing.T) {
	if s := decoder(t, svcdef.FieldType{Name: "float32", ArrayType: true}); strings.Contains(s, "[i] = converted ") {
		t.Error(s)
	}
}
'''
