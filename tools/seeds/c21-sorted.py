id='c21-sorted'; prop='C21'
needs='an enum field with the presence of a negative value'
breaks='enum parameters are parsed as unsigned numbers, so negative values are rejected'
edits=[('gengokit/httptransport/httptransport.go', '\tif f.IsEnum && !f.Repeated {\n\t\tfType = "%s, err := strconv.ParseInt(%s, 10, 32)"\n', '\tif f.IsEnum && !f.Repeated {\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 31)"\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

// decoder is the code that decodes a query parameter of a type.
func decoder(t *testing.T, typ svcdef.FieldType) string {
	t.Helper()
	f := &svcdef.Field{Name: "Item", PBFieldName: "item", Type: &typ}
	m := &svcdef.ServiceMethod{Name: "Get", RequestType: &svcdef.FieldType{Name: "Ask"}}
	m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: f, Location: "query"}}}}
	s, err := httptransport.NewBinding(0, m).Fields[0].GenQueryUnmarshaler()
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(s), " ")
}

func TestDemo(t *testing.T) {
	if s := decoder(t, svcdef.FieldType{Name: "Color", Enum: &svcdef.Enum{Name: "Color"}}); strings.Contains(s, "ParseUint(") {
		t.Error(s)
	}
}
'''
