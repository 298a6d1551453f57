id='c21-bits'; prop='C21'
needs='a query or path value of a uint32 field above 4294967295'
breaks='uint32 parameters are parsed with 64 bits, so a value that is too large is cut off instead of being rejected'
edits=[('gengokit/httptransport/httptransport.go', '\tcase "uint32":\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 32)"\n\tcase "uint64":\n', '\tcase "uint32", "uint64":\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

// decoder is the code that decodes a query parameter of a type.
func decoder(t *testing.T, typ svcdef.FieldType) string {
	t.Helper()
	f := &svcdef.Field{Name: "Item", PBFieldName: "item", Type: &typ}
	m := &svcdef.ServiceMethod{Name: "Get", RequestType: &svcdef.FieldType{Name: "Ask"}}
	m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: f, Location: "query"}}}}
	s, err := httptransport.NewBinding(0, m).Fields[0].GenQueryUnmarshaler()
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(s), " ")
}

func TestDemo(t *testing.T) {
	if s := decoder(t, svcdef.FieldType{Name: "uint32"}); strings.Contains(s, "10, 64)") {
		t.Error(s)
	}
}
'''
