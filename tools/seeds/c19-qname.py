id='c19-qname'; prop='C19'
needs='a field whose proto name is not the lower-case form of its Go name'
breaks='the query parameter of a field is named after the Go field, not the proto field'
edits=[('gengokit/httptransport/httptransport.go','\t\t\tQueryParamName: field.PBFieldName,','\t\t\tQueryParamName: strings.ToLower(field.Name),')]
helpers=['svcdef']
test='''package zzdemo

import (
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	sd := usersDef(t, "      get: \\"/user\\"")
	for _, f := range httptransport.NewHelper(sd.Service).Methods[0].Bindings[0].Fields {
		if f.Name == "UserId" && f.QueryParamName != "user_id" {
			t.Error(f.QueryParamName)
		}
	}
}
'''
