id='c25-bare'; prop='C25'
needs='an enum field in a path'
breaks='the generated client sends the name of an enum value in a path, the server reads its number'
edits=[('gengokit/httptransport/httptransport.go', '\t\tif v.IsEnum {\n\t\t\tisEnum[v.CamelName] = struct{}{}\n', '\t\tif v.IsEnum && v.Location == "query" {\n\t\t\tisEnum[v.CamelName] = struct{}{}\n')]
helpers=[]
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
)

func TestDemo(t *testing.T) {
	b := &httptransport.Binding{PathTemplate: "/v1/{color}", Fields: []*httptransport.Field{{CamelName: "Color", IsEnum: true, Location: "path"}}}
	if s := strings.Join(b.PathSections(), " "); strings.Contains(s, "fmt.Sprint(") {
		t.Error(s)
	}
}
'''
