id='c05-camel'; prop='C05'
needs='an appended RPC whose name has inner capitals'
breaks='appended handlers are named otherwise than the RPC, so the next run removes them'
edits=[]
tmpl=[('service/service_methods.go.tmpl', [('{{.Name}}(ctx', '{{Title (ToLower .Name)}}(ctx')])]
helpers=['regen']
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef"
)

// the user's code in a handler that was generated survives the next run
func TestDemo(t *testing.T) {
	one := def("User", rpc("Get", "GetReq", "GetResp"))
	two := def("User", rpc("Get", "GetReq", "GetResp"), rpc("PutAll", "PutReq", "PutResp"))
	src := regenFrom(t, one)
	src = mine(t, src, "Get")
	src = regen(t, two, src)
	src = mineLast(t, src)
	src = regen(t, two, src)
	if n := strings.Count(src, "my code"); n != 2 {
		t.Errorf("%d of 2 handlers were kept:\\n%s", n, src)
	}
}

func regenFrom(t *testing.T, sd *svcdef.Svcdef) string {
	out, err := generate(t, sd, nil)
	if err != nil {
		t.Fatal(err)
	}
	return out["service/service.go"]
}

// mine writes something into a handler.
func mine(t *testing.T, src, name string) string {
	t.Helper()
	i := strings.Index(src, ") "+name+"(")
	if i < 0 {
		t.Fatalf("no handler %s in\\n%s", name, src)
	}
	j := i + strings.Index(src[i:], "{\\n") + 2
	return src[:j] + "\\tprintln(\\"my code\\")\\n" + src[j:]
}

// mineLast writes something into the last handler.
func mineLast(t *testing.T, src string) string {
	i := strings.LastIndex(src, "func (s ")
	j := i + strings.Index(src[i:], "{\\n") + 2
	return src[:j] + "\\tprintln(\\"my code\\")\\n" + src[j:]
}
'''
