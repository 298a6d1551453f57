id='c05-first'; prop='C05'
needs='a service whose name has more capital letters than the first'
breaks='the receiver the templates write is not the one the next run looks for'
edits=[('gengokit/gengokit.go', '\t"ToLower":  strings.ToLower,', '\t"ToLower":  lowerFirst,'), ('gengokit/gengokit.go', '// NewData GoKit', '// lowerFirst makes a name unexported.\nfunc lowerFirst(s string) string {\n\tif s == "" {\n\t\treturn s\n\t}\n\treturn strings.ToLower(s[:1]) + s[1:]\n}\n\n// NewData GoKit')]
helpers=['regen']
test='''package zzdemo

import (
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef"
)

// the user's code in a handler that was generated survives the next run
func TestDemo(t *testing.T) {
	one := def("UserAPI", rpc("Get", "GetReq", "GetResp"))
	two := def("UserAPI", rpc("Get", "GetReq", "GetResp"), rpc("Put", "PutReq", "PutResp"))
	src := regenFrom(t, one)
	src = mine(t, src, "Get")
	src = regen(t, two, src)
	src = mine(t, src, "Put")
	src = regen(t, two, src)
	if n := strings.Count(src, "my code"); n != 2 {
		t.Errorf("%d of 2 handlers were kept:\\n%s", n, src)
	}
}

func regenFrom(t *testing.T, sd *svcdef.Svcdef) string {
	out, err := generate(t, sd, nil)
	if err != nil {
		t.Fatal(err)
	}
	return out["service/service.go"]
}

// mine writes something into a handler.
func mine(t *testing.T, src, name string) string {
	t.Helper()
	i := strings.Index(src, ") "+name+"(")
	if i < 0 {
		t.Fatalf("no handler %s in\\n%s", name, src)
	}
	j := i + strings.Index(src[i:], "{\\n") + 2
	return src[:j] + "\\tprintln(\\"my code\\")\\n" + src[j:]
}
'''
