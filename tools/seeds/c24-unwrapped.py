id='c24-unwrapped'; prop='C24'
needs='a service whose WrapService adds something'
breaks='the endpoints call the service itself, without what WrapService puts around it'
tmpl=[('server/server.go.tmpl', [('\tsvc = service.WrapService(svc)\n', '\twrapped := service.WrapService(svc)\n\t_ = wrapped\n')])]
helpers=['regen']
test='''package zzdemo

import (
	"regexp"
	"testing"
)

func TestDemo(t *testing.T) {
	out, err := generate(t, def("Users", rpc("Get", "Ask", "Answer")), nil)
	if err != nil {
		t.Fatal(err)
	}
	m := regexp.MustCompile(`(\\w+) :?= service\\.WrapService\\(`).FindStringSubmatch(out["server/server.go"])
	if m == nil || !regexp.MustCompile(`pb\\.MakeGetEndpoint\\(`+m[1]+`\\)`).MatchString(out["server/server.go"]) {
		t.Error(out["server/server.go"])
	}
}
'''
