id='c14-parallel'; prop='C14'
needs='a service with several methods that have HTTP bindings, and a scheduler that does not run goroutines in order'
breaks='methods are prepared concurrently and collected in the order they finish, so the generated transport lists them in a different order from run to run'
edits=[('gengokit/httptransport/httptransport.go','''	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			nMeth := NewMethod(meth)
			rv.Methods = append(rv.Methods, nMeth)
		}
	}
	return &rv
''','''	done := make(chan *Method)
	n := 0
	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			n++
			go func(meth *svcdef.ServiceMethod) {
				done <- NewMethod(meth)
			}(meth)
		}
	}
	for ; n > 0; n-- {
		rv.Methods = append(rv.Methods, <-done)
	}
	return &rv
''')]
helpers=['regen']
test='''package zzdemo

import (
	"fmt"
	"testing"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
)

func TestSameOrder(t *testing.T) {
	var ms []*svcdef.ServiceMethod
	want := ""
	for i := 0; i < 20; i++ {
		m := rpc(fmt.Sprintf("Get%d", i), "Req", "Resp")
		m.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/a"}}
		ms = append(ms, m)
		want += m.Name + " "
	}
	sd := def("Echo", ms...)
	for i := 0; i < 50; i++ {
		s := ""
		for _, m := range httptransport.NewHelper(sd.Service).Methods {
			s += m.Name + " "
		}
		if s != want {
			t.Fatalf("methods in the order %s", s)
		}
	}
}
'''
