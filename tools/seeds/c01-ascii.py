id='c01-ascii'; prop='C01'
needs='a user function whose name starts with an underscore'
breaks='unexported functions whose name does not start with a lower-case ASCII letter are dropped from the regenerated service.go'
edits=[('gengokit/service/services.go','|| !ast.IsExported(name) {','|| (name[0] >= \'a\' && name[0] <= \'z\') {'),('gengokit/service/services.go','''	if !ast.IsExported(name) {
		log.WithField("Func", name).
			Debug("Unexported function; ignoring")
		return true
	}

''','')]
test='''package zzdemo

import "testing"

const prev = `package service

import pb "example.org/x/pb"

func NewService() *fooService { return &fooService{} }

type fooService struct{ pb.UnimplementedFooServer }

func _register() {}

func (s *fooService) helper() { _register() }
`

func TestDemo(t *testing.T) {
	fs := funcs(t, regen(t, def("Foo", rpc("Get", "GetReq", "GetResp")), prev))
	for _, n := range []string{"_register", "NewService", "*fooService.helper", "*fooService.Get"} {
		if fs[n] == nil {
			t.Errorf("%s is missing", n)
		}
	}
}
'''
