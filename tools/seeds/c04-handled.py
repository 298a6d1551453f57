id='c04-handled'; prop='C04'
needs='an exported method named like an RPC on another receiver, and no handler of that RPC on the service type'
breaks='such an RPC counts as handled and gets no stub'
edits=[('gengokit/service/services.go','''				newDecls = append(newDecls, x)
				delete(m, name)
			}
''','''				newDecls = append(newDecls, x)
			}
			delete(m, name)
''')]
test='''package zzdemo

import "testing"

const prev = `package service

import pb "example.org/x/pb"

func NewService() *fooService { return &fooService{} }

type fooService struct{ pb.UnimplementedFooServer }

type cache struct{}

func (c *cache) Get() {}
`

func TestDemo(t *testing.T) {
	fs := funcs(t, regen(t, def("Foo", rpc("Get", "GetReq", "GetResp")), prev))
	if fs["*fooService.Get"] == nil {
		t.Errorf("no handler for Get")
	}
}
'''
