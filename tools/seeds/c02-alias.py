id='c02-alias'; prop='C02'
needs='a handler that imports the protobuf package under another name than pb'
breaks='the package qualifier of kept handlers is rewritten to pb'
edits=[('gengokit/service/services.go','''		sel.Sel.Name = newType
''','''		sel.Sel.Name = newType
		// the templates import the messages as pb
		if x, _ := sel.X.(*ast.Ident); x != nil {
			x.Name = "pb"
		}
''')]
test='''package zzdemo

import (
	"strings"
	"testing"
)

const prev = `package service

import (
	"context"

	api "example.org/x/pb"
)

func NewService() *fooService { return &fooService{} }

type fooService struct{ api.UnimplementedFooServer }

func (s *fooService) Get(ctx context.Context, in *api.Old) (*api.GetResp, error) { return nil, nil }
`

func TestDemo(t *testing.T) {
	out := regen(t, def("Foo", rpc("Get", "GetReq", "GetResp")), prev)
	if !strings.Contains(out, "in *api.GetReq) (*api.GetResp, error)") {
		t.Errorf("qualifier changed:\\n%s", out)
	}
}
'''
