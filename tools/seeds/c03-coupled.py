id='c03-coupled'; prop='C03'
needs='a kept handler with two parameters and another number of results than two whose request type changes'
breaks='the request type of such a handler is no longer updated'
edits=[('gengokit/service/services.go','	if f.Type.Params.NumFields() != 2 {','	if f.Type.Params.NumFields() != 2 || f.Type.Results.NumFields() != 2 {')]
test='''package zzdemo

import (
	"strings"
	"testing"
)

const prev = `package service

import (
	"context"

	pb "example.org/x/pb"
)

func NewService() *fooService { return &fooService{} }

type fooService struct{ pb.UnimplementedFooServer }

func (s *fooService) Get(ctx context.Context, in *pb.Old) error { return nil }
`

func TestDemo(t *testing.T) {
	out := regen(t, def("Foo", rpc("Get", "GetReq", "GetResp")), prev)
	if !strings.Contains(out, "in *pb.GetReq) error") {
		t.Errorf("request type not updated:\\n%s", out)
	}
}
'''
