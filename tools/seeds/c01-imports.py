id='c01-imports'; prop='C01'
needs='a previous file with a second import declaration'
breaks='only the first import declaration of the previous file is kept'
edits=[('gengokit/service/services.go','''		default:
			newDecls = append(newDecls, d)
''','''		case *ast.GenDecl:
			// a file needs one import declaration only
			if x.Tok == token.IMPORT && len(newDecls) > 0 {
				continue
			}
			newDecls = append(newDecls, x)
		default:
			newDecls = append(newDecls, d)
''')]
test='''package zzdemo

import (
	"strings"
	"testing"
)

const prev = `package service

import (
	"context"

	pb "example.org/x/pb"
)

import "example.org/db"

var conn = db.Open()

func NewService() *fooService { return &fooService{} }

type fooService struct{ pb.UnimplementedFooServer }

func (s *fooService) Get(ctx context.Context, in *pb.GetReq) (*pb.GetResp, error) { return nil, conn.Err() }
`

func TestDemo(t *testing.T) {
	out := regen(t, def("Foo", rpc("Get", "GetReq", "GetResp")), prev)
	if !strings.Contains(out, "example.org/db") {
		t.Errorf("import is missing:\\n%s", out)
	}
}
'''
