id='c15-typemap'; prop='C15'
needs='two definitions analysed in one process; the second one names a type of the first that it does not declare'
breaks='the map of declared types is kept between calls, so types of one definition resolve to those of an earlier one'
edits=[('svcdef/resolvetypes.go','''func newTypeMap(sd *Svcdef) map[string]typeBox {
	rv := make(map[string]typeBox)
''','''func newTypeMap(sd *Svcdef) map[string]typeBox {
	rv := knownTypes
'''),('svcdef/resolvetypes.go','''// newTypeMap returns''','''var knownTypes = make(map[string]typeBox)

// newTypeMap returns''')]
helpers=[]
test='''package zzdemo

import (
	"io"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef"
)

func analyse(t *testing.T, code string) *svcdef.Svcdef {
	sd, err := svcdef.New(map[string]io.Reader{"x.pb.go": strings.NewReader(code)}, nil)
	if err != nil {
		t.Fatal(err)
	}
	return sd
}

func message(sd *svcdef.Svcdef, name string) *svcdef.Message {
	for _, m := range sd.Messages {
		if m.Name == name {
			return m
		}
	}
	return nil
}

func TestSecondDefinition(t *testing.T) {
	const second = `package p
type B struct { F *Shared }
`
	alone := message(analyse(t, second), "B").Fields[0].Type.Message
	analyse(t, `package p
type Shared struct { X int64 }
type A struct { F *Shared }
`)
	after := message(analyse(t, second), "B").Fields[0].Type.Message
	if alone != nil || after != nil {
		t.Fatalf("B.F resolves to %v alone and to %v after another definition", alone, after)
	}
}
'''
