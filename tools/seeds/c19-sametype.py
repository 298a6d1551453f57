id='c19-sametype'; prop='C19'
needs='a method whose request and response have the same type'
breaks='the response type of such a method is not resolved to its message'
edits=[('svcdef/resolvetypes.go','\t\t\tsetType(m.ResponseType, tmap)','\t\t\tif m.ResponseType.Name != m.RequestType.Name {\n\t\t\t\tsetType(m.ResponseType, tmap)\n\t\t\t}')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	sd, err := analyse("package TEST\\n\\nimport \\"context\\"\\n\\ntype Ping struct {\\n\\tName string\\n}\\n\\ntype EchoServer interface {\\n\\tEcho(context.Context, *Ping) (*Ping, error)\\n}\\n", "syntax = \\"proto3\\";\\n")
	if err != nil {
		t.Fatal(err)
	}
	m := method(t, sd, "Echo")
	if m.RequestType.Message == nil || m.ResponseType.Message == nil {
		t.Error(m.RequestType, m.ResponseType)
	}
}
'''
