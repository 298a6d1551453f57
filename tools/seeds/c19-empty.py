id='c19-empty'; prop='C19'
needs='a message without fields'
breaks='a message without fields is dropped, so methods that use it have no type'
edits=[('svcdef/svcdef.go','\t\t\t\trv.Messages = append(rv.Messages, nmsg)','\t\t\t\tif len(nmsg.Fields) == 0 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\trv.Messages = append(rv.Messages, nmsg)')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	sd, err := analyse("package TEST\\n\\nimport \\"context\\"\\n\\ntype None struct {\\n}\\n\\ntype Ping struct {\\n\\tName string\\n}\\n\\ntype EchoServer interface {\\n\\tEcho(context.Context, *Ping) (*None, error)\\n}\\n", "syntax = \\"proto3\\";\\n")
	if err != nil {
		t.Fatal(err)
	}
	if m := method(t, sd, "Echo"); m.ResponseType.Message == nil {
		t.Error(m.ResponseType)
	}
}
'''
