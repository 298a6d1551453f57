id='c19-xfield'; prop='C19'
needs='a field whose Go name begins with XX'
breaks='such a field is taken for internal state and dropped'
edits=[('svcdef/svcdef.go','f.Names[0].Name, "XXX_")','f.Names[0].Name, "XX")')]
helpers=['svcdef']
test='''package zzdemo

import ("testing")

func TestDemo(t *testing.T) {
	sd, err := analyse("package TEST\\n\\ntype Size struct {\\n\\tXL int64\\n\\tXXL int64\\n}\\n", "syntax = \\"proto3\\";\\n")
	if err != nil {
		t.Fatal(err)
	}
	if len(sd.Messages) != 1 || len(sd.Messages[0].Fields) != 2 {
		t.Error(len(sd.Messages), sd.Messages[0].Fields)
	}
}
'''
