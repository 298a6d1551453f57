id='c06-interrupt'; prop='C06'
needs='a server/interrupt.go of the user which does not declare InterruptHandler (renamed, or moved to another file)'
breaks='such a file is silently replaced by the template'
edits=[('gengokit/service/server_interrupt.go','''	if r.prev != nil {
		return r.prev, nil
	}
''','''	if r.prev != nil {
		var code bytes.Buffer
		if _, err := code.ReadFrom(r.prev); err != nil {
			return nil, errors.Wrapf(err, "cannot read previous file: %q", path)
		}
		if bytes.Contains(code.Bytes(), []byte("InterruptHandler")) {
			return &code, nil
		}
	}
'''),('gengokit/service/server_interrupt.go','''import (
''','''import (
	"bytes"
''')]
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	out, err := generate(t, def("Foo", rpc("Get", "GetReq", "GetResp")), map[string]string{"server/interrupt.go": "package server\\n\\n// handled elsewhere\\nfunc onSignal() {}\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out["server/interrupt.go"], "onSignal") {
		t.Errorf("server/interrupt.go is now %s", out["server/interrupt.go"])
	}
}
'''
