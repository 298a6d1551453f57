id='c34-serve'; prop='C34'
needs='a gRPC server that stops with an error after it was started'
breaks='the server goes on although its gRPC transport has ended'
tmpl=[('server/server.go.tmpl', [('\t\t\terrc <- s.Serve(ln)\n', '\t\t\tif err := s.Serve(ln); err != nil {\n\t\t\t\tlog.Println("transport", "gRPC", "err", err)\n\t\t\t}\n')])]
helpers=['regen','module','server']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	if o, ok := runServer(t, "serve", "127.0.0.1:0"); !ok {
		t.Error("Run goes on when serving fails: " + o)
	}
	if o, ok := runServer(t, "", "127.0.0.1:0"); !ok {
		t.Error("Run ends although nothing failed: " + o)
	}
}
'''
