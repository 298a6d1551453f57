id='c34-subscribe'; prop='C34'
needs='a NATS subscription that fails, with no other transport'
breaks='a NATS server without subscriptions goes on as if it were serving'
tmpl=[('server/server.go.tmpl', [('\t\t\terr = pb.ServeNATS(conn, srv)\n\t\t\tif err != nil {\n\t\t\t\terrc <- err\n\t\t\t\treturn\n\t\t\t}\n', '\t\t\tif err := pb.ServeNATS(conn, srv); err != nil {\n\t\t\t\tlog.Println("transport", "NATS", "err", err)\n\t\t\t\treturn\n\t\t\t}\n')])]
helpers=['regen','module','server']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	if o, ok := runServer(t, "subscribe", ""); !ok {
		t.Error("Run goes on when subscribing fails: " + o)
	}
	if o, ok := runServer(t, "connect", ""); !ok {
		t.Error("Run goes on when connecting fails: " + o)
	}
	if o, ok := runServer(t, "", ""); !ok {
		t.Error("Run ends although nothing failed: " + o)
	}
}
'''
