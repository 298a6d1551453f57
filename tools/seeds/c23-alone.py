id='c23-alone'; prop='C23'
needs='a service generated with --transport nats'
breaks='the server of a service for NATS only does not import nats.go'
tmpl=[('server/server.go.tmpl', [('{{if eq .Config.Transport "all" "nats" }}\n\t"github.com/nats-io/nats.go"\n', '{{if eq .Config.Transport "all" }}\n\t"github.com/nats-io/nats.go"\n')])]
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("--transport", "nats", "api/echo.proto")
	for n, s := range b.tree("mod") {
		if strings.HasSuffix(n, "server/server.go") && strings.Contains(s, "nats.Connect(") && !strings.Contains(s, "nats-io/nats.go") {
			t.Error(s)
		}
	}
}
'''
