id='c31-transport'; prop='C31'
needs='--transport given with an upper-case letter or a service without HTTP'
breaks='the .pb.baron.go file is generated for all transports when there is a client'
edits=[('cmd/baron/main.go','''	protoDefPaths := cfg.DefPaths

	// Get path names of .pb.baron.go files
''','''	protoDefPaths := cfg.DefPaths
	if cfg.GenClient {
		conf.Transport = "all" // the client can use any
	}

	// Get path names of .pb.baron.go files
''')]
needs='both --client and --transport are given'
helpers=['e2e']
test='''package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b := newBox(t)
	b.must("--client", "--transport", "grpc", "api/echo.proto")
	if strings.Contains(b.get("mod/api/echo.pb.baron.go"), "nats") {
		t.Error("the .pb.baron.go file is for other transports than were asked for")
	}
}
'''
