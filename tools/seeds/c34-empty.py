id='c34-empty'; prop='C34'
needs='an answer with an error status whose body has no error text'
breaks='the client takes the failed request for one that succeeded'
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\treturn errors.New(w.Error)\n', '\tif w.Error != "" {\n\t\treturn errors.New(w.Error)\n\t}\n\treturn nil\n')])]
helpers=['regen','module','decls']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	src := decls(t, baronFile(t, def("Users", withHTTP("Get"))), "errorDecoder")
	o, ok := runModule(t, map[string]string{"main.go": `package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
)

var _ = json.Unmarshal
var _ = fmt.Sprint
var _ = errors.New

func main() {
	for _, s := range []string{"{}", "", "not json", "{\\"error\\": \\"gone\\"}", "{\\"message\\": \\"x\\"}"} {
		if errorDecoder([]byte(s)) == nil {
			fmt.Println("no error from", s)
			os.Exit(1)
		}
	}
}

` + src, "lib/google.golang.org/grpc/a.go": "package grpc\\n", "lib/github.com/nats-io/nats.go/a.go": "package nats\\n", "lib/github.com/go-kit/kit/a.go": "package kit\\n"})
	if !ok {
		t.Error(o)
	}
}
'''
