id='c34-status'; prop='C34'
needs='a request that fails with an error that has no status of its own'
breaks='the failure is answered with status 200'
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\tcode := http.StatusInternalServerError\n\tif sc, ok := err.(httptransport.StatusCoder); ok {\n\t\tcode = sc.StatusCode()\n\t}\n\tw.WriteHeader(code)\n', '\tif sc, ok := err.(httptransport.StatusCoder); ok {\n\t\tw.WriteHeader(sc.StatusCode())\n\t}\n')])]
helpers=['regen','module','decls']
test='''package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	src := decls(t, baronFile(t, def("Users", withHTTP("Get"))), "errorEncoder")
	o, ok := runModule(t, map[string]string{"main.go": `package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"

	httptransport "github.com/go-kit/kit/transport/http"
)

var _ = json.Unmarshal
var _ httptransport.Headerer

type coded struct{ error }

func (coded) StatusCode() int { return 404 }

func main() {
	for want, err := range map[int]error{500: errors.New("broken"), 404: coded{errors.New("missing")}} {
		w := httptest.NewRecorder()
		errorEncoder(context.Background(), err, w)
		if got := w.Result().StatusCode; got != want {
			fmt.Println(err, "is answered with", got)
			os.Exit(1)
		}
	}
	_ = http.StatusOK
}

` + src, "lib/google.golang.org/grpc/a.go": "package grpc\\n", "lib/github.com/nats-io/nats.go/a.go": "package nats\\n",
		"lib/github.com/go-kit/kit/transport/http/a.go": `package http

import "net/http"

type Headerer interface{ Headers() http.Header }
type StatusCoder interface{ StatusCode() int }
`})
	if !ok {
		t.Error(o)
	}
}
'''
