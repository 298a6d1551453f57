package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"
)

// zqHarness is the package of functions that use the generated clients.
const zqHarness = "zqtest/zqharness"

// clientName is the function that calls a method through a client.
func clientName(transport, method string) string { return transport + "_" + method }

// addHarness adds a package with a function for each generated client and
// method: it makes the client and calls the method.
func (b *built) addHarness() {
	pb := b.pkgs[zqPBPath]
	if pb == nil {
		return
	}
	var sb, imp strings.Builder
	for _, t := range []struct{ name, fn, param, lib string }{
		{"GRPC", "NewGRPCClient", "conn *grpc.ClientConn", "google.golang.org/grpc"},
		{"NATS", "NewNATSClient", "conn *nats.Conn", "github.com/nats-io/nats.go"},
		{"HTTP", "NewHTTPClient", "conn string", ""},
	} {
		if pb.Scope().Lookup(t.fn) == nil {
			continue
		}
		n := 0
		for _, m := range b.w.methods {
			if t.name == "HTTP" && len(m.bindings) == 0 {
				continue
			}
			n++
			fmt.Fprintf(&sb, "func %s(%s, ctx context.Context, in *pb.%s) (*pb.%s, error) {\n\tc, err := pb.%s(conn)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn c.%s(ctx, in)\n}\n\n",
				clientName(t.name, m.name), t.param, m.req, m.resp, t.fn, m.name)
		}
		if n > 0 && t.lib != "" {
			fmt.Fprintf(&imp, "\t%q\n", t.lib)
		}
	}
	src := "package zqharness\n\nimport (\n\t\"context\"\n" + imp.String() + "\tpb \"" + zqPBPath + "\"\n)\n\n" + sb.String() + "var _ context.Context\nvar _ pb.ZqEnum\n"
	f, err := parser.ParseFile(b.fset, "(client)", src, 0)
	if err != nil {
		b.unknown = append(b.unknown, "the functions that use the clients: "+err.Error())
		return
	}
	info := newInfo()
	bad := ""
	conf := types.Config{Importer: b.imp, Error: func(err error) { bad = err.Error() }}
	p, _ := conf.Check(zqHarness, b.fset, []*ast.File{f}, info)
	if bad != "" {
		b.noClient = "the generated clients are not used like the service's interface: " + bad
		return
	}
	b.pkgs[zqHarness], b.infos[zqHarness], b.asts[zqHarness] = p, info, []*ast.File{f}
}
