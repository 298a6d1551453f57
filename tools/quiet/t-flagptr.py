props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME-client/main.go.tmpl', [('\tflag.StringVar(&grpcAddr, "grpc.addr", ":5040", "gRPC (HTTP) listen address")\n', ''), ('\tflag.Parse()\n', '\tgrpcFlag := flag.String("grpc.addr", ":5040", "gRPC (HTTP) listen address")\n\tflag.Parse()\n\tgrpcAddr = *grpcFlag\n')])]
