props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME/main.go.tmpl', [('if addr := os.Getenv("GRPC_ADDR"); addr != "" {', 'if addr, ok := os.LookupEnv("GRPC_ADDR"); ok && addr != "" {')])]
