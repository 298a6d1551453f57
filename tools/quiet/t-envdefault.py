props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME/main.go.tmpl', [('\tflag.StringVar(&config.DebugAddr, "debug.addr", ":5060", "Debug and metrics listen address")\n\tflag.StringVar(&config.HTTPAddr, "http.addr", "", "HTTP listen address")\n\tflag.StringVar(&config.GRPCAddr, "grpc.addr", "", "gRPC (HTTP) listen address")\n\tflag.StringVar(&config.NATSAddr, "nats.addr", "", "NATS listen address")\n\tflag.BoolVar(&config.Debug, "debug", false, "Debug mode")\n', '\tflag.StringVar(&config.DebugAddr, "debug.addr", env("DEBUG_ADDR", ":5060"), "Debug and metrics listen address")\n\tflag.StringVar(&config.HTTPAddr, "http.addr", httpDefault(), "HTTP listen address")\n\tflag.StringVar(&config.GRPCAddr, "grpc.addr", env("GRPC_ADDR", ""), "gRPC (HTTP) listen address")\n\tflag.StringVar(&config.NATSAddr, "nats.addr", env("NATS_ADDR", ""), "NATS listen address")\n\tflag.BoolVar(&config.Debug, "debug", strings.ToLower(os.Getenv("DEBUG")) == "true", "Debug mode")\n}\n\nfunc env(name, value string) string {\n\tif v := os.Getenv(name); v != "" {\n\t\treturn v\n\t}\n\treturn value\n}\n\nfunc httpDefault() string {\n\tif port := os.Getenv("PORT"); port != "" {\n\t\treturn env("HTTP_ADDR", fmt.Sprintf(":%s", port))\n\t}\n\treturn env("HTTP_ADDR", "")\n}\n'), ('\t// Use environment variables, if set. Flags have priority over Env vars.\n\tif debug := os.Getenv("DEBUG"); debug != "" {\n\t\tconfig.Debug = "true" == strings.ToLower(debug)\n\t}\n\tif addr := os.Getenv("DEBUG_ADDR"); addr != "" {\n\t\tconfig.DebugAddr = addr\n\t}\n\tif port := os.Getenv("PORT"); port != "" {\n\t\tconfig.HTTPAddr = fmt.Sprintf(":%s", port)\n\t}\n\tif addr := os.Getenv("HTTP_ADDR"); addr != "" {\n\t\tconfig.HTTPAddr = addr\n\t}\n\tif addr := os.Getenv("GRPC_ADDR"); addr != "" {\n\t\tconfig.GRPCAddr = addr\n\t}\n\tif addr := os.Getenv("NATS_ADDR"); addr != "" {\n\t\tconfig.NATSAddr = addr\n\t}\n}\n', '')])]
