props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME/main.go.tmpl', [('\t// Use environment variables, if set. Flags have priority over Env vars.\n\tif debug := os.Getenv("DEBUG"); debug != "" {\n\t\tconfig.Debug = "true" == strings.ToLower(debug)\n\t}\n\tif addr := os.Getenv("DEBUG_ADDR"); addr != "" {\n\t\tconfig.DebugAddr = addr\n\t}\n\tif port := os.Getenv("PORT"); port != "" {\n\t\tconfig.HTTPAddr = fmt.Sprintf(":%s", port)\n\t}\n\tif addr := os.Getenv("HTTP_ADDR"); addr != "" {\n\t\tconfig.HTTPAddr = addr\n\t}\n\tif addr := os.Getenv("GRPC_ADDR"); addr != "" {\n\t\tconfig.GRPCAddr = addr\n\t}\n\tif addr := os.Getenv("NATS_ADDR"); addr != "" {\n\t\tconfig.NATSAddr = addr\n\t}\n}\n', '\tfor _, v := range []struct {\n\t\tname string\n\t\taddr *string\n\t}{{"{{"}}"DEBUG_ADDR", &config.DebugAddr}, {"HTTP_ADDR", &config.HTTPAddr}, {"GRPC_ADDR", &config.GRPCAddr}, {"NATS_ADDR", &config.NATSAddr}} {\n\t\tif s := os.Getenv(v.name); s != "" {\n\t\t\t*v.addr = s\n\t\t}\n\t}\n\tif config.HTTPAddr == "" && os.Getenv("PORT") != "" {\n\t\tconfig.HTTPAddr = ":" + os.Getenv("PORT")\n\t}\n\tif debug := os.Getenv("DEBUG"); debug != "" {\n\t\tconfig.Debug = "true" == strings.ToLower(debug)\n\t}\n}\n')])]
