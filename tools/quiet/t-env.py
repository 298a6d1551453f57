props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('cmd/NAME/main.go.tmpl', [('\t// Use environment variables, if set. Flags have priority over Env vars.\n\tif debug := os.Getenv("DEBUG"); debug != "" {\n\t\tconfig.Debug = "true" == strings.ToLower(debug)\n\t}\n\tif addr := os.Getenv("DEBUG_ADDR"); addr != "" {\n\t\tconfig.DebugAddr = addr\n\t}\n\tif port := os.Getenv("PORT"); port != "" {\n\t\tconfig.HTTPAddr = fmt.Sprintf(":%s", port)\n\t}\n\tif addr := os.Getenv("HTTP_ADDR"); addr != "" {\n\t\tconfig.HTTPAddr = addr\n\t}\n\tif addr := os.Getenv("GRPC_ADDR"); addr != "" {\n\t\tconfig.GRPCAddr = addr\n\t}\n\tif addr := os.Getenv("NATS_ADDR"); addr != "" {\n\t\tconfig.NATSAddr = addr\n\t}\n}\n', '\tfromEnv("DEBUG_ADDR", &config.DebugAddr)\n\tif port := os.Getenv("PORT"); len(port) > 0 {\n\t\tconfig.HTTPAddr = ":" + port\n\t}\n\tfromEnv("HTTP_ADDR", &config.HTTPAddr)\n\tfromEnv("GRPC_ADDR", &config.GRPCAddr)\n\tfromEnv("NATS_ADDR", &config.NATSAddr)\n\tif debug := os.Getenv("DEBUG"); debug != "" {\n\t\tconfig.Debug = strings.ToLower(debug) == "true"\n\t}\n}\n\n// fromEnv sets an address to what the environment says.\nfunc fromEnv(name string, addr *string) {\n\tif v := os.Getenv(name); v != "" {\n\t\t*addr = v\n\t}\n}\n'), ('\tflag.Parse()\n\n\tif config.HTTPAddr == "" && config.GRPCAddr == "" && config.NATSAddr == "" {\n', '\tflag.Parse()\n\tcfg := config\n\tif cfg.HTTPAddr == "" && cfg.GRPCAddr == "" && cfg.NATSAddr == "" {\n'), ('server.Run(config)', 'server.Run(cfg)')])]
