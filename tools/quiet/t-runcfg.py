props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C34', 'C35']
edits=[]
tmpl=[('server/server.go.tmpl', [('\tif cfg.Debug {\n', '\tdebugAddr := cfg.DebugAddr\n\tif cfg.Debug {\n'), ('http.ListenAndServe(cfg.DebugAddr, m)', 'http.ListenAndServe(debugAddr, m)'), ('net.Listen("tcp", cfg.GRPCAddr)', 'net.Listen("tcp", cfg.GRPCAddr)'), ('if cfg.GRPCAddr != "" {', 'if len(cfg.GRPCAddr) > 0 {')])]
