props=['C19', 'C23', 'C24', 'C25']
edits=[]
tmpl=[('server/server.go.tmpl', [('\t\t\terrc <- http.ListenAndServe(cfg.HTTPAddr, h)\n', '\t\t\tsrv := &http.Server{Addr: cfg.HTTPAddr, Handler: h}\n\t\t\terrc <- srv.ListenAndServe()\n')])]
