props=['C34','C24','C23']
S='server/server.go.tmpl'
edits=[]
tmpl=[(S,[('			errc <- http.ListenAndServe(cfg.HTTPAddr, h)','			srv := &http.Server{Addr: cfg.HTTPAddr, Handler: h}\n			errc <- srv.ListenAndServe()'),
 ('	log.Println("exit", <-errc)','	select {\n	case err := <-errc:\n		log.Println("exit", err)\n	}'),
 ])]
