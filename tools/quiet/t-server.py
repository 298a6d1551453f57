props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[]
tmpl=[('server/server.go.tmpl', [('\tif cfg.HTTPAddr != "" {\n\t\tgo func() {\n\t\t\tlog.Println("transport", "HTTP", "addr", cfg.HTTPAddr)\n\t\t\th := pb.MakeHTTPHandler(endpoints, HTTPServerOptions()...)\n\t\t\terrc <- http.ListenAndServe(cfg.HTTPAddr, h)\n\t\t}()\n\t}\n', '\tif cfg.HTTPAddr != "" {\n\t\tgo serveHTTP(cfg.HTTPAddr, endpoints, errc)\n\t}\n'), ('func NewEndpoints(', '{{if .HTTPHelper.Methods}}\nfunc serveHTTP(addr string, endpoints pb.Endpoints, errc chan<- error) {\n\tlog.Println("transport", "HTTP", "addr", addr)\n\terrc <- http.ListenAndServe(addr, pb.MakeHTTPHandler(endpoints, HTTPServerOptions()...))\n}\n{{end}}\nfunc NewEndpoints('), ('\tvar (\n\t{{range $i := .Service.Methods -}}\n\t\t{{ToLower $i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)\n\t{{end}}\n\t)\n\n\tendpoints := pb.Endpoints{\n\t{{range $i := .Service.Methods -}}\n\t\t{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,\n\t{{end}}\n\t}\n', '\tvar endpoints pb.Endpoints\n\t{{range .Service.Methods -}}\n\t\tendpoints.{{.Name}}Endpoint = pb.Make{{.Name}}Endpoint(svc)\n\t{{end}}\n'), ('\tendpoints = service.WrapEndpoints(endpoints)\n\n\treturn endpoints\n', '\treturn service.WrapEndpoints(endpoints)\n')])]
