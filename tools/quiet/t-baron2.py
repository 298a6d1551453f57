props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\t{{range $method := .HTTPHelper.Methods}}\n\t\t{{range $binding := $method.Bindings}}\n\t\t\tm.Methods("{{$binding.Verb | ToUpper}}").Path("{{$binding.PathTemplate}}").Handler(httptransport.NewServer(\n\t\t\t\tendpoints.{{$method.Name}}Endpoint,\n\t\t\t\tDecodeHTTP{{$binding.Label}}Request,\n\t\t\t\tEncodeHTTPGenericResponse,\n\t\t\t\tserverOptions...,\n\t\t\t))\n\t\t{{- end}}\n\t{{- end}}\n\treturn m\n', '\t{{range .HTTPHelper.Methods}}\n\t\t{{range .Bindings}}\n\t\t\tm.Handle("{{.PathTemplate}}", httptransport.NewServer(\n\t\t\t\tendpoints.{{.Parent.Name}}Endpoint,\n\t\t\t\tDecodeHTTP{{.Label}}Request,\n\t\t\t\tEncodeHTTPGenericResponse,\n\t\t\t\tserverOptions...,\n\t\t\t)).Methods("{{ToUpper .Verb}}")\n\t\t{{- end}}\n\t{{- end}}\n\treturn m\n')])]
