props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\tfor inc := range included {\n\t\t{{- range $i := .Service.Methods}}\n\t\t\tif inc == "{{$i.Name}}" {\n\t\t\t\te.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)\n\t\t\t}\n\t\t{{- end}}\n\t}\n', '\t{{- range $i := .Service.Methods}}\n\tif _, ok := included["{{$i.Name}}"]; ok {\n\t\te.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)\n\t}\n\t{{- end}}\n'), ('\t\treq := request.(*{{GoName $i.RequestType.Name}})\n\t\tv, err := s.{{$i.Name}}(ctx, req)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn v, nil\n', '\t\tv, err := s.{{$i.Name}}(ctx, request.(*{{GoName $i.RequestType.Name}}))\n\t\tif err == nil {\n\t\t\treturn v, nil\n\t\t}\n\t\treturn nil, err\n'), ('\t\tpath := strings.Join([]string{\n\t\t{{- range $section := $binding.PathSections}}\n\t\t\t{{$section}},\n\t\t{{- end}}\n\t\t}, "/")\n', '\t\tsections := []string{\n\t\t{{- range $binding.PathSections}}\n\t\t\t{{.}},\n\t\t{{- end}}\n\t\t}\n\t\tpath := strings.Join(sections, "/")\n')])]
