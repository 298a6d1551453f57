props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C19', 'C20', 'C31']
edits=[('gengokit/service/services.go', '\tfor _, m := range h.service.Methods {\n\t\tif _, ok := h.mMap[m.Name]; !ok {\n\t\t\tcontinue\n\t\t}\n\t\tlog.WithField("Method", m.Name).\n\t\t\tInfo("Generating handler from rpc definition")\n\t\tex.Methods = append(ex.Methods, m)\n\t}\n', '\tfor i := 0; i < len(h.service.Methods); i++ {\n\t\tm := h.service.Methods[i]\n\t\tif _, ok := h.mMap[m.Name]; ok {\n\t\t\tlog.WithField("Method", m.Name).\n\t\t\t\tInfo("Generating handler from rpc definition")\n\t\t\tex.Methods = append(ex.Methods, m)\n\t\t}\n\t}\n'), ('gengokit/service/services.go', '\t// render the server for all methods not already defined\n\tnewCode, err := applyServiceMethodsTempl(ex)\n\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tif _, err = code.ReadFrom(newCode); err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn code, nil\n}\n', '\treturn code, appendMethods(code, ex)\n}\n\n// appendMethods renders the methods not already defined.\nfunc appendMethods(code *bytes.Buffer, ex handlerData) error {\n\tnewCode, err := applyServiceMethodsTempl(ex)\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = code.ReadFrom(newCode)\n\treturn err\n}\n'), ('gengokit/service/services.go', '\tcode := bytes.NewBuffer(nil)\n\terr := printer.Fprint(code, h.fset, h.ast)\n\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn code, nil\n', '\tvar code bytes.Buffer\n\tif err := printer.Fprint(&code, h.fset, h.ast); err != nil {\n\t\treturn nil, err\n\t}\n\treturn &code, nil\n')]
