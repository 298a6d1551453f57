props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tmergedLogic := queryParamLogic + genericLogic + "}"\n\tif f.Location == "path" {\n\t\tmergedLogic = pathParamLogic + genericLogic\n\t}\n\n\tcode, err', '\tvar mergedLogic string\n\tswitch f.Location {\n\tcase "path":\n\t\tmergedLogic = pathParamLogic + genericLogic\n\tdefault:\n\t\tmergedLogic = queryParamLogic + genericLogic + "}"\n\t}\n\n\tcode, err'), ('gengokit/httptransport/httptransport.go', '\tcode, err := ApplyTemplate("FieldEncodeLogic", mergedLogic, f, TemplateFuncs)\n\tif err != nil {\n\t\treturn "", err\n\t}\n\tcode = FormatCode(code)\n\treturn code, nil\n', '\treturn formatted("FieldEncodeLogic", mergedLogic, f)\n'), ('gengokit/httptransport/httptransport.go', '\tcode, err := ApplyTemplate("FieldEncodeLogic", oneofEnclosure, f, TemplateFuncs)\n\tif err != nil {\n\t\treturn "", err\n\t}\n\tcode = FormatCode(code)\n\treturn code, nil\n', '\treturn formatted("FieldEncodeLogic", oneofEnclosure, f)\n'), ('gengokit/httptransport/httptransport.go', '// createDecodeConvertFunc creates a go string', '// formatted is the code a template makes.\nfunc formatted(name, tmpl string, data interface{}) (string, error) {\n\tcode, err := ApplyTemplate(name, tmpl, data, TemplateFuncs)\n\tif err != nil {\n\t\treturn "", err\n\t}\n\treturn FormatCode(code), nil\n}\n\n// createDecodeConvertFunc creates a go string')]
