props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\trv := []string{}\n\tparts := strings.Split(b.PathTemplate, "/")\n\tfor _, part := range parts {\n\t\tif len(part) > 2 && part[0] == \'{\' && part[len(part)-1] == \'}\' {\n', '\tvar rv []string\n\tfor _, part := range strings.Split(b.PathTemplate, "/") {\n\t\tif isVariable(part) {\n'), ('gengokit/httptransport/httptransport.go', "// GenQueryUnmarshaler returns the generated code for server-side unmarshaling\n// of a query parameter into it's correct field on the request struct.\nfunc (f *Field) GenQ", '// isVariable tells whether an element of a path stands for a parameter.\nfunc isVariable(part string) bool {\n\tif len(part) <= 2 {\n\t\treturn false\n\t}\n\treturn strings.HasPrefix(part, "{") && strings.HasSuffix(part, "}")\n}\n\n// GenQueryUnmarshaler returns the generated code for server-side unmarshaling\n// of a query parameter into it\'s correct field on the request struct.\nfunc (f *Field) GenQ'), ('gengokit/httptransport/httptransport.go', 'rv = append(rv, `"`+part+`"`)', 'rv = append(rv, strconv.Quote(part))')]
