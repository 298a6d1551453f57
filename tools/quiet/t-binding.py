props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\t\tnewField := Field{\n\t\t\tName:           field.Name,\n\t\t\tQueryParamName: field.PBFieldName,\n\t\t\tCamelName:      pkg.GoCamelCase(field.Name),\n\t\t\tLowCamelName:   LowCamelName(field.Name),\n\t\t\tLocation:       param.Location,\n\t\t\tRepeated:       field.Type.ArrayType,\n\t\t\tGoType:         field.Type.Name,\n\t\t\tStarExpr:       field.Type.StarExpr,\n\t\t\tLocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(field.Name), pkg.GoCamelCase(meth.Name)),\n\t\t}\n', '\t\tnewField := newBindingField(meth, param)\n'), ('gengokit/httptransport/httptransport.go', "// GenQueryUnmarshaler returns the generated code for server-side unmarshaling\n// of a query parameter into it's correct field on the request struct.\nfunc (f *Field) GenQ", "// newBindingField fills in what a parameter says about its field.\nfunc newBindingField(meth *svcdef.ServiceMethod, param *svcdef.HTTPParameter) Field {\n\tf, goName := param.Field, pkg.GoCamelCase(param.Field.Name)\n\tvar rv Field\n\trv.Name, rv.QueryParamName = f.Name, f.PBFieldName\n\trv.CamelName = goName\n\trv.LowCamelName = LowCamelName(f.Name)\n\trv.Location = param.Location\n\trv.Repeated, rv.StarExpr = f.Type.ArrayType, f.Type.StarExpr\n\trv.GoType = f.Type.Name\n\trv.LocalName = goName + pkg.GoCamelCase(meth.Name)\n\treturn rv\n}\n\n// GenQueryUnmarshaler returns the generated code for server-side unmarshaling\n// of a query parameter into it's correct field on the request struct.\nfunc (f *Field) GenQ")]
