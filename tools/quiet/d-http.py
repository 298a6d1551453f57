edits=[('gengokit/httptransport/httptransport.go','''	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			nMeth := NewMethod(meth)
			rv.Methods = append(rv.Methods, nMeth)
		}
	}
	return &rv
''','''	for i := 0; i < len(svc.Methods); i++ {
		if len(svc.Methods[i].Bindings) == 0 {
			continue
		}
		rv.Methods = append(rv.Methods, NewMethod(svc.Methods[i]))
	}
	return &rv
'''),('gengokit/httptransport/httptransport.go','''	nMeth := Method{
		Name:         meth.Name,
		RequestType:  meth.RequestType.Name,
		ResponseType: meth.ResponseType.Name,
	}
	for i := range meth.Bindings {
		nBinding := NewBinding(i, meth)
		nBinding.Parent = &nMeth
		nMeth.Bindings = append(nMeth.Bindings, nBinding)
	}
	return &nMeth
''','''	nMeth := &Method{Name: meth.Name}
	nMeth.RequestType, nMeth.ResponseType = meth.RequestType.Name, meth.ResponseType.Name
	for i, n := 0, len(meth.Bindings); i < n; i++ {
		b := NewBinding(i, meth)
		b.Parent = nMeth
		nMeth.Bindings = append(nMeth.Bindings, b)
	}
	return nMeth
'''),('gengokit/httptransport/httptransport.go','''		newField := Field{
			Name:           field.Name,
			QueryParamName: field.PBFieldName,
			CamelName:      pkg.GoCamelCase(field.Name),
			LowCamelName:   LowCamelName(field.Name),
			Location:       param.Location,
			Repeated:       field.Type.ArrayType,
			GoType:         field.Type.Name,
			StarExpr:       field.Type.StarExpr,
			LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(field.Name), pkg.GoCamelCase(meth.Name)),
		}
''','''		newField := plainField(param, meth)
'''),('gengokit/httptransport/httptransport.go','''// NewBinding 创建''','''// plainField is the field of a parameter before its conversions are known
func plainField(param *svcdef.HTTPParameter, meth *svcdef.ServiceMethod) (f Field) {
	field := param.Field
	camel := pkg.GoCamelCase(field.Name)
	f.Name, f.QueryParamName = field.Name, field.PBFieldName
	f.CamelName, f.LowCamelName = camel, LowCamelName(field.Name)
	f.Location = param.Location
	f.Repeated, f.StarExpr, f.GoType = field.Type.ArrayType, field.Type.StarExpr, field.Type.Name
	f.LocalName = camel + pkg.GoCamelCase(meth.Name)
	return f
}

// NewBinding 创建'''),]
