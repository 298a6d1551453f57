edits=[('svcdef/svcdef.go','''	rq := input[1]
	rs := output[0]

	makeFieldType := func(in *ast.Field) (*FieldType, error) {
		star, ok := in.Type.(*ast.StarExpr)
		if !ok {
			return nil, NewLocationError("cannot create FieldType, in.Type "+
				"is not *ast.StarExpr",
				info.Path, info.Position(in.Pos()))
		}

		var name string
		switch node := star.X.(type) {
		case *ast.SelectorExpr: // package.FuncName
			name = fmt.Sprintf("%s", node.Sel.Name)
		case *ast.Ident: // FuncName
			name = fmt.Sprintf("%s", node.Name)
		default:
			return nil, NewLocationError("cannot create FieldType, "+
				"star.Type is not *ast.Ident or *ast.SelectorExpr",
				info.Path, info.Position(star.Pos()))
		}
		return &FieldType{
			Name:     name,
			StarExpr: true,
		}, nil
	}

	var err error
	rv.RequestType, err = makeFieldType(rq)
	if err != nil {
		return nil, errors.Wrapf(err, "requestType creation of service method %q failed", rv.Name)
	}
	rv.ResponseType, err = makeFieldType(rs)
	if err != nil {
		return nil, errors.Wrapf(err, "responseType creation of service method %q failed", rv.Name)
	}

	return rv, nil
}
''','''	request, err := methodType(input[1], info)
	if err != nil {
		return nil, errors.Wrapf(err, "requestType creation of service method %q failed", rv.Name)
	}
	response, err := methodType(output[0], info)
	if err != nil {
		return nil, errors.Wrapf(err, "responseType creation of service method %q failed", rv.Name)
	}
	rv.RequestType, rv.ResponseType = request, response

	return rv, nil
}

// methodType is the type of a request or response
func methodType(in *ast.Field, info *DebugInfo) (*FieldType, error) {
	star, isPointer := in.Type.(*ast.StarExpr)
	if !isPointer {
		return nil, NewLocationError("cannot create FieldType, in.Type "+
			"is not *ast.StarExpr",
			info.Path, info.Position(in.Pos()))
	}
	ft := &FieldType{StarExpr: true}
	if sel, ok := star.X.(*ast.SelectorExpr); ok {
		ft.Name = sel.Sel.Name
		return ft, nil
	}
	id, ok := star.X.(*ast.Ident)
	if !ok {
		return nil, NewLocationError("cannot create FieldType, "+
			"star.Type is not *ast.Ident or *ast.SelectorExpr",
			info.Path, info.Position(star.Pos()))
	}
	ft.Name = id.Name
	return ft, nil
}
'''),('svcdef/svcdef.go','''		rv.Methods = append(rv.Methods, nmeth)
	}
	return rv, nil
''','''		methods = append(methods, nmeth)
	}
	rv.Methods = methods
	return rv, nil
'''),('svcdef/svcdef.go','''	asvc := s.Type.(*ast.InterfaceType)
''','''	asvc := s.Type.(*ast.InterfaceType)
	var methods []*ServiceMethod
''')]
