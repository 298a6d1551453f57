edits=[('svcdef/resolvetypes.go','''	switch {
	case entry.Enum != nil:
		f.Enum = entry.Enum
	case entry.Message != nil:
		// log.Printf("[setType] filedType=%+v, tmap=%+v", f, tmap)
		// log.Printf("[setType] filedType=%+v, entry.Message=%+v", f, entry.Message)
		f.Message = entry.Message
	}
''','''	if entry.Enum != nil {
		f.Enum = entry.Enum
	} else if entry.Message != nil {
		f.Message = entry.Message
	}
'''),('svcdef/resolvetypes.go','''	// Special case maps with valuetypes pointing to messages
	if f.Map != nil {
		if f.Map.ValueType.StarExpr {
			f = f.Map.ValueType
		}
	}
''','''	// Special case maps with valuetypes pointing to messages
	if m := f.Map; m != nil && m.ValueType.StarExpr {
		f = m.ValueType
	}
'''),('svcdef/resolvetypes.go','''	if sd.Service != nil {
		for _, m := range sd.Service.Methods {
			setType(m.RequestType, tmap)
			setType(m.ResponseType, tmap)
		}
	}
''','''	if sd.Service == nil {
		return
	}
	methods := sd.Service.Methods
	for i := range methods {
		for _, t := range []*FieldType{methods[i].RequestType, methods[i].ResponseType} {
			setType(t, tmap)
		}
	}
''')]
