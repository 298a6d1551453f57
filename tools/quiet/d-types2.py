edits=[('svcdef/resolvetypes.go','''		rv[m.Name] = typeBox{Message: m}
''','''		var box typeBox
		box.Message = m
		rv[m.Name] = box
'''),('svcdef/resolvetypes.go','''	entry, ok := tmap[f.Name]
	if !ok {
		return
	}
	switch {
	case entry.Enum != nil:
		f.Enum = entry.Enum
	case entry.Message != nil:
		// log.Printf("[setType] filedType=%+v, tmap=%+v", f, tmap)
		// log.Printf("[setType] filedType=%+v, entry.Message=%+v", f, entry.Message)
		f.Message = entry.Message
	}
''','''	if entry, known := tmap[f.Name]; known {
		f.set(entry)
	}
'''),('svcdef/resolvetypes.go','''// setType unpacks''','''func (f *FieldType) set(box typeBox) {
	if box.Enum != nil {
		f.Enum = box.Enum
		return
	}
	if msg := box.Message; msg != nil {
		f.Message = msg
	}
}

// setType unpacks'''),('svcdef/resolvetypes.go','''	if sd.Service != nil {
		for _, m := range sd.Service.Methods {
			setType(m.RequestType, tmap)
			setType(m.ResponseType, tmap)
		}
	}
''','''	svc := sd.Service
	if svc == nil {
		return
	}
	for i := 0; i < len(svc.Methods); i++ {
		setType(svc.Methods[i].RequestType, tmap)
		setType(svc.Methods[i].ResponseType, tmap)
	}
''')]
