edits=[('svcdef/resolvetypes.go','''	switch {
	case entry.Enum != nil:
		f.Enum = entry.Enum
	case entry.Message != nil:
		// log.Printf("[setType] filedType=%+v, tmap=%+v", f, tmap)
		// log.Printf("[setType] filedType=%+v, entry.Message=%+v", f, entry.Message)
		f.Message = entry.Message
	}
''','''	if entry.Enum != nil {
		f.Enum = entry.Enum
		return
	}
	if entry.Message != nil {
		f.Message = entry.Message
	}
'''),('svcdef/resolvetypes.go','''	rv := make(map[string]typeBox)
	for _, m := range sd.Messages {
		rv[m.Name] = typeBox{Message: m}
	}
	for _, e := range sd.Enums {
		rv[e.Name] = typeBox{Enum: e}
	}
	return rv
''','''	boxes := make(map[string]typeBox, len(sd.Messages)+len(sd.Enums))
	for i := range sd.Messages {
		boxes[sd.Messages[i].Name] = typeBox{Message: sd.Messages[i]}
	}
	for i := range sd.Enums {
		boxes[sd.Enums[i].Name] = typeBox{Enum: sd.Enums[i]}
	}
	return boxes
''')]
