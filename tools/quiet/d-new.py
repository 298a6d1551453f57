edits=[('svcdef/svcdef.go','''		for _, t := range typespecs {
			switch typdf := t.Type.(type) {
			case *ast.Ident:
				if typdf.Name == "int32" {
					nenm, err := NewEnum(t)
					if err != nil {
						return nil, errors.Wrapf(err, "error parsing enum %q", t.Name.Name)
					}
					rv.Enums = append(rv.Enums, nenm)
				}
			case *ast.StructType:
				// Non-exported structs do not represent types
				if !t.Name.IsExported() {
					break
				}
				// if its a oneof type it's not a "message"
				if _, ok := oneofTypes[t.Name.Name]; ok {
					break
				}
				nmsg, err := NewMessage(t)
				if err != nil {
					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
				}
				rv.Messages = append(rv.Messages, nmsg)
			}
		}
	}
''','''		if err := rv.addTypes(typespecs, oneofTypes); err != nil {
			return nil, err
		}
	}
'''),('svcdef/svcdef.go','''func NewEnum(e *ast.TypeSpec)''','''// addTypes adds the messages and enums declared by specs
func (sd *Svcdef) addTypes(specs []*ast.TypeSpec, options map[string]string) error {
	for i := 0; i < len(specs); i++ {
		name := specs[i].Name
		if id, ok := specs[i].Type.(*ast.Ident); ok && id.Name == "int32" {
			enum, err := NewEnum(specs[i])
			if err != nil {
				return errors.Wrapf(err, "error parsing enum %q", name.Name)
			}
			sd.Enums = append(sd.Enums, enum)
			continue
		}
		if _, ok := specs[i].Type.(*ast.StructType); !ok {
			continue
		}
		if _, isOption := options[name.Name]; isOption || !ast.IsExported(name.Name) {
			continue
		}
		msg, err := NewMessage(specs[i])
		if err != nil {
			return errors.Wrapf(err, "error parsing message %q", name.Name)
		}
		sd.Messages = append(sd.Messages, msg)
	}
	return nil
}

func NewEnum(e *ast.TypeSpec)'''),('svcdef/svcdef.go','''				// Exclude Unsave{NAME}Server interface
				if strings.HasPrefix(t.Name.Name, "Unsafe") {
					break
				}
''','''				// Exclude Unsave{NAME}Server interface
				name := t.Name.Name
				if strings.HasPrefix(name, "Unsafe") {
					continue
				}
''')]
