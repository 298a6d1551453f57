edits=[('gengokit/httptransport/httptransport.go','''	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			nMeth := NewMethod(meth)
			rv.Methods = append(rv.Methods, nMeth)
		}
	}
''','''	for i := range svc.Methods {
		if len(svc.Methods[i].Bindings) == 0 {
			continue
		}
		rv.Methods = append(rv.Methods, NewMethod(svc.Methods[i]))
	}
'''),('gengokit/httptransport/httptransport.go','''		newField.ConvertFunc, newField.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(newField)
		newField.TypeConversion = createDecodeTypeConversion(newField)
''','''		newField.complete()
'''),('gengokit/httptransport/httptransport.go','''// PathSections returns''','''// complete adds how the field is converted
func (f *Field) complete() {
	f.TypeConversion = createDecodeTypeConversion(*f)
	f.ConvertFunc, f.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(*f)
}

// PathSections returns''')]
