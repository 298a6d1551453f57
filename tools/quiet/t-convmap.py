props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tswitch goType {\n\tcase "uint32":\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 32)"\n\tcase "uint64":\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 64)"\n\tcase "int32":\n\t\tfType = "%s, err := strconv.ParseInt(%s, 10, 32)"\n\tcase "int64":\n\t\tfType = "%s, err := strconv.ParseInt(%s, 10, 64)"\n\tcase "bool":\n\t\tfType = "%s, err := strconv.ParseBool(%s)"\n\tcase "float32":\n\t\tfType = "%s, err := strconv.ParseFloat(%s, 32)"\n\tcase "float64":\n\t\tfType = "%s, err := strconv.ParseFloat(%s, 64)"\n\tcase "string":\n', '\tif parser, ok := parsers[goType]; ok {\n\t\tfType = "%s, err := strconv." + parser\n\t}\n\tswitch goType {\n\tcase "string":\n'), ('gengokit/httptransport/httptransport.go', '// createDecodeConvertFunc creates a go string', '// parsers of the types of parameters\nvar parsers = map[string]string{\n\t"uint32":  "ParseUint(%s, 10, 32)",\n\t"uint64":  "ParseUint(%s, 10, 64)",\n\t"int32":   "ParseInt(%s, 10, 32)",\n\t"int64":   "ParseInt(%s, 10, 64)",\n\t"bool":    "ParseBool(%s)",\n\t"float32": "ParseFloat(%s, 32)",\n\t"float64": "ParseFloat(%s, 64)",\n}\n\n// createDecodeConvertFunc creates a go string')]
