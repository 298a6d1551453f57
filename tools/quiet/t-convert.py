props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tfType := ""\n\tswitch goType {\n\tcase "uint32":\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 32)"\n\tcase "uint64":\n\t\tfType = "%s, err := strconv.ParseUint(%s, 10, 64)"\n\tcase "int32":\n\t\tfType = "%s, err := strconv.ParseInt(%s, 10, 32)"\n\tcase "int64":\n\t\tfType = "%s, err := strconv.ParseInt(%s, 10, 64)"\n\tcase "bool":\n\t\tfType = "%s, err := strconv.ParseBool(%s)"\n\tcase "float32":\n\t\tfType = "%s, err := strconv.ParseFloat(%s, 32)"\n\tcase "float64":\n\t\tfType = "%s, err := strconv.ParseFloat(%s, 64)"\n\tcase "string":\n\t\tfType = "%s := %s"\n\t\tneedsErrorCheck = false\n\t}\n', '\tfType := parserOf(goType)\n\tif goType == "string" {\n\t\tneedsErrorCheck = false\n\t}\n'), ('gengokit/httptransport/httptransport.go', '// createDecodeConvertFunc creates a go string', '// parserOf is the statement that parses the text of a type.\nfunc parserOf(goType string) string {\n\tif goType == "string" {\n\t\treturn "%s := %s"\n\t}\n\tcall := ""\n\tswitch goType {\n\tcase "uint32":\n\t\tcall = "strconv.ParseUint(%s, 10, 32)"\n\tcase "uint64":\n\t\tcall = "strconv.ParseUint(%s, 10, 64)"\n\tcase "int32":\n\t\tcall = "strconv.ParseInt(%s, 10, 32)"\n\tcase "int64":\n\t\tcall = "strconv.ParseInt(%s, 10, 64)"\n\tcase "float32":\n\t\tcall = "strconv.ParseFloat(%s, 32)"\n\tcase "float64":\n\t\tcall = "strconv.ParseFloat(%s, 64)"\n\tcase "bool":\n\t\tcall = "strconv.ParseBool(%s)"\n\tdefault:\n\t\treturn ""\n\t}\n\treturn "%s, err := " + call\n}\n\n// createDecodeConvertFunc creates a go string')]
