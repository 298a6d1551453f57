props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tswitch f.GoType {\n\tcase "uint32", "int32", "float32":\n\t\tfType = f.GoType + "(%s)"\n\tdefault:\n\t\tfType = "%s"\n\t}\n\tif f.IsEnum {\n\t\tfType = f.GoType + "(%s)"\n', '\tfType = "%s"\n\tif f.IsEnum || f.GoType == "uint32" || f.GoType == "int32" || f.GoType == "float32" {\n\t\tfType = f.GoType + "(%s)"\n\t}\n\tif f.IsEnum {\n')]
