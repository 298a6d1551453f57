props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C19', 'C20', 'C31']
edits=[('gengokit/service/services.go', '\t\t\tif ok := isValidFunc(x, m, svcName); ok == true {\n\t\t\t\tupdateParams(x, m[name])\n\t\t\t\tupdateResults(x, m[name])\n\t\t\t\tnewDecls = append(newDecls, x)\n\t\t\t\tdelete(m, name)\n\t\t\t}\n', '\t\t\tif !isValidFunc(x, m, svcName) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tmeth := m[name]\n\t\t\tdelete(m, name)\n\t\t\tupdateParams(x, meth)\n\t\t\tupdateResults(x, meth)\n\t\t\tnewDecls = append(newDecls, x)\n'), ('gengokit/service/services.go', '\tv := m[name]\n\n\tif v == nil {\n', '\tif _, known := m[name]; !known {\n')]
