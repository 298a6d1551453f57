props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C19', 'C20', 'C31']
edits=[('gengokit/service/services.go', '\tvar h handler\n\tlog.WithField("Service Methods", len(svc.Methods)).Trace("Service being created")\n\th.mMap = newMethodMap(svc.Methods)\n\th.service = svc\n\n\tif prev == nil {\n\t\treturn &h, nil\n\t}\n\n\th.fset = token.NewFileSet()\n\tvar err error\n\tif h.ast, err = parser.ParseFile(h.fset, "", prev, parser.ParseComments); err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn &h, nil\n', '\tlog.WithField("Service Methods", len(svc.Methods)).Trace("Service being created")\n\th := &handler{service: svc, mMap: newMethodMap(svc.Methods)}\n\tif prev != nil {\n\t\th.fset = token.NewFileSet()\n\t\tfile, err := parser.ParseFile(h.fset, "", prev, parser.ParseComments)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\th.ast = file\n\t}\n\treturn h, nil\n'), ('gengokit/service/services.go', '\t\t\tif (name == ignoredFunc && x.Recv == nil) || !ast.IsExported(name) {\n\t\t\t\tlog.WithField("Func", name).\n\t\t\t\t\tDebug("Ignoring")\n\t\t\t\tnewDecls = append(newDecls, x)\n\t\t\t\tcontinue\n\t\t\t}\n', '\t\t\tif keep(x) {\n\t\t\t\tlog.WithField("Func", name).\n\t\t\t\t\tDebug("Ignoring")\n\t\t\t\tnewDecls = append(newDecls, x)\n\t\t\t\tcontinue\n\t\t\t}\n'), ('gengokit/service/services.go', '// updateParams updates the second', "// keep says that a function is none of the service's methods.\nfunc keep(f *ast.FuncDecl) bool {\n\tif !ast.IsExported(f.Name.Name) {\n\t\treturn true\n\t}\n\treturn f.Recv == nil && f.Name.Name == ignoredFunc\n}\n\n// updateParams updates the second")]
