props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C19', 'C20', 'C31']
edits=[('gengokit/service/services.go', '\tvar newDecls []ast.Decl\n\tfor _, d := range decls {\n\t\tswitch x := d.(type) {\n\t\tcase *ast.FuncDecl:\n\t\t\tname', '\tnewDecls := make([]ast.Decl, 0, len(decls))\n\tfor i := range decls {\n\t\td := decls[i]\n\t\tswitch x := d.(type) {\n\t\tcase *ast.FuncDecl:\n\t\t\tname'), ('gengokit/service/services.go', '\t\t// *foo.Foo -> foo.Foo\n\t\tif ptr, _ := e.(*ast.StarExpr); ptr != nil {\n\t\t\tprefix = "*"\n\t\t\te = ptr.X\n\t\t}\n', ''), ('gengokit/service/services.go', '\tif ptr, _ := t.(*ast.StarExpr); ptr != nil {\n\t\tt = ptr.X\n\t}\n\t// pb.TYPE -> TYPE\n\tif sel, _ := t.(*ast.SelectorExpr); sel != nil {\n\t\t//pb.SOMETYPE -> pb.newType\n\t\tsel.Sel.Name = newType\n\t}\n', '\tswitch x := t.(type) {\n\tcase *ast.StarExpr:\n\t\tif sel, ok := x.X.(*ast.SelectorExpr); ok {\n\t\t\tsel.Sel.Name = newType\n\t\t}\n\tcase *ast.SelectorExpr:\n\t\tx.Sel.Name = newType\n\t}\n')]
