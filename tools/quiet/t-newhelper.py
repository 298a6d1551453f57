props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tfor _, meth := range svc.Methods {\n\t\tif len(meth.Bindings) > 0 {\n\t\t\tnMeth := NewMethod(meth)\n\t\t\trv.Methods = append(rv.Methods, nMeth)\n\t\t}\n\t}\n\treturn &rv\n', '\tfor i := range svc.Methods {\n\t\tif m := svc.Methods[i]; len(m.Bindings) != 0 {\n\t\t\trv.Methods = append(rv.Methods, NewMethod(m))\n\t\t}\n\t}\n\treturn &rv\n'), ('gengokit/httptransport/httptransport.go', '\tfor i := range meth.Bindings {\n\t\tnBinding := NewBinding(i, meth)\n\t\tnBinding.Parent = &nMeth\n\t\tnMeth.Bindings = append(nMeth.Bindings, nBinding)\n\t}\n', '\tnMeth.Bindings = make([]*Binding, len(meth.Bindings))\n\tfor i := 0; i < len(meth.Bindings); i++ {\n\t\tnMeth.Bindings[i] = NewBinding(i, meth)\n\t\tnMeth.Bindings[i].Parent = &nMeth\n\t}\n')]
