props=['C19', 'C21', 'C23', 'C24', 'C25', 'C34', 'C36']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\t\tctx = context.WithValue(ctx, k, r.Header.Get(k))\n\t\tctx = context.WithValue(ctx, strings.ToLower(k), r.Header.Get(k))\n', '\t\tv := r.Header.Get(k)\n\t\tfor _, name := range []string{strings.ToLower(k), k} {\n\t\t\tctx = context.WithValue(ctx, name, v)\n\t\t}\n'), ('\t\tif v != nil {\n\t\t\t// The key', '\t\tif len(v) > 0 {\n\t\t\t// The key')])]
