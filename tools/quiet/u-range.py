props=['C19', 'C21', 'C23', 'C24', 'C25', 'C34', 'C36']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\tfor k := range r.Header {\n', '\tfor k, vs := range r.Header {\n\t\tif len(vs) == 0 {\n\t\t\tcontinue\n\t\t}\n'), ('\t\tctx = context.WithValue(ctx, k, r.Header.Get(k))\n\t\tctx = context.WithValue(ctx, strings.ToLower(k), r.Header.Get(k))\n', '\t\tctx = context.WithValue(ctx, k, vs[0])\n\t\tctx = context.WithValue(ctx, strings.ToLower(k), vs[0])\n')])]
