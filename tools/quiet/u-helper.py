props=['C19', 'C21', 'C23', 'C24', 'C25', 'C34', 'C36']
edits=[]
tmpl=[('baron/NAME.pb.baron.go.tmpl', [('\t\tctx = context.WithValue(ctx, k, r.Header.Get(k))\n\t\tctx = context.WithValue(ctx, strings.ToLower(k), r.Header.Get(k))\n\t}\n', '\t\tctx = withHeader(ctx, k, strings.ToLower(k), r.Header.Get(k))\n\t}\n'), ('func HTTPHeadersToContext(', 'func withHeader(ctx context.Context, name, other, value string) context.Context {\n\treturn context.WithValue(context.WithValue(ctx, name, value), other, value)\n}\n\nfunc HTTPHeadersToContext('), ('\t\tif v != nil {\n\t\t\t// The key is added both in metadata format (k) which is all lower\n\t\t\t// and the http.CanonicalHeaderKey of the key so that it can be\n\t\t\t// accessed in either format\n\t\t\tctx = context.WithValue(ctx, k, v[0])\n\t\t\tctx = context.WithValue(ctx, http.CanonicalHeaderKey(k), v[0])\n\t\t}\n', '\t\tif v == nil {\n\t\t\tcontinue\n\t\t}\n\t\tfirst := v[0]\n\t\tctx = context.WithValue(ctx, http.CanonicalHeaderKey(k), first)\n\t\tctx = context.WithValue(ctx, k, first)\n')])]
