props=['C19','C33']
edits=[
  ('svcdef/svcparse/parser.go', '\t// Recursively parse the methods of this service\n\tfor {\n\t\trpc, err := ParseMethod(lex)\n\t\tif err != nil {\n\t\t\t// 根据读取进度判断是否结束,不以获取rpc是否为空判断结束\n\t\t\tif errors.Is(err, ErrSvcDefEnd) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn nil, err\n\t\t}\n\n\t\tif rpc != nil {\n\t\t\ttoret.Methods = append(toret.Methods, rpc)\n\t\t}\n\t}\n\n', '\trpc, err := ParseMethod(lex)\n\tfor ; err == nil; rpc, err = ParseMethod(lex) {\n\t\tif rpc == nil {\n\t\t\tcontinue\n\t\t}\n\t\ttoret.Methods = append(toret.Methods, rpc)\n\t}\n\tif !errors.Is(err, ErrSvcDefEnd) {\n\t\treturn nil, err\n\t}\n\n'),
]
