props=['C19','C33']
edits=[
  ('svcdef/svcparse/parser.go', 'func ParseMethod(lex *SvcLexer) (*Method, error) {\n\tvar desc string\n\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\tfor {\n\t\tif tk == COMMENT {\n\t\t\tdesc = val\n\t\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\t} else {\n\t\t\tbreak\n\t\t}\n\t}\n\n\tswitch {\n\t// Hit the end of the service definition, so return a nil method\n\tcase tk == CLOSE_BRACE:\n\t\treturn nil, ErrSvcDefEnd\n\tcase tk != IDENT || val != "rpc":\n\t\treturn nil, parserErr{\n\t\t\texpected: "identifier \'rpc\'",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\ttoret := &Method{}\n\ttoret.Description = desc\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\tif tk != IDENT {\n\t\treturn nil, parserErr{\n\t\t\texpected: "a string identifier",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\ttoret.Name = val\n\n\t// TODO Add some kind of lookup of the existing messages instead of\n\t// creating a new message\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\tif tk != OPEN_PAREN {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\'(\'",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t// Here we ignore the "stream" keyword which may appear in the arguments of\n\t// an RPC definition\n\tif val == "stream" {\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t}\n\tif tk != IDENT {\n\t\treturn nil, parserErr{\n\t\t\texpected: "a string identifier in first argument to method",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\t// Looping here handles for request types from other packages\n\t// (google.protobuf.Struct). Only the last ident is kept as baron\n\t// doesn\'t support properly importanting external packages, but by\n\t// using this approach type aliases can be made alongside the generated\n\t// pb.go code (type Struct = types.Struct)\n\tfor ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {\n\t\tswitch tk {\n\t\tcase SYMBOL: // skip\n\t\tcase IDENT:\n\t\t\ttoret.RequestType = val\n\t\tdefault:\n\t\t\treturn nil, parserErr{\n\t\t\t\texpected: "\')\' or \'.\'",\n\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\tval:      val,\n\t\t\t}\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\tif tk != IDENT || val != "returns" {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\'returns\' keyword",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\tif tk != OPEN_PAREN {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\'(\'",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t// Here we ignore the "stream" keyword which may appear in the arguments of\n\t// an RPC definition\n\tif val == "stream" {\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t}\n\tif tk != IDENT {\n\t\treturn nil, parserErr{\n\t\t\texpected: "a string identifier in return argument to method",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\t// Looping here handles for response types from other packages\n\t// (google.protobuf.Struct). Only the last ident is kept as baron\n\t// doesn\'t support properly importanting external packages, but by\n\t// using this approach type aliases can be made alongside the generated\n\t// pb.go code (type Struct = types.Struct)\n\tfor ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {\n\t\tswitch tk {\n\t\tcase SYMBOL: // skip\n\t\tcase IDENT:\n\t\t\ttoret.ResponseType = val\n\t\tdefault:\n\t\t\treturn nil, parserErr{\n\t\t\t\texpected: "\')\' or \'.\'",\n\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\tval:      val,\n\t\t\t}\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreWhitespace()\n\tif val == ";" {\n\t\t// No http options defined\n\t\treturn nil, nil\n\t} else if tk != OPEN_BRACE {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\'{\' after declaration of method signature",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val,\n\t\t}\n\t}\n\n\tbindings, err := ParseHttpBindings(lex)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\t// End of RPC (no httpoptions)\n\tif bindings == nil {\n\t\treturn nil, nil\n\t}\n\ttoret.HTTPBindings = bindings\n\n\t// There should be a semi-colon immediately following all \'option\'\n\t// declarations, which we should check for\n\ttk, val = lex.GetTokenIgnoreCommentAndWhitespace()\n\tif tk != SYMBOL || val != ";" {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\';\' after declaration of http options",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val + tk.String(),\n\t\t}\n\t}\n\n\ttk, val = lex.GetTokenIgnoreCommentAndWhitespace()\n\tif tk != CLOSE_BRACE {\n\t\treturn nil, parserErr{\n\t\t\texpected: "\'}\' after declaration of http options marking end of rpc declarations",\n\t\t\tline:     lex.GetLineNumber(),\n\t\t\tval:      val + tk.String(),\n\t\t}\n\t}\n\n\treturn toret, nil\n\n}\n\n', '// expect takes a token of the type given.\nfunc expect(lex *SvcLexer, want Token, what string) (string, error) {\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\tif tk == want {\n\t\treturn val, nil\n\t}\n\treturn "", parserErr{what, lex.GetLineNumber(), val}\n}\n\n// parseType takes a type in parentheses and returns the last part of its name.\nfunc parseType(lex *SvcLexer, what string) (string, error) {\n\tif _, err := expect(lex, OPEN_PAREN, "\'(\'"); err != nil {\n\t\treturn "", err\n\t}\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\tif val == "stream" {\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t}\n\tif tk != IDENT {\n\t\treturn "", parserErr{"a string identifier in " + what, lex.GetLineNumber(), val}\n\t}\n\tname := val\n\tfor {\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\tif tk == CLOSE_PAREN {\n\t\t\treturn name, nil\n\t\t}\n\t\tif tk == IDENT {\n\t\t\tname = val\n\t\t} else if tk != SYMBOL {\n\t\t\treturn "", parserErr{"\')\' or \'.\'", lex.GetLineNumber(), val}\n\t\t}\n\t}\n}\n\nfunc ParseMethod(lex *SvcLexer) (*Method, error) {\n\tdesc := ""\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\tfor tk == COMMENT {\n\t\tdesc = val\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t}\n\tif tk == CLOSE_BRACE {\n\t\treturn nil, ErrSvcDefEnd\n\t}\n\tif tk != IDENT || val != "rpc" {\n\t\treturn nil, parserErr{"identifier \'rpc\'", lex.GetLineNumber(), val}\n\t}\n\tname, err := expect(lex, IDENT, "a string identifier")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treq, err := parseType(lex, "first argument to method")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif kw, err := expect(lex, IDENT, "\'returns\' keyword"); err != nil {\n\t\treturn nil, err\n\t} else if kw != "returns" {\n\t\treturn nil, parserErr{"\'returns\' keyword", lex.GetLineNumber(), kw}\n\t}\n\tres, err := parseType(lex, "return argument to method")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tswitch tk, val = lex.GetTokenIgnoreWhitespace(); {\n\tcase val == ";":\n\t\treturn nil, nil\n\tcase tk != OPEN_BRACE:\n\t\treturn nil, parserErr{"\'{\' after declaration of method signature", lex.GetLineNumber(), val}\n\t}\n\tbindings, err := ParseHttpBindings(lex)\n\tif err != nil || bindings == nil {\n\t\treturn nil, err\n\t}\n\tif tk, val = lex.GetTokenIgnoreCommentAndWhitespace(); tk != SYMBOL || val != ";" {\n\t\treturn nil, parserErr{"\';\' after declaration of http options", lex.GetLineNumber(), val + tk.String()}\n\t}\n\tif tk, val = lex.GetTokenIgnoreCommentAndWhitespace(); tk != CLOSE_BRACE {\n\t\treturn nil, parserErr{"\'}\' after declaration of http options", lex.GetLineNumber(), val + tk.String()}\n\t}\n\treturn &Method{\n\t\tName:         name,\n\t\tDescription:  desc,\n\t\tRequestType:  req,\n\t\tResponseType: res,\n\t\tHTTPBindings: bindings,\n\t}, nil\n}\n\n'),
]
