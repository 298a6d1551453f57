props=['C19','C33']
edits=[
  ('svcdef/svcparse/parser.go', 'func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {\n\n\trv := make([]*HTTPBinding, 0)\n\tnew_opt := &HTTPBinding{}\n\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\t// If there\'s a comment before the declaration of a new HttpBinding, then\n\t// we set that comment as the description of that HttpBinding. Since we\'re\n\t// iterating through tokens while ignoring whitespace, this technically\n\t// means that a comment could be "detached" from an HttpBinding, but still\n\t// precede that HttpBinding, and this parser will still set that comment as\n\t// the description of the HttpBinding. This is potentially a bug.\n\t//\n\t// TODO: Fix this property so that newlines, or their absence, are the\n\t// basis for association.\n\tfor {\n\t\tif tk == COMMENT {\n\t\t\tnew_opt.Description = val\n\t\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\t} else if tk == EOF || tk == ILLEGAL {\n\t\t\treturn nil, parserErr{\n\t\t\t\texpected: "non-illegal input",\n\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\tval:      tk.String(),\n\t\t\t}\n\t\t} else {\n\t\t\tbreak\n\t\t}\n\t}\n\n\tswitch {\n\tcase val == "option":\n\t\terr := fastForwardTill(lex, "{")\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tfields, custom, err := ParseBindingFields(lex)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tnew_opt.Fields = fields\n\t\tnew_opt.CustomHTTPPattern = custom\n\t\tgood_position := lex.GetPosition()\n\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\tfor {\n\t\t\tif tk == CLOSE_BRACE {\n\t\t\t\treturn append(rv, new_opt), nil\n\t\t\t} else if tk == COMMENT {\n\t\t\t\tgood_position = lex.GetPosition()\n\t\t\t} else if val == "additional_bindings" {\n\t\t\t\tlex.UnGetToPosition(good_position)\n\t\t\t\tmore_bindings, err := ParseHttpBindings(lex)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn nil, err\n\t\t\t\t}\n\t\t\t\trv = append(rv, more_bindings...)\n\t\t\t\tgood_position = lex.GetPosition()\n\t\t\t} else if tk == EOF || tk == ILLEGAL {\n\t\t\t\treturn nil, parserErr{\n\t\t\t\t\texpected: "legal token while parsing HttpBindings",\n\t\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\t\tval:      fmt.Sprintf("(%v) of type %v", val, tk),\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\treturn nil, parserErr{\n\t\t\t\t\texpected: "close brace or comment while parsing http bindings",\n\t\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\t\tval:      tk.String() + val,\n\t\t\t\t}\n\t\t\t}\n\t\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\t}\n\tcase val == "additional_bindings":\n\t\terr := fastForwardTill(lex, "{")\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tfields, custom, err := ParseBindingFields(lex)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tnew_opt.Fields = fields\n\t\tnew_opt.CustomHTTPPattern = custom\n\t\terr = fastForwardTill(lex, "}")\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn append(rv, new_opt), nil\n\tcase val == "}":\n\t\t// End of RPC\n\t\treturn nil, nil\n\t}\n\n\toptErr := optionalParseErr("\'}\', \'option\' or \'additional_bindings\' while parsing options", lex.GetLineNumber(), val)\n\n\treturn nil, optErr\n}\n\n', 'func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {\n\tdesc, tk, val, err := skipComments(lex)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif val == "}" {\n\t\treturn nil, nil\n\t}\n\tif val != "option" && val != "additional_bindings" {\n\t\treturn nil, optionalParseErr("\'}\', \'option\' or \'additional_bindings\' while parsing options", lex.GetLineNumber(), val)\n\t}\n\tmain, err := parseBinding(lex, desc)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif val == "additional_bindings" {\n\t\tif err := fastForwardTill(lex, "}"); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn []*HTTPBinding{main}, nil\n\t}\n\tvar all []*HTTPBinding\n\tfor {\n\t\tdesc, tk, val, err = skipComments(lex)\n\t\tswitch {\n\t\tcase err != nil:\n\t\t\treturn nil, err\n\t\tcase tk == CLOSE_BRACE:\n\t\t\tall = append(all, main)\n\t\t\treturn all, nil\n\t\tcase val != "additional_bindings":\n\t\t\treturn nil, parserErr{"close brace or comment while parsing http bindings", lex.GetLineNumber(), tk.String() + val}\n\t\t}\n\t\tb, err := parseBinding(lex, desc)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tall = append(all, b)\n\t\tif err := fastForwardTill(lex, "}"); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n}\n\n// skipComments returns the next token and the comment before it.\nfunc skipComments(lex *SvcLexer) (desc string, tk Token, val string, err error) {\n\tfor tk, val = lex.GetTokenIgnoreWhitespace(); ; tk, val = lex.GetTokenIgnoreWhitespace() {\n\t\tswitch tk {\n\t\tcase COMMENT:\n\t\t\tdesc = val\n\t\t\tcontinue\n\t\tcase EOF, ILLEGAL:\n\t\t\terr = parserErr{"non-illegal input", lex.GetLineNumber(), tk.String()}\n\t\t}\n\t\treturn\n\t}\n}\n\nfunc parseBinding(lex *SvcLexer, desc string) (*HTTPBinding, error) {\n\tif err := fastForwardTill(lex, "{"); err != nil {\n\t\treturn nil, err\n\t}\n\tb := &HTTPBinding{Description: desc}\n\tvar err error\n\tb.Fields, b.CustomHTTPPattern, err = ParseBindingFields(lex)\n\treturn b, err\n}\n\n'),
]
