props=['C19','C33']
edits=[
  ('svcdef/svcparse/parser.go', 'func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err error) {\n\tfield := &Field{}\n\tfor {\n\t\ttk, val := lex.GetTokenIgnoreWhitespace()\n\t\tfor {\n\t\t\tif tk == COMMENT {\n\t\t\t\tfield.Description = val\n\t\t\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\t\t} else if tk == EOF || tk == ILLEGAL {\n\t\t\t\treturn nil, nil, parserErr{\n\t\t\t\t\texpected: "legal token while parsing binding fields",\n\t\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\t\tval:      val,\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\t// No longer any more fields\n\t\tif tk == CLOSE_BRACE && val == "}" {\n\t\t\tlex.UnGetToken()\n\t\t\tbreak\n\t\t} else if val == "additional_bindings" {\n\t\t\tlex.UnGetToken()\n\t\t\tbreak\n\t\t}\n\t\t// Use recursion to parse custom HTTP verb sections\n\t\tif val == "custom" {\n\t\t\terr := fastForwardTill(lex, "{")\n\t\t\tif err != nil {\n\t\t\t\treturn nil, nil, errors.Wrap(err, "cannot fastforward till opening brace")\n\t\t\t}\n\t\t\t// Since there cannot be a custom within a custom, we ignore custom\n\t\t\t// values returned from a recursive parsing of more fields\n\t\t\tc, _, err := ParseBindingFields(lex)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, nil, errors.Wrap(err, "cannot parse custom binding fields")\n\t\t\t}\n\t\t\tcustom = c\n\t\t\terr = fastForwardTill(lex, "}")\n\t\t\tif err != nil {\n\t\t\t\treturn nil, nil, errors.Wrap(err, "cannot fastforward to closing brace")\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\n\t\tfield.Kind = val\n\t\tfield.Name = val\n\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\tif tk != SYMBOL || val != ":" {\n\t\t\treturn nil, nil, parserErr{\n\t\t\t\texpected: "symbol \':\'",\n\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\tval:      val,\n\t\t\t}\n\t\t}\n\n\t\ttk, val = lex.GetTokenIgnoreWhitespace()\n\t\tif tk != STRING_LITERAL {\n\t\t\treturn nil, nil, parserErr{\n\t\t\t\texpected: "string literal",\n\t\t\t\tline:     lex.GetLineNumber(),\n\t\t\t\tval:      val,\n\t\t\t}\n\t\t}\n\n\t\tnoqoute, err := strconv.Unquote(val)\n\t\tif err != nil {\n\t\t\treturn nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)\n\t\t}\n\t\tfield.Value = noqoute\n\n\t\tfields = append(fields, field)\n\t\tfield = &Field{}\n\t}\n\n\treturn fields, custom, nil\n}\n', 'func ParseBindingFields(lex *SvcLexer) ([]*Field, []*Field, error) {\n\tvar fields, custom []*Field\n\tfor {\n\t\tf, kind, err := parseField(lex)\n\t\tif err != nil {\n\t\t\treturn nil, nil, err\n\t\t}\n\t\tswitch kind {\n\t\tcase "":\n\t\t\tfields = append(fields, f)\n\t\tcase "custom":\n\t\t\tif custom, err = parseCustom(lex); err != nil {\n\t\t\t\treturn nil, nil, errors.Wrap(err, "cannot parse custom binding fields")\n\t\t\t}\n\t\tdefault:\n\t\t\tlex.UnGetToken()\n\t\t\treturn fields, custom, nil\n\t\t}\n\t}\n}\n\nfunc parseCustom(lex *SvcLexer) ([]*Field, error) {\n\tif err := fastForwardTill(lex, "{"); err != nil {\n\t\treturn nil, err\n\t}\n\tc, _, err := ParseBindingFields(lex)\n\tif err == nil {\n\t\terr = fastForwardTill(lex, "}")\n\t}\n\treturn c, err\n}\n\n// parseField takes one field, or the word or symbol that is there instead.\nfunc parseField(lex *SvcLexer) (*Field, string, error) {\n\tdesc := ""\n\ttk, val := lex.GetTokenIgnoreWhitespace()\n\tfor ; tk == COMMENT; tk, val = lex.GetTokenIgnoreWhitespace() {\n\t\tdesc = val\n\t}\n\tfail := func(what string) (*Field, string, error) {\n\t\treturn nil, "", parserErr{expected: what, line: lex.GetLineNumber(), val: val}\n\t}\n\tswitch {\n\tcase tk == EOF, tk == ILLEGAL:\n\t\treturn fail("legal token while parsing binding fields")\n\tcase tk == CLOSE_BRACE, val == "additional_bindings", val == "custom":\n\t\treturn nil, val, nil\n\t}\n\tkind := val\n\tif tk, val = lex.GetTokenIgnoreWhitespace(); tk != SYMBOL || val != ":" {\n\t\treturn fail("symbol \':\'")\n\t}\n\tif tk, val = lex.GetTokenIgnoreWhitespace(); tk != STRING_LITERAL {\n\t\treturn fail("string literal")\n\t}\n\tvalue, err := strconv.Unquote(val)\n\tif err != nil {\n\t\treturn nil, "", errors.Wrapf(err, "cannot unquote value %q", val)\n\t}\n\treturn &Field{Name: kind, Description: desc, Kind: kind, Value: value}, "", nil\n}\n'),
]
