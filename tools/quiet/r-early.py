props=['C19', 'C33']
edits=[
  ('svcdef/svcparse/parser.go', '\t\tfield.Value = noqoute\n\n\t\tfields = append(fields, field)\n', '\t\tfields = append(fields, field)\n\t\tfield.Value = noqoute\n\n'),
  ('svcdef/svcparse/lexer.go', 'func (self *SvcLexer) getTokenIgnore(to_ignore Token) (Token, string) {\n\tfor {\n\t\tt, s := self.GetToken()\n\t\tif t != to_ignore {\n\t\t\treturn t, s\n\t\t}\n\t}\n}', 'func (self *SvcLexer) getTokenIgnore(to_ignore Token) (Token, string) {\n\tfor self.tkPos < len(self.Buf) && self.Buf[self.tkPos].token == to_ignore {\n\t\tself.tkPos++\n\t}\n\treturn self.GetToken()\n}'),
  ('svcdef/svcparse/parser.go', '\t\tnew_opt.Fields = fields\n\t\tnew_opt.CustomHTTPPattern = custom\n\t\terr = fastForwardTill(lex, "}")\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn append(rv, new_opt), nil\n', '\t\trv = append(rv, new_opt)\n\t\tnew_opt.Fields = fields\n\t\tnew_opt.CustomHTTPPattern = custom\n\t\terr = fastForwardTill(lex, "}")\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn rv, nil\n'),
]
