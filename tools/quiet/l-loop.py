props=['C15','C16','C18','C32']
src=open('/repo/svcdef/svcparse/lexer.go').read()
a=src.index('		str := string(unit)\n'); b=src.index('	case len(unit) == 1:')
edits=[('svcdef/svcparse/lexer.go',src[a:b],'''		// Since a multi-line comment could be composed of many single line
		// comments
		var parts strings.Builder
		parts.WriteString(string(unit))
	Loop:
		for {
			before := scn.UnitPos
			one, err := scn.ReadUnit()
			if err != nil {
				break Loop
			}
			switch {
			case len(one) > 1 && one[0] == '/':
				parts.WriteString(string(one))
				continue
			case unicode.IsSpace(one[0]) && strings.IndexRune(string(one), '\\n') < 0:
				two, err := scn.ReadUnit()
				if err == nil && len(two) > 1 && two[0] == '/' {
					parts.WriteString(string(one))
					parts.WriteString(string(two))
					continue
				}
			}
			for scn.UnitPos > before {
				scn.UnreadUnit()
			}
			break
		}
		return &TokenGroup{COMMENT, parts.String(), scn.GetLineNumber()}
''')]
