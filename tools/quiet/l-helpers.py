props=['C15','C16','C18','C32']
src=open('/repo/svcdef/svcparse/lexer.go').read()
a=src.index('func NewTokenGroup('); b=src.index('type SvcLexer struct')
edits=[('svcdef/svcparse/lexer.go',src[a:b],'''func NewTokenGroup(scn *SvcScanner) *TokenGroup {
	unit, err := nextUnit(scn)
	if err == io.EOF {
		return scn.group(EOF, string(unit))
	}
	if err != nil {
		return scn.group(ILLEGAL, err.Error())
	}
	text := string(unit)
	tk := tokenOf(unit, text)
	if tk == COMMENT {
		text = moreComments(scn, text)
	}
	return scn.group(tk, text)
}

// nextUnit is the next unit of a definition.
func nextUnit(scn *SvcScanner) ([]rune, error) {
	if scn.BraceLevel == 0 {
		if err := scn.FastForward(); err != nil {
			return nil, err
		}
	}
	return scn.ReadUnit()
}

func (self *SvcScanner) group(tk Token, text string) *TokenGroup {
	return &TokenGroup{token: tk, value: text, line: self.GetLineNumber()}
}

// tokenOf tells the type of a unit.
func tokenOf(unit []rune, text string) Token {
	if len(unit) == 0 {
		return ILLEGAL
	}
	if isComment(unit) {
		return COMMENT
	}
	switch first := unit[0]; {
	case unicode.IsSpace(first):
		return WHITESPACE
	case isIdent(first):
		return IDENT
	case first == '"':
		return STRING_LITERAL
	}
	switch text {
	case "(":
		return OPEN_PAREN
	case ")":
		return CLOSE_PAREN
	case "{":
		return OPEN_BRACE
	case "}":
		return CLOSE_BRACE
	}
	if len(unit) > 1 {
		return ILLEGAL
	}
	return SYMBOL
}

func isComment(unit []rune) bool {
	return len(unit) > 1 && unit[0] == '/'
}

// moreComments adds the comments that follow in the same line or directly.
func moreComments(scn *SvcScanner, text string) string {
	for {
		start := scn.UnitPos
		unit, err := scn.ReadUnit()
		if err != nil {
			return text
		}
		space := ""
		if unicode.IsSpace(unit[0]) && !strings.Contains(string(unit), "\\n") {
			space = string(unit)
			if unit, err = scn.ReadUnit(); err != nil {
				scn.UnReadToPosition(start)
				return text
			}
		}
		if !isComment(unit) {
			scn.UnReadToPosition(start)
			return text
		}
		text += space + string(unit)
	}
}

func NewSvcLexer(r io.Reader) *SvcLexer {
	l := &SvcLexer{Scn: NewSvcScanner(r), Buf: []*TokenGroup{}}
	for grp := NewTokenGroup(l.Scn); grp.token != ILLEGAL && grp.token != EOF; grp = NewTokenGroup(l.Scn) {
		l.Buf = append(l.Buf, grp)
	}
	return l
}

''')]
