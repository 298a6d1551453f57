props=['C15','C16','C18','C32']
src=open('/repo/svcdef/svcparse/scanner.go').read()
bs=src[src.index('func BuildScanUnit('):src.index('// Service scanner conducts')]
edits=[('svcdef/svcparse/scanner.go',bs,'''func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
	buf, err := rr.readUnit()
	unit := &ScanUnit{
		InRpcDefinition: rr.withinDef,
		InRpcBody:       rr.withinBody,
		BraceLevel:      rr.braceLev,
		LineNo:          rr.LineNo,
		Value:           buf,
	}
	return unit, err
}

// readUnit reads the runes of one unit.
func (self *RuneReader) readUnit() ([]rune, error) {
	ch, err := self.ReadRune()
	if err != nil {
		return []rune{}, err
	}
	buf := []rune{ch}
	switch {
	case ch == '/':
		return self.readComment(buf)
	case ch == '"':
		return self.readString(buf)
	case unicode.IsSpace(ch):
		return self.readWhile(buf, unicode.IsSpace), nil
	case isIdent(ch):
		buf = self.readWhile(buf, isIdent)
		if string(buf) == "service" && self.braceLev == 0 && self.RunePos < self.ContentLen {
			if next := self.Contents[self.RunePos]; unicode.IsSpace(next) || next == '/' {
				self.withinDef = true
			}
		}
		return buf, nil
	case ch == '{':
		self.braceLev++
		if self.withinDef {
			self.withinDef, self.withinBody = false, true
		}
	case ch == '}':
		self.braceLev--
		if self.braceLev == 0 {
			self.withinBody = false
		}
	}
	return buf, nil
}

// readWhile appends the runes up to the first which is not ok.
func (self *RuneReader) readWhile(buf []rune, ok func(rune) bool) []rune {
	for {
		ch, err := self.ReadRune()
		if err != nil {
			return buf
		}
		if !ok(ch) {
			self.UnreadRune()
			return buf
		}
		buf = append(buf, ch)
	}
}

func (self *RuneReader) readString(buf []rune) ([]rune, error) {
	escaped := false
	for {
		ch, err := self.ReadRune()
		if err != nil {
			return buf, err
		}
		buf = append(buf, ch)
		switch {
		case escaped:
			escaped = false
		case ch == '\\\\':
			escaped = true
		case ch == '"':
			return buf, nil
		}
	}
}

func (self *RuneReader) readComment(buf []rune) ([]rune, error) {
	ch, err := self.ReadRune()
	if err != nil {
		return buf, err
	}
	switch ch {
	case '/':
		for ch != '\\n' {
			buf = append(buf, ch)
			if ch, err = self.ReadRune(); err != nil {
				return buf, err
			}
		}
		return append(buf, ch), nil
	case '*':
		buf = append(buf, ch)
		star := false
		for {
			if ch, err = self.ReadRune(); err != nil {
				return buf, err
			}
			buf = append(buf, ch)
			if star && ch == '/' {
				return buf, nil
			}
			star = ch == '*'
		}
	}
	self.UnreadRune()
	return buf, nil
}

''')]
