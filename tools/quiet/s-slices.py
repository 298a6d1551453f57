props=['C15','C16','C18','C32']
src=open('/repo/svcdef/svcparse/scanner.go').read()
bs=src[src.index('func BuildScanUnit('):src.index('// Service scanner conducts')]
edits=[('svcdef/svcparse/scanner.go',bs,'''// peek returns the next rune without taking it.
func (self *RuneReader) peek() (rune, bool) {
	if self.RunePos >= self.ContentLen {
		return 0, false
	}
	return self.Contents[self.RunePos], true
}

func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
	start := rr.RunePos
	err := rr.skipUnit()
	return &ScanUnit{
		InRpcDefinition: rr.withinDef,
		InRpcBody:       rr.withinBody,
		BraceLevel:      rr.braceLev,
		LineNo:          rr.LineNo,
		Value:           rr.Contents[start:rr.RunePos],
	}, err
}

func (self *RuneReader) skipUnit() error {
	start := self.RunePos
	ch, err := self.ReadRune()
	if err != nil {
		return err
	}
	next, more := self.peek()
	switch {
	case ch == '/' && !more:
		return io.EOF
	case ch == '/' && next == '/':
		for ch != '\\n' {
			if ch, err = self.ReadRune(); err != nil {
				return err
			}
		}
	case ch == '/' && next == '*':
		self.ReadRune()
		var last rune
		for {
			ch, err = self.ReadRune()
			if err != nil {
				return err
			}
			if last == '*' && ch == '/' {
				break
			}
			last = ch
		}
	case ch == '"':
		for {
			if ch, err = self.ReadRune(); err != nil {
				return err
			}
			if ch == '"' {
				break
			}
			if ch != '\\\\' {
				continue
			}
			if _, err = self.ReadRune(); err != nil {
				return err
			}
		}
	case unicode.IsSpace(ch):
		for more && unicode.IsSpace(next) {
			self.ReadRune()
			next, more = self.peek()
		}
	case isIdent(ch):
		for more && isIdent(next) {
			self.ReadRune()
			next, more = self.peek()
		}
		if self.braceLev == 0 && more && (next == '/' || unicode.IsSpace(next)) && string(self.Contents[start:self.RunePos]) == "service" {
			self.withinDef = true
		}
	case ch == '{':
		self.braceLev += 1
		self.withinBody = self.withinBody || self.withinDef
		self.withinDef = false
	case ch == '}':
		self.braceLev -= 1
		self.withinBody = self.withinBody && self.braceLev != 0
	}
	return nil
}

''')]
