props=['C15','C16','C18','C32']
src=open('/repo/svcdef/svcparse/scanner.go').read()
a=src.index('func (self *SvcScanner) FastForward('); b=src.index('func (self *SvcScanner) GetLineNumber')
edits=[('svcdef/svcparse/scanner.go',src[a:b],'''func (self *SvcScanner) FastForward() error {
	if self.within() {
		return nil
	}
	for self.UnitPos < len(self.Buf) {
		if u := self.Buf[self.UnitPos]; u.InRpcDefinition && string(u.Value) == "service" {
			self.adopt(self.UnitPos)
			return nil
		}
		self.UnitPos++
	}
	if len(self.Buf) > 0 {
		self.adopt(len(self.Buf) - 1)
	}
	return io.EOF
}

func (self *SvcScanner) within() bool {
	return self.InBody || self.InDefinition
}

// adopt takes over the state after the unit at the index.
func (self *SvcScanner) adopt(i int) {
	u := self.Buf[i]
	self.InBody, self.InDefinition = u.InRpcBody, u.InRpcDefinition
	self.BraceLevel, self.lineNo = u.BraceLevel, u.LineNo
}

// ReadUnit returns the next "group" of runes found in the input stream. If the
// end of the stream is reached, io.EOF will be returned as error. No other
// errors will be returned.
func (self *SvcScanner) ReadUnit() ([]rune, error) {
	if self.UnitPos >= len(self.Buf) {
		return nil, io.EOF
	}
	self.adopt(self.UnitPos)
	self.UnitPos++
	return self.Buf[self.UnitPos-1].Value, nil
}

func (self *SvcScanner) UnreadUnit() error {
	switch self.UnitPos {
	case 0:
		return fmt.Errorf("Cannot unread when scanner is at start of input")
	case 1:
		self.UnitPos = 0
		self.InBody, self.InDefinition = false, false
		self.BraceLevel, self.lineNo = 0, 0
		return nil
	}
	self.UnitPos--
	self.adopt(self.UnitPos - 1)
	return nil
}

func (self *SvcScanner) UnReadToPosition(position int) error {
	for self.UnitPos != position {
		if err := self.UnreadUnit(); err != nil {
			return err
		}
	}
	return nil
}

''')]
