props=['C15','C16','C18','C32']
F='svcdef/svcparse/scanner.go'
edits=[(F,'''	b := make([]*ScanUnit, 0)
	rr := NewRuneReader(r)
	for {
		unit, err := BuildScanUnit(rr)
		if err == nil {
			b = append(b, unit)
		} else {
			break
		}
	}
	return &SvcScanner{
		R:            NewRuneReader(r),
		InDefinition: false,
		InBody:       false,
		BraceLevel:   0,
		Buf:          b,
		UnitPos:      0,
	}
''','''	scn := new(SvcScanner)
	rr := NewRuneReader(r)
	unit, err := BuildScanUnit(rr)
	for ; err == nil; unit, err = BuildScanUnit(rr) {
		scn.Buf = append(scn.Buf, unit)
	}
	scn.R = NewRuneReader(r)
	return scn
'''),
(F,'''	switch {
	case unicode.IsLetter(r):
		return true
	case unicode.IsDigit(r):
		return true
	case r == '_':
		return true
	default:
		return false
	}
''','''	return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r)
'''),
(F,'''	var toret rune = 0
	var err error

	if self.RunePos < self.ContentLen {
		toret = self.Contents[self.RunePos]
		if toret == '\\n' {
			self.LineNo += 1
		}
		self.RunePos += 1
	} else {
		err = io.EOF
	}
	return toret, err
''','''	if self.RunePos >= len(self.Contents) {
		return 0, io.EOF
	}
	defer func() { self.RunePos++ }()
	ch := self.Contents[self.RunePos]
	if ch == '\\n' {
		self.LineNo++
	}
	return ch, nil
'''.replace('''	defer func() { self.RunePos++ }()
''','').replace('''	if ch ==''','''	self.RunePos++
	if ch ==''')),
(F,'''	switch self.Contents[self.RunePos] {
	case '\\n':
		self.LineNo -= 1
	}
''','''	if self.Contents[self.RunePos] == '\\n' {
		self.LineNo--
	}
'''),
]
