props=['C15','C16','C18','C32']
F='svcdef/svcparse/scanner.go'
edits=[(F,'''	buf := make([]rune, 0)
	setReturn''','''	var buf []rune
	word := strings.Builder{}
	setReturn'''),
(F,'''				if string(buf) == "service" && rr''','''				if word.String() == "service" && rr'''),
(F,'''	case isIdent(ch):
		// Group consecutive letters
		for {''','''	case isIdent(ch):
		// Group consecutive letters
		word.WriteRune(ch)
		for {'''),
(F,'''				break
			}
			buf = append(buf, ch)
		}
	case ch == '{':''','''				break
			}
			buf = append(buf, ch)
			word.WriteRune(ch)
		}
	case ch == '{':'''),
]
