props=['C02', 'C05', 'C21', 'C23', 'C25', 'C33']
edits=[('pkg/strs.go', '\t\t\tfor ; i+1 < len(s) && isASCIILower(s[i+1]); i++ {\n\t\t\t\tb = append(b, s[i+1])\n\t\t\t}\n', '\t\t\tfor i+1 < len(s) && isASCIILower(s[i+1]) {\n\t\t\t\ti++\n\t\t\t\tb = append(b, s[i])\n\t\t\t}\n'), ('pkg/strs.go', "\tvar b []byte\n\tfor i := 0; i < len(s); i++ {\n\t\tc := s[i]\n\t\tswitch {\n\t\tcase c == '.' &&", "\tb := make([]byte, 0, len(s))\n\tfor i := 0; i < len(s); i++ {\n\t\tc := s[i]\n\t\tswitch {\n\t\tcase c == '.' &&")]
