props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\tn := strconv.Itoa(i)\n\trv := ""\n\tfor _, c := range n {\n\t\tif engl, ok := DigitEnglish[rune(c)]; ok {\n\t\t\trv += strings.Title(engl)\n\t\t}\n\t}\n\treturn rv\n', '\tvar words []string\n\tfor _, digit := range strconv.Itoa(i) {\n\t\tengl, ok := DigitEnglish[digit]\n\t\tif !ok {\n\t\t\tcontinue\n\t\t}\n\t\twords = append(words, strings.Title(engl))\n\t}\n\treturn strings.Join(words, "")\n')]
