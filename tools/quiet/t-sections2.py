props=['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
edits=[('gengokit/httptransport/httptransport.go', '\trv := []string{}\n\tparts := strings.Split(b.PathTemplate, "/")\n\tfor _, part := range parts {\n\t\tif len', '\tparts := strings.Split(b.PathTemplate, "/")\n\trv := make([]string, 0, len(parts))\n\tfor i := 0; i < len(parts); i++ {\n\t\tpart := parts[i]\n\t\tif len'), ('gengokit/httptransport/httptransport.go', 'rv = append(rv, `"`+part+`"`)', 'rv = append(rv, fmt.Sprintf("%q", part))')]
