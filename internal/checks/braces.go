package checks

import "regexp"

// judgeBraces tells whether a regular expression from the source finds the
// variables in braces of path templates, by what the expression means for a
// few templates (the expression is a constant of the source).
func judgeBraces(p string) verdict {
	re, err := regexp.Compile(p)
	if err != nil || p == "" {
		return undecided
	}
	for in, want := range map[string][]string{
		"/v1/{a}":                  {"{a}"},
		"/v1/{a}/{b}":              {"{a}", "{b}"},
		"/v1/{a.b}/x/{c_d}/{E9.f}": {"{a.b}", "{c_d}", "{E9.f}"},
		"/v1/{a}-{b}:verb":         {"{a}", "{b}"},
		"/v1/x":                    nil,
	} {
		got := re.FindAllString(in, -1)
		if len(got) != len(want) {
			return broken
		}
		for i := range got {
			if got[i] != want[i] {
				return broken
			}
		}
	}
	return undecided
}
