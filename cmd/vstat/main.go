// vstat decides one property of the repository from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verif/internal/checks"
)

func main() {
	prop := flag.String("prop", "", "property")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "directory of the evidence")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "internal error: %v\n", x)
			panic(x)
		}
	}()
	os.Exit(checks.Main(*prop, *repo, *verif, tier, seed))
}
