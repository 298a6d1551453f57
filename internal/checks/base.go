// Package checks decides the properties of properties.jsonl from the source.
package checks

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/internal/gsa"
)

// Ctx is what a check works on.
type Ctx struct {
	Repo  string
	P     *gsa.Program
	Tier  string
	Recur int // recursive activations followed; 0 is one
	cache map[string]any
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string   // the rule applied, for the evidence
	Assumptions []string // what it takes for granted
	Run         func(c *Ctx, r *Report)
}

// Registry holds the checks by property.
var Registry = map[string]*Check{}

func register(c *Check) { Registry[c.ID] = c }

// Violation is one construct that breaks the property.
type Violation struct {
	Key string // stable name of the failing construct (for the known findings)
	Pos string
	Msg string
}

// Report collects the results of one check.
type Report struct {
	ctx        *Ctx
	Violations []Violation
	Discharged []string
	Undecided  []string
	Analysed   map[string]any
	seen       map[string]bool
}

// sprintf formats a message; terms in it may have been cut within a character.
func sprintf(format string, a ...any) string {
	return strings.ToValidUTF8(fmt.Sprintf(format, a...), "")
}

// Ok records a discharged obligation.
func (r *Report) Ok(format string, a ...any) {
	r.Discharged = append(r.Discharged, sprintf(format, a...))
}

// Viol records a violation.
func (r *Report) Viol(key string, pos token.Pos, format string, a ...any) {
	p := ""
	if pos.IsValid() && r.ctx.P != nil {
		ps := r.ctx.P.SSA.Fset.Position(pos)
		if rel, err := filepath.Rel(r.ctx.Repo, ps.Filename); err == nil {
			ps.Filename = rel
		}
		p = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
	}
	m := sprintf(format, a...)
	if r.seen[key+p+m] {
		return
	}
	r.seen[key+p+m] = true
	r.Violations = append(r.Violations, Violation{key, p, m})
}

// Unknown records an obligation the analysis could not decide.
func (r *Report) Unknown(format string, a ...any) {
	m := sprintf(format, a...)
	for _, u := range r.Undecided {
		if u == m {
			return
		}
	}
	r.Undecided = append(r.Undecided, m)
}

// Require turns a condition into an obligation.
func (r *Report) Require(ok bool, key string, pos token.Pos, what, bad string) bool {
	if ok {
		r.Ok("%s", what)
	} else {
		r.Viol(key, pos, "%s", bad)
	}
	return ok
}

// Main runs the check of property id and returns the exit code.
func Main(id, repo, verif, tier string, seed int) int {
	start := time.Now()
	c := Registry[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check for %s\n", id)
		return 2
	}
	ctx := &Ctx{Repo: repo, Tier: tier, cache: map[string]any{}}
	p, err := gsa.Load(repo)
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot load %s: %v\n", repo, err)
		return 2
	}
	ctx.P = p
	r := &Report{ctx: ctx, Analysed: map[string]any{}, seen: map[string]bool{}}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				// the analysis gave up: nothing is claimed about what is left
				r.Unknown("the analysis stopped: %v", x)
				if os.Getenv("VSTAT_DEBUG") != "" {
					os.Stderr.Write(rdebug.Stack())
				}
			}
		}()
		c.Run(ctx, r)
	}()
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 840 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		r.Unknown("the analysis did not end within %v", limit)
	}
	return finish(c, ctx, r, verif, seed, start)
}

func finish(c *Check, ctx *Ctx, r *Report, verif string, seed int, start time.Time) int {
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var fresh []Violation
	told := map[string]bool{}
	for _, v := range r.Violations {
		if k, ok := known[c.ID+" "+v.Key]; ok {
			if !told[v.Key] {
				told[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Pos < fresh[j].Pos })
	cov := map[string]any{
		"explanation": "Static analysis of the current source of the repository; nothing is executed. " + c.Rule,
		"rule":        c.Rule,
		"obligations": len(r.Discharged) + len(r.Undecided) + len(r.Violations),
		"discharged":  len(r.Discharged),
		"undecided":   r.Undecided,
		"analysed":    r.Analysed,
		"samples":     sample(r.Discharged, 60),
	}
	if len(fresh) > 0 {
		cov["violations"] = fresh
	}
	ev := map[string]any{
		"property": c.ID, "tier": ctx.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": append([]string{}, c.Assumptions...),
		"wall_s": float64(time.Since(start).Milliseconds()) / 1000, "violations": len(fresh),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replay := filepath.Join(dir, c.ID+".violation.txt")
	os.Remove(replay)
	for _, u := range r.Undecided {
		fmt.Printf("UNDECIDED property=%s %s\n", c.ID, u)
	}
	fmt.Printf("%s: %d obligations discharged, %d undecided, %d violated (%.1f s)\n", c.ID, len(r.Discharged), len(r.Undecided), len(fresh), time.Since(start).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s is violated by the source of %s\nrule: %s\n", c.ID, ctx.Repo, c.Rule)
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", v.Pos, v.Key, v.Msg)
		fmt.Printf("%s: [%s] %s\n", v.Pos, v.Key, v.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}

func sample(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// readKnown reads the lines "finding: property=<id> key=<key> <what fails>".
func readKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		out[strings.TrimPrefix(fs[0], "property=")+" "+strings.TrimPrefix(fs[1], "key=")] = fs[2]
	}
	return out
}

// ---- helpers ----------------------------------------------------------------

// fn finds a repository function; the path is relative to the module.
func (c *Ctx) fn(pkg, name string) *ssa.Function {
	if pkg != "" {
		pkg = "/" + pkg
	}
	return c.P.Func(c.P.Module()+pkg, name)
}

// mod gives the full name of a package of the repository.
func (c *Ctx) mod(pkg string) string { return c.P.Module() + "/" + pkg }

func funcsAnalysed(e *gsa.Engine) []string {
	var out []string
	for f := range e.Funcs {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

func notes(e *gsa.Engine) []string {
	var out []string
	for n := range e.Notes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
