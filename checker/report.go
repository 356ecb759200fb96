package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o obligation) key() string { return o.Rule + "|" + o.Construct }

// Report collects the obligations of one property.
type Report struct {
	id      string
	tier    string
	seed    int
	verif   string
	verbose bool
	def     *checkDef
	obs     []obligation
	counts  map[string]int
	floors  []string
	notes   []string
}

func newReport(id, tier string, seed int, verif string, verbose bool) *Report {
	return &Report{id: id, tier: tier, seed: seed, verif: verif, verbose: verbose, counts: map[string]int{}}
}

// Check records one obligation: `construct` identifies it independently of line numbers.
func (r *Report) Check(rule, construct, pos string, ok bool, detail string) {
	r.obs = append(r.obs, obligation{rule, construct, pos, ok, detail})
}

// OK records a discharged obligation.
func (r *Report) OK(rule, construct, pos, how string) { r.Check(rule, construct, pos, true, how) }

// Fail records an obligation that is not discharged.
func (r *Report) Fail(rule, construct, pos, detail string) {
	r.Check(rule, construct, pos, false, detail)
}

// Count adds to a named coverage counter.
func (r *Report) Count(name string, n int) { r.counts[name] += n }

// Floor fails the check when fewer instances were found than confirmed by hand.
func (r *Report) Floor(name string, got, min int) {
	r.counts[name] = got
	r.floors = append(r.floors, fmt.Sprintf("%s: %d (floor %d)", name, got, min))
	if got < min {
		r.Fail("instance-floor", name, "", fmt.Sprintf("only %d instances of %q found, at least %d were confirmed by reading: the analysis no longer recognises the code it decides", got, name, min))
	}
}

func (r *Report) Note(format string, a ...interface{}) {
	r.notes = append(r.notes, fmt.Sprintf(format, a...))
}

// SelfTest records that a positive example (a violation planted in a small program
// that is part of the checker) is recognised by the rule.
func (r *Report) SelfTest(rule string, fired bool) {
	r.Check("self-test", rule, "", fired, "the rule must fire on its built-in positive example")
}

type knownFinding struct{ property, key, what string }

func readKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var res []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		// property=C01 key=<rule|construct> :: <what fails>
		var k knownFinding
		head, what, ok := strings.Cut(l, " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %q", l)
		}
		p, key, ok := strings.Cut(head, " key=")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %q", l)
		}
		k.property = strings.TrimPrefix(p, "property=")
		k.key = key
		k.what = what
		res = append(res, k)
	}
	return res, nil
}

func (r *Report) finish(w *World, wall float64) bool {
	known, err := readKnown(filepath.Join(r.verif, "known_findings.txt"))
	if err != nil {
		r.Fail("checker", "known-findings", "", err.Error())
	}
	var bad, knownHit []obligation
	discharged := 0
	rules := map[string][2]int{}
	for _, o := range r.obs {
		c := rules[o.Rule]
		c[0]++
		if o.OK {
			c[1]++
			discharged++
		} else {
			isKnown := false
			for _, k := range known {
				if k.property == r.id && k.key == o.key() {
					isKnown = true
				}
			}
			if isKnown {
				knownHit = append(knownHit, o)
			} else {
				bad = append(bad, o)
			}
		}
		rules[o.Rule] = c
	}
	// stable output
	var names []string
	for n := range r.counts {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Printf("property %s: %d obligations, %d discharged\n", r.id, len(r.obs), discharged)
	for _, n := range names {
		fmt.Printf("  analysed: %s = %d\n", n, r.counts[n])
	}
	var rn []string
	for n := range rules {
		rn = append(rn, n)
	}
	sort.Strings(rn)
	perRule := map[string]interface{}{}
	for _, n := range rn {
		fmt.Printf("  rule %s: %d/%d\n", n, rules[n][1], rules[n][0])
		perRule[n] = map[string]int{"obligations": rules[n][0], "discharged": rules[n][1]}
	}
	if r.verbose {
		for _, o := range r.obs {
			fmt.Printf("    [%v] %s | %s | %s | %s\n", o.OK, o.Rule, o.Construct, o.Pos, o.Detail)
		}
	}
	seen := map[string]bool{}
	for _, o := range knownHit {
		if seen[o.key()] {
			continue
		}
		seen[o.key()] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s): %s\n", r.id, o.key(), o.Pos, o.Detail)
	}
	_ = os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	replay := filepath.Join(r.verif, "evidence", r.id+".violations.txt")
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d undischarged obligation(s)\n", r.id, len(bad))
		for _, o := range bad {
			fmt.Fprintf(&sb, "%s: rule %s, instance %s\n    %s\n", o.Pos, o.Rule, o.Construct, o.Detail)
		}
		fmt.Fprintf(&sb, "re-run: /verif/run.sh %s %s\n", r.id, r.tier)
		_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	} else {
		_ = os.Remove(replay)
	}
	// evidence
	var samples []obligation
	perRuleSamples := map[string]int{}
	for _, o := range r.obs {
		if perRuleSamples[o.Rule] < 4 {
			perRuleSamples[o.Rule]++
			samples = append(samples, o)
		}
	}
	expl := ""
	assumptions := []string{}
	if r.def != nil {
		expl = r.def.explanation
		assumptions = append(assumptions, r.def.assumptions...)
	}
	if expl == "" {
		expl = "static analysis"
	}
	cov := map[string]interface{}{
		"explanation":            expl,
		"obligations":            len(r.obs),
		"discharged":             discharged,
		"known_findings_matched": len(knownHit),
		"per_rule":               perRule,
		"analysed":               r.counts,
		"instance_floors":        r.floors,
		"samples":                samples,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if w != nil {
		cov["program"] = map[string]int{"packages": len(w.Scope), "functions": len(w.Funcs), "generated_functions": w.generated}
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": r.seed, "level": "other",
		"coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.id+".json"), b, 0o644); err != nil {
		fmt.Printf("cannot write evidence: %v\nVIOLATION property=%s replay=%s\n", err, r.id, replay)
		return false
	}
	return len(bad) == 0
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	f := q.Filename
	if rel, err := filepath.Rel(w.Repo, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
