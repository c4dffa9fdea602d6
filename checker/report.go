package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated (or undecidable) obligation.
type Finding struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // rule + construct, stable under line changes
	Pos  string `json:"pos"`
	Msg  string `json:"msg"`
	Path string `json:"path,omitempty"`
}

// Report collects what one property's check analysed and found.
type Report struct {
	P        *Program
	Property string
	findings map[string]*Finding
	obl      map[string]int // obligations per rule
	ok       map[string]int // discharged per rule
	info     map[string]int // other measured counts
	samples  []string
	sampled  map[string]int
	rules    []string
	assume   []string
	funcs    map[*ssa.Function]bool
	seenObl  map[string]bool
}

func newReport(P *Program, prop string) *Report {
	return &Report{P: P, Property: prop, findings: map[string]*Finding{}, obl: map[string]int{}, ok: map[string]int{}, info: map[string]int{}, sampled: map[string]int{}, funcs: map[*ssa.Function]bool{}, seenObl: map[string]bool{}}
}

// Rule documents a rule that this check applies.
func (r *Report) Rule(name, text string) {
	r.rules = append(r.rules, name+": "+text)
}

func (r *Report) Assume(text string) { r.assume = append(r.assume, text) }

// Check records one obligation. key names the construct.
func (r *Report) Check(cond bool, rule, key, pos, msg string) bool {
	id := rule + "|" + key
	if !r.seenObl[id] {
		r.seenObl[id] = true
		r.obl[rule]++
		if cond {
			r.ok[rule]++
			if r.sampled[rule] < 4 {
				r.sampled[rule]++
				r.samples = append(r.samples, rule+" holds for "+key+" ("+pos+")")
			}
		}
	} else if !cond && r.findings[id] == nil && r.ok[rule] > 0 {
		r.ok[rule]--
	}
	if !cond && r.findings[id] == nil {
		r.findings[id] = &Finding{Rule: rule, Key: id, Pos: pos, Msg: msg}
	}
	return cond
}

// Bad records a violated obligation.
func (r *Report) Bad(rule, key, pos, msg string) { r.Check(false, rule, key, pos, msg) }

// Good records a discharged obligation.
func (r *Report) Good(rule, key, pos string) { r.Check(true, rule, key, pos, "") }

// Floor fails the check when fewer instances of a rule were found than were
// confirmed by hand: a rule that matches nothing would pass vacuously.
func (r *Report) Floor(rule string, min int) {
	if r.obl[rule] < min {
		r.findings["floor|"+rule] = &Finding{Rule: "floor", Key: "floor|" + rule, Pos: "-", Msg: fmt.Sprintf("rule %s was expected to apply to at least %d constructs and applied to %d: its anchors are gone", rule, min, r.obl[rule])}
	}
}

// Anchor fails the check when something the rules are stated over is missing.
func (r *Report) Anchor(ok bool, what string) bool {
	if !ok {
		r.findings["anchor|"+what] = &Finding{Rule: "anchor", Key: "anchor|" + what, Pos: "-", Msg: "cannot find " + what + ": the property can no longer be decided"}
	}
	return ok
}

func (r *Report) Count(name string, n int) { r.info[name] += n }

func (r *Report) Saw(fns ...*ssa.Function) {
	for _, f := range fns {
		r.funcs[f] = true
	}
}

func (r *Report) SawEngine(e *Engine) {
	for f := range e.Visited {
		r.funcs[f] = true
	}
	r.info["abstract states explored"] += e.Steps
	seen := map[string]bool{}
	for _, o := range e.Overflow {
		seen[o] = true
	}
	r.info["functions in which value facts were widened"] += len(seen)
}

type knownFinding struct{ prop, key, text string }

// loadKnown reads known_findings.txt: "known: property=<id> key=<key> :: <text>".
func loadKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, knownFinding{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out
}

func (r *Report) Sorted() []*Finding {
	var out []*Finding
	for _, f := range r.findings {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// Finish writes evidence and replay files, prints the verdict and returns the
// exit status.
func (r *Report) Finish(base string, explain string, t0 time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := loadKnown(filepath.Join(base, "known_findings.txt"))
	var viol []*Finding
	for _, f := range r.Sorted() {
		isKnown := false
		for _, k := range known {
			if k.prop == r.Property && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k.text)
				isKnown = true
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	obl, ok := 0, 0
	for k, n := range r.obl {
		obl += n
		ok += r.ok[k]
	}
	for i := range r.samples {
		if len(r.samples[i]) > 300 {
			r.samples[i] = r.samples[i][:300]
		}
	}
	cov := map[string]any{
		"explanation":          explain,
		"rules":                r.rules,
		"obligations":          obl,
		"discharged":           ok,
		"obligations_per_rule": r.obl,
		"functions_analysed":   len(r.funcs),
		"measured":             r.info,
		"samples":              r.samples,
	}
	if r.P != nil {
		cov["packages_loaded"] = len(r.P.byPkg)
		cov["functions_in_library"] = len(r.P.funcs)
	}
	if len(viol) > 0 {
		cov["findings"] = viol
	}
	ev := map[string]any{
		"property": r.Property, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(base, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(base, "evidence", r.Property+".json"), b, 0o644)
	for _, f := range viol {
		fmt.Printf("  [%s] %s: %s\n", f.Rule, f.Pos, f.Msg)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d\n", r.Property, obl, ok, len(r.funcs))
		return 0
	}
	os.MkdirAll(filepath.Join(base, "replay"), 0o755)
	rp := filepath.Join(base, "replay", r.Property+".json")
	b, _ = json.MarshalIndent(viol, "", " ")
	os.WriteFile(rp, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rp)
	return 1
}
