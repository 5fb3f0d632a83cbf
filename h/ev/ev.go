//go:build go1.21

// Package ev writes evidence, reports violations and applies the list of
// known findings.
package ev

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var start = time.Now()

// Dir is /verif.
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Thorough reports whether the thorough tier is requested.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Tier is the tier's name.
func Tier() string {
	if Thorough() {
		return "thorough"
	}
	return "quick"
}

// Seed is VERIF_SEED.
func Seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// Budget returns a function that reports whether the time budget is used up.
func Budget(quick, thorough time.Duration) func() bool {
	d := quick
	if Thorough() {
		d = thorough
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			d = time.Duration(n) * time.Second
		}
	}
	end := start.Add(d)
	return func() bool { return time.Now().After(end) }
}

// Violation is one observed violation. Sig identifies the failing input,
// call site or history.
type Violation struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Replay   any    `json:"replay,omitempty"`
}

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Status   string   `json:"status"` // "known" or "fixed"
	What     string   `json:"what"`
	Commit   string   `json:"commit,omitempty"`
	Sigs     []string `json:"sigs,omitempty"`
}

// Findings loads the known findings of a property.
func Findings(property string) []Finding {
	var all []Finding
	b, err := os.ReadFile(filepath.Join(Dir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	var out []Finding
	for _, f := range all {
		if f.Property == property && f.Status == "known" {
			out = append(out, f)
		}
	}
	return out
}

// Report collects what a check covered.
type Report struct {
	Property    string
	Level       string
	Coverage    map[string]any
	Assumptions []string
	Violations  []Violation
	total       int
	seen        map[string]bool
}

// New makes a report.
func New(property, level string) *Report {
	return &Report{Property: property, Level: level, Coverage: map[string]any{}, seen: map[string]bool{}}
}

// Add records a violation.
func (r *Report) Add(sig, what string, replay any) {
	r.total++
	if r.seen[sig] || len(r.Violations) >= 5000 {
		return
	}
	r.seen[sig] = true
	if os.Getenv("VERIF_FIRST") != "" && !listed(r.Property, sig) {
		fmt.Printf("VIOLATION property=%s replay=none\n  case: %s\n", r.Property, sig)
		os.Exit(1)
	}
	r.Violations = append(r.Violations, Violation{r.Property, sig, what, replay})
}

func listed(property, sig string) bool {
	for _, k := range Findings(property) {
		for _, s := range k.Sigs {
			if s == sig {
				return true
			}
		}
	}
	return false
}

// Addf records a violation identified by sig.
func (r *Report) Addf(sig, format string, args ...any) { r.Add(sig, fmt.Sprintf(format, args...), nil) }

// Finish writes the evidence, prints the verdict and exits.
func (r *Report) Finish() {
	known := Findings(r.Property)
	hit := map[string]int{}
	var fresh []Violation
	for _, v := range r.Violations {
		ok := false
		for _, k := range known {
			for _, s := range k.Sigs {
				if s == v.Sig {
					ok = true
				}
			}
			if ok {
				hit[k.ID]++
				break
			}
		}
		if !ok {
			fresh = append(fresh, v)
		}
	}
	ev := map[string]any{
		"property": r.Property, "tier": Tier(), "seed": Seed(), "level": r.Level,
		"coverage": r.Coverage, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if r.Assumptions != nil {
		ev["assumptions"] = r.Assumptions
	}
	if len(known) > 0 {
		ev["known_findings_seen"] = hit
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(Dir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, k := range known {
		if hit[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; %d listed cases seen)\n", r.Property, k.What, k.ID, hit[k.ID])
		}
	}
	keys := make([]string, 0)
	for k := range r.Coverage {
		if k != "samples" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var cov []string
	for _, k := range keys {
		s := fmt.Sprint(r.Coverage[k])
		if len(s) < 60 {
			cov = append(cov, k+"="+s)
		}
	}
	fmt.Printf("%s %s: %s wall=%.1fs\n", r.Property, Tier(), strings.Join(cov, " "), time.Since(start).Seconds())
	if len(fresh) == 0 {
		fmt.Printf("%s: holds on everything explored\n", r.Property)
		os.Exit(0)
	}
	rd := filepath.Join(dir, "replay")
	os.MkdirAll(rd, 0o755)
	for i, v := range fresh {
		if i >= 5 && os.Getenv("VERIF_ALL") == "" {
			break
		}
		h := sha256.Sum256([]byte(v.Sig))
		p := filepath.Join(rd, fmt.Sprintf("%s-%s.json", r.Property, hex.EncodeToString(h[:4])))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("  %s\n  case: %s\n", strings.ReplaceAll(v.What, "\n", "\n    "), v.Sig)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
	}
	if len(fresh) > 5 {
		fmt.Printf("  ... %d more\n", len(fresh)-5)
	}
	os.Exit(1)
}
