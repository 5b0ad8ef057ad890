package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Report collects what a check found and what it covered.
type Report struct {
	ID      string
	Tier    string
	L       *Loaded
	Rule    string
	Viol    []Violation
	Counts  map[string]int
	Samples []string
	Assume  []string
	seen    map[string]bool
}

// Violation is a construct that breaks the rule. Its key names the rule and the construct without line numbers.
type Violation struct {
	Key, Where, Msg string
}

func newReport(id string, L *Loaded) *Report {
	return &Report{ID: id, L: L, Counts: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) violate(key string, pos token.Pos, format string, a ...any) {
	where := ""
	if r.L != nil && pos != token.NoPos {
		where = r.L.pos(pos)
	}
	k := key + "|" + where
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Viol = append(r.Viol, Violation{key, where, fmt.Sprintf(format, a...)})
}

func (r *Report) count(what string, n int) { r.Counts[what] += n }
func (r *Report) sample(s string) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
}

// partReport is what a process that does a part of a check prints.
type partReport struct {
	Viol    []Violation
	Counts  map[string]int
	Samples []string
	End     bool
}

func (r *Report) part() []byte {
	b, _ := json.Marshal(partReport{r.Viol, r.Counts, r.Samples, true})
	return b
}

// merge adds what a part found. It fails if the part did not end well.
func (r *Report) merge(b []byte) bool {
	var p partReport
	if json.Unmarshal(b, &p) != nil || !p.End {
		return false
	}
	for _, v := range p.Viol {
		if k := v.Key + "|" + v.Where; !r.seen[k] {
			r.seen[k] = true
			r.Viol = append(r.Viol, v)
		}
	}
	for k, n := range p.Counts {
		if k == loadedCount {
			continue
		}
		r.Counts[k] += n
	}
	for _, s := range p.Samples {
		r.sample(s)
	}
	return true
}

const loadedCount = "functions of the module loaded"

// floor fails the check if fewer instances of something were analysed than there must be.
func (r *Report) floor(what string, min int) {
	if r.Counts[what] < min {
		r.violate("floor:"+what, token.NoPos, "only %d %s were found, expected at least %d: the rule has lost its subject", r.Counts[what], what, min)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the committed list: lines "finding: property=<id> key=<key> <text>".
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		key, text, _ := strings.Cut(rest, " ")
		out[key] = text
	}
	return out
}

func (r *Report) finish(start time.Time, tier string, seed int) int {
	known := knownFindings(r.ID)
	hit := map[string]bool{}
	var bad []Violation
	for _, v := range r.Viol {
		k := strings.ReplaceAll(v.Key, " ", "_")
		if _, ok := known[k]; ok {
			hit[k] = true
			continue
		}
		bad = append(bad, v)
	}
	var ks []string
	for k := range hit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, known[k])
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	cov := map[string]any{"explanation": r.Rule, "counts": r.Counts, "samples": r.Samples}
	n := 0
	for _, v := range r.Counts {
		n += v
	}
	cov["obligations_examined"] = n
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rep := filepath.Join(dir, r.ID+".report.txt")
	var out strings.Builder
	fmt.Fprintf(&out, "property %s\nrule: %s\n", r.ID, r.Rule)
	for k, v := range r.Counts {
		fmt.Fprintf(&out, "%s: %d\n", k, v)
	}
	for _, v := range bad {
		fmt.Fprintf(&out, "violation [%s] %s: %s\n", v.Key, v.Where, v.Msg)
	}
	os.WriteFile(rep, []byte(out.String()), 0o644)
	var cs []string
	for k, v := range r.Counts {
		cs = append(cs, fmt.Sprintf("%d %s", v, k))
	}
	sort.Strings(cs)
	fmt.Printf("%s: analysed %s\n", r.ID, strings.Join(cs, ", "))
	if len(bad) == 0 {
		fmt.Printf("%s: holds\n", r.ID)
		return 0
	}
	for i, v := range bad {
		if i >= 30 {
			fmt.Printf("  ... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  %s [%s] %s\n", v.Where, v.Key, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rep)
	return 1
}
