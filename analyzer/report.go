package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var debugOn = os.Getenv("VERIF_DEBUG") != ""

// Violation is one broken obligation. Key identifies the rule and the construct, never a line.
type Violation struct {
	Key string
	Msg string
	Pos string
}

// Result is what a check decided.
type Result struct {
	Violations  []Violation
	Counts      map[string]int
	Obligations map[string]int // rule -> number of discharged obligations
	Analysed    map[string]bool
	Rule        string
	Assumptions []string
	Notes       []string
	floors      []string
}

func newResult() *Result {
	return &Result{Counts: map[string]int{}, Obligations: map[string]int{}, Analysed: map[string]bool{}}
}

func (r *Result) violate(key, pos, format string, args ...interface{}) {
	for _, v := range r.Violations {
		if v.Key == key {
			return
		}
	}
	r.Violations = append(r.Violations, Violation{Key: key, Pos: pos, Msg: fmt.Sprintf(format, args...)})
}

func (r *Result) ok(rule string)         { r.Obligations[rule]++ }
func (r *Result) okN(rule string, n int) { r.Obligations[rule] += n }
func (r *Result) saw(what string)        { r.Analysed[what] = true }

// floor reports a violation when fewer instances than confirmed on the pinned tree were found: a rule
// that matches nothing decides nothing.
func (r *Result) floor(what string, got, min int) {
	r.Counts[what] = got
	if got < min {
		r.violate("floor:"+what, "-", "only %d %s found, at least %d expected: the construct this rule is about is gone or no longer recognised", got, what, min)
	}
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
	Assumptions []string               `json:"assumptions"`
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		line = strings.TrimPrefix(line, "finding: ")
		parts := strings.SplitN(line, " :: ", 2)
		var prop, key string
		for _, w := range strings.Fields(parts[0]) {
			if strings.HasPrefix(w, "property=") {
				prop = strings.TrimPrefix(w, "property=")
			}
			if strings.HasPrefix(w, "key=") {
				key = strings.TrimPrefix(w, "key=")
			}
		}
		if prop != id || key == "" {
			continue
		}
		d := ""
		if len(parts) == 2 {
			d = parts[1]
		}
		out[key] = d
	}
	return out
}

func keyEsc(k string) string { return strings.ReplaceAll(k, " ", "_") }

func finish(verif, id, tier string, seed int, res *Result, start time.Time) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Key < res.Violations[j].Key })
	var bad []Violation
	knownHit := 0
	for _, v := range res.Violations {
		if d, ok := known[keyEsc(v.Key)]; ok {
			knownHit++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, d, keyEsc(v.Key))
			continue
		}
		bad = append(bad, v)
	}
	total := 0
	for _, n := range res.Obligations {
		total += n
	}
	var an []string
	for a := range res.Analysed {
		an = append(an, a)
	}
	sort.Strings(an)
	if len(an) > 400 {
		an = an[:400]
	}
	cov := map[string]interface{}{
		"explanation":            res.Rule,
		"obligations_checked":    total,
		"obligations_by_rule":    res.Obligations,
		"instances":              res.Counts,
		"constructs_analysed":    len(res.Analysed),
		"constructs":             an,
		"known_findings_matched": knownHit,
		"notes":                  res.Notes,
	}
	if len(bad) > 0 {
		cov["obligations_checked"] = total + len(bad)
		var l []string
		for _, v := range bad {
			l = append(l, fmt.Sprintf("%s at %s: %s", v.Key, v.Pos, v.Msg))
		}
		cov["violations"] = l
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "other", Coverage: cov, WallS: float64(int(time.Since(start).Seconds()*100)) / 100, Violations: len(bad), Assumptions: res.Assumptions}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, id+".replay.txt")
	if len(bad) == 0 {
		_ = os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d constructs=%d known=%d (%.1fs)\n", id, total, len(res.Analysed), knownHit, ev.WallS)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\nreproduce: /verif/check.sh %s\n\n", id, res.Rule, id)
	for _, v := range bad {
		fmt.Fprintf(&sb, "key: %s\nat: %s\n%s\n\n", keyEsc(v.Key), v.Pos, v.Msg)
		fmt.Printf("%s at %s: %s\n", keyEsc(v.Key), v.Pos, v.Msg)
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
