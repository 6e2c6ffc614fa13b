package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ob is one obligation: an instance of a rule at a construct.
type Ob struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"` // rule-relative, position independent
	Where  string `json:"where"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

type Report struct {
	Prop        string
	Tier        string
	Obs         []Ob
	Floors      map[string]int
	Rules       map[string]string
	Notes       []string
	Assumptions []string
	Stats       map[string]int
	start       time.Time
}

func newReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, Floors: map[string]int{}, Rules: map[string]string{}, Stats: map[string]int{}, start: time.Now()}
}

func (r *Report) Rule(id, text string, floor int) {
	r.Rules[id] = text
	r.Floors[id] = floor
}

func (r *Report) OK(rule, key, where, detail string) {
	r.Obs = append(r.Obs, Ob{rule, key, where, true, detail})
}

func (r *Report) Bad(rule, key, where, detail string) {
	r.Obs = append(r.Obs, Ob{rule, key, where, false, detail})
}

func (r *Report) Add(rule, key, where string, ok bool, detail string) {
	r.Obs = append(r.Obs, Ob{rule, key, where, ok, detail})
}

type finding struct{ prop, rule, key, desc string }

func loadFindings(path string) ([]finding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var fs []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding:") {
			continue
		}
		// finding: property=C01 rule=X key=Y -- description
		head, desc, _ := strings.Cut(strings.TrimSpace(line[len("finding:"):]), " -- ")
		var fd finding
		fd.desc = desc
		i := strings.Index(head, "key=")
		if i < 0 {
			return nil, fmt.Errorf("bad finding line: %s", line)
		}
		fd.key = strings.TrimSpace(head[i+4:])
		for _, w := range strings.Fields(head[:i]) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				fd.prop = v
			} else if v, ok := strings.CutPrefix(w, "rule="); ok {
				fd.rule = v
			}
		}
		fs = append(fs, fd)
	}
	return fs, sc.Err()
}

// Finish prints the verdict, writes evidence and the replay file, and returns the exit code.
func (r *Report) Finish(verif string, seed int) int {
	known, err := loadFindings(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		r.Bad("machinery", "known_findings.txt", "", err.Error())
	}
	counts := map[string]int{}
	for _, o := range r.Obs {
		counts[o.Rule]++
	}
	for rule, floor := range r.Floors {
		if counts[rule] < floor {
			r.Bad(rule, "instances", "", fmt.Sprintf("only %d instances of the rule were found, %d were confirmed by hand: the rule's anchors no longer resolve", counts[rule], floor))
		}
	}
	var bad, kn []Ob
	perRule := map[string]map[string]int{}
	for _, o := range r.Obs {
		m := perRule[o.Rule]
		if m == nil {
			m = map[string]int{}
			perRule[o.Rule] = m
		}
		m["instances"]++
		if o.OK {
			m["discharged"]++
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.prop == r.Prop && k.rule == o.Rule && k.key == o.Key {
				isKnown = true
				break
			}
		}
		if isKnown {
			kn = append(kn, o)
			m["known_findings"]++
		} else {
			bad = append(bad, o)
			m["violations"]++
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Where < bad[j].Where })
	seenKnown := map[string]bool{}
	for _, o := range kn {
		k := o.Rule + " " + o.Key
		if !seenKnown[k] {
			seenKnown[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s [%s] %s (%s): %s\n", r.Prop, o.Rule, o.Key, o.Where, oneLine(o.Detail))
		}
	}
	outDir := filepath.Join(verif, "out")
	os.MkdirAll(outDir, 0o755)
	replay := filepath.Join(outDir, r.Prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, tier %s: %d obligations, %d violated, %d known findings\n\n", r.Prop, r.Tier, len(r.Obs), len(bad), len(kn))
	for _, o := range bad {
		fmt.Fprintf(&sb, "VIOLATED [%s] %s\n  at %s\n  rule: %s\n  %s\n\n", o.Rule, o.Key, o.Where, r.Rules[o.Rule], o.Detail)
	}
	for _, o := range kn {
		fmt.Fprintf(&sb, "KNOWN [%s] %s\n  at %s\n  %s\n\n", o.Rule, o.Key, o.Where, o.Detail)
	}
	fmt.Fprintf(&sb, "--- all obligations ---\n")
	for _, o := range r.Obs {
		if o.OK {
			fmt.Fprintf(&sb, "ok [%s] %s (%s) %s\n", o.Rule, o.Key, o.Where, oneLine(o.Detail))
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)

	var samples []interface{}
	step := len(r.Obs)/12 + 1
	for i := 0; i < len(r.Obs); i += step {
		samples = append(samples, r.Obs[i])
	}
	discharged := len(r.Obs) - len(bad) - len(kn)
	var expl []string
	rules := make([]string, 0, len(r.Rules))
	for k := range r.Rules {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		expl = append(expl, fmt.Sprintf("%s: %s", k, r.Rules[k]))
	}
	cov := map[string]interface{}{
		"explanation": "Static analysis of the type-checked SSA form of the current working tree. Rules: " + strings.Join(expl, " | "),
		"obligations": len(r.Obs), "discharged": discharged, "known_findings": len(kn),
		"per_rule": perRule, "samples": samples, "stats": r.Stats,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(processStart).Seconds(), "violations": len(bad),
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for i, o := range bad {
		if i >= 40 {
			fmt.Printf("  ... and %d more, see %s\n", len(bad)-i, replay)
			break
		}
		fmt.Printf("  %s: [%s] %s: %s\n", o.Where, o.Rule, o.Key, oneLine(o.Detail))
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated (%.1fs)\n", r.Prop, len(r.Obs), discharged, len(kn), len(bad), time.Since(processStart).Seconds())
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
