// Package chk holds the checks: per property, the rules applied to the
// analysed program and the obligations they generate.
package chk

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/load"
	"verif/vg"
)

// Ob is one obligation.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Goal      string `json:"goal"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
	Cases     int    `json:"cases,omitempty"`
}

// Key identifies an obligation independent of positions.
func (o *Ob) Key() string { return o.Rule + "|" + o.Construct + "|" + o.Goal }

// Run is one execution of a property's check.
type Run struct {
	P       *load.Program
	PC      *load.Program // variant with the callcounters tag (nil unless requested)
	Root    string
	ID      string
	Tier    string
	mu      sync.Mutex
	Obs     []*Ob
	Assume  []string
	Funcs   map[string]int
	Instrs  int
	Counts  map[string]int
	Trusted []string
	wg      sync.WaitGroup
	sem     chan struct{}
	Timing  map[string]float64
}

// Property is a registered property check.
type Property struct {
	ID        string
	Level     string
	Technique string
	Note      string
	Tags      bool // also needs the callcounters configuration
	F         func(r *Run)
}

// Registry lists the property checks.
var Registry = map[string]*Property{}

func register(p *Property) { Registry[p.ID] = p }

// Thorough reports the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Add records an obligation.
func (r *Run) Add(o *Ob) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Obs = append(r.Obs, o)
}

// Ok records a boolean obligation.
func (r *Run) Ok(rule, construct string, pos token.Pos, goal string, ok bool, detail string) {
	p := ""
	if pos.IsValid() {
		p = r.P.Rel(pos)
	}
	if ok {
		detail = ""
	}
	r.Add(&Ob{Rule: rule, Construct: construct, Pos: p, Goal: goal, OK: ok, Detail: detail})
}

// Count accumulates an analysis count for the evidence file.
func (r *Run) Count(what string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counts[what] += n
}

// Go runs one task concurrently, converting Undecided into a failed obligation.
func (r *Run) Go(rule, construct string, f func()) {
	r.wg.Add(1)
	r.sem <- struct{}{}
	go func() {
		t0 := time.Now()
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(vg.Undecided); ok {
					r.Add(&Ob{Rule: rule, Construct: construct, Goal: "analysable", OK: false, Detail: "undecided: " + u.Msg})
				} else {
					r.Add(&Ob{Rule: rule, Construct: construct, Goal: "analysable", OK: false, Detail: fmt.Sprintf("analysis failed: %v\n%s", e, debug.Stack())})
				}
			}
			r.mu.Lock()
			r.Timing[construct] += time.Since(t0).Seconds()
			r.mu.Unlock()
			<-r.sem
			r.wg.Done()
		}()
		f()
	}()
}

// Wait waits for all tasks.
func (r *Run) Wait() { r.wg.Wait() }

type violationFile struct {
	Property   string `json:"property"`
	Violations []*Ob  `json:"violations"`
}

// Execute runs a property check and writes evidence; returns the exit status.
func Execute(id, tier, root, verif string, seed int) int {
	t0 := time.Now()
	pr := Registry[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	p, err := load.Load(root, "")
	if n, ok := types.Unalias(p.Type(fe, feT)).(*types.Named); ok {
		feType = n.Obj().Name()
	}
	r := &Run{P: p, Root: root, ID: id, Tier: tier, Funcs: map[string]int{}, Counts: map[string]int{}, sem: make(chan struct{}, 8), Timing: map[string]float64{}}
	if err == nil && pr.Tags {
		r.PC, err = load.Load(root, "callcounters")
	}
	if err != nil {
		r.Add(&Ob{Rule: "load", Construct: "module", Goal: "loads", Detail: err.Error()})
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Add(&Ob{Rule: "analysis", Construct: "check", Goal: "completes", Detail: fmt.Sprintf("%v\n%s", e, debug.Stack())})
				}
			}()
			pr.F(r)
			r.Wait()
		}()
	}
	if len(r.Obs) == 0 {
		r.Add(&Ob{Rule: "analysis", Construct: "check", Goal: "nonvacuous", Detail: "no obligations were generated"})
	}
	known := loadKnown(filepath.Join(verif, "known-findings.json"))
	var bad []*Ob
	var kf []string
	total, okc := 0, 0
	byRule := map[string]int{}
	sort.SliceStable(r.Obs, func(i, j int) bool { return r.Obs[i].Key() < r.Obs[j].Key() })
	for _, o := range r.Obs {
		total++
		byRule[o.Rule]++
		if o.OK {
			okc++
			continue
		}
		if k := known.match(id, o); k != "" {
			kf = append(kf, k)
			continue
		}
		bad = append(bad, o)
	}
	sort.Strings(kf)
	for i, k := range kf {
		if i == 0 || kf[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	// evidence
	samples := []string{}
	step := total/12 + 1
	for i := 0; i < total; i += step {
		o := r.Obs[i]
		samples = append(samples, fmt.Sprintf("[%s] %s (%s): %s — %v", o.Rule, o.Construct, o.Pos, o.Goal, map[bool]string{true: "discharged", false: "FAILED"}[o.OK]))
	}
	funcs := make([]string, 0, len(r.Funcs))
	for f := range r.Funcs {
		funcs = append(funcs, strings.ReplaceAll(f, load.Module, ""))
	}
	sort.Strings(funcs)
	nf := len(funcs)
	if len(funcs) > 150 {
		funcs = funcs[:150]
	}
	casesN := 0
	for _, o := range r.Obs {
		casesN += o.Cases
	}
	cov := map[string]any{
		"explanation":         pr.Technique + " " + pr.Note,
		"obligations":         total,
		"discharged":          okc,
		"known_findings":      len(kf),
		"obligations_by_rule": byRule,
		"functions_analysed":  nf,
		"functions":           funcs,
		"ssa_instructions":    r.Instrs,
		"case_splits":         casesN,
		"packages_loaded":     len(p.Repo),
		"counts":              r.Counts,
		"checker_cmd":         fmt.Sprintf("./check.sh %s %s", id, tier),
		"trusted_base":        "go/types and golang.org/x/tools/go/ssa (front end); the analysis engine in /verif/tool (alg: polynomial normal forms, decision diagrams, linear bounds; vg: transfer functions, models of math/bits, encoding/binary, math/big); the specification tables in /verif/tool/chk",
		"samples":             samples,
		"rule":                "an obligation is one goal (identity, congruence, bound, or structural rule instance) attached to one function, call site or type of the loaded program",
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": pr.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(t0).Seconds(),
		"violations": len(bad),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(bad) > 0 {
		rp := filepath.Join(verif, "evidence", id+".violation.json")
		b, _ := json.MarshalIndent(violationFile{id, bad}, "", " ")
		os.WriteFile(rp, b, 0o644)
		for i, o := range bad {
			if i >= 12 {
				fmt.Printf("  ... and %d more\n", len(bad)-i)
				break
			}
			d := o.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("  [%s] %s at %s: %s: %s\n", o.Rule, o.Construct, o.Pos, o.Goal, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(filepath.Join(verif, "evidence", id+".violation.json"))
	fmt.Printf("OK property=%s tier=%s obligations=%d functions=%d instrs=%d cases=%d wall=%.1fs\n", id, tier, total, nf, r.Instrs, casesN, time.Since(t0).Seconds())
	if os.Getenv("VERIF_TIMING") != "" {
		type kv struct {
			k string
			v float64
		}
		var l []kv
		for k, v := range r.Timing {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i > 14 {
				break
			}
			fmt.Printf("   %6.2fs %s\n", x.v, x.k)
		}
	}
	return 0
}

type knownEntry struct {
	Status    string `json:"status"`
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Goal      string `json:"goal"`
	What      string `json:"what"`
	Commit    string `json:"commit"`
	Text      string `json:"text"`
}

type knownFile struct {
	Entries []knownEntry `json:"entries"`
}

func loadKnown(path string) *knownFile {
	k := &knownFile{}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, k)
	}
	return k
}

func (k *knownFile) match(id string, o *Ob) string {
	for _, e := range k.Entries {
		if e.Status == "finding" && e.Property == id && e.Rule == o.Rule && e.Construct == o.Construct && e.Goal == o.Goal {
			return e.What
		}
	}
	return ""
}
