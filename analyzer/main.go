package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropCheck binds a property to its rules.
type PropCheck struct {
	ID  string
	Run func(c *Ctx)
}

var checks []PropCheck

func register(id string, run func(c *Ctx)) { checks = append(checks, PropCheck{id, run}) }

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of the known-findings file and evidence")
	prop := flag.String("prop", "all", "property id, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	trialFn := flag.String("trial", "", "debug: run the engine on one function")
	flag.Parse()
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
	t0 := time.Now()
	p, err := Load(*repo)
	if err != nil {
		// The program under analysis cannot be resolved: nothing can be decided.
		for _, ck := range checks {
			if *prop == "all" || ck.ID == *prop {
				path := writeReplay(*verif, ck.ID, []string{"cannot load the program: " + err.Error()})
				fmt.Printf("cannot load the program: %v\nVIOLATION property=%s replay=%s\n", err, ck.ID, path)
			}
		}
		os.Exit(1)
	}
	if *trialFn != "" {
		trial(p, *trialFn)
		return
	}
	load := time.Since(t0)
	known := readKnown(filepath.Join(*verif, "KNOWN_FINDINGS.txt"))
	rc, ran := 0, 0
	for _, ck := range checks {
		if *prop != "all" && ck.ID != *prop {
			continue
		}
		ran++
		t1 := time.Now()
		c := NewCtx(p, ck.ID, *tier)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.rule = "analysis"
					c.Bad(nil, "-", "panic", fmt.Sprintf("the analysis failed: %v", r))
					if os.Getenv("VSA_DEBUG") != "" {
						panic(r)
					}
				}
			}()
			ck.Run(c)
		}()
		if len(c.O) == 0 && len(c.V) == 0 {
			c.rule = "analysis"
			c.Bad(nil, "-", "vacuous", "no rule instance was found")
		}
		if !report(c, known, *verif, seed, load+time.Since(t1)) {
			rc = 1
		}
	}
	if ran == 0 {
		fmt.Println("no such property:", *prop)
		os.Exit(2)
	}
	os.Exit(rc)
}

type knownFinding struct{ prop, key, what string }

// readKnown reads lines "known: property=<id> key=<rule:construct> <text>".
func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 3)
		if len(f) != 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func writeReplay(verif, id string, lines []string) string {
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".violation.txt")
	_ = os.WriteFile(path, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
	return path
}

func report(c *Ctx, known []knownFinding, verif string, seed int, wall time.Duration) bool {
	var vs []*Violation
	for _, v := range c.V {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Key < vs[j].Key })
	var lines, knownKeys []string
	n := 0
	for _, v := range vs {
		isKnown := false
		for _, k := range known {
			if k.prop == c.ID && k.key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", c.ID, k.what, v.Key, v.Where)
				knownKeys = append(knownKeys, v.Key)
				isKnown = true
				break
			}
		}
		if isKnown {
			continue
		}
		n++
		lines = append(lines, fmt.Sprintf("rule %s: %s", v.Rule, c.Rules[v.Rule]), fmt.Sprintf("  construct: %s", v.Key), fmt.Sprintf("  at: %s", v.Where), fmt.Sprintf("  %s", v.Msg))
		for _, s := range v.Path {
			lines = append(lines, "    path: "+s)
		}
	}
	var obl []string
	perRule := map[string]int{}
	for _, o := range c.O {
		obl = append(obl, fmt.Sprintf("%s: %s @ %s", o.Rule, o.What, o.Where))
		perRule[o.Rule]++
	}
	sort.Strings(obl)
	sample := obl
	if len(sample) > 400 {
		sample = sample[:400]
	}
	var fns []string
	for f := range c.Fns {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	type ruleEv struct {
		Rule      string `json:"rule"`
		Text      string `json:"text"`
		Instances int    `json:"instances"`
	}
	var rules []ruleEv
	for r, t := range c.Rules {
		rules = append(rules, ruleEv{r, t, perRule[r]})
	}
	sort.Slice(rules, func(i, j int) bool { return rules[i].Rule < rules[j].Rule })
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other", "wall_s": wall.Seconds(), "violations": n,
		"coverage": map[string]interface{}{
			"explanation":        "Path-sensitive typestate/dataflow analysis over the type-checked SSA form of /repo's current source; every listed function is analysed on every path of its control-flow graph up to the abstraction (value numbering, branch facts, rule automaton), callees in scope inlined. Nothing is executed.",
			"rules":              rules,
			"obligations":        len(c.O),
			"instances":          sample,
			"functions_analysed": fns,
			"basic_blocks":       len(c.Blk),
			"call_sites_visited": c.Calls,
			"abstract_states":    c.State,
			"known_findings":     knownKeys,
			"packages_loaded":    len(c.P.Pkgs),
			"files_loaded":       c.P.NFile,
			"functions_loaded":   len(c.P.Funcs),
		},
		"assumptions": []string{
			"dependencies behave as documented (only their declarations are analysed)",
			"reflection, unsafe and linker tricks do not reach the analysed objects",
			"goroutine bodies are analysed at their spawn point; interleavings are covered only by the confinement, lock and ordering rules listed",
		},
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if n > 0 {
		path := writeReplay(verif, c.ID, lines)
		fmt.Println(strings.Join(lines, "\n"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return false
	}
	_ = os.Remove(filepath.Join(dir, c.ID+".violation.txt"))
	fmt.Printf("OK property=%s obligations=%d functions=%d states=%d %.1fs\n", c.ID, len(c.O), len(fns), c.State, wall.Seconds())
	return true
}

func trial(p *Prog, name string) {
	for _, f := range p.Funcs {
		if name != "all" && shortFn(f) != name || generated(f) {
			continue
		}
		pk := fnPkgPath(f)
		e := NewEngine(p, &Hooks{Opaque: func(g *ssa.Function) bool { return fnPkgPath(g) != pk }})
		t1 := time.Now()
		e.Run(f)
		if d := time.Since(t1); d > 200*time.Millisecond || e.Err != nil || name != "all" {
			fmt.Println(shortFn(f), e.Steps, e.States, e.Merged, e.Joins, len(e.Fns), d, e.Err)
		}
	}
}
