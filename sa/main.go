package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// checks is filled by the props_*.go files.
var checks = map[string]func(c *Ctx){}

// expl describes per property what is analysed and by which rule.
var expl = map[string]string{}

var assumptions = map[string][]string{}

var baseAssumptions = []string{
	"the vendored libraries and the Go runtime behave as modelled (models.go): hashing, signing, curve operations, storage engine, TOML/JSON decoding, standard library",
	"64-bit counters (epochs) do not overflow",
	"no use of unsafe or reflection changes repository data behind the type-checked program (checked: the repository's sources import neither unsafe nor call reflect setters)",
}

func usage() {
	fmt.Println("usage: coniksa check ID [--tier quick|thorough] [--repo DIR] | list | debug PKG TYPE|- FUNC ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	repo := "/repo"
	if r := os.Getenv("CONIKSA_REPO"); r != "" {
		repo = r
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "debug":
		p, err := LoadProgram(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugMain(p, os.Args[2:])
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		var ids []string
		for i := 2; i < len(os.Args); i++ {
			a := os.Args[i]
			if a == "--tier" && i+1 < len(os.Args) {
				tier = os.Args[i+1]
				i++
				continue
			}
			if a == "all" {
				for id := range checks {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				continue
			}
			ids = append(ids, a)
		}
		code := 0
		t0 := time.Now()
		p, err := LoadProgram(repo)
		for _, id := range ids {
			if checks[id] == nil {
				fmt.Println("unknown property", id)
				os.Exit(2)
			}
			if runCheck(p, err, id, tier, t0) {
				code = 1
			}
			t0 = time.Now()
		}
		os.Exit(code)
	default:
		usage()
	}
}

func outDir() string {
	d := os.Getenv("CONIKSA_OUT")
	if d == "" {
		d = "/verif/evidence"
	}
	os.MkdirAll(d, 0755)
	return d
}

func knownFile() string {
	if f := os.Getenv("CONIKSA_KNOWN"); f != "" {
		return f
	}
	return "/verif/known_findings.txt"
}

// known findings: lines "finding: property=<id> key=<rule@construct> <what fails>"
func knownFindings(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(knownFile())
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		r[rest[:i]] = rest[i+4:]
	}
	return r
}

func runCheck(p *Program, loadErr error, id, tier string, t0 time.Time) (bad bool) {
	c := &Ctx{p: p, id: id, tier: tier, funcs: map[string]bool{}, engs: map[string]*Engine{}, sites: map[string]bool{}}
	anchors := c.Rule("anchors", "the constructs the rules refer to exist and the analysis of each of them completes", 0)
	if loadErr != nil {
		anchors.fail("load", "", "the current tree does not load or type-check: %v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(anchorErr); ok {
						anchors.fail(a.what, "", "unresolved or undecided: %s", a.what)
						return
					}
					anchors.fail("panic", "", "the analysis could not be completed: %v\n%s", r, debug.Stack())
				}
			}()
			checks[id](c)
			c.reliesOn()
		}()
	}
	var viols []*Viol
	for _, r := range c.rules {
		if r.n < r.floor && len(r.bad) == 0 {
			r.bad["instances"] = &Viol{r.id, "instances", "", fmt.Sprintf("only %d instances found, at least %d were confirmed by hand", r.n, r.floor)}
		}
		var ks []string
		for k := range r.bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			viols = append(viols, r.bad[k])
		}
	}
	known := knownFindings(id)
	var out []*Viol
	for _, v := range viols {
		if w, ok := known[v.Rule+"@"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			continue
		}
		out = append(out, v)
	}
	dir := outDir()
	replay := filepath.Join(dir, id+".violation.txt")
	os.Remove(replay)
	if len(out) > 0 {
		var sb strings.Builder
		for _, v := range out {
			fmt.Fprintf(&sb, "property %s, rule %s: %s\n", id, v.Rule, ruleText(c, v.Rule))
			fmt.Fprintf(&sb, "  construct: %s\n  at: %s\n  %s\n", v.Construct, v.Pos, v.Why)
		}
		fmt.Fprintf(&sb, "replay: cd /verif && ./check.sh %s --tier %s\n", id, tier)
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		bad = true
	}
	// evidence
	type ruleEv struct {
		Rule      string   `json:"rule"`
		Text      string   `json:"text"`
		Instances int      `json:"instances"`
		Violated  int      `json:"violated"`
		Samples   []string `json:"samples,omitempty"`
	}
	var rs []ruleEv
	total := 0
	for _, r := range c.rules {
		if r.id == "anchors" && len(r.bad) == 0 {
			continue
		}
		total += r.n
		rs = append(rs, ruleEv{r.id, r.text, r.n, len(r.bad), r.samp})
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	npk := 0
	if p != nil {
		npk = len(p.Pkgs)
	}
	cov := map[string]interface{}{
		"explanation":           expl[id],
		"rules":                 rs,
		"rule_instances":        total,
		"functions_analysed":    len(fns),
		"functions":             fns,
		"paths_classified":      c.paths,
		"calls_interpreted":     c.calls,
		"loops_summarised":      c.loops,
		"instructions_visited":  c.steps,
		"sites_enumerated":      len(c.sites),
		"packages_typechecked":  npk,
		"violations_reported":   len(out),
		"known_findings_listed": len(viols) - len(out),
	}
	if p != nil {
		cov["functions_in_repository"] = len(p.Fns)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": float64(int(time.Since(t0).Seconds()*1000)) / 1000,
		"assumptions": append(append([]string(nil), baseAssumptions...), append(assumptions[id], c.assum...)...),
		"violations":  len(out),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	if !bad {
		fmt.Printf("ok property=%s instances=%d functions=%d paths=%d sites=%d %.2fs\n", id, total, len(fns), c.paths, len(c.sites), time.Since(t0).Seconds())
	}
	return bad
}

func ruleText(c *Ctx, id string) string {
	for _, r := range c.rules {
		if r.id == id {
			return r.text
		}
	}
	return ""
}
