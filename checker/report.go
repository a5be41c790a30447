package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run collects the result of one property's analyses.
type Run struct {
	id      string
	p       *Program
	viols   []*Violation
	seen    map[string]bool
	oblig   map[string]int
	rules   map[string]string
	minimum map[string]int
	execs   []*Exec
	assume  []string
	scen    int
	fns     map[*ssa.Function]bool
	sites   map[ssa.Instruction]bool
	paths   int
	steps   int
	timing  []string
}

func newRun(id string, p *Program) *Run {
	return &Run{id: id, p: p, seen: map[string]bool{}, oblig: map[string]int{}, rules: map[string]string{}, minimum: map[string]int{}, fns: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}}
}

// rule declares a rule, its meaning and the minimum number of instances that must be decided.
func (r *Run) rule(name, text string, min int) {
	r.rules[name] = text
	r.minimum[name] = min
}

func (r *Run) assumption(s string) {
	for _, a := range r.assume {
		if a == s {
			return
		}
	}
	r.assume = append(r.assume, s)
}

func (r *Run) violation(v *Violation) {
	if r.seen[v.key()] {
		return
	}
	r.seen[v.key()] = true
	r.viols = append(r.viols, v)
}

func (r *Run) ok(rule string) { r.oblig[rule]++ }

func (r *Run) fail(rule, pos, fn, construct, msg string) {
	r.violation(&Violation{Rule: rule, Pos: pos, Func: fn, Construct: construct, Msg: msg})
}

func (r *Run) failAt(rule string, in ssa.Instruction, construct, msg string) {
	r.violation(&Violation{Rule: rule, Pos: r.p.instrPos(in), Func: fnLabel(in.Parent()), Construct: construct, Msg: msg})
}

// analyse runs one analysis scenario; whatever cannot be decided becomes a violation.
func (r *Run) analyse(name string, s *Spec, body func(x *Exec)) {
	x := newExec(r.p, s)
	t0 := time.Now()
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			if u, ok := e.(undecided); ok {
				msg = "not decided: " + u.msg
			} else {
				msg = fmt.Sprintf("analyser failure: %v", e)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
			fn := ""
			if len(x.fns) > 0 {
				fn = fnLabel(x.fns[len(x.fns)-1])
			}
			r.fail("decidable", "", fn, name, msg)
		}
		if os.Getenv("VERIF_PROF") != "" {
			type kv struct {
				f *ssa.Function
				n int
			}
			var l []kv
			for f, n := range x.prof {
				l = append(l, kv{f, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i, e := range l {
				if i < 40 {
					fmt.Printf("   prof %7d %s coarse=%v\n", e.n, fnLabel(e.f), x.coarse[e.f])
				}
			}
		}
		r.merge(x)
		r.timing = append(r.timing, fmt.Sprintf("%s: %.2fs, %d steps, %d results, %d terms", name, time.Since(t0).Seconds(), x.steps, x.paths, len(x.u.tab)))
	}()
	r.scen++
	body(x)
}

func (r *Run) merge(x *Exec) {
	for _, k := range x.order {
		r.violation(x.viols[k])
	}
	for k, n := range x.oblig {
		r.oblig[k] += n
	}
	for f := range x.visitedF {
		r.fns[f] = true
	}
	for s := range x.sites {
		r.sites[s] = true
	}
	r.paths += x.paths
	r.steps += x.steps
}

type knownEntry struct{ prop, key, text string }

func loadKnown(path string) []knownEntry {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownEntry
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		parts := strings.SplitN(l, " ", 2)
		id := strings.TrimPrefix(parts[0], "property=")
		if len(parts) < 2 {
			continue
		}
		rest := strings.TrimSpace(parts[1])
		if !strings.HasPrefix(rest, "key=[") {
			continue
		}
		end := strings.Index(rest, "] ")
		if end < 0 {
			continue
		}
		out = append(out, knownEntry{id, rest[5:end], strings.TrimSpace(rest[end+2:])})
	}
	return out
}

func (r *Run) finish(root string, started time.Time) int {
	for name, min := range r.minimum {
		if r.oblig[name] < min {
			bad := false
			for _, v := range r.viols {
				if v.Rule == name || v.Rule == "decidable" {
					bad = true
				}
			}
			if !bad {
				r.fail(name, "", "", "coverage", fmt.Sprintf("only %d of at least %d expected instances of this rule were found; the code it applies to is missing", r.oblig[name], min))
			}
		}
	}
	known := loadKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	var real []*Violation
	var knownHit []string
	for _, v := range r.viols {
		hit := false
		for _, k := range known {
			if k.prop == r.id && k.key == v.key() {
				hit = true
				knownHit = append(knownHit, k.text)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.text)
			}
		}
		if !hit {
			real = append(real, v)
		}
	}
	evPath := filepath.Join(root, "evidence", r.id+".json")
	var fns []string
	for f := range r.fns {
		fns = append(fns, fnLabel(f))
	}
	sort.Strings(fns)
	var rules []map[string]interface{}
	var rn []string
	for k := range r.rules {
		rn = append(rn, k)
	}
	sort.Strings(rn)
	total := 0
	for _, k := range rn {
		rules = append(rules, map[string]interface{}{"rule": k, "meaning": r.rules[k], "instances_decided": r.oblig[k], "instances_required": r.minimum[k]})
		total += r.oblig[k]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	cov := map[string]interface{}{
		"explanation": "Source of /repo type-checked and lowered to SSA on this run; the rules below were decided on every path class of the listed functions. No program code was executed.",
		"scenarios":   r.scen, "functions_analysed": len(r.fns), "call_sites_analysed": len(r.sites), "path_classes": r.paths, "instructions_interpreted": r.steps,
		"obligations": total, "rules": rules, "functions": fns, "repository_functions": len(r.p.funcs), "timing": r.timing,
	}
	ev := map[string]interface{}{"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": append([]string{}, r.assume...), "wall_s": time.Since(started).Seconds(), "violations": len(real)}
	if len(real) > 0 {
		ev["violation_details"] = real
	}
	if len(knownHit) > 0 {
		ev["known_findings"] = knownHit
	}
	os.MkdirAll(filepath.Dir(evPath), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range rn {
			fmt.Printf("  rule %s: %d instances\n", k, r.oblig[k])
		}
		for _, t := range r.timing {
			fmt.Println("  ", t)
		}
	}
	if len(real) == 0 {
		fmt.Printf("property=%s held: %d obligations over %d functions, %d path classes, %.1fs\n", r.id, total, len(r.fns), r.paths, time.Since(started).Seconds())
		return 0
	}
	for _, v := range real {
		fmt.Printf("%s: rule %s in %s: %s\n    construct: %s\n", v.Pos, v.Rule, v.Func, v.Msg, v.Construct)
		n := len(v.Trace)
		lim := 14
		if os.Getenv("VERIF_VERBOSE") != "" {
			lim = 60
		}
		if n > lim {
			fmt.Printf("    … %d earlier steps\n", n-lim)
			v.Trace = v.Trace[n-lim:]
		}
		for _, t := range v.Trace {
			fmt.Println("    " + t)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, evPath)
	return 1
}
