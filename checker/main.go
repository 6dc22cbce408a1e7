package main

import (
	"runtime"
	"runtime/metrics"
	"sync/atomic"

	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule in one paragraph, repeated in the evidence
	Min  int    // least number of obligations confirmed by hand on the reference tree
	Run  func(r *Report)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

// Obligation is one rule instance and its verdict.
type Obligation struct {
	Rule, Construct, Pos, Msg string
	Violated                  bool
}

func (o Obligation) key() string { return o.Rule + " @ " + o.Construct }

type Report struct {
	P        *Program
	Check    *Check
	world    *World
	Obl      []Obligation
	seen     map[string]int
	notes    map[string]any
	funcs    map[string]bool
	tooLarge int // scenarios given up
}

func newReport(p *Program, c *Check, w *World) *Report {
	return &Report{P: p, Check: c, world: w, seen: map[string]int{}, notes: map[string]any{}, funcs: map[string]bool{}}
}

func (r *Report) W() *World {
	if r.world == nil {
		r.world = NewWorld(r.P)
	}
	return r.world
}

func (r *Report) add(o Obligation) {
	if i, ok := r.seen[o.key()]; ok {
		if o.Violated && !r.Obl[i].Violated {
			r.Obl[i] = o
		}
		return
	}
	r.seen[o.key()] = len(r.Obl)
	r.Obl = append(r.Obl, o)
}

func (r *Report) ok(rule, construct, pos string) {
	r.add(Obligation{Rule: rule, Construct: construct, Pos: pos})
}

func (r *Report) fail(rule, construct, pos, f string, a ...any) {
	r.add(Obligation{Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(f, a...), Violated: true})
}

// check records the verdict of one obligation.
func (r *Report) check(cond bool, rule, construct, pos, f string, a ...any) bool {
	if cond {
		r.ok(rule, construct, pos)
	} else {
		r.fail(rule, construct, pos, f, a...)
	}
	return cond
}

func (r *Report) note(k string, v any) { r.notes[k] = v }

// lowMemory is set while the analysis holds more memory than it should ever
// need; the scenario under analysis is then given up as undecided.
var lowMemory atomic.Bool

func watchMemory(id string) {
	const gb = 1 << 30
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		n := sample[0].Value.Uint64()
		if n > 10*gb {
			runtime.GC()
			metrics.Read(sample)
			n = sample[0].Value.Uint64()
		}
		lowMemory.Store(n > 10*gb)
		if n > 20*gb {
			rp := filepath.Join(verifDir(), "evidence", id+".violations.txt")
			m := "rule \"analysis\" on check " + id + ": cannot be decided: the analysis needs too much memory\n"
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, []byte(m), 0o644)
			fmt.Printf("%sVIOLATION property=%s replay=%s\n", m, id, rp)
			os.Exit(1)
		}
	}
}

// guard turns analysis failures inside f into violations of the named rule.
// After several that were too large, the rest is not analysed.
func (r *Report) guard(rule, construct string, f func()) {
	if r.tooLarge >= 2 {
		r.fail(rule, construct, "", "not analysed: too many possibilities before")
		return
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case anchorError:
			r.fail(rule, construct, "", "cannot be decided: %s", e.msg)
		case budgetError:
			r.tooLarge++
			r.fail(rule, construct, "", "cannot be decided: %s", e.msg)
		default:
			if os.Getenv("CHECK_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
			r.fail(rule, construct, "", "analysis failed: %v", e)
		}
	}()
	f()
}

// known findings ------------------------------------------------------------------

type known struct{ prop, key, text string }

func loadKnown(dir string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=C00 [rule @ construct] description
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		id, rest, ok := strings.Cut(rest, " ")
		if !ok || !strings.HasPrefix(rest, "[") {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		i := strings.LastIndex(rest, "]")
		if i < 0 {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		out = append(out, known{id, rest[1:i], strings.TrimSpace(rest[i+1:])})
	}
	return out, nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	prop := flag.String("property", "", "property to decide")
	all := flag.Bool("all", false, "run every check")
	list := flag.Bool("list", false, "list checks")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if *list {
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if !*all {
		if *prop == "" {
			fmt.Fprintln(os.Stderr, "usage: checker -property ID")
			os.Exit(2)
		}
		ids = strings.Split(*prop, ",")
	}
	start := time.Now()
	go watchMemory(ids[0])
	p, err := Load()
	bad := false
	var w *World
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		t0 := time.Now()
		r := newReport(p, c, nil)
		if err != nil {
			r.fail("load", "module", "", "the repository does not type-check: %v", err)
		} else {
			r.world = w
			r.guard("analysis", "check "+id, func() { c.Run(r) })
			if !*all {
				w = r.world
			}
			if len(r.Obl) < c.Min {
				r.fail("coverage", "instance count", "", "%d obligations found, at least %d expected", len(r.Obl), c.Min)
			}
		}
		el := time.Since(t0).Seconds()
		if !*all {
			el = time.Since(start).Seconds()
		}
		if finish(r, tier, el, *verbose) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func finish(r *Report, tier string, wall float64, verbose bool) bool {
	id := r.Check.ID
	dir := verifDir()
	kn, err := loadKnown(dir)
	if err != nil {
		r.fail("known-findings", "file", "", "%v", err)
	}
	var viol []Obligation
	nKnown := 0
	for _, o := range r.Obl {
		if verbose {
			m := "ok  "
			if o.Violated {
				m = "FAIL"
			}
			fmt.Printf("  %s %s %s [%s] %s\n", id, m, o.Pos, o.key(), o.Msg)
		}
		if !o.Violated {
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.prop == id && k.key == o.key() {
				isKnown = true
				nKnown++
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", id, o.key(), o.Pos, k.text)
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	rules := map[string]int{}
	good := 0
	var samples []string
	for _, o := range r.Obl {
		rules[o.Rule]++
		if !o.Violated {
			good++
		}
		if rules[o.Rule] <= 2 && len(samples) < 12 {
			samples = append(samples, fmt.Sprintf("%s (%s)", o.key(), o.Pos))
		}
	}
	cov := map[string]any{
		"explanation":        r.Check.Rule,
		"obligations":        len(r.Obl),
		"discharged":         good,
		"rules":              rules,
		"samples":            samples,
		"known_findings":     nKnown,
		"functions_in_scope": 0,
	}
	if r.P != nil {
		cov["functions_in_scope"] = len(r.P.Funcs)
	}
	if r.world != nil {
		cov["scenario_runs"] = r.world.stats.runs
		cov["abstract_steps"] = r.world.stats.steps
		cov["calls_analysed"] = r.world.stats.calls
		cov["outcomes_examined"] = r.world.stats.outcomes
		cov["functions_analysed"] = len(r.world.visited)
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
		"assumptions": []string{
			"Go type checker and golang.org/x/tools SSA construction are correct",
			"library calls behave as their models say; the models are listed in DESIGN.md",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rp := filepath.Join(dir, "evidence", id+".violations.txt")
	os.Remove(rp)
	if len(viol) > 0 {
		var s strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&s, "%s: rule %q on %s: %s\n", o.Pos, o.Rule, o.Construct, o.Msg)
		}
		os.WriteFile(rp, []byte(s.String()), 0o644)
		fmt.Print(s.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return true
	}
	fmt.Printf("property %s: %d obligations, %d discharged, %d known findings\n", id, len(r.Obl), good, nKnown)
	return false
}
