// Command kcheck decides semantic properties of the krypto431 module from its
// source: it type-checks the working tree, builds SSA and runs the analyses
// registered for one property.
package main

import (
	"golang.org/x/tools/go/ssa"

	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is the analysis that decides one property.
type Check struct {
	ID  string
	Run func(c *Ctx)
	// Explain says what is analysed and which rule is applied.
	Explain string
	Assume  []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Viol is one violation (or undecided obligation).
type Viol struct {
	Rule, Key, Where, Text string
	Path                   []string
}

// Ctx collects what a check analysed and found.
type Ctx struct {
	onlyCalled map[*ssa.Function]bool // functions that are called and never used as a value
	P          *Program
	ID         string
	Tier       string
	Repo       string
	viols      []Viol
	seen       map[string]bool
	rules      map[string][2]int // rule -> instances, discharged
	order      []string
	engines    []*Engine
	samples    []string
	counts     map[string]int
}

func (c *Ctx) count(name string, n int) { c.counts[name] += n }

func (c *Ctx) sample(format string, a ...any) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) rule(rule string) {
	if _, ok := c.rules[rule]; !ok {
		c.order = append(c.order, rule)
		c.rules[rule] = [2]int{}
	}
}

// Ob records one instance of a rule; a false one is a violation at pos.
func (c *Ctx) Ob(ok bool, rule, key string, pos token.Pos, format string, a ...any) bool {
	c.rule(rule)
	r := c.rules[rule]
	r[0]++
	if ok {
		r[1]++
	}
	c.rules[rule] = r
	if ok {
		return true
	}
	c.add(Viol{Rule: rule, Key: key, Where: c.P.Pos(pos), Text: fmt.Sprintf(format, a...)})
	return false
}

// Fail records a violation that is not an instance count of its own.
func (c *Ctx) Fail(rule, key string, pos token.Pos, format string, a ...any) {
	c.rule(rule)
	c.add(Viol{Rule: rule, Key: key, Where: c.P.Pos(pos), Text: fmt.Sprintf(format, a...)})
}

func (c *Ctx) add(v Viol) {
	k := v.Rule + "|" + v.Key + "|" + v.Where
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viols = append(c.viols, v)
}

// Need fails the check when a rule had fewer than n instances: an analysis
// that looked at nothing has shown nothing.
func (c *Ctx) Need(rule string, n int) {
	c.rule(rule)
	if c.rules[rule][0] < n {
		c.add(Viol{Rule: rule, Key: "vacuous", Where: "-", Text: fmt.Sprintf("only %d instance(s) of this rule found, at least %d expected: the code the rule is about is gone or out of the analysis' reach", c.rules[rule][0], n)})
	}
}

// Undecided is an obligation the analysis could not decide.
func (c *Ctx) Undecided(key string, pos token.Pos, format string, a ...any) {
	c.add(Viol{Rule: "undecided", Key: key, Where: c.P.Pos(pos), Text: "the analysis can not decide: " + fmt.Sprintf(format, a...)})
}

// NewEngine makes an engine whose reports and coverage go to this check.
func (c *Ctx) NewEngine(h Hooks) *Engine {
	e := NewEngine(c.P, h)
	c.engines = append(c.engines, e)
	return e
}

func (c *Ctx) collect() {
	for _, e := range c.engines {
		for _, r := range e.reports {
			c.rule(r.Rule)
			c.add(Viol{Rule: r.Rule, Key: r.Key, Where: r.Where, Text: r.Text, Path: r.Path})
		}
		if e.over != "" {
			c.add(Viol{Rule: "undecided", Key: "budget", Where: "-", Text: "the analysis gave up: " + e.over})
		}
	}
}

func root() string {
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "kcheck", "main.go")); err == nil {
			return d
		}
	}
	return "/verif"
}

type knownFinding struct{ prop, key, text string }

func knownFindings(dir string) (l []knownFinding) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(ln, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			l = append(l, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return l
}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "working tree")
	tier := flag.String("tier", "", "quick or thorough")
	list := flag.Bool("list", false, "list the registered checks")
	noev := flag.Bool("noevidence", false, "do not write the evidence file")
	explain := flag.Bool("explain", false, "print what the checks do, as JSON")
	smoke := flag.String("smoke", "", "run the engine on one function (development)")
	flag.Parse()
	if *smoke != "" {
		smokeRun(*repo, *smoke, flag.Args())
		return
	}
	if *explain {
		m := map[string]any{}
		for id, c := range checks {
			m[id] = map[string]any{"explain": c.Explain, "assume": c.Assume}
		}
		json.NewEncoder(os.Stdout).Encode(m)
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	bad := false
	for _, id := range ids {
		if runCheck(id, *repo, *tier, !*noev) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func runCheck(id, repo, tier string, evidence bool) bool {
	t0 := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	resetTerms()
	c := &Ctx{ID: id, Tier: tier, Repo: repo, seen: map[string]bool{}, rules: map[string][2]int{}, counts: map[string]int{}}
	p, err := Load(repo, "", "")
	if err != nil {
		c.P = &Program{Dir: repo, Fset: token.NewFileSet()}
		c.viols = append(c.viols, Viol{Rule: "load", Key: "load", Where: repo, Text: "the module does not type-check: " + err.Error()})
	} else {
		c.P = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.add(Viol{Rule: "undecided", Key: "internal", Where: "-", Text: fmt.Sprintf("the analysis failed: %v", r), Path: strings.Split(string(debug.Stack()), "\n")})
				}
			}()
			ck.Run(c)
		}()
		c.collect()
	}
	dir := root()
	var fresh, known []Viol
	kf := knownFindings(dir)
	for _, v := range c.viols {
		k := ""
		for _, f := range kf {
			if f.prop == id && f.key == v.Rule+"/"+v.Key {
				k = f.text
			}
		}
		if k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			known = append(known, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	fns := map[string]bool{}
	steps, states, sites := 0, 0, 0
	for _, e := range c.engines {
		steps += e.steps
		states += e.nStates
		sites += len(e.siteSeen)
		for f := range e.fnSeen {
			fns[shortName(f.String())] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	inst, ok := 0, 0
	var rl []string
	for _, r := range c.order {
		x := c.rules[r]
		inst += x[0]
		ok += x[1]
		rl = append(rl, fmt.Sprintf("%s: %d instance(s), %d hold", r, x[0], x[1]))
	}
	fmt.Printf("%s: %d rule instances, %d hold; %d functions interpreted, %d call sites, %d abstract states, %d steps\n", id, inst, ok, len(fl), sites, states, steps)
	for _, r := range rl {
		fmt.Println("  " + r)
	}
	replay := filepath.Join(dir, "evidence", id+".report.txt")
	if evidence {
		os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
		cov := map[string]any{
			"explanation":           ck.Explain,
			"rule_instances":        inst,
			"rule_instances_hold":   ok,
			"rules":                 rl,
			"functions_interpreted": fl,
			"call_sites":            sites,
			"abstract_states":       states,
			"transfer_steps":        steps,
			"module_functions":      len(c.P.Funcs),
			"samples":               c.samples,
		}
		for k, n := range c.counts {
			cov[k] = n
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": append([]string{}, ck.Assume...), "wall_s": time.Since(t0).Seconds(), "violations": len(fresh)}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0644)
	}
	var rep strings.Builder
	for _, v := range append(append([]Viol{}, fresh...), known...) {
		fmt.Fprintf(&rep, "[%s] %s: %s\n    key %s/%s\n", v.Rule, v.Where, v.Text, v.Rule, v.Key)
		for _, p := range v.Path {
			fmt.Fprintf(&rep, "    via %s\n", p)
		}
	}
	if evidence {
		os.WriteFile(replay, []byte(rep.String()), 0644)
	}
	for i, v := range fresh {
		if i >= 12 {
			fmt.Printf("  … %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, v.Text)
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	return len(fresh) > 0
}

func smokeRun(repo, name string, args []string) {
	p, err := Load(repo, "", "")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	pkg := ""
	if i := strings.LastIndex(name, ":"); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	fn := p.Func(pkg, name)
	t0 := time.Now()
	e := NewEngine(p, Hooks{})
	if os.Getenv("REL") != "" {
		rel := strings.Split(os.Getenv("REL"), ",")
		e.h.Opaque = e.AutoOpaque(func(k string) bool {
			for _, r := range rel {
				if strings.Contains(k, r) {
					return true
				}
			}
			return false
		}, nil, func(t types.Type) bool { return strings.HasSuffix(typeName(t), ".Key") })
	}
	e.debug = os.Getenv("KDEBUG") != ""
	outs := e.Run(fn, nil)
	for _, o := range outs {
		fmt.Println("==", o.kind, p.Pos(o.pos))
		for _, v := range o.vals {
			fmt.Println("   ret", v)
		}
		if len(args) > 0 {
			for a, v := range o.st.heap {
				fmt.Println("   cell", a, "=", v)
			}
			for f, v := range o.st.facts {
				fmt.Println("   fact", f, v)
			}
		}
	}
	fmt.Println(len(outs), e.steps, e.nStates, e.over, "lossy", e.lossy, time.Since(t0))
}
