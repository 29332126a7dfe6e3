package main

// The check framework: obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Rule      string
	Construct string
	Pos       string
	OK        bool
	Note      string
}

type Ctx struct {
	excluded  map[*ssa.Function][]string // see excludedBy
	prep      func(in *Interp)           // see prepared
	P         *Program
	ID        string
	Tier      string
	Seed      string
	Obls      []Obligation
	seen      map[string]bool
	Notes     []string
	stats     map[string]int
	Arch      string
	onDisplay func(d *display) // takes the displays of stages instead of C36
	dispRule  string
	disp      display
	secs      map[string]*section // see sections
}

func (c *Ctx) add(o Obligation) {
	if o.Rule == "" {
		return // belongs to another check
	}
	if c.Arch != "" {
		o.Construct += " [" + c.Arch + "]"
	}
	k := fmt.Sprint(o.Rule, "|", o.Construct, "|", o.OK, "|", o.Note)
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Obls = append(c.Obls, o)
}

func (c *Ctx) Ok(rule, construct string, pos any, note string, a ...any) {
	c.add(Obligation{rule, construct, c.posStr(pos), true, fmt.Sprintf(note, a...)})
}

func (c *Ctx) Bad(rule, construct string, pos any, note string, a ...any) {
	c.add(Obligation{rule, construct, c.posStr(pos), false, fmt.Sprintf(note, a...)})
}

// Want records an obligation with its outcome.
func (c *Ctx) Want(ok bool, rule, construct string, pos any, note string, a ...any) bool {
	if ok {
		c.Ok(rule, construct, pos, "")
	} else {
		c.Bad(rule, construct, pos, note, a...)
	}
	return ok
}

func (c *Ctx) Count(k string, n int) { c.stats[k] += n }

type poser interface{ Pos() tokenPos }

func (c *Ctx) posStr(p any) string {
	switch p := p.(type) {
	case nil:
		return ""
	case string:
		return p
	case tokenPos:
		return c.P.pos(p)
	case poser:
		return c.P.pos(p.Pos())
	}
	return fmt.Sprint(p)
}

// Min demands that at least n obligations of a rule were found (a rule that matched nothing decides nothing).
func (c *Ctx) Min(rule string, n int) {
	k := 0
	for _, o := range c.Obls {
		if o.Rule == rule {
			k++
		}
	}
	if k < n {
		c.Bad("coverage", rule, nil, "only %d instance(s) of this rule found in the source, at least %d expected", k, n)
	}
}

// Try runs f and turns an analysis failure into a violation of the rule.
func (c *Ctx) Try(rule, construct string, pos any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(analysisError); ok {
				c.Bad(rule, construct, pos, "not decided: %s", e.msg)
				return
			}
			if os.Getenv("OSMCHECK_DEBUG") != "" {
				debug.PrintStack()
			}
			c.Bad(rule, construct, pos, "not decided: internal: %v", r)
		}
	}()
	f()
}

type CheckDef struct {
	ID     string
	Rule   string // one-paragraph explanation for the evidence; starts with "technique: "
	Run    func(c *Ctx)
	Assume []string
}

// technique is the first phrase of the rule.
func (d *CheckDef) technique() string {
	if i := strings.IndexAny(d.Rule, ":;."); i > 0 {
		return d.Rule[:i]
	}
	return d.Rule
}

func (d *CheckDef) note() string {
	s := d.Rule
	s += " The verdict is for all inputs of the functions named, derived from the source without running it; a construct the analysis cannot follow is reported as undecided, i.e. as a violation."
	if len(d.Assume) > 0 {
		s += " Assumes: " + strings.Join(d.Assume, "; ") + "."
	}
	s += " Trusts the Go type checker, the SSA builder of x/tools, this analyser and its models of the standard library."
	return s
}

var checks = map[string]*CheckDef{}

func register(id, rule string, run func(c *Ctx), assume ...string) {
	checks[id] = &CheckDef{ID: id, Rule: rule, Run: run, Assume: assume}
}

func runCheck(id, repo, out string, quiet bool) (bad int, err error) {
	def := checks[id]
	if def == nil {
		return 0, fmt.Errorf("no check %s", id)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	c := &Ctx{ID: id, Tier: tier, Seed: os.Getenv("VERIF_SEED"), seen: map[string]bool{}, stats: map[string]int{}}
	archs := []string{""}
	if tier == "thorough" {
		archs = append(archs, "arm64")
	}
	for _, a := range archs {
		c.Arch = a
		p, err := cachedLoad(repo, a)
		if err != nil {
			c.P = &Program{Dir: repo}
			c.Bad("load", "repository", nil, "%v", err)
			continue
		}
		c.P = p
		c.Try(id, "check", nil, func() { def.Run(c) })
		c.Count("packages", len(p.Pkgs))
		c.Count("functions", len(p.Funcs()))
	}
	c.Arch = ""
	sort.SliceStable(c.Obls, func(i, j int) bool { return !c.Obls[i].OK && c.Obls[j].OK })
	known := loadKnown(id)
	var viol, knownHit []Obligation
	for _, o := range c.Obls {
		if o.OK {
			continue
		}
		if known[o.Rule+" "+o.Construct] {
			knownHit = append(knownHit, o)
			continue
		}
		viol = append(viol, o)
	}
	if len(c.Obls) == 0 {
		viol = append(viol, Obligation{Rule: "coverage", Construct: id, Note: "no obligations generated"})
	}
	for _, o := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, o.Rule, o.Construct, o.Note)
	}
	viol = collapse(viol)
	writeEvidence(c, def, out, tier, viol, time.Since(start))
	viol = collapse(viol)
	if len(viol) > 0 {
		var b strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&b, "%s: [%s/%s] %s: %s\n", o.Pos, id, o.Rule, o.Construct, o.Note)
		}
		dir := filepath.Join(out, "out")
		os.MkdirAll(dir, 0o777)
		f := filepath.Join(dir, id+".violation.txt")
		os.WriteFile(f, []byte(b.String()), 0o666)
		if !quiet {
			fmt.Print(b.String())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	} else if !quiet {
		fmt.Printf("ok property=%s obligations=%d wall=%.1fs\n", id, len(c.Obls), time.Since(start).Seconds())
	}
	return len(viol), nil
}

var bitSuffix = regexp.MustCompile(` bit [0-9]+( \[[a-z0-9]+\])?$`)

// collapse keeps one violation per construct where many bits of it differ.
func collapse(l []Obligation) []Obligation {
	seen := map[string]int{}
	var res []Obligation
	for _, o := range l {
		k := o.Rule + "|" + bitSuffix.ReplaceAllString(o.Construct, "")
		if strings.Contains(o.Construct, " bit ") {
			if _, ok := seen[k]; ok {
				continue
			}
			seen[k] = 1
		}
		res = append(res, o)
	}
	return res
}

var loadCache = map[string]*Program{}

func cachedLoad(repo, arch string) (*Program, error) {
	k := repo + "|" + arch
	if p, ok := loadCache[k]; ok {
		return p, nil
	}
	p, err := Load(repo, arch)
	if err == nil {
		loadCache[k] = p
	}
	return p, err
}

// loadKnown reads the known-findings file: lines "finding: property=<id> rule=<rule> construct=<construct> | text".
func loadKnown(id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		r := strings.Index(l, "rule=")
		k := strings.Index(l, " construct=")
		e := strings.Index(l, " | ")
		if r < 0 || k < r || e < k {
			continue
		}
		m[l[r+5:k]+" "+l[k+11:e]] = true
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func writeEvidence(c *Ctx, def *CheckDef, out, tier string, viol []Obligation, d time.Duration) {
	dir := filepath.Join(out, "evidence")
	os.MkdirAll(dir, 0o777)
	rules := map[string]int{}
	cons := map[string]bool{}
	for _, o := range c.Obls {
		rules[o.Rule]++
		cons[o.Construct] = true
	}
	var samples []string
	for i, o := range c.Obls {
		if i%max(1, len(c.Obls)/40) == 0 {
			s := o.Rule + ": " + o.Construct
			if o.Pos != "" {
				s += " @" + o.Pos
			}
			if o.Note != "" {
				s += " -- " + o.Note
			}
			samples = append(samples, s)
		}
	}
	disch := 0
	for _, o := range c.Obls {
		if o.OK {
			disch++
		}
	}
	var fns []string
	for k := range visitedFns {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	if len(fns) > 200 {
		fns = fns[:200]
	}
	expl := def.Rule
	if len(def.Assume) > 0 {
		expl += "  Assumes: " + strings.Join(def.Assume, "; ") + "."
	}
	if len(viol) > 0 {
		var v []string
		for _, o := range viol {
			v = append(v, fmt.Sprintf("%s %s %s: %s", o.Pos, o.Rule, o.Construct, o.Note))
		}
		expl += "  VIOLATED: " + strings.Join(v, " | ")
	}
	seed := 0
	fmt.Sscan(c.Seed, &seed)
	ev := map[string]any{
		"property": def.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": d.Seconds(),
		"coverage": map[string]any{
			"explanation":           expl,
			"obligations":           len(c.Obls),
			"discharged":            disch,
			"rules":                 rules,
			"constructs":            len(cons),
			"functions_interpreted": fns,
			"stats":                 c.stats,
			"samples":               samples,
			"notes":                 c.Notes,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, def.ID+".json"), b, 0o666)
}

var visitedFns = map[string]bool{}
