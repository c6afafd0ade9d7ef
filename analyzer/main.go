package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Viol is one violated obligation. Key identifies the construct without line numbers.
type Viol struct {
	Key string `json:"key"`
	Pos string `json:"pos"`
	Msg string `json:"msg"`
}

// Ctx collects what one check analysed and found.
type Ctx struct {
	P     *Prog
	ID    string
	Tier  string
	viols []Viol
	seen  map[string]bool
	rules map[string]string // rule -> statement
	count map[string]int    // rule -> instances decided
	samp  map[string][]string
	info  map[string]any
}

// Rule declares a rule and its statement for the evidence.
func (c *Ctx) Rule(name, statement string) { c.rules[name] = statement }

// Inst records one decided instance (call site, function, obligation) of a rule.
func (c *Ctx) Inst(rule, what string) {
	k := "i\x00" + rule + "\x00" + what
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.count[rule]++
	if len(c.samp[rule]) < 400 {
		c.samp[rule] = append(c.samp[rule], what)
	}
}

// Violate records a violation once per key.
func (c *Ctx) Violate(key, pos, format string, args ...any) {
	k := "v\x00" + key
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viols = append(c.viols, Viol{key, pos, fmt.Sprintf(format, args...)})
}

// Floor fails the check when a rule matched fewer instances than the tree is known to contain:
// a rule whose anchor moved must not pass vacuously.
func (c *Ctx) Floor(rule string, min int) {
	if c.count[rule] < min {
		c.Violate("floor:"+rule, "", "rule %s decided only %d instances, at least %d expected: its anchor can no longer be resolved", rule, c.count[rule], min)
	}
}

func (c *Ctx) save() *Ctx {
	n := &Ctx{viols: append([]Viol{}, c.viols...), seen: map[string]bool{}, rules: c.rules, count: map[string]int{}, samp: map[string][]string{}}
	for k, v := range c.seen {
		n.seen[k] = v
	}
	for k, v := range c.count {
		n.count[k] = v
	}
	for k, v := range c.samp {
		n.samp[k] = append([]string{}, v...)
	}
	return n
}

func (c *Ctx) restore(n *Ctx) {
	c.viols, c.seen, c.count, c.samp = n.viols, n.seen, n.count, n.samp
}

func (c *Ctx) flowStats(e *Engine) {
	add := func(k string, n int) {
		v, _ := c.info[k].(int)
		c.info[k] = v + n
	}
	add("dataflow_block_states", e.Blocks)
	add("dataflow_instruction_steps", e.steps)
	add("dataflow_widenings", e.Widened)
	fs, _ := c.info["functions_in_context"].([]string)
	set := map[string]bool{}
	for _, f := range fs {
		set[f] = true
	}
	for f := range e.FnsSeen {
		if !set[f] {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	c.info["functions_in_context"] = fs
}

type check struct {
	fn          func(*Ctx)
	assumptions []string
}

var checks = map[string]check{}

func register(id string, fn func(*Ctx), assumptions ...string) {
	checks[id] = check{fn, assumptions}
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ property, key, desc string }

func loadKnown(root string) ([]known, error) {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue // comments and "fixed:" entries suppress nothing
		}
		parts := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(parts) != 3 {
			return nil, fmt.Errorf("bad line in known-findings.txt: %s", line)
		}
		out = append(out, known{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "key="), parts[2]})
	}
	return out, sc.Err()
}

func run(p *Prog, loadErr error, id, tier string) int {
	start := time.Now()
	root := verifRoot()
	c := &Ctx{P: p, ID: id, Tier: tier, seen: map[string]bool{}, rules: map[string]string{},
		count: map[string]int{}, samp: map[string][]string{}, info: map[string]any{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", id, r, debug.Stack())
				c.Violate("internal", "", "the analysis could not be completed: %v", r)
			}
		}()
		if loadErr != nil {
			c.Violate("load", "", "the source cannot be analysed: %v", loadErr)
			return
		}
		checks[id].fn(c)
	}()
	kn, err := loadKnown(root)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		kn = nil
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0777)
	var real, listed []Viol
	for _, v := range c.viols {
		hit := false
		for _, k := range kn {
			if k.property == id && k.key == strings.ReplaceAll(v.Key, " ", "_") {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.desc, v.Pos)
			}
		}
		if hit {
			listed = append(listed, v)
		} else {
			real = append(real, v)
		}
	}
	total := 0
	type ruleCov struct {
		Rule      string   `json:"rule"`
		Statement string   `json:"statement"`
		Instances int      `json:"instances"`
		Decided   []string `json:"decided"`
	}
	var rcs []ruleCov
	var names []string
	for r := range c.rules {
		names = append(names, r)
	}
	for r := range c.count {
		if c.rules[r] == "" {
			names = append(names, r)
		}
	}
	sort.Strings(names)
	var obls []string
	for _, r := range names {
		total += c.count[r]
		d := append([]string{}, c.samp[r]...)
		sort.Strings(d)
		rcs = append(rcs, ruleCov{r, c.rules[r], c.count[r], d})
		obls = append(obls, fmt.Sprintf("%s: %s (%d instances)", r, c.rules[r], c.count[r]))
	}
	cov := map[string]any{
		"explanation": "Static analysis of /repo's current source (type-checked packages, SSA form). Every instance below was decided from the code on all paths the analysis distinguishes; nothing was executed. " + strings.Join(obls, "; "),
		"obligations": total,
		"rules":       rcs,
		"violations":  real,
		"known":       listed,
		"functions":   len(p.repoFuncsSafe()),
		"packages":    p.pkgNames(),
	}
	for k, v := range c.info {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	if a := checks[id].assumptions; len(a) > 0 {
		ev["assumptions"] = a
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(js, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rep := filepath.Join(root, "evidence", id+".violations.txt")
	if len(real) == 0 {
		os.Remove(rep)
		fmt.Printf("%s: held on %d obligations\n", id, total)
		return 0
	}
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "%s\t%s\t%s\n", v.Key, v.Pos, v.Msg)
	}
	os.WriteFile(rep, []byte(sb.String()), 0666)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func (p *Prog) repoFuncsSafe() []string {
	if p == nil {
		return nil
	}
	var out []string
	for _, f := range p.repoFuncs() {
		out = append(out, f.String())
	}
	return out
}

func (p *Prog) pkgNames() []string {
	if p == nil {
		return nil
	}
	var out []string
	for k := range p.Pkgs {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to analyse")
	eff := flag.String("effects", "", "print the effect summary of the named functions")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		time.AfterFunc(40*time.Second, func() { pprof.StopCPUProfile(); dumpVisits() })
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	for _, id := range ids {
		if _, ok := checks[id]; !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
	}
	p, err := load(*repo)
	theProg = p
	if *eff != "" {
		dumpEffects(p, *eff)
		return
	}
	rc := 0
	for _, id := range ids {
		if r := run(p, err, id, *tier); r != 0 {
			rc = r
		}
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

var curEngine *Engine

func dumpVisits() {
	if curEngine == nil {
		return
	}
	type kv struct {
		k string
		n int
	}
	var l []kv
	for f, n := range curEngine.visits {
		l = append(l, kv{fmt.Sprintf("%s (%d blocks, %d runs)", funcName(f), len(f.Blocks), curEngine.runs[f]), n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := range l {
		if i < 25 {
			fmt.Println(l[i].n, l[i].k)
		}
	}
	fmt.Println("terms", len(curEngine.tb.all))
}

func (s *S) debug(e *Engine) string {
	var l []string
	for k, v := range s.ev {
		l = append(l, "ev:"+k+"="+v)
	}
	for k, v := range s.note {
		l = append(l, fmt.Sprintf("note:%s=%d", k, v.id))
	}
	for k, v := range s.env {
		if discr(v) {
			l = append(l, "env:"+k.Name()+"="+v.String())
		}
	}
	for k, v := range s.mem {
		if discr(v) {
			l = append(l, "mem:"+k.String()+"="+v.String())
		}
	}
	for k, v := range s.atoms {
		if e.R.Protect != nil && e.R.Protect(k) {
			l = append(l, fmt.Sprintf("at:%s=%v", k, v))
		}
	}
	for k, v := range s.eqc {
		if e.R.Protect != nil && e.R.Protect(k) {
			l = append(l, fmt.Sprintf("eq:%s=%v", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (e *Engine) why(s *S, msg string) {
	if os.Getenv("WHY") == "" || !strings.Contains(msg, os.Getenv("WHY")) {
		return
	}
	fmt.Println("WHY", msg)
	var l []string
	for k, v := range s.atoms {
		l = append(l, fmt.Sprintf("   A %s = %v", k, v))
	}
	for k, v := range s.lo {
		l = append(l, fmt.Sprintf("   L %s#%d >= %v", k, k.id, v))
	}
	for k, v := range s.eqc {
		l = append(l, fmt.Sprintf("   Q %s = %v", k, v))
	}
	for k, v := range s.mem {
		l = append(l, fmt.Sprintf("   M %s = %v", k, v))
	}
	for k, v := range s.ev {
		l = append(l, fmt.Sprintf("   V %s = %v", k, v))
	}
	for k, v := range s.note {
		l = append(l, fmt.Sprintf("   N %s = %v", k, v))
	}
	for k, v := range s.env {
		l = append(l, fmt.Sprintf("   X %s = %v#%d", k.Name(), v, v.id))
	}
	sort.Strings(l)
	fmt.Println(strings.Join(l, "\n"))
}

func dumpEffects(p *Prog, name string) {
	e := p.Effects()
	fmt.Println("rounds", e.Rounds, "objects", e.nobj)
	for _, fn := range e.fns {
		if name != "ALL" && !has(strings.Split(name, ","), funcName(fn)) {
			continue
		}
		sum := e.sums[fn]
		fmt.Println("==", funcName(fn), "muts", len(sum.muts), "calls", len(sum.calls))
		if name == "ALL" {
			continue
		}
		for _, m := range e.Muts(fn) {
			c := ""
			if m.cond != nil {
				c = " if " + m.cond.describe(fn)
			}
			fmt.Printf("  %s: %s.%s at %s in %s via %s%s\n", m.obj.describe(fn), typStr(m.typ), m.field, p.instrPos(m.site), funcName(m.site.Parent()), m.via, c)
		}
		for i, r := range sum.rets {
			fmt.Print("  ret ", i, ":")
			for o := range r.all() {
				fmt.Print(" ", o.describe(fn), "/", o.typ)
			}
			fmt.Println()
		}
		for _, c := range sum.calls {
			fmt.Print("  calls ", c.callee.describe(fn), " with")
			for _, a := range c.args {
				fmt.Print(" (")
				for o := range a.all() {
					fmt.Print(" ", o.describe(fn), "/", o.typ)
				}
				fmt.Print(")")
			}
			fmt.Println()
		}
	}
}
