package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id   string
	rule string
	run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) { checks[id] = &Check{id, rule, run} }

// Ctx collects what one check analysed and found.
type Ctx struct {
	P       *Program
	id      string
	viols   map[string]*Violation
	counts  map[string]int
	need    map[string]int
	fns     map[*ssa.Function]bool
	calls   map[ssa.Instruction]bool
	entries []string
	events  int
	paths   int
	steps   int
	notes   []string
	samples []string

	fnNames   map[string]string // from worker processes
	callNames map[string]bool
}

func (c *Ctx) violate(rule, fn, construct, pos, msg string) {
	v := &Violation{rule: rule, fn: fn, construct: construct, pos: pos, msg: msg}
	if _, ok := c.viols[v.key()]; !ok {
		c.viols[v.key()] = v
	}
}
func (c *Ctx) count(k string, n int) { c.counts[k] += n }

// require: fewer than n matching sites means the rule no longer sees its subject.
func (c *Ctx) require(k string, n int) { c.need[k] = n }

func (c *Ctx) sample(format string, a ...any) {
	if len(c.samples) < 60 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

type runOpt struct {
	noIndex  bool // treat a repository re-index as one opaque step
	pkgs     []string
	args     map[string]*Term
	setup    func(e *Engine, s *State, args []*Term)
	readFork bool
	ext      func(e *Engine, s *State, c *callSite) ([]*callRes, bool)
	inline   func(f *ssa.Function) bool
	noDb     bool
	invoke   func(e *Engine, name string, recv *Term, args []*Term) *ssa.Function
	free     []*Term // values captured by the entry point
	funcs    map[string]*ssa.Function
	state    *State  // where to start
	argv     []*Term // the arguments, in place of symbols
}

// run executes an entry point under a monitor and merges what it found.
func (c *Ctx) run(name string, mon Monitor, o runOpt) ([]*Outcome, *Engine) {
	fn := c.P.fn(name)
	if fn == nil {
		c.violate("anchor", "", name, "-", "entry point "+name+" not found: the property cannot be decided on this tree")
		return nil, nil
	}
	return c.runFn(name, fn, mon, o)
}

func (c *Ctx) runFn(name string, fn *ssa.Function, mon Monitor, o runOpt) ([]*Outcome, *Engine) {
	e := newEngine(c.P, mon)
	e.entry = name
	e.readFork = o.readFork
	e.dbModel = !o.noDb
	e.ext = o.ext
	e.invoke = o.invoke
	e.tmpl = repoTemplate(c.P)
	if o.noIndex {
		ix := c.P.fn("core.Repository.Index")
		prev := o.ext
		e.ext = func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
			if ix != nil && cs.name == repoPath+"src/ferryd/core.Repository.Index" {
				s2 := s.clone()
				er := mk("err", cs.site, cs.active...)
				e.emit(s, &Event{kind: "call", name: cs.name, args: cs.args, res: []*Term{tNil}, ok: 1, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx})
				e.emit(s2, &Event{kind: "call", name: cs.name, args: cs.args, res: []*Term{er}, ok: 2, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx})
				return []*callRes{{s, []*Term{tNil}}, {s2, []*Term{er}}}, true
			}
			if prev != nil {
				return prev(e, s, cs)
			}
			return nil, false
		}
	}
	pk := o.pkgs
	if pk == nil {
		pk = []string{"core"}
	}
	if o.inline != nil {
		e.inline = o.inline
	} else {
		e.inline = func(f *ssa.Function) bool {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			p := g.Pkg
			if p == nil && g.Origin() != nil {
				p = g.Origin().Pkg
			}
			if p == nil {
				return true
			}
			for _, x := range pk {
				if p == c.P.pkgs[x] {
					return true
				}
			}
			return false
		}
	}
	st := newState()
	if o.state != nil {
		st = o.state.clone()
	}
	var args []*Term
	for i, p := range fn.Params {
		t := mk("param", p.Name())
		if i == 0 && fn.Signature.Recv() != nil {
			t = mk("param", "self")
		}
		t.typ = p.Type()
		if a := o.args[p.Name()]; a != nil {
			t = a
		}
		if i < len(o.argv) && o.argv[i] != nil {
			t = o.argv[i]
		}
		args = append(args, t)
	}
	if o.setup != nil {
		o.setup(e, st, args)
	}
	for k, f := range o.funcs {
		e.funcs[k] = f
	}
	outs := e.run(fn, args, o.free, st, "", nil)
	for k, v := range e.viols {
		if _, ok := c.viols[k]; !ok {
			c.viols[k] = v
		}
	}
	for p := range e.problems {
		c.violate("undecided", shortFn(fn), p, c.P.pos(fn.Pos()), "analysis could not decide: "+p)
	}
	for k, n := range e.counts {
		c.counts[k] += n
	}
	for f := range e.covFn {
		c.fns[f] = true
	}
	for f := range e.covCall {
		c.calls[f] = true
	}
	c.entries = append(c.entries, name)
	c.events += e.covEvent
	c.paths += len(outs)
	c.steps += e.steps
	return outs, e
}

type evidence struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Seed     int            `json:"seed"`
	Level    string         `json:"level"`
	Coverage map[string]any `json:"coverage"`
	WallS    float64        `json:"wall_s"`
}

func (c *Ctx) finish(rule string, verif, tier string, start time.Time) int {
	var vs []*Violation
	for k, n := range c.need {
		if c.counts[k] < n {
			c.violate("vacuity", "", k, "-", fmt.Sprintf("only %d instances of %q seen, at least %d are confirmed on the reference tree: the rule no longer sees its subject", c.counts[k], k, n))
		}
	}
	for _, v := range c.viols {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].key() < vs[j].key() })
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), c.id)
	var bad, kn []*Violation
	hit := map[string]bool{}
	for _, v := range vs {
		m := ""
		for k := range known {
			if matchKnown(k, v) {
				m = k
			}
		}
		if m != "" {
			kn = append(kn, v)
			hit[m] = true
		} else {
			bad = append(bad, v)
		}
	}
	for k, d := range known {
		if hit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, d)
		}
	}
	names := map[string]bool{}
	for f := range c.fns {
		names[shortFn(f)] = true
	}
	for f := range c.fnNames {
		names[f] = true
	}
	var fl []string
	for f := range names {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	calls := map[string]bool{}
	for in := range c.calls {
		calls[c.P.fset.Position(in.Pos()).String()] = true
	}
	for k := range c.callNames {
		calls[k] = true
	}
	sort.Strings(c.entries)
	cov := map[string]any{
		"explanation":      "Static typestate/dataflow analysis over the SSA form of the current source, repository calls inlined from the listed entry points; " + rule,
		"rule":             rule,
		"entry_points":     c.entries,
		"functions":        fl,
		"functions_count":  len(fl),
		"call_sites":       len(calls),
		"obligations":      c.counts,
		"abstract_paths":   c.paths,
		"abstract_steps":   c.steps,
		"events":           c.events,
		"minimum_required": c.need,
		"violations":       len(bad),
		"known_findings":   len(kn),
		"notes":            c.notes,
		"samples":          c.samples,
	}
	ev := evidence{c.id, tier, 1, "other", cov, time.Since(start).Seconds()}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &ev.Seed)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rep := filepath.Join(dir, c.id+".violations.txt")
	os.Remove(rep)
	fmt.Printf("%s: %d entry points, %d functions, %d call sites, %d abstract paths, obligations %v, %.1fs\n", c.id, len(c.entries), len(fl), len(calls), c.paths, c.counts, ev.WallS)
	if len(bad) == 0 {
		fmt.Printf("%s: holds on everything analysed\n", c.id)
		return 0
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s\n    in %s, construct %s\n    entry %s\n    path %s\n    key %s\n", v.pos, v.rule, v.msg, v.fn, v.construct, v.entry, v.path, v.key())
	}
	os.WriteFile(rep, []byte(sb.String()), 0644)
	s := sb.String()
	if len(s) > 6000 && os.Getenv("FULL") == "" {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
	return 1
}

// known findings: lines "known: property=C08 key=<rule>|<entry or *>|<construct> <description>"
func loadKnown(p, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		out[l[:i]] = l[i+4:]
	}
	return out
}

// matchKnown: key is rule|entry|construct (construct may end in *).
func matchKnown(k string, v *Violation) bool {
	p := strings.SplitN(k, "|", 3)
	if len(p) != 3 || p[0] != v.rule || p[1] != v.entry && (v.entry != "" || p[1] != v.fn) {
		return false
	}
	if strings.HasSuffix(p[2], "*") {
		return strings.HasPrefix(v.construct, strings.TrimSuffix(p[2], "*"))
	}
	return p[2] == v.construct
}

// repoTemplate: what the fields of a repository held in the loaded-repository
// table are (class invariant, inferred from where the table is filled).
func repoTemplate(P *Program) func(m, k *Term, f string) *Term {
	if P.repoTmpl == nil {
		P.repoTmpl = map[string]*Term{}
		inferRepoTemplate(P)
	}
	return func(m, k *Term, f string) *Term {
		t := P.repoTmpl[f]
		if t == nil || m.op != "fld" {
			return nil
		}
		// is this the table of repositories?
		if m.aux != P.repoMapField {
			return nil
		}
		owner := m.args[0]
		c := map[*Term]*Term{}
		return t.subst(func(x *Term) *Term {
			if x.op == "param" && x.aux == "$key" {
				return k
			}
			if x.op == "param" && x.aux == "$owner" {
				return owner
			}
			return nil
		}, c)
	}
}

func inferRepoTemplate(P *Program) {
	fn := P.fn("core.Manager.CreateRepo")
	if fn == nil {
		return
	}
	type res struct{ fields map[string]*Term }
	var all []map[string]*Term
	mon := monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "mapupdate" && ev.args[0].op == "fld" && ev.args[2].typ != nil {
			v := ev.args[2]
			if v.op != "alloc" || typeName(v.typ) != "core.Repository" {
				return
			}
			P.repoMapField = ev.args[0].aux
			fs := map[string]*Term{}
			for k, x := range s.heap {
				if k.op == "addr" && k.args[0] == v {
					c := map[*Term]*Term{}
					bad := false
					t := x.subst(func(y *Term) *Term {
						if y == ev.args[1] {
							return mk("param", "$key")
						}
						if y == ev.args[0].args[0] {
							return mk("param", "$owner")
						}
						if y.op == "alloc" {
							bad = true
						}
						return nil
					}, c)
					if !bad {
						fs[k.aux] = t
					}
				}
			}
			all = append(all, fs)
		}
	})
	e := newEngine(P, mon)
	e.ext = func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		if cs.name == repoPath+"src/ferryd/core.Repository.Index" {
			return []*callRes{{s, []*Term{tNil}}}, true
		}
		return nil, false
	}
	e.inline = func(f *ssa.Function) bool { return f.Pkg == nil || f.Pkg == P.pkgs["core"] }
	var args []*Term
	for i, p := range fn.Params {
		t := mk("param", p.Name())
		if i == 0 {
			t = mk("param", "self")
		}
		t.typ = p.Type()
		args = append(args, t)
	}
	e.run(fn, args, nil, newState(), "", nil)
	if len(all) == 0 {
		return
	}
	for f, t := range all[0] {
		same := true
		for _, o := range all[1:] {
			if o[f] != t {
				same = false
			}
		}
		if same {
			P.repoTmpl[f] = t
		}
	}
}
