package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const corePath = repoPath + "src/ferryd/core."

// isEntryRet: the entry point itself returns.
func isEntryRet(ev *Event) bool { return ev.kind == "return" && ev.ctx == "" }

func okRet(ev *Event) bool { return ev.ok != 2 }

// pkgBucket recognises the package bucket of a repository.
func pkgBucket(b *Term) (id *Term, ok bool) {
	ns := bucketNames(b)
	if len(ns) == 3 && isName(ns[0], "repo") && isName(ns[2], "package") {
		return ns[1], true
	}
	return nil, false
}
func isBucket(b *Term, name string) bool {
	ns := bucketNames(b)
	return len(ns) == 1 && isName(ns[0], name)
}
func isName(t *Term, s string) bool { x, ok := t.strVal(); return ok && x == s }

// field reads a field of a pointed-to or embedded struct in a state.
func (e *Engine) field(s *State, p *Term, f string) *Term {
	a := addrOf(p, f)
	if v, ok := s.heap[a]; ok {
		return v
	}
	if v, ok := s.heap[p]; ok {
		return e.fldOf(v, f)
	}
	return e.fldOf(p, f)
}

// methodsOf lists the exported methods of *pkg.Type, as fn names.
func (c *Ctx) methodsOf(tn string) []string {
	i := strings.LastIndex(tn, ".")
	p := c.P.pkgs[tn[:i]]
	if p == nil {
		c.violate("anchor", "", tn, "-", "package "+tn[:i]+" not found")
		return nil
	}
	ty := p.Type(tn[i+1:])
	if ty == nil {
		c.violate("anchor", "", tn, "-", "type "+tn+" not found")
		return nil
	}
	var out []string
	ms := c.P.prog.MethodSets.MethodSet(types.NewPointer(ty.Type()))
	for j := 0; j < ms.Len(); j++ {
		f := c.P.prog.MethodValue(ms.At(j))
		if f == nil || !ms.At(j).Obj().Exported() {
			continue
		}
		if c.P.fn(tn+"."+f.Name()) != nil {
			out = append(out, tn+"."+f.Name())
		}
	}
	sort.Strings(out)
	return out
}

// mutators are the manager methods through which everything in the repository
// and pool records is changed.
func (c *Ctx) managerEntries() []string {
	var out []string
	for _, m := range c.methodsOf("core.Manager") {
		if strings.HasSuffix(m, ".Close") {
			continue
		}
		out = append(out, m)
	}
	if os.Getenv("AN_PART") == "" {
		c.count("manager operations analysed", len(out))
	}
	c.require("manager operations analysed", 15)
	return out
}

// runManager runs a monitor over every exported manager operation; after is
// called with each monitor when its operation has been analysed.
func (c *Ctx) runManager(mk func(entry string) Monitor, o runOpt, after func(Monitor)) {
	c.parEach("manager", c.managerEntries(), func(m string) {
		mon := mk(strings.TrimPrefix(m, "core.Manager."))
		c.run(m, mon, o)
		if after != nil {
			after(mon)
		}
	})
}

func paramOf(fn *ssa.Function, i int) *Term {
	if fn == nil || i >= len(fn.Params) {
		return nil
	}
	if i == 0 && fn.Signature.Recv() != nil {
		return mk("param", "self")
	}
	return mk("param", fn.Params[i].Name())
}

// key of a term stable enough to name a construct
func short(t *Term) string {
	s := t.String()
	if len(s) > 140 {
		s = s[:140] + "…"
	}
	return s
}

// maskBool: 1 known true, 2 known false, 3 unknown.
func (f *Facts) maskBool(t *Term) int {
	if v, ok := f.boolv[t]; ok {
		if v {
			return 1
		}
		return 2
	}
	return 3
}

// knownBool: 1 the path has established the condition, 2 its negation, 3 neither.
func (e *Engine) knownBool(s *State, t *Term) int {
	r := 0
	if e.assumeBool(s.clone(), t, true) {
		r |= 1
	}
	if e.assumeBool(s.clone(), t, false) {
		r |= 2
	}
	if r == 0 {
		r = 3
	}
	return r
}
