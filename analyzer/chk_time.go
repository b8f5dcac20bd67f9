package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C49: every moment that is recorded in a job or reported about the daemon is
// expressed in UTC. Decided by following, backwards through the program, every
// value stored in a time field of those records.

func init() {
	register("C49", "backward slice, through locals, parameters, results, fields, globals and function values, of every value stored in a time field of a job's record or of what is reported to clients: each origin is the zero time, a conversion to UTC, or another such field", checkC49)
}

type timeFlow struct {
	c       *Ctx
	seen    map[string]bool // values already being followed
	bad     map[string]ssa.Instruction
	origins map[string]int
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// recordedTypes: the struct types that end up in the job store or in replies.
func recordedTypes(P *Program) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			if x.Obj().Pkg() == nil || !strings.HasPrefix(x.Obj().Pkg().Path(), repoPath) || out[x] {
				return
			}
			if st, ok := x.Underlying().(*types.Struct); ok {
				out[x] = true
				for i := 0; i < st.NumFields(); i++ {
					add(st.Field(i).Type())
				}
				return
			}
			add(x.Underlying())
		case *types.Pointer:
			add(x.Elem())
		case *types.Slice:
			add(x.Elem())
		case *types.Array:
			add(x.Elem())
		case *types.Map:
			add(x.Elem())
		}
	}
	for n, t := range P.named {
		if strings.HasPrefix(n, "libferry.") || n == "jobs.JobEntry" {
			add(t)
		}
	}
	return out
}

func structOf(t types.Type) (*types.Named, *types.Struct) {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	s, _ := t.Underlying().(*types.Struct)
	return n, s
}

func checkC49(c *Ctx) {
	P := c.P
	rec := recordedTypes(P)
	if len(rec) == 0 {
		c.violate("anchor", "", "records", "-", "no recorded types found: the property cannot be decided")
		return
	}
	for _, f := range P.funcs {
		c.fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isTime(st.Val.Type()) {
					continue
				}
				for _, name := range targets(P, st.Addr, rec, map[ssa.Value]bool{}) {
					c.counts["moments recorded"]++
					fl := &timeFlow{c: c, seen: map[string]bool{}, bad: map[string]ssa.Instruction{}, origins: map[string]int{}}
					fl.value(st.Val, st)
					var os []string
					for o := range fl.origins {
						os = append(os, o)
					}
					sort.Strings(os)
					c.sample("%s: %s <- %s", P.pos(st.Pos()), name, strings.Join(os, ", "))
					for _, o := range os {
						c.counts["origins followed"]++
						if strings.HasPrefix(o, "!") {
							pos := P.pos(st.Pos())
							if at := fl.bad[o]; at != nil {
								pos = P.pos(at.Pos())
							}
							c.violate("not-utc", shortFn(f), name, pos, fmt.Sprintf("%s is set to a moment that is not known to be in UTC: it comes from %s", name, o[1:]))
						}
					}
				}
			}
		}
	}
	c.require("moments recorded", 1)
}

// targets: the recorded fields a store may change.
func targets(P *Program, a ssa.Value, rec map[*types.Named]bool, seen map[ssa.Value]bool) []string {
	if seen[a] {
		return nil
	}
	seen[a] = true
	switch x := a.(type) {
	case *ssa.FieldAddr:
		n, s := structOf(x.X.Type())
		if s != nil && n != nil && rec[n] {
			return []string{n.Obj().Name() + "." + s.Field(x.Field).Name()}
		}
	case *ssa.Parameter:
		var out []string
		for _, v := range argsOf(P, x) {
			out = append(out, targets(P, v, rec, seen)...)
		}
		return out
	case *ssa.Phi:
		var out []string
		for _, v := range x.Edges {
			out = append(out, targets(P, v, rec, seen)...)
		}
		return out
	case *ssa.FreeVar:
		var out []string
		for _, v := range bindings(P, x) {
			out = append(out, targets(P, v, rec, seen)...)
		}
		return out
	case *ssa.Call:
		var out []string
		if g := x.Call.StaticCallee(); g != nil && inRepo(g) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					out = append(out, targets(P, r.Results[0], rec, seen)...)
				}
			}
		}
		return out
	}
	return nil
}

// argsOf: what is passed for a parameter at the calls in the repository.
func argsOf(P *Program, p *ssa.Parameter) []ssa.Value {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	var out []ssa.Value
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					for _, g := range P.implementations(cc) {
						if g == fn && idx > 0 && idx-1 < len(cc.Args) {
							out = append(out, cc.Args[idx-1])
						}
					}
					continue
				}
				for _, g := range functionsOf(P, cc.Value, map[ssa.Value]bool{}) {
					if g == fn && idx < len(cc.Args) {
						out = append(out, cc.Args[idx])
					}
				}
			}
		}
	}
	return out
}

func bindings(P *Program, v *ssa.FreeVar) []ssa.Value {
	fn := v.Parent()
	idx := -1
	for i, q := range fn.FreeVars {
		if q == v {
			idx = i
		}
	}
	var out []ssa.Value
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
					out = append(out, m.Bindings[idx])
				}
			}
		}
	}
	return out
}

// functionsOf: the functions a function value may be.
func functionsOf(P *Program, v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []*ssa.Function
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Phi:
		for _, y := range x.Edges {
			out = append(out, functionsOf(P, y, seen)...)
		}
	case *ssa.ChangeType:
		return functionsOf(P, x.X, seen)
	case *ssa.UnOp:
		for _, y := range storesTo(P, x.X) {
			out = append(out, functionsOf(P, y.Val, seen)...)
		}
	case *ssa.FreeVar:
		for _, y := range bindings(P, x) {
			out = append(out, functionsOf(P, y, seen)...)
		}
	}
	return out
}

// storesTo: the stores that write the variable or field behind an address.
func storesTo(P *Program, a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	match := func(b ssa.Value) bool { return b == a }
	switch x := a.(type) {
	case *ssa.FieldAddr:
		n, _ := structOf(x.X.Type())
		_, s := structOf(x.X.Type())
		match = func(b ssa.Value) bool {
			y, ok := b.(*ssa.FieldAddr)
			if !ok || y.Field != x.Field {
				return false
			}
			m, t := structOf(y.X.Type())
			return n != nil && m == n || n == nil && m == nil && types.Identical(s, t)
		}
	case *ssa.FreeVar:
		for _, b := range bindings(P, x) {
			out = append(out, storesTo(P, b)...)
		}
	}
	same := map[ssa.Value]bool{a: true}
	if _, ok := a.(*ssa.Alloc); ok { // the closures that share it
		for _, f := range P.funcs {
			for _, v := range f.FreeVars {
				for _, b := range bindings(P, v) {
					if b == a {
						same[v] = true
					}
				}
			}
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && (match(st.Addr) || same[st.Addr]) {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

func (fl *timeFlow) no(what string, at ssa.Instruction) {
	fl.origins["!"+what]++
	if fl.bad["!"+what] == nil {
		fl.bad["!"+what] = at
	}
}
func (fl *timeFlow) yes(what string) { fl.origins[what]++ }

func isUTC(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "time" && g.Name() == "UTC"
}

func (fl *timeFlow) value(v ssa.Value, at ssa.Instruction) {
	P := fl.c.P
	k := fmt.Sprintf("%p", v)
	if fl.seen[k] {
		return
	}
	fl.seen[k] = true
	if in, ok := v.(ssa.Instruction); ok {
		at = in
	}
	switch x := v.(type) {
	case *ssa.Const:
		fl.yes("zero")
	case *ssa.Phi:
		for _, y := range x.Edges {
			fl.value(y, at)
		}
	case *ssa.ChangeType:
		fl.value(x.X, at)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			fl.call(cl, x.Index)
			return
		}
		fl.no("a value that could not be followed", at)
	case *ssa.Call:
		fl.call(x, 0)
	case *ssa.Field:
		n, s := structOf(x.X.Type())
		fl.field(n, s, x.Field, at, nil)
	case *ssa.UnOp:
		fl.load(x.X, at)
	case *ssa.Parameter:
		as := argsOf(P, x)
		if len(as) == 0 {
			fl.yes("unused parameter")
		}
		for _, a := range as {
			fl.value(a, at)
		}
	case *ssa.FreeVar:
		for _, b := range bindings(P, x) {
			fl.value(b, at)
		}
	default:
		fl.no("a value that could not be followed", at)
	}
}

func (fl *timeFlow) field(n *types.Named, s *types.Struct, i int, at ssa.Instruction, addr *ssa.FieldAddr) {
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPath) {
		if s != nil && addr != nil && n == nil {
			fl.stores(addr, at)
			return
		}
		fl.no("a field of a library's type", at)
		return
	}
	name := n.Obj().Name() + "." + s.Field(i).Name()
	if recordedTypes(fl.c.P)[n] {
		fl.yes("field " + name) // itself checked
		return
	}
	if addr != nil {
		fl.stores(addr, at)
		return
	}
	fl.no("field "+name+", which could not be followed", at)
}

func (fl *timeFlow) stores(a ssa.Value, at ssa.Instruction) {
	k := fmt.Sprintf("addr %p", a)
	if fl.seen[k] {
		return
	}
	fl.seen[k] = true
	st := storesTo(fl.c.P, a)
	if len(st) == 0 {
		fl.yes("zero")
	}
	for _, s := range st {
		fl.value(s.Val, s)
	}
}

func (fl *timeFlow) load(a ssa.Value, at ssa.Instruction) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		n, s := structOf(x.X.Type())
		fl.field(n, s, x.Field, at, x)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store, *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure, *ssa.FieldAddr:
			case *ssa.Call:
				if g := y.Call.StaticCallee(); g == nil || !inRepo(g) {
					fl.no("a variable passed to "+calleeName(&y.Call), at)
				}
			default:
				fl.no("a variable whose address is taken", at)
			}
		}
		fl.stores(x, at)
		// helpers that fill it in
		for _, r := range *x.Referrers() {
			if y, ok := r.(*ssa.Call); ok {
				if g := y.Call.StaticCallee(); g != nil && inRepo(g) {
					for i, q := range y.Call.Args {
						if q == x && i < len(g.Params) {
							fl.stores(g.Params[i], at)
						}
					}
				}
			}
		}
	case *ssa.Global:
		if !strings.HasPrefix(x.Pkg.Pkg.Path(), repoPath) {
			fl.no("a library's variable", at)
			return
		}
		fl.stores(x, at)
	case *ssa.FreeVar:
		for _, b := range bindings(fl.c.P, x) {
			fl.load(b, at)
		}
	case *ssa.Parameter:
		as := argsOf(fl.c.P, x)
		for _, b := range as {
			fl.load(b, at)
		}
		fl.stores(x, at)
	case *ssa.Phi:
		for _, b := range x.Edges {
			fl.load(b, at)
		}
	default:
		fl.no("a value that could not be followed", at)
	}
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if g := cc.StaticCallee(); g != nil {
		return g.String()
	}
	return "a function value"
}

func (fl *timeFlow) call(x *ssa.Call, res int) {
	P := fl.c.P
	fl.c.calls[x] = true
	var fns []*ssa.Function
	if x.Call.IsInvoke() {
		fns = P.implementations(&x.Call)
	} else {
		fns = functionsOf(P, x.Call.Value, map[ssa.Value]bool{})
	}
	if len(fns) == 0 {
		fl.no("a call of "+calleeName(&x.Call)+", which could not be resolved", x)
	}
	for _, g := range fns {
		n := g.String()
		args := x.Call.Args
		switch n {
		case "(time.Time).UTC":
			fl.yes("UTC()")
			continue
		case "(time.Time).In":
			if len(args) == 2 && isUTC(args[1]) {
				fl.yes("In(time.UTC)")
			} else {
				fl.no("In with a zone other than time.UTC", x)
			}
			continue
		case "(time.Time).Add", "(time.Time).Round", "(time.Time).Truncate", "(time.Time).AddDate":
			fl.value(args[0], x)
			continue
		case "time.Date":
			if isUTC(args[len(args)-1]) {
				fl.yes("Date(…, time.UTC)")
			} else {
				fl.no("Date with a zone other than time.UTC", x)
			}
			continue
		}
		if inRepo(g) && g.Blocks != nil {
			fl.c.fns[g] = true
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) {
					fl.value(r.Results[res], r)
				}
			}
			continue
		}
		fl.no(n, x)
	}
}
