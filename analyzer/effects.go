package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects: what a function can do, transitively through statically known
// calls and the closures it makes.
type effects struct {
	stores  map[string]bool // "RepoEntry.Available": fields stored to
	invokes map[string]bool // interface methods called
	calls   map[string]bool // functions called (full names)
	fns     map[*ssa.Function]bool
}

func faName(fa *ssa.FieldAddr) string {
	st, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n := st.Elem()
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name := ""
	if nt, ok := n.(*types.Named); ok {
		name = nt.Obj().Name()
	}
	return name + "." + u.Field(fa.Field).Name()
}

func (P *Program) effectsOf(f *ssa.Function) *effects {
	if r, ok := P.effTab[f]; ok {
		return r
	}
	r := &effects{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Function]bool{}}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || r.fns[g] {
			return
		}
		r.fns[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						r.stores[faName(fa)] = true
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						r.invokes[cc.Method.Name()] = true
					} else if sc := cc.StaticCallee(); sc != nil {
						r.calls[shortFn(sc)] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if h, ok := (*op).(*ssa.Function); ok && (h.Pkg != nil && strings.HasPrefix(h.Pkg.Pkg.Path(), repoPath) || h.Parent() != nil || h.Pkg == nil) {
						visit(h)
					}
				}
			}
		}
	}
	visit(f)
	if P.effTab == nil {
		P.effTab = map[*ssa.Function]*effects{}
	}
	P.effTab[f] = r
	return r
}
