package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/getsolus/ferryd/"

type Program struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package // by short path, e.g. "core", "jobs", "libdb", "ferryd"
	fset         *token.FileSet
	funcs        []*ssa.Function // all functions with bodies of the repository
	dir          string
	files        int
	named        map[string]*types.Named // "core.PoolEntry"
	load         []*packages.Package
	roots        map[string]string
	repoTmpl     map[string]*Term
	repoMapField string
	globalInit   map[string]ssa.Value
	globalShared map[string]bool // its address is taken
	globalStores map[string]int
	effTab       map[*ssa.Function]*effects
}

var sentinelGlobals = map[string]bool{}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Tests: false,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintf(os.Stderr, "load: %v\n", e)
			n++
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d package errors while loading %s", n, dir)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset, dir: dir, named: map[string]*types.Named{}, load: ps,
		globalInit: map[string]ssa.Value{}, globalStores: map[string]int{}, globalShared: map[string]bool{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		short := p.Pkg.Path()
		switch {
		case strings.HasSuffix(short, "src/ferryd"):
			short = "ferryd"
		case strings.HasSuffix(short, "src/ferryctl"):
			short = "ferryctl"
		default:
			short = short[strings.LastIndexByte(short, '/')+1:]
		}
		P.pkgs[short] = p
		P.files += len(ps[i].Syntax)
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if nn, ok := t.Type().(*types.Named); ok {
					P.named[short+"."+t.Name()] = nn
				}
			}
		}
	}
	for _, w := range []string{"core", "jobs", "libdb", "libeopkg", "libferry", "ferryd", "cmd"} {
		if P.pkgs[w] == nil {
			return nil, fmt.Errorf("package %s not found in %s", w, dir)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && inRepo(f) {
			P.funcs = append(P.funcs, f)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	// global initialisers and stores
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						n := g.Pkg.Pkg.Path() + "." + g.Name()
						if f.Synthetic == "package initializer" {
							P.globalInit[n] = st.Val
						} else {
							P.globalStores[n]++
						}
					}
				}
				// address taken (flag registration, &x…) makes it mutable
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.Store:
							if y.Addr == g {
								continue
							}
						case *ssa.UnOp:
							continue
						case *ssa.FieldAddr, *ssa.IndexAddr:
							continue
						}
						P.globalStores[g.Pkg.Pkg.Path()+"."+g.Name()]++
						P.globalShared[g.Pkg.Pkg.Path()+"."+g.Name()] = true
					}
				}
			}
		}
	}
	for n, v := range P.globalInit {
		if P.globalStores[n] == 0 {
			if c, ok := v.(*ssa.Call); ok {
				if cf := c.Call.StaticCallee(); cf != nil && (cf.String() == "errors.New" || cf.String() == "fmt.Errorf") {
					sentinelGlobals[n] = true
				}
			}
		}
	}
	return P, nil
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), repoPath)
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), repoPath)
	}
	// wrappers and bound methods
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), repoPath)
	}
	return false
}

// fn finds "core.NewManager" or "core.Manager.Index".
func (P *Program) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := P.pkgs[parts[0]]
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	nt := P.named[parts[0]+"."+parts[1]]
	if nt == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(nt), nt} {
		ms := P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == parts[2] {
				return P.prog.MethodValue(s)
			}
		}
	}
	return nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, P.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// typeName gives "core.PoolEntry" for *core.PoolEntry or core.PoolEntry.
func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := t.(*types.Named); !isN {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// shortFn is a stable display name of a function.
func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, repoPath+"src/ferryd/", "")
	s = strings.ReplaceAll(s, repoPath+"src/", "")
	return s
}
