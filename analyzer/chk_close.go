package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C45: whatever is opened is closed.

func init() {
	register("C45", "typestate of every opened resource (any value with a Close or Release method that a call hands out, response bodies, memory maps) over every operation of the core, the jobs, the package library, the storage, the client, the daemon and the commands: at each end of an operation, on every error path, the resource is closed or is kept by the result, the receiver or a long-lived object; a field that keeps one is closed by its type's closing method; nothing is used or handed out after it was closed", checkC45)
}

// closer: the method by which values of a type are given back.
func closer(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := t.(*types.Pointer); ok {
		if x, ok := n.Elem().(*types.Named); ok && x.Obj().Pkg() != nil && x.Obj().Pkg().Path() == "net/http" && x.Obj().Name() == "Response" {
			return "Body"
		}
	}
	if b, ok := t.(*types.Named); ok && b.Obj().Pkg() == nil {
		return ""
	}
	if strings.HasSuffix(t.String(), "os.Process") {
		// not opened, and given back when it is no longer used
		return ""
	}
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Close", "Release", "Clean"} {
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if f.Name() == n && f.Type().(*types.Signature).Params().Len() == 0 {
				return n
			}
		}
	}
	return ""
}

// opens: the position of the result of a call that has to be given back, -1 if
// it hands out none.
func opens(cc *ssa.CallCommon) int {
	f := cc.StaticCallee()
	if f == nil {
		return -1
	}
	sig := f.Signature
	if f.String() == "syscall.Mmap" {
		return 0
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, repoPath) && sig.Recv() != nil {
		// a part of what the receiver holds
		return -1
	}
	for i := 0; i < sig.Results().Len(); i++ {
		switch closer(sig.Results().At(i).Type()) {
		case "":
			continue
		case "Body":
			return i
		}
		// what wraps an open stream owns nothing
		for j := 0; j < sig.Params().Len(); j++ {
			if p := sig.Params().At(j).Type().String(); p == "io.Reader" || p == "io.Writer" || p == "io.ReadCloser" || p == "io.WriteCloser" {
				return -1
			}
		}
		return i
	}
	return -1
}

func ownerOf(t *Term) *Term {
	for t != nil && len(t.args) > 0 {
		switch t.op {
		case "fld", "addr", "loaded", "elem", "elemaddr", "slice", "typeassert":
			t = t.args[0]
		default:
			if t.isApp("slice") {
				t = t.args[0]
				continue
			}
			return t
		}
	}
	return t
}

// keeps: the open things reachable from a value.
func keeps(s *State, from []*Term, found map[*Term]bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		found[t] = true
		switch t.op {
		case "call", "app", "cmp", "bin", "const", "str", "int", "param", "global", "err", "opqerr":
			return
		}
		if t.op == "alloc" {
			for k, v := range s.heap {
				if k == t || ownerOf(k) == t {
					walk(v)
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range from {
		walk(t)
	}
}

// kept: whatever outlives the operation.
func kept(s *State, res []*Term) map[*Term]bool {
	from := append([]*Term{}, res...)
	for k, v := range s.heap {
		if k.op == "notin" || k.op == "sorted" {
			continue
		}
		if r := ownerOf(k); r.op != "alloc" {
			from = append(from, v)
		}
	}
	from = append(from, s.all("handed")...)
	m := map[*Term]bool{}
	keeps(s, from, m)
	return m
}

type openMon struct {
	c     *Ctx
	entry string
}

func (m *openMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "return":
		if !isEntryRet(ev) {
			return
		}
		e.count("ways an operation ends")
		res := ev.res
		if len(res) == 0 {
			res = ev.args
		}
		if !okRet(ev) {
			res = nil
		}
		live := kept(s, res)
		for _, r := range s.all("open") {
			if !live[r] {
				e.violate(s, ev, "left-open", openName(r), "the operation ends with "+openName(r)+" still open, and nothing that outlives it keeps it")
			}
		}
		out := map[*Term]bool{}
		keeps(s, res, out)
		for _, r := range s.all("closed") {
			if out[r] && !s.has("open", r) {
				e.violate(s, ev, "handed-out-closed", openName(r), "the operation hands out "+openName(r)+", which it has closed")
			}
		}
	case "go", "send":
		for _, a := range ev.args {
			s.addTo("handed", a)
		}
	case "db":
		if ev.name == "close" {
			r := ownerOf(ev.arg(1))
			s.remFrom("open", func(x *Term) bool { return x == r })
		}
	case "call":
		if ev.is("net/http.Server.Serve", "net/http.Serve") {
			for _, a := range ev.args {
				s.addTo("handed", a)
			}
		}
		ci, ok := ev.in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if m.closes(ev) {
			r := ownerOf(ev.arg(0))
			// a failing close has given the resource back as well
			if s.remFrom("open", func(x *Term) bool { return x == r }) {
				e.count("resources closed")
				if ev.arg(0) == r || r.op == "call" {
					s.addTo("closed", r)
				}
			}
			return
		}
		for _, a := range ev.args {
			if a.op == "call" && s.has("closed", a) && !s.has("open", a) {
				e.violate(s, ev, "used-closed", openName(a), "uses "+openName(a)+" after closing it")
			}
		}
		if i := opens(ci.Common()); i >= 0 && i < len(ev.res) && ev.ok != 2 {
			r := ownerOf(ev.res[i])
			e.count("resources opened")
			s.remFrom("closed", func(x *Term) bool { return x == r })
			s.addTo("open", r)
		}
	}
}

func (m *openMon) closes(ev *Event) bool {
	n := ev.name
	return strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Release") || strings.HasSuffix(n, ".Clean") || n == "syscall.Munmap"
}

func openName(t *Term) string {
	if t.op == "call" {
		n := strings.TrimPrefix(t.aux[strings.LastIndexByte(t.aux[:len(t.aux)], ':')+1:], repoPath)
		return "what " + n + " gave"
	}
	return short(t)
}

// everything: the operations of the program: what its packages offer, what its
// types can do, what a command runs.
func (c *Ctx) everything() []string {
	var names []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	for _, n := range c.managerEntries() {
		add(n)
	}
	for _, h := range jobHandlers(c.P) {
		add(h + ".Execute")
	}
	for _, pk := range []string{"core", "jobs", "libeopkg", "libferry", "ferryd", "cmd", "libdb"} {
		p := c.P.pkgs[pk]
		if p == nil {
			c.violate("anchor", "", pk, "-", "package "+pk+" not found")
			continue
		}
		for n, mb := range p.Members {
			switch x := mb.(type) {
			case *ssa.Function:
				if x.Blocks != nil && offered(x) {
					add(pk + "." + n)
				}
			case *ssa.Type:
				if _, ok := x.Type().Underlying().(*types.Interface); ok || pk == "core" && n == "Manager" {
					continue
				}
				for _, f := range c.methodsOf(pk + "." + n) {
					add(f)
				}
			}
		}
	}
	sort.Strings(names)
	return names
}

// runAny runs an operation the way its package is analysed.
func (c *Ctx) runAny(n string, mon Monitor, opt ...runOpt) {
	var o runOpt
	if len(opt) > 0 {
		o = opt[0]
	}
	o.pkgs = []string{n[:strings.IndexByte(n, '.')]}
	switch {
	case strings.HasPrefix(n, "core.Manager."):
		o.noIndex = true
	case strings.HasSuffix(n, ".Execute"):
		o.ext = opaqueManager(c.P)
	case strings.HasPrefix(n, "libdb."):
		o.noDb = true
	}
	c.run(n, mon, o)
}

func checkC45(c *Ctx) {
	only := os.Getenv("ONLY")
	var names []string
	for _, n := range c.everything() {
		if strings.Contains(n, only) {
			names = append(names, n)
		}
	}
	c.parEach("operations", names, func(n string) {
		c.count("operations followed", 1)
		c.runAny(n, &openMon{c: c, entry: n})
	})
	if only == "" || only == "owners" {
		c.checkOwners()
		c.require("operations followed", 20)
	}
	c.require("resources opened", 1)
	c.require("resources closed", 1)
	c.require("ways an operation ends", 1)
}

// offered: functions that are no one's helper: offered to others, or not called
// inside the program (what a command runs).
func offered(f *ssa.Function) bool {
	return f.Object() != nil && (f.Object().Exported() || strings.HasSuffix(f.Pkg.Pkg.Path(), "/cmd"))
}

// ownedFields: the fields of the program's types in which something opened is
// put when it is opened.
func ownedFields(P *Program) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, f := range P.funcs {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !openedValue(st.Val, map[ssa.Value]bool{}) {
					continue
				}
				name, outer := fieldName(fa.X.Type(), fa.Field), fa
				for {
					// embedded
					up, ok := fa.X.(*ssa.FieldAddr)
					if !ok {
						break
					}
					st, ok := up.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					if !ok || !st.Field(up.Field).Embedded() {
						break
					}
					outer = up
					fa = up
				}
				n, ok := outer.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPath) {
					continue
				}
				k := n.Obj().Pkg().Path()
				k = k[strings.LastIndexByte(k, '/')+1:] + "." + n.Obj().Name()
				if out[k] == nil {
					out[k] = map[string]bool{}
				}
				out[k][name] = true
			}
		}
	}
	return out
}

func openedValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return opens(x.Common()) == 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return opens(c.Common()) == x.Index
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if openedValue(e, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return openedValue(x.X, seen)
	case *ssa.ChangeInterface:
		return openedValue(x.X, seen)
	case *ssa.ChangeType:
		return openedValue(x.X, seen)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && openedValue(st.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

type ownerMon struct {
	self *Term
	ends []*State
}

func (m *ownerMon) Event(e *Engine, s *State, ev *Event) {
	switch {
	case isEntryRet(ev):
		m.ends = append(m.ends, s.clone())
	case ev.kind == "call" && ev.is("net/http.Server.Shutdown", "net/http.Server.Close"):
		s.setB("listener", true)
	case ev.kind == "call" && (&openMon{}).closes(ev):
		m.close(s, ev.arg(0))
	case ev.kind == "enter" && ev.ctx != "" && ev.fn != nil && closing(ev.fn.Name()) && len(ev.args) > 0:
		m.close(s, ev.arg(0))
	case ev.kind == "db" && ev.name == "close":
		m.close(s, ev.arg(1))
	case ev.kind == "assume":
		// what the object says about itself
		t, v := ev.arg(0), ev.arg(1) == tTrue
		if t.op == "cmp" && (t.aux == "2" || t.aux == "5") && len(t.args) == 2 {
			x, y := t.args[0], t.args[1]
			if x == tNil {
				x, y = y, x
			}
			if y == tNil && m.own(x) {
				s.addTo("flags", mk("flag", map[bool]string{true: "nil", false: "set"}[(t.aux == "2") == v], x))
			}
		} else if m.own(t) {
			s.addTo("flags", mk("flag", map[bool]string{true: "on", false: "off"}[v], t))
		}
	}
}

func closing(n string) bool { return n == "Close" || n == "Release" || n == "Clean" }

// own: a field of the object being closed.
func (m *ownerMon) own(t *Term) bool { return t.op == "fld" && ownerOf(t) == m.self }

func (m *ownerMon) close(s *State, t *Term) {
	if ownerOf(t) != m.self {
		return
	}
	for ; t != m.self && len(t.args) > 0; t = t.args[0] {
		if t.op == "fld" || t.op == "addr" {
			s.addTo("closed", tStr(t.aux))
		}
	}
}

// checkOwners: a type that keeps something opened closes it when it is closed.
func (c *Ctx) checkOwners() {
	of := ownedFields(c.P)
	var ts []string
	for t := range of {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		var ms []string
		for _, m := range c.methodsOf(t) {
			switch m[strings.LastIndexByte(m, '.')+1:] {
			case "Close", "Clean", "Release":
				ms = append(ms, m)
			}
		}
		pk := t[:strings.IndexByte(t, '.')]
		if len(ms) == 0 {
			c.violate("no-owner", t, t, "-", "values of "+t+" keep something opened and there is no method to close it")
			continue
		}
		best := map[string]string{}
		for _, n := range ms {
			fn := c.P.fn(n)
			if fn == nil {
				continue
			}
			o := runOpt{pkgs: []string{pk}, noDb: pk == "libdb"}
			m := &ownerMon{}
			o.setup = func(e *Engine, s *State, args []*Term) { m.self = args[0] }
			c.run(n, m, o)
			for f := range of[t] {
				why := m.closesField(c, fn, f)
				if b, ok := best[f]; !ok || b != "" {
					best[f] = why
				}
			}
		}
		for f := range of[t] {
			c.count("fields that keep something opened", 1)
			if best[f] != "" {
				c.violate("owner", ms[0], t+"."+f, c.P.pos(c.P.fn(ms[0]).Pos()), "closing a "+t+" "+best[f]+" what its field "+f+" keeps")
			}
		}
	}
	c.require("fields that keep something opened", 1)
}

// closesField: "" if every way through closes the field, or finds it absent or
// a flag of the object saying there is nothing to do.
func (m *ownerMon) closesField(c *Ctx, fn *ssa.Function, f string) string {
	listener := false
	if p, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				listener = listener || st.Field(i).Name() == f && strings.HasSuffix(st.Field(i).Type().String(), "net.Listener")
			}
		}
	}
	done := func(s *State) bool {
		return s.has("closed", tStr(f)) || listener && s.is("listener")
	}
	other := map[string]string{"nil": "set", "set": "nil", "on": "off", "off": "on"}
	var with []*State
	for _, s := range m.ends {
		if done(s) {
			with = append(with, s)
		}
	}
	if len(with) == 0 {
		return "never closes"
	}
ends:
	for _, s := range m.ends {
		if done(s) {
			continue
		}
	flag:
		for _, k := range s.all("flags") {
			if k.aux == "nil" && k.args[0].aux == f {
				continue ends
			}
			for _, w := range with {
				if !w.has("flags", mk("flag", other[k.aux], k.args[0])) {
					continue flag
				}
			}
			continue ends
		}
		return "does not on every path close"
	}
	return ""
}
