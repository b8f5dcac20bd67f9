package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38, C39: locks.

func init() {
	register("C38", "lock-set analysis of every operation that can take a lock, over all its paths, with callees and deferred calls followed: whatever is taken is given back before the operation returns and only then, nothing held is taken again (also when two arguments name the same repository), nothing is waited for and no foreign function is called while a lock of the storage layer is held; the lock-order graph over all operations has no cycle between operations that can run at the same time; no value that contains a lock is copied", checkC38)
}

// lockOp recognises operations on locks: +1 taken, -1 given back.
func lockOp(ev *Event) (l *Term, d int) {
	if ev.kind != "call" || len(ev.args) == 0 {
		return nil, 0
	}
	switch ev.name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Locker.Lock":
		return ev.args[0], 1
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock", "sync.Locker.Unlock":
		return ev.args[0], -1
	}
	return nil, 0
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	switch n.Obj().Name() {
	case "Mutex", "RWMutex", "WaitGroup", "Cond", "Once", "Pool", "Map":
		return true
	}
	return false
}

// lockFields: the fields of the repository's types that are locks.
func lockFields(P *Program) map[string]string {
	out := map[string]string{}
	for _, sn := range sortedKeys(P.pkgs) {
		p := P.pkgs[sn]
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				t := f.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if nt, ok := t.(*types.Named); ok && isSyncType(nt) && strings.HasSuffix(nt.Obj().Name(), "Mutex") {
					if o := out[f.Name()]; o != "" {
						out[f.Name()] = o + "/" + sn + "." + n
					} else {
						out[f.Name()] = sn + "." + n
					}
				}
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type lockEdge struct{ from, to string }

type lockMon struct {
	c       *Ctx
	what    string
	fields  map[string]string
	edges   map[lockEdge]string // where
	taken   map[string]bool
	foreign bool // functions of the caller are called back
}

// owner of a lock and the class of locks it belongs to.
func (m *lockMon) class(s *State, l *Term) (*Term, string) {
	t := l
	if t.op == "alloc" {
		// a lock made in this run: where was it put?
		var at *Term
		for a, v := range s.heap {
			if v == l && a.op == "addr" && m.fields[a.aux] != "" && (at == nil || a.id < at.id) {
				at = a
			}
		}
		if at != nil {
			t = at
		}
	}
	if (t.op == "addr" || t.op == "fld") && len(t.args) > 0 {
		if o := m.fields[t.aux]; o != "" {
			return t.args[0], o + "." + t.aux
		}
		return t.args[0], t.aux
	}
	return nil, t.String()
}

// distinctOwners: two owners cannot be the same object.
func distinctOwners(s *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if s.facts.maskOf(a, b) == mNE {
		return true
	}
	if a.op == "alloc" && b.op == "alloc" {
		return a != b
	}
	key := func(t *Term) *Term {
		if t.op == "mapval" && len(t.args) > 1 {
			return t.args[len(t.args)-1]
		}
		return nil
	}
	ka, kb := key(a), key(b)
	if ka != nil && kb != nil {
		if s.facts.maskOf(ka, kb) == mNE {
			return true
		}
		_, aok := ka.strVal()
		_, bok := kb.strVal()
		if aok && bok {
			return ka != kb
		}
		return ka.op == "param" && kb.op == "param" && ka != kb
	}
	return a.op == "alloc" && kb != nil || b.op == "alloc" && ka != nil
}

func (m *lockMon) Event(e *Engine, s *State, ev *Event) {
	if l, d := lockOp(ev); d != 0 {
		if d > 0 {
			e.count("locks taken")
			o, cl := m.class(s, l)
			for _, h := range s.all("lk") {
				ho, hc := m.class(s, h)
				switch {
				case h == l:
					e.violate(s, ev, "again", cl, m.what+" waits for a lock it already holds: "+short(l))
				case hc == cl:
					if !distinctOwners(s, ho, o) {
						e.violate(s, ev, "again", cl, m.what+" can wait for a lock it already holds: "+short(h)+" and "+short(l)+" can be the same")
					}
					m.edges[lockEdge{cl, cl}] = m.c.P.pos(ev.in.Pos())
				default:
					m.edges[lockEdge{hc, cl}] = m.c.P.pos(ev.in.Pos())
				}
			}
			m.taken[cl] = true
			s.addTo("lk", l)
		} else {
			_, cl := m.class(s, l)
			if !s.has("lk", l) {
				e.violate(s, ev, "unheld", cl, m.what+" gives back a lock it does not hold: "+short(l))
			}
			s.remFrom("lk", func(t *Term) bool { return t == l })
		}
		return
	}
	held := func() string {
		hs := s.all("lk")
		if len(hs) == 0 {
			return ""
		}
		_, cl := m.class(s, hs[0])
		return cl
	}
	switch {
	case ev.kind == "recv" || ev.kind == "send" || ev.kind == "select" || ev.kind == "call" && (ev.name == "sync.WaitGroup.Wait" || ev.name == "sync.Cond.Wait"):
		e.count("waits")
		if cl := held(); cl != "" {
			e.violate(s, ev, "waits", cl, m.what+" waits for something else to happen while it holds "+cl)
		}
	case ev.kind == "call" && ev.name == "dynamic" && m.foreign:
		if cl := held(); cl != "" {
			e.violate(s, ev, "callback", cl, m.what+" calls back while it holds "+cl)
		}
	case ev.kind == "panic" || isEntryRet(ev):
		if isEntryRet(ev) {
			e.count("operation ends")
		}
		if ev.kind == "panic" && ev.ctx != "" {
			break
		}
		for _, h := range s.all("lk") {
			_, cl := m.class(s, h)
			e.violate(s, ev, "held", cl, m.what+" ends without giving back "+short(h))
		}
	case ev.kind == "call" && strings.HasSuffix(ev.name, "core.Repository.Index"):
		// analysed on its own
		for _, h := range s.all("lk") {
			_, hc := m.class(s, h)
			m.edges[lockEdge{hc, "Index"}] = m.c.P.pos(ev.in.Pos())
		}
	}
}

// lockers: functions that take a lock, directly or through others.
func lockers(P *Program) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && strings.Contains(g.Name(), "ock") {
					direct[f] = true
				}
			}
		}
	}
	return direct
}

func checkC38(c *Ctx) {
	fields := lockFields(c.P)
	type edgeUse struct {
		entry, pos string
	}
	edges := map[lockEdge][]edgeUse{}
	merge := func(entry string, m *lockMon) {
		for _, ed := range sortedEdges(m.edges) {
			edges[ed] = append(edges[ed], edgeUse{entry, m.edges[ed]})
		}
	}
	newMon := func(what string) *lockMon {
		return &lockMon{c: c, what: what, fields: fields, edges: map[lockEdge]string{}, taken: map[string]bool{}}
	}
	all := map[string]*lockMon{}
	one := func(n string, o runOpt) *lockMon {
		m := newMon(n)
		c.run(n, m, o)
		all[n] = m
		merge(n, m)
		return m
	}
	for _, n := range c.managerEntries() {
		m := one(n, runOpt{noIndex: true})
		self := false
		for ed := range m.edges {
			if ed.from == ed.to {
				self = true
			}
		}
		if self {
			// the same operation, with all names the same
			fn := c.P.fn(n)
			args := map[string]*Term{}
			for _, p := range fn.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					args[p.Name()] = mk("param", "name")
				}
			}
			c.run(n, newMon(n+" with the same name twice"), runOpt{noIndex: true, args: args})
			c.counts["operations on two repositories"]++
		}
	}
	for _, n := range []string{"core.NewManager", "core.Manager.Close", "core.Repository.Index", "jobs.NewStore"} {
		if c.P.fn(n) != nil {
			m := one(n, runOpt{pkgs: []string{"core", "jobs"}})
			if n == "core.Repository.Index" {
				// whoever holds a lock while indexing holds it while Index takes its own
				for _, to := range lockedIn(m) {
					for ed, us := range edges {
						if ed.to == "Index" {
							edges[lockEdge{ed.from, to}] = append(edges[lockEdge{ed.from, to}], us...)
						}
					}
				}
			}
		}
	}
	for _, n := range c.methodsOf("jobs.JobStore") {
		one(n, runOpt{pkgs: []string{"core", "jobs"}})
	}
	d := newDbLayer(c)
	if len(d.handles) > 0 {
		ops := []string{"PutObject", "DeleteObject", "GetObject", "HasObject", "Decode", "ForEach", "NextSequence", "Bucket", "View", "Update", "Close"}
		for _, h := range d.handles {
			for _, op := range ops {
				fn := d.method(h.h, op)
				if fn == nil {
					continue
				}
				m := newMon(op + " on " + h.label)
				m.foreign = true
				var args []*Term
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					a := mk("param", fmt.Sprint("a", i))
					a.typ = fn.Signature.Params().At(i).Type()
					args = append(args, a)
				}
				d.run(h, op, m, args...)
				merge(op, m)
				all[op+h.label] = m
			}
		}
	}
	// whatever takes locks and was not met so far
	for _, f := range c.P.funcs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && lockers(c.P)[f] && !c.fns[f] && f.Object() != nil && f.Object().Exported() {
			m := newMon(shortFn(f))
			c.runFn(shortFn(f), f, m, runOpt{inline: func(*ssa.Function) bool { return true }})
			merge(shortFn(f), m)
		}
	}
	// helpers of theirs: by way of the exported operations that reach them
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for _, f := range c.P.funcs {
		if !lockers(c.P)[f] || c.fns[f] {
			continue
		}
		seen := map[*ssa.Function]bool{f: true}
		for work := []*ssa.Function{f}; len(work) > 0; work = work[1:] {
			g := work[0]
			if g.Object() != nil && g.Object().Exported() && g.Parent() == nil {
				m := newMon(shortFn(g))
				c.runFn(shortFn(g), g, m, runOpt{inline: func(*ssa.Function) bool { return true }})
				merge(shortFn(g), m)
				continue
			}
			if g.Parent() != nil && !seen[g.Parent()] {
				seen[g.Parent()] = true
				work = append(work, g.Parent())
			}
			for _, h := range callers[g] {
				if !seen[h] {
					seen[h] = true
					work = append(work, h)
				}
			}
		}
	}
	for f := range lockers(c.P) {
		c.counts["functions that take locks"]++
		if !c.fns[f] {
			c.violate("undecided", shortFn(f), shortFn(f), c.P.pos(f.Pos()), "no operation is known that takes the locks in "+shortFn(f))
		}
	}
	// order
	seq := sequentialOnly(c)
	var es []lockEdge
	for ed := range edges {
		if ed.to != "Index" {
			es = append(es, ed)
		}
	}
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
	for _, ed := range es {
		c.counts["pairs of locks taken together"]++
		c.sample("%s is taken while %s is held, e.g. by %s at %s", ed.to, ed.from, edges[ed][0].entry, edges[ed][0].pos)
	}
	// a cycle: back from "to" to "from"
	for _, ed := range es {
		var path []lockEdge
		seen := map[string]bool{}
		var back func(x string) bool
		back = func(x string) bool {
			if x == ed.from {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, g := range es {
				if g.from == x && g.to != x && back(g.to) {
					path = append(path, g)
					return true
				}
			}
			return false
		}
		if ed.from == ed.to {
			path = nil
		} else if !back(ed.to) {
			continue
		}
		for _, u := range edges[ed] {
			for _, g := range append(path, ed) {
				for _, v := range edges[g] {
					if ed.from != ed.to && g == ed {
						continue
					}
					if seq(u.entry) && seq(v.entry) {
						continue
					}
					c.violate("order", u.entry, ed.from+" and "+ed.to, u.pos, fmt.Sprintf("%s takes %s while it holds %s, and %s, which can run at the same time, takes them the other way round (%s)", u.entry, ed.to, ed.from, v.entry, v.pos))
				}
			}
		}
	}
	copied(c)
	c.require("locks taken", 40)
	c.require("functions that take locks", 20)
	c.require("operation ends", 60)
	c.require("pairs of locks taken together", 4)
}

func sortedEdges(m map[lockEdge]string) []lockEdge {
	var out []lockEdge
	for e := range m {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func lockedIn(m *lockMon) []string { return sortedKeys(m.taken) }

// sequentialOnly: an operation that is only ever run by the one sequential worker.
func sequentialOnly(c *Ctx) func(entry string) bool {
	async := map[string]bool{} // handlers of jobs that are not sequential
	w := newWire(c)
	for _, fn := range jobMakers(c) {
		c.run("jobs."+fn.Name(), monFunc(func(e *Engine, s *State, ev *Event) {
			if !isEntryRet(ev) {
				return
			}
			j := ev.args[0]
			kind, params, sq := e.field(s, j, "Type"), e.field(s, j, "Params"), e.field(s, j, "sequential")
			if sq == tTrue {
				return
			}
			xs, _ := w.dispatch(kind, params)
			for _, x := range xs {
				async["jobs."+x.handler] = true
			}
		}), runOpt{pkgs: []string{"jobs"}})
	}
	c.count("kinds of asynchronous jobs", len(async))
	memo := map[string]bool{}
	return func(entry string) bool {
		if v, ok := memo[entry]; ok {
			return v
		}
		fn := c.P.fn(entry)
		ok := fn != nil && strings.HasPrefix(entry, "core.")
		if ok {
			n := 0
			for _, f := range c.P.funcs {
				if f.Parent() != nil || f.Synthetic != "" || f == fn || !c.P.reaches(f, fn) {
					continue
				}
				r := f.Signature.Recv()
				if r == nil {
					if c.P.pkgs["core"] != nil && f.Pkg == c.P.pkgs["core"] {
						continue
					}
					if f.Pkg == c.P.pkgs["jobs"] && len(c.P.referrers(f)) > 0 {
						continue
					}
					ok = false
					break
				}
				tn := typeName(r.Type())
				switch {
				case strings.HasPrefix(tn, "core."):
				case strings.HasPrefix(tn, "jobs.") && f.Name() == "Execute":
					n++
					if async[tn] {
						ok = false
					}
				case strings.HasPrefix(tn, "jobs.") && len(c.P.referrers(f)) > 0:
				default:
					ok = false
				}
			}
			ok = ok && n > 0
		}
		memo[entry] = ok
		return ok
	}
}

// copied: values that contain a lock are never copied.
func copied(c *Ctx) {
	memo := map[types.Type]bool{}
	var holds func(t types.Type) bool
	holds = func(t types.Type) bool {
		if isSyncType(t) {
			return true
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type()) {
					memo[t] = true
				}
			}
		case *types.Array:
			memo[t] = holds(u.Elem())
		}
		return memo[t]
	}
	for _, f := range c.P.funcs {
		for _, p := range f.Params {
			if holds(p.Type()) {
				c.violate("copied", shortFn(f), p.Name(), c.P.pos(f.Pos()), "a value that contains a lock is passed as a copy")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "*" && holds(u.Type()) {
					if al, ok := u.X.(*ssa.Alloc); ok && al.Comment == "complit" {
						continue // a new value that is put in place
					}
					c.violate("copied", shortFn(f), u.Type().String(), c.P.pos(u.Pos()), "a value that contains a lock is copied")
				}
				if st, ok := in.(*ssa.Store); ok && holds(st.Val.Type()) {
					c.counts["values with locks stored"]++
				}
			}
		}
	}
}

// ---- C39 ----

func init() {
	register("C39", "guarded-access analysis of every operation on the manager and the job store: tables that operations change are only touched under a lock of the object they belong to (and never handed out); fields of shared objects that operations change likewise, at every read and write; every access to the job database under the store's lock; records of a repository and of the pool are changed only under a lock of that repository or of the pool which has been held without interruption since the record was read", checkC39)
}

type guardMon struct {
	lockMon
	access map[string][]fieldAccess
	// changes of records, and the locks under which they were read and changed
	changes map[string]map[change]bool
}

type change struct{ locks, fn, pos, entry string }

type fieldAccess struct {
	write, locked bool
	entry, fn     string
	pos           string
}

// shared: an object other operations can see.
func (m *guardMon) shared(s *State, t *Term) bool {
	for i := 0; t != nil && i < 12; i++ {
		if t.op == "param" {
			return t.aux == "self"
		}
		if t.op == "alloc" {
			return s.has("published", t)
		}
		if t.op == "mapval" || t.op == "fld" || t.op == "addr" {
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
			continue
		}
		return false
	}
	return false
}

func (m *guardMon) guarded(s *State, owner *Term) bool {
	for _, l := range s.all("lk") {
		if o, _ := m.class(s, l); o != nil && o == owner {
			return true
		}
	}
	return false
}

func (m *guardMon) note(e *Engine, s *State, ev *Event, f string, owner *Term, write bool) {
	k := f
	pos := ""
	if ev.in != nil {
		pos = m.c.P.pos(ev.in.Pos())
	}
	fn := ""
	if ev.fn != nil {
		fn = shortFn(ev.fn)
	}
	a := fieldAccess{write, m.guarded(s, owner), m.what, fn, pos}
	for _, o := range m.access[k] {
		if o == a {
			return
		}
	}
	m.access[k] = append(m.access[k], a)
}

// record tells which record a bucket and key mean: that of a repository, of
// the pool, or a repository itself.
func (m *guardMon) guardOf(e *Engine, s *State, b *Term) (what string, held func() []*Term, ok bool) {
	ownerOf := func(tn string, pred func(o *Term) bool) (out []*Term) {
		for _, l := range s.all("lk") {
			o, cl := m.class(s, l)
			if o != nil && strings.HasPrefix(cl, tn+".") && pred(o) {
				out = append(out, l)
			}
		}
		return
	}
	if id, is := pkgBucket(b); is {
		return "the package records of a repository", func() []*Term {
			return ownerOf("core.Repository", func(o *Term) bool {
				x := e.field(s, o, "ID")
				if x == id || s.facts.maskOf(x, id) == mEQ {
					return true
				}
				if o.op == "mapval" && len(o.args) > 1 {
					k := o.args[len(o.args)-1]
					return k == id || s.facts.maskOf(k, id) == mEQ
				}
				return false
			})
		}, true
	}
	if isBucket(b, "pool") {
		return "the records of the pool", func() []*Term { return ownerOf("core.Pool", func(*Term) bool { return true }) }, true
	}
	if isBucket(b, "repo") {
		return "the records of repositories", func() []*Term { return ownerOf("core.RepositoryManager", func(*Term) bool { return true }) }, true
	}
	return "", nil, false
}

func (m *guardMon) Event(e *Engine, s *State, ev *Event) {
	if l, d := lockOp(ev); d != 0 {
		if d > 0 {
			s.addTo("lk", l)
		} else {
			s.remFrom("lk", func(t *Term) bool { return t == l })
			// what was read may change from here on
			s.remFrom("rd", func(t *Term) bool { return t.args[0] == l })
		}
		return
	}
	switch ev.kind {
	case "maplookup", "maprange", "mapupdate", "mapdelete":
		t := ev.args[0]
		if t.op == "set" && len(t.args) > 0 {
			t = t.args[0]
		}
		if ev.kind == "mapupdate" && len(ev.args) > 2 && (t.op == "fld" || t.op == "alloc" && s.has("published", t)) {
			s.addTo("published", ev.args[2])
		}
		if t.op == "fld" && m.shared(s, t.args[0]) {
			e.count("accesses to shared tables")
			m.note(e, s, ev, t.aux, t.args[0], ev.kind == "mapupdate" || ev.kind == "mapdelete")
		}
	case "store", "load":
		a := ev.args[0]
		if a.op == "addr" && len(a.args) > 0 && m.shared(s, a.args[0]) {
			m.note(e, s, ev, a.aux, a.args[0], ev.kind == "store")
		}
	case "db":
		b := ev.args[0]
		if strings.HasPrefix(m.what, "jobs.") {
			switch ev.name {
			case "get", "has", "put", "delete", "foreach":
				e.count("accesses to the job database")
				if len(s.all("lk")) == 0 {
					e.violate(s, ev, "jobs", m.what, m.what+" touches the stored jobs without holding the store's lock")
				}
			}
			return
		}
		what, held, ok := m.guardOf(e, s, b)
		if !ok {
			return
		}
		switch ev.name {
		case "get", "has", "foreach", "decode":
			for _, l := range s.all("lk") {
				if ev.name == "foreach" || len(ev.args) < 2 {
					s.addTo("rd", mk("rd", "", l, b))
				} else {
					s.addTo("rd", mk("rd", "", l, b, ev.args[1]))
				}
			}
		case "put", "delete":
			e.count("records changed")
			if ev.ok == 2 {
				break
			}
			locks := held()
			if len(locks) == 0 {
				e.violate(s, ev, "record", what, m.what+" changes "+what+" without holding the lock that belongs to them")
				break
			}
			k := ev.args[1]
			under := map[string]bool{}
			for _, l := range locks {
				read := ev.name == "delete" && isBucket(b, "repo") // that repository was looked up
				for _, r := range s.all("rd") {
					if r.args[0] != l || r.args[1] != b {
						continue
					}
					if len(r.args) == 2 && mentionsIter(k, b) {
						read = true
					}
					if len(r.args) == 3 && (r.args[2] == k || s.facts.maskOf(r.args[2], k) == mEQ) {
						read = true
					}
				}
				if read {
					_, cl := m.class(s, l)
					under[cl] = true
				}
			}
			if len(under) == 0 {
				e.violate(s, ev, "stale", what, m.what+" changes "+what+", "+short(k)+", without having read it since it took the lock: what others changed meanwhile is lost")
				break
			}
			ch := change{strings.Join(sortedKeys(under), " "), shortFn(ev.fn), m.c.P.pos(ev.in.Pos()), m.what}
			if m.changes[what] == nil {
				m.changes[what] = map[change]bool{}
			}
			m.changes[what][ch] = true
		}
	}
	if isEntryRet(ev) && okRet(ev) {
		for _, r := range ev.args {
			if r != nil && r.op == "fld" && m.shared(s, r.args[0]) && r.typ != nil {
				if _, isMap := r.typ.Underlying().(*types.Map); isMap {
					e.violate(s, ev, "leak", r.aux, m.what+" hands out the table "+r.aux+" itself")
				}
			}
		}
	}
}

func mentionsIter(k, b *Term) bool {
	if k.op == "iterk" && len(k.args) > 0 && k.args[0] == b {
		return true
	}
	for _, a := range k.args {
		if mentionsIter(a, b) {
			return true
		}
	}
	return false
}

func checkC39(c *Ctx) {
	fields := lockFields(c.P)
	access := map[string][]fieldAccess{}
	changes := map[string]map[change]bool{}
	newMon := func(n string) *guardMon {
		return &guardMon{lockMon: lockMon{c: c, what: n, fields: fields}, access: access, changes: changes}
	}
	for _, n := range append(c.managerEntries(), "core.Repository.Index") {
		if c.P.fn(n) == nil {
			continue
		}
		c.run(n, newMon(n), runOpt{noIndex: n != "core.Repository.Index"})
	}
	for _, n := range c.methodsOf("jobs.JobStore") {
		if strings.HasSuffix(n, ".Close") {
			continue // nothing else runs by then: C42
		}
		c.run(n, newMon(n), runOpt{pkgs: []string{"core", "jobs"}})
	}
	// one and the same lock for all changes
	for _, what := range sortedKeys(changes) {
		votes := map[string]map[string]bool{}
		for ch := range changes[what] {
			for _, l := range strings.Fields(ch.locks) {
				if votes[l] == nil {
					votes[l] = map[string]bool{}
				}
				votes[l][ch.entry+ch.pos] = true
			}
		}
		best := ""
		for _, l := range sortedKeys(votes) {
			if best == "" || len(votes[l]) > len(votes[best]) {
				best = l
			}
		}
		c.sample("%s are changed under %s", what, best)
		for ch := range changes[what] {
			if !strings.Contains(" "+ch.locks+" ", " "+best+" ") {
				c.violate("other-lock", ch.fn, what, ch.pos, ch.entry+" changes "+what+" under "+ch.locks+", everyone else under "+best)
			}
		}
	}
	for _, f := range sortedKeys(access) {
		w := 0
		for _, a := range access[f] {
			if a.write {
				w++
			}
		}
		if w == 0 {
			continue
		}
		c.counts["shared fields that operations change"]++
		bad := 0
		for _, a := range access[f] {
			c.counts["accesses to them"]++
			if !a.locked {
				bad++
				verb := "reads"
				if a.write {
					verb = "changes"
				}
				c.violate("field", a.fn, f, a.pos, fmt.Sprintf("%s %s the shared %s without a lock of the object it belongs to", a.entry, verb, f))
			}
		}
		c.sample("field %s: %d different accesses, %d of them writes, %d unguarded", f, len(access[f]), w, bad)
	}
	c.require("records changed", 20)
	c.require("accesses to the job database", 15)
	c.require("accesses to shared tables", 10)
	c.require("shared fields that operations change", 1)
}
