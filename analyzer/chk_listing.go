package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C50: what the daemon lists is what is stored. Every request handler that
// answers with a status, a repository listing or a pool listing is executed
// symbolically down to the databases; each list in the reply is traced back
// to the loops that filled it.

func init() {
	register("C50", "provenance of every list in a reply: it is filled by loops over all records of exactly the buckets its heading stands for, each finished, each iteration of which adds exactly one element made of that record's fields; a reply is only encoded on paths on which no read, decode or conversion failed, and the others answer with an error", checkC50)
}

type listMon struct {
	c     *Ctx
	wants map[string][]want // reply type -> its lists
	reply map[string]bool
}

type want struct {
	field   string
	buckets []string
	kind    string // job, past, repo, pool
}

func shortBucket(b *Term) string { return oneName(b) }

func (m *listMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "loop.iter":
		m.leave(s, ev.name)
		var st []*Term
		if l := s.get("act"); l != nil {
			st = l.args
		}
		s.set("act", mk("list", "", append(append([]*Term{}, st...), tStr(ev.name))...))
		s.addTo("over:"+ev.name, ev.args[1])
		s.set("!add:"+ev.name, nil)
	case "loop.back":
		l := s.get("!add:" + ev.name)
		if l == nil {
			l = mk("list", "")
		}
		s.addTo("iter:"+ev.name, l)
		if b := shortBucket(ev.args[1]); b != "" {
			for _, x := range l.args {
				m.made(e, s, b, x.args[0])
			}
			s.setB("seen:"+b, true)
		}
		m.leave(s, ev.name)
	case "loop.done":
		if !wholeLoop(e, s, ev) {
			s.setB("broken:"+ev.name, true)
		}
		m.leave(s, ev.name)
	case "loop.break":
		s.setB("broken:"+ev.name, true)
		m.leave(s, ev.name)
	case "append":
		if len(ev.args) < 2 {
			return
		}
		var xs []*Term
		switch l := ev.args[1]; l.op {
		case "list", "set":
			xs = l.args
		default:
			xs = []*Term{mk("spread", "", l)}
		}
		if site := m.inner(s); site != "" {
			for _, x := range xs {
				m.add(s, site, x, destOf(ev.in))
			}
		}
	case "store":
		// list[i] = x
		if a := ev.args[0]; a.op == "elemaddr" && s.heap[mk("mklen", "", a.args[0])] != nil {
			if site := m.inner(s); site != "" {
				m.add(s, site, ev.args[1], "slots")
				s.addTo("slot:"+site, mk("pair", "", a.args[0], ev.args[1]))
			}
		}
	case "db":
		switch ev.name {
		case "foreach.end":
			if b := shortBucket(ev.args[0]); b != "" && ev.ok != 2 {
				s.setB("done:"+b, true)
				e.count("buckets read")
			}
		case "decode":
			if ev.ok != 2 && len(ev.args) > 2 {
				s.addTo("decoded", mk("pair", "", ev.args[1], ev.args[2]))
			}
		}
		if ev.ok == 2 {
			s.setB("failed", true)
		}
	case "call":
		if ev.ok == 2 && (strings.HasPrefix(ev.name, repoPath) || strings.HasPrefix(ev.name, "encoding/")) {
			s.setB("failed", true)
		}
		switch ev.name {
		case "net/http.Error":
			if v, ok := ev.args[2].intVal(); !ok || v < 400 {
				e.violate(s, ev, "answer", "error", "an error is answered with a status that does not say so")
			}
			s.setB("errsent", true)
		case "net/http.ResponseWriter.WriteHeader":
			if v, ok := ev.args[1].intVal(); ok && v >= 400 {
				s.setB("errsent", true)
			}
		case "encoding/json.Encoder.Encode":
			m.encoded(e, s, ev, ev.args[1])
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			m.encoded(e, s, ev, ev.args[0])
		}
	}
	if isEntryRet(ev) {
		if s.is("failed") && !s.is("errsent") {
			e.violate(s, ev, "silent", "error", "what is listed could not be read, and the client is not told")
		}
		if !s.is("failed") && !s.is("replied") {
			e.violate(s, ev, "no-reply", "reply", "a request is answered without the listing although nothing failed")
		}
	}
}

// inner: the innermost loop being executed.
func (m *listMon) inner(s *State) string {
	l := s.get("act")
	if l == nil || len(l.args) == 0 {
		return ""
	}
	site, _ := l.args[len(l.args)-1].strVal()
	return site
}

func (m *listMon) leave(s *State, site string) {
	// with all loops inside it
	if l := s.get("act"); l != nil {
		for i, x := range l.args {
			if v, _ := x.strVal(); v == site {
				s.set("act", mk("list", "", l.args[:i]...))
				return
			}
		}
	}
}

// destOf names the variable an append extends.
func destOf(in ssa.Instruction) string {
	cl, ok := in.(*ssa.Call)
	if !ok || len(cl.Call.Args) == 0 {
		return "?"
	}
	seen := map[ssa.Value]bool{}
	var from, to func(v ssa.Value) string
	addr := func(a ssa.Value) string { return fmt.Sprintf("%s %s", a.Parent(), a.Type()) + addrName(a) }
	from = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			return addr(x.X)
		case *ssa.Phi:
			return fmt.Sprintf("%s %s", x.Parent(), x.Comment)
		case *ssa.Slice:
			return from(x.X)
		}
		return ""
	}
	to = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					return addr(x.Addr)
				}
			case *ssa.Phi:
				return fmt.Sprintf("%s %s", x.Parent(), x.Comment)
			}
		}
		return ""
	}
	if n := from(cl.Call.Args[0]); n != "" {
		return n
	}
	if n := to(cl); n != "" {
		return n
	}
	return "?"
}

func addrName(a ssa.Value) string {
	if x, ok := a.(*ssa.FieldAddr); ok {
		return fmt.Sprintf(".%d", x.Field)
	}
	return a.Name()
}

func (m *listMon) add(s *State, site string, x *Term, dest string) {
	k := "!add:" + site
	var old []*Term
	if l := s.get(k); l != nil {
		old = l.args
	}
	s.set(k, mk("list", "", append(append([]*Term{}, old...), mk("pair", "", x, tStr(dest)))...))
	s.addTo("by", mk("pair", "", x, tStr(site)))
}

// made records what an element holds at the end of the iteration that made it.
func (m *listMon) made(e *Engine, s *State, b string, x *Term) {
	t := x.typ
	if t == nil {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || x.op != "alloc" {
		return
	}
	args := []*Term{x}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		args = append(args, tStr(n), e.field(s, x, n))
	}
	s.addTo("made", mk("struct", "", args...))
}

// madeOf replaces what elements made in finished loops hold.
func madeOf(s *State, t *Term) *Term {
	made := map[*Term]*Term{}
	for _, x := range s.all("made") {
		y := unloop(x)
		made[y.args[0]] = y
	}
	t = unloop(t)
	if x := made[t]; x != nil {
		return x
	}
	return t.subst(func(u *Term) *Term {
		if u.op == "fld" {
			if x := made[u.args[0]]; x != nil {
				for i := 1; i+1 < len(x.args); i += 2 {
					if n, _ := x.args[i].strVal(); n == u.aux {
						return x.args[i+1]
					}
				}
			}
		}
		return nil
	}, map[*Term]*Term{})
}

func (m *listMon) encoded(e *Engine, s *State, ev *Event, p *Term) {
	if p.typ == nil {
		return
	}
	t := p.typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	ws := m.wants[typeName(t)]
	if ws == nil {
		return
	}
	if ev.ok == 2 {
		return
	}
	m.reply[typeName(t)] = true
	s.setB("replied", true)
	e.count("replies analysed")
	if s.is("failed") {
		e.violate(s, ev, "hidden", typeName(t), "a reply is sent although something it lists could not be read")
		return
	}
	for _, w := range ws {
		l := e.field(s, p, w.field)
		if p.op == "struct" {
			l = e.fldOf(p, w.field)
		}
		e.count("lists analysed")
		m.list(e, s, ev, w, l, 0)
		for _, b := range w.buckets {
			if !s.is("done:" + b) {
				e.violate(s, ev, "unread", w.field, fmt.Sprintf("%s is sent without all records of %s having been read", w.field, b))
			}
		}
	}
}

func elementsOf(s *State, l *Term) (xs []*Term, ok bool) {
	if l == nil || l == tNil || isZeroList(l) {
		return nil, true
	}
	if l.op != "list" && l.op != "set" {
		if s.emptyList(l) {
			return nil, true
		}
		return nil, false
	}
	for _, x := range l.args {
		if x.op == "when" {
			x = x.args[0]
		}
		if x.op == "spread" {
			ys, ok := elementsOf(s, x.args[0])
			if !ok {
				return nil, false
			}
			xs = append(xs, ys...)
			continue
		}
		xs = append(xs, x)
	}
	return xs, true
}

// list: a list in a reply.
func (m *listMon) list(e *Engine, s *State, ev *Event, w want, l *Term, depth int) {
	bad := func(rule, msg string) { e.violate(s, ev, rule, w.field, w.field+": "+msg) }
	xs, ok := elementsOf(s, l)
	if !ok && l.op == "alloc" {
		// filled slot by slot
		if n := s.heap[mk("mklen", "", l)]; n != nil {
			for _, a := range s.mon {
				if a.op != "set" {
					continue
				}
				for _, p := range a.args {
					if p.op == "pair" && len(p.args) == 2 && unloop(p.args[0]) == unloop(l) {
						xs = append(xs, p.args[1])
					}
				}
			}
			ok = true
		}
	}
	if !ok {
		bad("undecided", "where its elements come from is not understood: "+short(l))
		return
	}
	if depth > 4 {
		return
	}
	have := map[string]bool{}
	for _, x := range xs {
		ux := unloop(x)
		found := false
		for _, p := range s.all("by") {
			if unloop(p.args[0]) != ux {
				continue
			}
			found = true
			site, _ := p.args[1].strVal()
			m.filled(e, s, ev, w, xs, site, have, depth)
		}
		if !found {
			bad("extra", "it has an element that is not made from a record: "+short(x))
		}
		if depth == 0 {
			m.element(e, s, ev, w, x)
		}
	}
	if depth == 0 {
		for _, b := range w.buckets {
			if s.is("seen:"+b) && !have[b] {
				bad("missing", "the records of "+b+" are read but not in it")
			}
		}
		for b := range have {
			if !contains(w.buckets, b) {
				bad("heading", "it lists records of "+b)
			}
		}
	}
}

// filled: a loop that adds elements to a list adds one in each iteration.
func (m *listMon) filled(e *Engine, s *State, ev *Event, w want, xs []*Term, site string, have map[string]bool, depth int) {
	bad := func(rule, msg string) { e.violate(s, ev, rule, w.field, w.field+": "+msg) }
	in := map[*Term]bool{}
	for _, x := range xs {
		in[unloop(x)] = true
	}
	if s.is("broken:"+site) || s.get("act") != nil && s.get("act").contains(tStr(site)) {
		bad("partial", "the loop that fills it does not go over everything")
	}
	// one element in each iteration, in the variable that becomes the list
	dests := map[string]bool{"": true}
	for _, it := range s.all("iter:" + site) {
		e.count("iterations followed")
		for _, x := range it.args {
			if in[unloop(x.args[0])] {
				d, _ := x.args[1].strVal()
				dests[d] = true
			}
		}
	}
	rule, msg := "", ""
	good := false
	for _, d := range sortedKeys(dests) {
		r := ""
		for _, it := range s.all("iter:" + site) {
			n := 0
			for _, x := range it.args {
				if g, _ := x.args[1].strVal(); in[unloop(x.args[0])] && (d == "" || d == g) {
					n++
				}
			}
			if n == 0 {
				r = "skipped"
			} else if n > 1 {
				r = "twice"
			}
		}
		if r == "" {
			good = true
		}
		if d == "" {
			rule, msg = r, map[string]string{"skipped": "some records are left out", "twice": "some records are listed more than once"}[r]
		}
	}
	if !good {
		bad(rule, msg)
	}
	overs := s.all("over:" + site)
	if len(overs) == 0 {
		bad("undecided", "the loop that fills it is not over something that is known")
	}
	for _, over := range overs {
		if b := shortBucket(over); b != "" {
			have[b] = true
			continue
		}
		ys, ok := elementsOf(s, over)
		if !ok {
			bad("undecided", "the loop that fills it goes over "+short(over))
			continue
		}
		for _, y := range ys {
			for _, p := range s.all("by") {
				if unloop(p.args[0]) == unloop(y) {
					site2, _ := p.args[1].strVal()
					if site2 != site && depth < 4 {
						m.filled(e, s, ev, w, ys, site2, have, depth+1)
					}
				}
			}
		}
	}
}

// element: what a list shows of a record is what is stored.
func (m *listMon) element(e *Engine, s *State, ev *Event, w want, x *Term) {
	bad := func(f string) {
		e.violate(s, ev, "content", w.field+"."+f, fmt.Sprintf("%s: %s of an element is not that of its record", w.field, f))
	}
	r := madeOf(s, x)
	get := func(f string) *Term {
		v := e.fldOf(r, f)
		if r.op == "alloc" {
			v = e.field(s, r, f)
		}
		return madeOf(s, v)
	}
	e.count("elements analysed")
	rec := func(t *Term, f string) *Term { // the record t is the field f of
		if t.op == "fld" && t.aux == f && t.args[0].op == "loaded" && contains(w.buckets, shortBucket(t.args[0].args[0])) {
			return t.args[0]
		}
		if t.op == "iterk" && (f == "ID" || f == "Name") && contains(w.buckets, shortBucket(t.args[0])) {
			return mk("loaded", "", t.args[0], t) // records are stored under their name
		}
		return nil
	}
	switch w.kind {
	case "repo":
		if rec(r, "ID") == nil {
			bad("ID")
		}
	case "pool":
		a, b := rec(get("ID"), "Name"), rec(get("RefCount"), "RefCount")
		if a == nil {
			bad("ID")
		}
		if b == nil || a != nil && a != b {
			bad("RefCount")
		}
	case "past":
		var first *Term
		for _, f := range []string{"Description", "Timing", "Failed", "Error"} {
			a := rec(get(f), f)
			if a == nil && f == "Timing" {
				a = timesOf(get(f))
			}
			if a == nil || first != nil && a != first {
				bad(f)
				continue
			}
			first = a
		}
	case "job":
		a := rec(get("Timing"), "Timing")
		if a == nil {
			a = timesOf(get("Timing"))
		}
		if a == nil || !contains(w.buckets, shortBucket(a.args[0])) {
			bad("Timing")
			return
		}
		d := get("Description")
		if !(d.op == "call" || d.op == "opq" || d.op == "app") || !strings.Contains(d.aux, "Describe") {
			bad("Description")
			return
		}
		// the handler is that of the same record
		hit := false
		for _, p := range s.all("decoded") {
			if unloop(p.args[1]) == a && d.contains(unloop(p.args[0])) {
				hit = true
			}
		}
		if !hit && !d.contains(a) {
			bad("Description")
		}
	}
}

// timesOf: all times copied one by one from a record.
func timesOf(t *Term) *Term {
	_, ch := fieldChanges(t)
	var first *Term
	for _, n := range []string{"Queued", "Begin", "End"} {
		x := ch[n]
		if x == nil || x.op != "fld" || x.aux != n || x.args[0].op != "fld" || x.args[0].aux != "Timing" || x.args[0].args[0].op != "loaded" {
			return nil
		}
		if r := x.args[0].args[0]; first != nil && r != first {
			return nil
		} else {
			first = r
		}
	}
	return first
}

func (c *Ctx) quiet() *Ctx {
	return &Ctx{P: c.P, id: "probe", viols: map[string]*Violation{}, counts: map[string]int{}, need: map[string]int{}, fns: map[*ssaFn]bool{}, calls: map[ssaInstr]bool{}}
}

func checkC50(c *Ctx) {
	q := c.quiet()
	j := jobStoreOf(q)
	hist := map[bool]map[string]bool{true: {}, false: {}}
	for _, m := range j.entries {
		fn := c.P.fn(m)
		if len(fn.Params) != 2 || !strings.HasSuffix(fn.Params[1].Type().String(), "jobs.JobEntry") {
			continue
		}
		r := &retireMon{j: j, m: strings.TrimPrefix(m, "jobs.JobStore."), job: paramOf(fn, 1), queues: map[string]bool{}, hist: hist}
		q.run(m, r, runOpt{pkgs: []string{"jobs"}})
	}
	queues, failed, done := sortedKeys(j.all), sortedKeys(hist[true]), sortedKeys(hist[false])
	if len(queues) == 0 || len(failed) == 0 || len(done) == 0 {
		c.violate("anchor", "", "buckets", "-", "the queues and histories could not be identified: the property cannot be decided")
		return
	}
	wants := map[string][]want{
		"libferry.StatusRequest": {
			{"CurrentJobs", queues, "job"},
			{"FailedJobs", failed, "past"},
			{"CompletedJobs", done, "past"},
		},
		"libferry.RepoListingRequest": {{"Repository", []string{"repo"}, "repo"}},
		"libferry.PoolListingRequest": {{"Item", []string{"pool"}, "pool"}},
	}
	w := newWire(q)
	w.findRoutes()
	m := &listMon{c: c, wants: wants, reply: map[string]bool{}}
	for _, r := range w.routes {
		hit := false
		for _, t := range w.serve(r).writes {
			if wants[typeName(t)] != nil {
				hit = true
			}
		}
		if !hit {
			continue
		}
		c.counts["listing requests"]++
		c.runFn(r.name, r.fn, m, runOpt{pkgs: []string{"ferryd", "jobs", "core"}, ext: opaqueFns("jobs.NewJobHandler"), free: r.free, funcs: r.funcs})
	}
	for t := range wants {
		if !m.reply[t] {
			c.violate("anchor", "", t, "-", "no request is answered with "+t)
		}
	}
	c.require("listing requests", 3)
	c.require("lists analysed", 1)
	c.require("elements analysed", 1)
	c.require("iterations followed", 1)
}
