package main

import (
	"go/types"
	"strconv"
	"strings"
)

// The ledger: one monitor over every manager operation that follows listings
// in package records, reference counts in pool records and the files behind
// them. Its rules belong to C05–C10 and C21.

func init() {
	for _, p := range []struct{ id, rule string }{
		{"C05", "typestate over every manager operation: each pool-record write is classified by how its count differs from the record before (+1 reference, new record with count 1, -1 release, 0 neutral; anything else is a violation); each newly listed ID consumes exactly one reference taken before in the same operation and iteration, a reference no listing consumes is a violation, and an ID may only be added to a list it is known not to be in"},
		{"C06", "same ledger: each ID dropped from a package record is released exactly once (-1 write, or delete) before the iteration or operation ends successfully, each release has a dropped ID, a pool record is deleted only when its count after the release is known to be 0 and otherwise the lowered count is stored, and the pooled file is removed only for deleted records"},
		{"C07", "same ledger: at each package-record write the newly listed ID has its pool reference stored and its file linked or fully copied from its pool path to <repository>/<path component>/<ID> in the same operation and iteration; after a failure of these steps no listing is written and no success returned"},
		{"C08", "same ledger: a file in the repository tree is removed, or a reference released, only when the package record stored last no longer lists the ID (same transaction counts as together); a pooled file is removed only after its record was deleted (and committed); a new pool record is written only when its file is in the pool"},
		{"C09", "term check at each new pool record: digest, size, URI, name, metadata and delta endpoints are compared with the terms of the file placed in the pool and of the endpoint records"},
		{"C10", "term check at each package-record write: the published ID is the added build if its release is higher (or nothing valid was published), the old one if not; after a removal it is the last update of a verified maximum search over the remaining builds; an empty record is deleted, never stored"},
		{"C21", "condition check at each package-record write of a removal: the deltas kept are exactly those whose pool record has neither endpoint equal to the removed build (truth table over the two comparisons), the ones dropped are exactly the complement and all of them are released"},
	} {
		p := p
		register(p.id, p.rule, func(c *Ctx) { runLedger(c) })
	}
}

func runLedger(c *Ctx) {
	c.runManager(func(entry string) Monitor {
		return &ledger{c: c, prop: c.id, entry: entry, search: map[string]map[string]*searchPair{}, steps: map[string][]*searchRec{}}
	}, runOpt{noIndex: true}, func(m Monitor) { m.(*ledger).finish() })
	switch c.id {
	case "C05":
		c.require("references taken", 1)
		c.require("new pool records", 1)
		c.require("listings", 1)
	case "C06":
		c.require("references released", 1)
		c.require("pool records deleted", 1)
		c.require("delistings", 1)
	case "C07":
		c.require("listings", 1)
		c.require("files placed in a repository", 1)
	case "C08":
		c.require("references released", 1)
		c.require("files removed", 1)
		c.require("new pool records", 1)
	case "C09":
		c.require("new pool records", 1)
		c.require("new delta records", 1)
	case "C10":
		c.require("listings", 1)
		c.require("delistings", 1)
	case "C21":
		c.require("delistings", 1)
		c.require("delta delistings", 1)
	}
}

type ledger struct {
	c      *Ctx
	prop   string
	entry  string
	search map[string]map[string]*searchPair // loops that may search a maximum
	steps  map[string][]*searchRec
	tops   []*topWant
}

func (l *ledger) v(e *Engine, s *State, ev *Event, prop, rule, construct, msg string) {
	if prop == l.prop {
		e.violate(s, ev, rule, construct, msg)
	}
}

// linear splits x into base + constant.
func linear(x *Term) (*Term, int64) {
	if x == nil {
		return tNil, 0
	}
	if v, ok := x.intVal(); ok {
		return tNil, v
	}
	if x.op == "bin" && (x.aux == "+" || x.aux == "-") {
		if c, ok := x.args[1].intVal(); ok {
			b, d := linear(x.args[0])
			if x.aux == "-" {
				c = -c
			}
			return b, d + c
		}
	}
	return x, 0
}

// metaID: the item whose metadata m is, if it is known.
func metaIs(m, x *Term) bool {
	if m == nil || x == nil {
		return false
	}
	m, x = stripStr(m), stripStr(x)
	if m.op == "ptr" || m.op == "addrof" {
		m = m.args[0]
	}
	if m.op == "addr" { // &pkg.Meta.Package
		m = fld(m.args[0], m.aux)
	}
	if m.isFld("Meta") {
		if id, ok := poolRecord(m.args[0]); ok {
			return stripStr(id) == x
		}
	}
	if x.isFld("ID") && m.isFld("Package") && m.args[0].isFld("Meta") {
		return m.args[0].args[0] == x.args[0]
	}
	if x.isApp("eopkg.GetID") {
		return x.args[0] == m
	}
	return false
}

// itemPath recognises <root...>/<path component of X>/<X>.
func itemPath(p *Term) (root []*Term, id *Term, ok bool) {
	if !p.isApp("path") || len(p.args) < 3 {
		return nil, nil, false
	}
	n := len(p.args)
	comp, x := p.args[n-2], p.args[n-1]
	if !comp.isApp("eopkg.GetPathComponent") || !metaIs(comp.args[0], x) {
		return nil, nil, false
	}
	return p.args[:n-2], x, true
}

func isPoolRoot(root []*Term) bool { return len(root) == 1 && root[0].isFld("poolDir") }
func isRepoRoot(root []*Term, id *Term) bool {
	return len(root) == 2 && root[0].isFld("repoBase") && root[1] == id
}

// roots are recognised by where the components' Init put them.
func (l *ledger) poolPath(p *Term) (*Term, bool) {
	r, x, ok := itemPath(p)
	if !ok || !l.c.isRoot(r, "pool", nil) {
		return nil, false
	}
	return x, true
}
func (l *ledger) repoPath(p *Term, repo *Term) (*Term, bool) {
	r, x, ok := itemPath(p)
	if !ok || !l.c.isRoot(r, "repo", repo) {
		return nil, false
	}
	return x, true
}

// isRoot: are these components the pool directory, or a repository's tree?
func (c *Ctx) isRoot(root []*Term, kind string, repo *Term) bool {
	names := c.P.rootFields()
	if kind == "pool" {
		return len(root) == 1 && root[0].op == "fld" && names[root[0].aux] == "pool"
	}
	return len(root) == 2 && root[0].op == "fld" && names[root[0].aux] == kind && (repo == nil || root[1] == repo)
}

// rootFields infers from the Init functions which unexported field holds which
// of the daemon's directories (by the constant directory name joined to BaseDir).
func (P *Program) rootFields() map[string]string {
	if P.roots != nil {
		return P.roots
	}
	P.roots = map[string]string{}
	for _, n := range []string{"core.Pool.Init", "core.RepositoryManager.Init"} {
		fn := P.fn(n)
		if fn == nil {
			continue
		}
		mon := monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "store" && ev.args[0].op == "addr" && ev.args[0].args[0] == mk("param", "self") {
				v := ev.args[1]
				if v.isApp("path") && len(v.args) == 2 && v.args[0].isFld("BaseDir") {
					if d, ok := v.args[1].strVal(); ok {
						P.roots[ev.args[0].aux] = d
					}
				}
			}
		})
		e := newEngine(P, mon)
		e.dbModel = true
		e.inline = func(f *ssaFn) bool { return f.Pkg == nil || f.Pkg == P.pkgs["core"] }
		var args []*Term
		for i, p := range fn.Params {
			t := mk("param", p.Name())
			if i == 0 {
				t = mk("param", "self")
			}
			t.typ = p.Type()
			args = append(args, t)
		}
		e.run(fn, args, nil, newState(), "", nil)
	}
	return P.roots
}

// listParts: what a stored list is, compared with the list before.
type listDiff struct {
	same    bool
	added   []*Term
	filter  []*Term // when-templates: the elements of the old list that are kept
	cleared bool    // nothing is kept
	ok      bool
}

func isZeroList(t *Term) bool {
	return t == nil || t == tNil || t.op == "zerofld" || t.op == "zero" || t.op == "list" && len(t.args) == 0
}

func diffList(s *State, old, now *Term) listDiff {
	if old == nil || isZeroList(old) {
		old = tNil
	}
	if isZeroList(now) {
		if old == tNil || s.emptyList(old) {
			return listDiff{same: true, ok: true}
		}
		return listDiff{cleared: true, ok: true}
	}
	if now == old {
		return listDiff{same: true, ok: true}
	}
	if now.op == "list" || now.op == "set" {
		var d listDiff
		spread := false
		for _, a := range now.args {
			switch {
			case a.op == "spread" && a.args[0] == old:
				spread = true
			case a.op == "when" && fromList(a.args[0], old):
				d.filter = append(d.filter, a)
			case a.op == "when" && a.args[0].op == "spread" && a.args[0].args[0] == old:
				spread = true
			case fromList(a, old) && a.mentionsEach():
				d.filter = append(d.filter, mk("when", "", a))
			case a.op == "spread" || a.op == "when":
				return listDiff{}
			default:
				d.added = append(d.added, a)
			}
		}
		if spread && d.filter != nil || !spread && d.filter != nil && d.added != nil {
			return listDiff{}
		}
		if !spread && d.filter == nil && old != tNil && !s.emptyList(old) {
			return listDiff{}
		}
		d.ok = true
		d.same = spread && d.added == nil
		return d
	}
	return listDiff{}
}

// fromList: x is an element of list old.
func fromList(x, old *Term) bool {
	return (x.op == "elem" || x.op == "index") && x.args[0] == old
}

// kept conditions of a template, without the ones that only say the element exists.
func realConds(w *Term) []*Term {
	var out []*Term
	for _, c := range w.args[1:] {
		if c.aux[0] == 'm' && (c.args[0].op == "len" || c.args[1].op == "len") {
			continue
		}
		if c.aux == "b:true" && c.args[0].isApp("dbhas") {
			continue
		}
		if c.aux[0] == 'r' && (c.args[0].op == "len" || c.args[0].op == "each" || c.args[0].op == "bin") {
			continue
		}
		out = append(out, c)
	}
	return out
}

// condFalse: the condition, with element from replaced by to, cannot hold.
func condFalse(s *State, c, from, to *Term) bool {
	cache := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == from {
			return to
		}
		return nil
	}
	a := c.args[0].subst(sub, cache)
	switch c.aux[0] {
	case 'b':
		v, ok := s.facts.boolv[a]
		return ok && v != (c.aux == "b:true")
	case 'm':
		m, _ := strconv.Atoi(c.aux[2:])
		return s.facts.maskOf(a, c.args[1].subst(sub, cache))&uint8(m) == 0
	}
	return false
}

// notIn: x is certainly not in a list built by filter templates.
func notIn(s *State, list, x *Term) bool {
	if isZeroList(list) {
		return true
	}
	if list.op != "set" && list.op != "list" {
		v, ok := s.facts.boolv[mk("app", "in", list, x)]
		return ok && !v
	}
	for _, w := range list.args {
		el := w
		var conds []*Term
		if w.op == "when" {
			el, conds = w.args[0], w.args[1:]
		}
		if el == x && conds == nil {
			return false
		}
		if !el.mentionsEach() && el.isConst() != x.isConst() && len(conds) == 0 {
			return false
		}
		gone := false
		for _, c := range conds {
			if condFalse(s, c, el, x) {
				gone = true
			}
		}
		if !gone {
			return false
		}
	}
	return true
}

// on: does the property being checked need this?
func (l *ledger) on(ps ...string) bool {
	for _, p := range ps {
		if p == l.prop {
			return true
		}
	}
	return false
}

func (l *ledger) Event(e *Engine, s *State, ev *Event) {
	switch {
	case ev.kind == "db" && (ev.name == "put" || ev.name == "delete"):
		if isBucket(ev.args[0], "pool") {
			l.pool(e, s, ev)
		} else if id, ok := pkgBucket(ev.args[0]); ok {
			l.record(e, s, ev, id)
		}
	case ev.kind == "db" && ev.name == "begin":
		if l.on("C08") {
			s.setB("tx", true)
		}
	case ev.kind == "db" && ev.name == "abort":
		s.set("orphan", nil)
		if l.on("C08") && s.is("tx") {
			s.set("tx", nil)
			s.set("pending", nil)
			s.setB("aborted", true)
		}
	case ev.kind == "db" && ev.name == "commit":
		s.set("tx", nil)
		for _, x := range s.all("pending") {
			l.v(e, s, ev, "C08", "released-listed", "release", "a transaction releases the reference of "+short(x)+" without removing it from the package record that lists it")
		}
		s.set("pending", nil)
	case ev.kind == "assume":
		// a published build without a pool record: kept apart, so that the
		// choice made for it is judged by itself
		if l.on("C10") {
			for k, v := range s.facts.boolv {
				if !v && k.isApp("dbhas") && isBucket(k.args[0], "pool") && stripStr(k.args[1]).isFld("Published") && !s.has("!gone", stripStr(k.args[1])) {
					s.addTo("!gone", stripStr(k.args[1]))
				}
			}
		}
	case ev.kind == "call":
		l.files(e, s, ev)
	case ev.kind == "loop.iter":
		if l.on("C06") && len(poolFilesOf(l, ev.args[1])) > 0 {
			s.set("rmi", nil)
		}
	case ev.kind == "loop.back":
		if l.on("C06") && !s.is("rmi") && len(poolFilesOf(l, ev.args[1])) > 0 {
			s.setB("unrm:"+ev.name, true)
		}
		l.back(e, s, ev)
	case ev.kind == "loop.break":
		if l.on("C06", "C21") && itemList(ev.args[1]) {
			s.setB("unc:"+ev.name, true)
			l.done(e, s, ev)
		}
		if l.on("C10") && l.search[ev.name] != nil {
			s.setB("brk:"+ev.name, true)
		}
	case ev.kind == "loop.done":
		l.done(e, s, ev)
	case isEntryRet(ev) && okRet(ev):
		e.count("successful returns")
		for _, x := range s.all("orphan") {
			l.v(e, s, ev, "C06", "file-kept", "return", "the last reference to "+short(x)+" is released and its pool record deleted, but its pooled file is not removed")
		}
		l.settled(e, s, ev, "return", nil)
	}
}

// settled: nothing may be half done at the end of an iteration or operation.
func (l *ledger) settled(e *Engine, s *State, ev *Event, where string, sym *Term) {
	in := func(t *Term) bool { return sym == nil || t.contains(sym) }
	for _, x := range s.all("ref") {
		if in(x) {
			l.v(e, s, ev, "C05", "reference-unlisted", where, "a reference to "+short(x)+" is counted but no repository comes to list it")
		}
	}
	if !l.on("C06", "C21") {
		return
	}
	for _, x := range s.all("owed") {
		if in(x) && s.facts.maskBool(mk("app", "dbhas", x.args[0], x.args[1])) != 2 {
			l.v(e, s, ev, "C06", "not-released", where, "an item is removed from a package record but its reference is never released: "+short(x.args[1]))
		}
	}
	for _, d := range s.all("drop") {
		if in(d) {
			l.balance(e, s, ev, d)
		}
	}
	for _, x := range s.all("loose") {
		if in(x) && !(sym != nil && itemList(ev.args[1])) {
			l.v(e, s, ev, "C06", "release-without-removal", "release", "the reference of "+short(x)+" is released although it is not removed from any package record")
		}
	}
	for _, v := range s.all("cov") {
		if !in(v) {
			continue
		}
		used := false
		for _, d := range s.all("drop") {
			if sameItems(v, d.args[0]) {
				used = true
			}
		}
		if !used {
			l.v(e, s, ev, "C06", "release-without-removal", "release", "the references of "+short(v)+" are released although they are not removed from any package record")
		}
	}
	for _, k := range []string{"owed", "drop", "cov", "covg", "cls"} {
		s.remFrom(k, in)
	}
}

// itemList: a list of IDs taken from package records.
func itemList(t *Term) bool {
	return t != nil && t.find(func(x *Term) bool {
		if x.op == "fld" && (x.aux == "Available" || x.aux == "Deltas") && x.args[0].op == "loaded" {
			_, ok := pkgBucket(x.args[0].args[0])
			return ok
		}
		return false
	}) != nil
}

// sameItems: v is list or consists of elements of it.
func sameItems(v, list *Term) bool {
	if v == list {
		return true
	}
	if v.op != "set" && v.op != "list" {
		return false
	}
	for _, w := range v.args {
		x := w
		if w.op == "when" {
			x = w.args[0]
		}
		if x.op == "spread" {
			x = x.args[0]
			if x != list {
				return false
			}
			continue
		}
		if !fromList(x, list) {
			return false
		}
	}
	return true
}

func (l *ledger) pool(e *Engine, s *State, ev *Event) {
	x := stripStr(ev.args[1])
	tx := len(ev.args) > 3 && ev.args[3] == tTrue
	if ev.ok != 1 {
		return
	}
	if ev.name == "delete" {
		e.count("pool records deleted")
		prev := ev.prev
		if prev == nil || prev.op == "deleted" {
			l.v(e, s, ev, "C06", "double-release", "pool delete", "the pool record of "+short(x)+" is deleted although it does not exist")
			return
		}
		rc := e.fldOf(prev, "RefCount")
		base, d := linear(rc)
		// count after the release of one reference must be known to be zero
		zero := false
		for _, t := range []*Term{bin("+", base, tInt(d-1)), bin("-", rc, tInt(1))} {
			r := s.facts.rangeOf(t)
			if r.hi <= 0 || s.facts.maskOf(t, tInt(0)) == mEQ {
				zero = true
			}
		}
		if s.facts.rangeOf(rc).hi <= 1 {
			zero = true
		}
		if !zero {
			l.v(e, s, ev, "C06", "deleted-while-referenced", "pool delete", "the pool record of "+short(x)+" is deleted although its count is not known to have reached zero")
		}
		l.release(e, s, ev, x, tx)
		if l.on("C06") {
			s.addTo("orphan", unloop(x))
		}
		return
	}
	v := ev.args[2]
	rc := e.field(s, v, "RefCount")
	if n := e.field(s, v, "Name"); stripStr(n) != x {
		l.v(e, s, ev, "C09", "wrong-name", "pool put", "the pool record stored under "+short(x)+" carries the name "+short(n))
	}
	if ev.prev == nil || ev.prev.op == "deleted" {
		l.newRecord(e, s, ev, x, v, rc)
		return
	}
	pb, pd := linear(e.fldOf(ev.prev, "RefCount"))
	nb, nd := linear(rc)
	if ev.had != 1 {
		l.v(e, s, ev, "C05", "blind-write", "pool put", "the pool record of "+short(x)+" is written without having been read")
		return
	}
	for _, f := range []string{"Meta", "Delta"} {
		if a, b := e.field(s, v, f), e.fldOf(ev.prev, f); a != b {
			l.v(e, s, ev, "C09", "changed-"+strings.ToLower(f), "pool put", "updating the pool record of "+short(x)+" changes its "+f)
		}
	}
	if pb != nb {
		l.v(e, s, ev, "C05", "count", "pool put", "the reference count of "+short(x)+" becomes "+short(rc)+", which is not derived from the stored count")
		return
	}
	switch nd - pd {
	case 0:
	case 1:
		e.count("references taken")
		l.refd(e, s, ev, x)
		s.note("ref " + short(x))
	case -1:
		e.count("references released")
		if s.facts.rangeOf(rc).lo < 1 && s.facts.maskOf(rc, tInt(0)) != mGT && !(l.c.unsignedCount() && s.facts.maskOf(rc, tInt(0))&mEQ == 0) {
			l.v(e, s, ev, "C06", "zero-count-kept", "pool put", "a pool record of "+short(x)+" whose count may have reached zero is stored instead of deleted")
		}
		l.release(e, s, ev, x, tx)
	default:
		p := "C05"
		if nd < pd {
			p = "C06"
		}
		l.v(e, s, ev, p, "count-step", "pool put", "the reference count of "+short(x)+" changes by "+strconv.FormatInt(nd-pd, 10))
	}
}

func (l *ledger) newRecord(e *Engine, s *State, ev *Event, x, v, rc *Term) {
	e.count("new pool records")
	if n, ok := rc.intVal(); !ok || n != 1 {
		l.v(e, s, ev, "C05", "new-count", "pool put", "a new pool record of "+short(x)+" starts with count "+short(rc))
	}
	l.refd(e, s, ev, x)
	s.note("new pool record " + short(x))
	// the file is there
	var src *Term
	for _, p := range s.all("placed") {
		if y, ok := l.poolPath(p.args[0]); ok && y == x {
			src = p.args[1]
		}
	}
	for k, b := range s.facts.boolv {
		if b && k.isApp("os.SameFile") {
			for i := 0; i < 2; i++ {
				if d := statOf(k.args[i]); d != nil {
					if y, ok := l.poolPath(d); ok && y == x {
						src = statOf(k.args[1-i])
					}
				}
			}
		}
	}
	if src == nil {
		l.v(e, s, ev, "C08", "record-before-file", "pool put", "the new pool record of "+short(x)+" is stored before its file is in the pool at <pool>/<path component>/<ID>")
		if l.prop == "C09" {
			l.v(e, s, ev, "C09", "no-file", "pool put", "no file placed in the pool for the new record of "+short(x))
			return
		}
	}
	if l.prop != "C09" {
		return
	}
	meta := e.field(s, v, "Meta")
	get := func(f string) *Term { return e.field(s, meta, f) }
	if !metaIs(meta, x) {
		l.v(e, s, ev, "C09", "wrong-meta", "Meta", "the new pool record of "+short(x)+" carries metadata that is not its own: "+short(meta))
	}
	isFile := func(f *Term) bool {
		if f == nil {
			return false
		}
		if f == src {
			return true
		}
		y, ok := l.poolPath(f)
		return ok && y == x
	}
	if alg, f := digestOf(get("PackageHash")); alg != "sha1" || !isFile(f) {
		l.v(e, s, ev, "C09", "wrong-hash", "PackageHash", "the digest of the new pool record of "+short(x)+" is "+short(get("PackageHash"))+", not the SHA-1 of the pooled file")
	}
	if f := sizeOf(get("PackageSize")); !isFile(f) {
		l.v(e, s, ev, "C09", "wrong-size", "PackageSize", "the size of the new pool record of "+short(x)+" is "+short(get("PackageSize"))+", not that of the pooled file")
	}
	u := get("PackageURI")
	if !u.isApp("path") && u.isApp("cat") { // <component>/<ID>
		var cs []*Term
		for _, a := range u.args {
			if a == tStr("/") {
				continue
			}
			cs = append(cs, a)
		}
		u = path(cs...)
	}
	if r, y, ok := itemPath(path(append([]*Term{mk("param", "root")}, u.args...)...)); !ok || y != x || len(r) != 1 {
		l.v(e, s, ev, "C09", "wrong-uri", "PackageURI", "the location of the new pool record of "+short(x)+" is "+short(u)+", not <path component>/<ID>")
	}
	d := e.field(s, v, "Delta")
	if d == tNil || d.op == "zerofld" {
		if l.entry == "AddDelta" {
			l.v(e, s, ev, "C09", "no-delta", "Delta", "a pooled delta is recorded without its endpoints")
		}
		return
	}
	e.count("new delta records")
	for _, end := range []string{"From", "To"} {
		id := stripStr(e.field(s, d, end+"ID"))
		rel := e.field(s, d, end+"Release")
		if !l.c.mappingField(id, end+"ID") {
			l.v(e, s, ev, "C09", "wrong-endpoint", end+"ID", "the delta record's "+end+"ID is "+short(id))
		}
		if ok := s.facts.boolv[mk("app", "dbhas", canonBucketOf(ev), id)]; !ok {
			l.v(e, s, ev, "C09", "endpoint-not-pooled", end+"ID", "a delta is recorded although its "+end+" package is not known to be pooled")
		}
		if !rel.isApp("eopkg.GetRelease") || !metaIs(rel.args[0], id) {
			l.v(e, s, ev, "C09", "wrong-endpoint-release", end+"Release", "the delta record's "+end+"Release is "+short(rel)+", not the release of its "+end+" package in the pool")
		}
	}
}

func canonBucketOf(ev *Event) *Term { return ev.args[0] }

// mappingField: the delta endpoint comes from the caller's mapping, same end.
// unsignedCount: reference counts cannot be below zero.
func (c *Ctx) unsignedCount() bool {
	n := c.P.named["core.PoolEntry"]
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "RefCount" {
			b, ok := f.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsUnsigned != 0
		}
	}
	return false
}

func (c *Ctx) mappingField(id *Term, f string) bool {
	return id.isFld(f) && id.args[0].op == "param"
}

// statOf: the path whose file information t is.
func statOf(t *Term) *Term {
	if t.op != "call" {
		return nil
	}
	n := t.aux[strings.LastIndexByte(t.aux, ':')+1:]
	switch n {
	case "os.Stat.0", "os.Lstat.0":
		return t.args[0]
	case "os.File.Stat.0":
		p, _ := fileOf(t.args[0])
		return p
	}
	return nil
}

// refd: a reference to x is counted.
func (l *ledger) refd(e *Engine, s *State, ev *Event, x *Term) {
	if !l.on("C05", "C07") {
		return
	}
	if s.has("ref", x) {
		l.v(e, s, ev, "C05", "double-reference", "pool put", "a second reference to "+short(x)+" is counted for one listing")
	}
	s.addTo("ref", x)
}

// release: a reference of x is given up.
func (l *ledger) release(e *Engine, s *State, ev *Event, x *Term, tx bool) {
	s.note("release " + short(x))
	if l.on("C08") && !l.delisted(e, s, x) {
		if tx {
			s.addTo("pending", x)
		} else {
			l.v(e, s, ev, "C08", "released-listed", "release", "the reference of "+short(x)+" is given up while a package record may still list it")
		}
	}
	if !l.on("C06", "C21") {
		return
	}
	if s.remFrom("owed", func(t *Term) bool { return t.args[1] == x }) {
		return
	}
	if s.has("loose", x) {
		l.v(e, s, ev, "C06", "double-release", "release", "the reference of "+short(x)+" is released twice")
	}
	s.addTo("loose", x)
}

// delisted: the record that could list x was stored without it.
func (l *ledger) delisted(e *Engine, s *State, x *Term) bool {
	for c, v := range s.heap {
		if c.op != "dbcell" {
			continue
		}
		if _, ok := pkgBucket(c.args[0]); !ok || !l.concerns(c, x) {
			continue
		}
		if v.op == "deleted" {
			return true
		}
		// builds and deltas never share an identity: an item taken from one
		// list has to be gone from that one only
		k := listOf(x)
		if (k == "Deltas" || notIn(s, e.fldOf(v, "Available"), x)) && (k == "Available" || notIn(s, e.fldOf(v, "Deltas"), x)) {
			return true
		}
	}
	for k, v := range s.facts.boolv {
		if !v && k.isApp("dbhas") {
			if _, ok := pkgBucket(k.args[0]); ok && l.concerns(k, x) {
				return true
			}
		}
	}
	return false
}

// listOf names the list of a package record x was taken from.
func listOf(x *Term) string {
	if l := x.find(func(t *Term) bool {
		return (t.op == "elem" || t.op == "index") && t.args[0].op == "fld" && itemList(t.args[0])
	}); l != nil {
		return l.args[0].aux
	}
	return ""
}

// concerns: record (bucket, key) is the one that lists x.
func (l *ledger) concerns(r, x *Term) bool {
	b, k := r.args[0], stripStr(r.args[1])
	if x.find(func(t *Term) bool { return t.op == "loaded" && t.args[0] == b && t.args[1] == k }) != nil {
		return true
	}
	// keyed by x's own name
	return k.isFld("Name") && metaIs(k.args[0], x)
}

func (l *ledger) record(e *Engine, s *State, ev *Event, repo *Term) {
	key := stripStr(ev.args[1])
	if ev.ok != 1 {
		return
	}
	tx := len(ev.args) > 3 && ev.args[3] == tTrue
	if ev.name == "delete" {
		e.count("package records deleted")
		e.count("delistings")
		if tx {
			s.remFrom("pending", func(x *Term) bool { return l.concerns(mk("rec", "", ev.args[0], key), x) })
		}
		l.dropped(e, s, ev, repo, key, nil)
		return
	}
	v := ev.args[2]
	av, dl, pub := e.field(s, v, "Available"), e.field(s, v, "Deltas"), stripStr(e.field(s, v, "Published"))
	var oav, odl, opub *Term
	if ev.prev != nil && ev.prev.op != "deleted" {
		oav, odl, opub = e.fldOf(ev.prev, "Available"), e.fldOf(ev.prev, "Deltas"), stripStr(e.fldOf(ev.prev, "Published"))
	}
	if ev.had == 3 {
		l.v(e, s, ev, "C05", "blind-record", "record put", "the package record "+short(key)+" is written without having been looked up")
	}
	if n := e.field(s, v, "Name"); stripStr(n) != key {
		l.v(e, s, ev, "C07", "wrong-record-name", "record put", "the package record stored under "+short(key)+" carries the name "+short(n))
	}
	da, dd := diffList(s, oav, av), diffList(s, odl, dl)
	if !da.ok || !dd.ok {
		what := "builds"
		p := "C07"
		if da.ok {
			what = "deltas"
			p = "C21"
		}
		l.v(e, s, ev, p, "unexplained-listing", "record put", "the list of "+what+" stored for "+short(key)+" is neither the old one, the old one with an item added, nor the old one with items filtered out")
		for _, q := range []string{"C05", "C06", "C10"} {
			l.v(e, s, ev, q, "unexplained-listing", "record put", "the list of "+what+" stored for "+short(key)+" is neither the old one, the old one with an item added, nor the old one with items filtered out")
		}
		return
	}
	if tx {
		s.remFrom("pending", func(x *Term) bool { return l.concerns(mk("rec", "", ev.args[0], key), x) && l.delisted(e, s, x) })
	}
	for _, x := range append(append([]*Term{}, da.added...), dd.added...) {
		l.listed(e, s, ev, repo, key, stripStr(x), oav, odl)
	}
	l.published(e, s, ev, key, av, pub, oav, opub, da)
	if da.filter != nil || da.cleared || dd.filter != nil || dd.cleared {
		e.count("delistings")
		l.dropped(e, s, ev, repo, key, &[2]listDiff{da, dd})
	} else if da.added == nil && dd.added == nil && da.same && dd.same {
		e.count("neutral record writes")
	}
}

// listed: x newly appears in the record of repo.
func (l *ledger) listed(e *Engine, s *State, ev *Event, repo, key, x, oav, odl *Term) {
	e.count("listings")
	s.note("list " + short(x))
	fresh := func(o *Term) bool { return o == nil || isZeroList(o) || s.emptyList(o) || notIn(s, o, x) }
	if ev.had != 2 && !(fresh(oav) || fresh(odl)) {
		l.v(e, s, ev, "C05", "listed-twice", "record put", short(x)+" is added to the record "+short(key)+" without having established that it is not listed yet")
	}
	if !s.remFrom("ref", func(t *Term) bool { return t == x }) {
		l.v(e, s, ev, "C05", "listed-unreferenced", "record put", "a repository comes to list "+short(x)+" without a pool reference having been counted for it")
		l.v(e, s, ev, "C07", "listed-unpooled", "record put", "a repository comes to list "+short(x)+" before its pool reference is stored")
	}
	if !(key.isFld("Name") && metaIs(key.args[0], x)) {
		l.v(e, s, ev, "C07", "wrong-record", "record put", short(x)+" is listed in the record "+short(key)+", which is not that of its own package name")
	}
	placed := false
	for _, p := range s.all("placed") {
		if y, ok := l.repoPath(p.args[0], repo); ok && y == x {
			if z, ok := l.poolPath(p.args[1]); ok && z == x {
				placed = true
			}
		}
	}
	for k, b := range s.facts.boolv {
		if b && k.isApp("os.SameFile") {
			for i := 0; i < 2; i++ {
				d, f := statOf(k.args[i]), statOf(k.args[1-i])
				if d == nil || f == nil {
					continue
				}
				if y, ok := l.repoPath(d, repo); ok && y == x {
					if z, ok := l.poolPath(f); ok && z == x {
						placed = true
					}
				}
			}
		}
	}
	if !placed {
		l.v(e, s, ev, "C07", "listed-unplaced", "record put", "a repository comes to list "+short(x)+" before its file has been linked or copied from the pool to <repository>/<path component>/<ID>")
	}
}

// published: C10 for additions and plain updates.
func (l *ledger) published(e *Engine, s *State, ev *Event, key, av, pub, oav, opub *Term, d listDiff) {
	if l.prop != "C10" {
		return
	}
	if isZeroList(av) || s.emptyList(av) {
		l.v(e, s, ev, "C10", "empty-record", "record put", "a package record without any available build is stored")
		return
	}
	if d.filter != nil || d.cleared {
		if s.facts.rangeOf(mk("len", "", av)).lo < 1 {
			l.v(e, s, ev, "C10", "empty-record", "record put", "a package record that may have no available build left is stored")
		}
		l.wantTop(e, s, ev, pub, oav, d)
		return
	}
	if len(d.added) == 0 {
		if pub != opub {
			l.v(e, s, ev, "C10", "published-changed", "Published", "the published build changes to "+short(pub)+" although the builds do not")
		}
		return
	}
	if len(d.added) > 1 {
		l.v(e, s, ev, "C10", "several-added", "Published", "several builds are added at once; which one is published cannot be decided")
		return
	}
	x := stripStr(d.added[0])
	if ev.prev == nil || ev.prev.op == "deleted" || oav == nil || isZeroList(oav) {
		if pub != x {
			l.v(e, s, ev, "C10", "first-not-published", "Published", "the first build of a package is listed but "+short(pub)+" is published")
		}
		return
	}
	m := relMask(s, x, opub)
	gone := s.has("!gone", opub)
	switch {
	case pub == x:
		if !gone && m&mLT != 0 {
			l.v(e, s, ev, "C10", "older-published", "Published", "the added build is published although its release may be lower than the published one")
		}
	case pub == opub:
		if gone {
			l.v(e, s, ev, "C10", "dangling-published", "Published", "a build without a pool record stays published")
		} else if m&mGT != 0 {
			l.v(e, s, ev, "C10", "newer-unpublished", "Published", "an added build whose release may be higher is not published")
		}
	default:
		l.v(e, s, ev, "C10", "foreign-published", "Published", "the published build becomes "+short(pub)+", neither the added nor the old one")
	}
}

// relMask: known orderings of the releases of x and y.
func relMask(s *State, x, y *Term) uint8 {
	rel := func(t, id *Term) bool {
		return t.isApp("eopkg.GetRelease") && metaIs(t.args[0], id)
	}
	m := uint8(mAll)
	for k, f := range s.facts.mask {
		switch {
		case rel(k[0], x) && rel(k[1], y):
			m &= f
		case rel(k[1], x) && rel(k[0], y):
			m &= flip(f)
		}
	}
	return m
}

// dropped: the record of a package was stored without some of its items (or deleted).
func (l *ledger) dropped(e *Engine, s *State, ev *Event, repo, key *Term, d *[2]listDiff) {
	if !l.on("C06", "C21") {
		return
	}
	var prev [2]*Term
	for i, f := range []string{"Available", "Deltas"} {
		prev[i] = mk("none", "")
		if ev.prev != nil && ev.prev.op != "deleted" {
			if p := e.fldOf(ev.prev, f); !isZeroList(p) && !s.emptyList(p) {
				prev[i] = p
			}
		}
	}
	if prev[1].op != "none" {
		e.count("delta delistings")
	}
	// which build goes: the kept ones are those different from it
	var x *Term
	if d != nil {
		for _, w := range d[0].filter {
			cs := realConds(w)
			if len(cs) != 1 || cs[0].aux != "m:5" || cs[0].args[0] != w.args[0] && cs[0].args[1] != w.args[0] {
				l.v(e, s, ev, "C06", "removal-condition", "record put", "the builds kept in "+short(key)+" are not selected by being different from the removed one")
				continue
			}
			for i := 0; i < 2; i++ {
				if cs[0].args[i] == w.args[0] && cs[0].args[1-i] != w.args[0] {
					if x != nil && x != cs[0].args[1-i] {
						l.v(e, s, ev, "C06", "removal-condition", "record put", "several builds are dropped from "+short(key)+" at once")
					}
					x = cs[0].args[1-i]
				}
			}
		}
		if x != nil {
			s.addTo("owed", mk("owed", "", poolBucketOf(ev.args[0]), x))
		}
	} else if x = l.removedBuild(s, key, prev[0]); x != nil {
		s.addTo("owed", mk("owed", "", poolBucketOf(ev.args[0]), x))
		s.remFrom("loose", func(t *Term) bool {
			if t == x {
				s.remFrom("owed", func(o *Term) bool { return o.args[1] == x })
				return true
			}
			return false
		})
	}
	if x != nil && !itemList(x) && x.op != "param" {
		l.v(e, s, ev, "C06", "release-unlisted", "record put", short(x)+" is removed from "+short(key)+" although it is not taken from a package record")
	}
	y := x
	if y == nil {
		y = tNil
	}
	keep := []*Term{tNil, tNil}
	if d != nil {
		for i := range keep {
			switch {
			case d[i].same:
				keep[i] = prev[i]
			case d[i].filter != nil:
				keep[i] = mkSet(d[i].filter...)
			}
		}
		if d[1].same && prev[1].op != "none" && x != nil {
			l.v(e, s, ev, "C21", "deltas-kept", "Deltas", "a build is removed but all deltas of the package stay listed")
			return
		}
	}
	for i, f := range []string{"Available", "Deltas"} {
		if prev[i].op != "none" {
			s.addTo("drop", mk("drop", f, prev[i], y, keep[i], tBool(d == nil)))
		}
	}
}

// poolBucketOf: the pool bucket of the database a bucket belongs to.
func poolBucketOf(b *Term) *Term { return mk("bucket", "", tStr("pool"), rootDb(b)) }

// removedBuild: a package record is deleted outright: which single build was
// left? One named by the record's key that every loop over the builds found to
// be the only one.
func (l *ledger) removedBuild(s *State, key, av *Term) *Term {
	for _, c := range s.all("cls") {
		if c.args[1] != av {
			continue
		}
		for _, sg := range c.args[2:] {
			if sg.aux == "self" && sg.args[0] != tNil {
				return sg.args[0]
			}
		}
	}
	return nil
}

// classes: which kinds of elements a list can have on this path. Each complete
// loop over the list saw every element, so an element kind exists only if
// every loop saw it.
// For builds: bit 1 equal to x, bit 2 different. For deltas: bit (f+2*t) where
// f, t tell whether the start, the end equals x.
func (l *ledger) classes(s *State, list, x *Term, deltas bool) uint {
	all := uint(3)
	if deltas {
		all = 15
	}
	r := all
	for _, c := range s.all("cls") {
		if c.args[1] != list {
			continue
		}
		var m uint
		for _, sg := range c.args[2:] {
			// sg: sig<what>(y, mask...) for one kind of iteration
			m |= sigBits(sg, x, deltas)
		}
		r &= m
	}
	return r
}

func sigBits(sg, x *Term, deltas bool) uint {
	see := func(m int64, eq bool) bool {
		if eq {
			return m&mEQ != 0
		}
		return m&(mLT|mGT) != 0
	}
	mask := func(i int) int64 {
		if sg.args[0] != x {
			return mAll
		}
		v, _ := sg.args[i].intVal()
		return v
	}
	var r uint
	if !deltas {
		if see(mask(1), true) {
			r |= 1
		}
		if see(mask(1), false) {
			r |= 2
		}
		return r
	}
	for f := 0; f < 2; f++ {
		for t := 0; t < 2; t++ {
			if see(mask(2), f == 1) && see(mask(3), t == 1) {
				r |= 1 << uint(f+2*t)
			}
		}
	}
	return r
}

// signature of one iteration over an item list: what is known about the element.
func (l *ledger) signature(s *State, list, sym *Term) *Term {
	y := tNil
	m := [3]uint8{mAll, mAll, mAll}
	for p, k := range s.facts.mask {
		for i := 0; i < 2; i++ {
			a, b, kk := p[i], p[1-i], k
			if i == 1 {
				kk = flip(k)
			}
			if b.op == "const" || b.op == "bin" || b.op == "len" || b.contains(sym) {
				continue
			}
			w := -1
			el := a
			if a.op == "fld" && (a.aux == "FromID" || a.aux == "ToID") && a.args[0].isFld("Delta") {
				if id, ok := poolRecord(a.args[0].args[0]); ok {
					el = stripStr(id)
					w = 1
					if a.aux == "ToID" {
						w = 2
					}
				}
			} else {
				w = 0
			}
			if w < 0 || !fromList(el, list) || !el.contains(sym) {
				continue
			}
			y = b
			m[w] = kk
		}
	}
	return mk("sig", "self", y, tInt(int64(m[0])), tInt(int64(m[1])), tInt(int64(m[2])))
}

// balance: what was dropped from a record is exactly what was released.
func (l *ledger) balance(e *Engine, s *State, ev *Event, d *Term) {
	list, x, keep, deleted := d.args[0], d.args[1], d.args[2], d.args[3] == tTrue
	deltas := d.aux == "Deltas"
	cls := l.classes(s, list, x, deltas)
	if s.emptyList(list) {
		return
	}
	admits := func(w *Term, bit uint) bool {
		if w.op != "when" {
			w = mk("when", "", w)
		}
		if w.args[0].op == "spread" {
			return w.args[0].args[0] == list
		}
		if !fromList(w.args[0], list) {
			return false
		}
		if !deltas {
			sg := uint(3)
			for _, c := range realConds(w) {
				if c.aux[0] == 'm' {
					k, _ := strconv.Atoi(c.aux[2:])
					for i := 0; i < 2; i++ {
						if c.args[i] == w.args[0] && c.args[1-i] == x {
							sg = 0
							if k&mEQ != 0 {
								sg |= 1
							}
							if k&mNE != 0 {
								sg |= 2
							}
						}
					}
				}
			}
			return sg&bit != 0
		}
		f, t, _ := endConds(w, x)
		for i := 0; i < 4; i++ {
			if 1<<uint(i) != bit {
				continue
			}
			isF, isT := i&1 != 0, i&2 != 0
			return !(f == 1 && !isF || f == 2 && isF || t == 1 && !isT || t == 2 && isT)
		}
		return true
	}
	n := uint(2)
	if deltas {
		n = 4
	}
	for i := uint(0); i < n; i++ {
		bit := uint(1) << i
		if cls&bit == 0 {
			continue
		}
		kept, rel := keep == list, false
		if keep.op == "set" {
			for _, w := range keep.args {
				kept = kept || admits(w, bit)
			}
		}
		for _, v := range append(append([]*Term{}, s.all("cov")...), s.all("covg")...) {
			if v == list {
				rel = true
			} else if v.op == "set" || v.op == "list" {
				for _, w := range v.args {
					rel = rel || admits(w, bit)
				}
			}
		}
		if !deltas && i == 0 && x != tNil {
			rel = true // accounted for on its own
		}
		what := map[bool]string{false: "a build other than the removed one", true: "a delta of other builds"}[deltas]
		if deltas && i > 0 {
			what = "a delta that " + []string{"", "starts", "ends", "starts and ends"}[i] + " at the removed build"
		} else if !deltas && i == 0 {
			what = "the removed build"
		}
		switch {
		case !kept && !rel:
			l.v(e, s, ev, "C06", "not-released", d.aux, what+" is dropped from the package record but its reference is not released")
			if deltas {
				l.v(e, s, ev, "C21", "not-collected", d.aux, what+" is dropped from the package record but not released and removed")
			}
		case kept && rel:
			l.v(e, s, ev, "C06", "released-kept", d.aux, what+" is released but stays listed in the package record")
			if deltas {
				l.v(e, s, ev, "C21", "released-kept", d.aux, what+" is released but stays listed in the package record")
			}
		case kept && deltas && i > 0:
			l.v(e, s, ev, "C21", "stale-delta-kept", d.aux, what+" stays listed")
		case rel && deltas && i == 0 && !deleted:
			l.v(e, s, ev, "C21", "delta-dropped", d.aux, what+" is removed")
		}
	}
}

// endConds: what a template says about From==x and To==x (1 equal, 2 different, 3 nothing).
func endConds(w, x *Term) (f, t int, other string) {
	f, t = 3, 3
	for _, c := range realConds(w) {
		if c.aux[0] == 'm' {
			m, _ := strconv.Atoi(c.aux[2:])
			for i := 0; i < 2; i++ {
				a, b := c.args[i], c.args[1-i]
				if b != x || a.op != "fld" || !a.args[0].isFld("Delta") {
					continue
				}
				if id, ok := poolRecord(a.args[0].args[0]); !ok || stripStr(id) != w.args[0] {
					continue
				}
				r := 3
				if m == mEQ {
					r = 1
				} else if m == mNE {
					r = 2
				}
				switch a.aux {
				case "FromID":
					f = r
					goto next
				case "ToID":
					t = r
					goto next
				}
			}
		}
		other = short(c)
	next:
	}
	return
}

func (l *ledger) files(e *Engine, s *State, ev *Event) {
	if !l.on("C06", "C07", "C08", "C09") {
		return
	}
	if l.on("C06") {
		// a file that cannot be removed is only warned about: the attempt counts
		for _, o := range fsOps(e, s, ev) {
			if o.op == "remove" {
				if x, ok := l.poolPath(o.path); ok {
					x = unloop(x)
					s.setB("rmi", true)
					s.remFrom("orphan", func(t *Term) bool { return t == x })
				}
			}
		}
	}
	if ev.ok == 2 {
		return
	}
	for _, o := range fsOps(e, s, ev) {
		switch o.op {
		case "link", "copy", "write":
			src := o.src
			if o.op == "write" {
				src = contentOf2(o.data)
			}
			if src == nil || l.prop == "C06" {
				continue
			}
			_, inRepo := l.repoPath(o.path, nil)
			_, inPool := l.poolPath(o.path)
			if inRepo {
				e.count("files placed in a repository")
			}
			if inRepo && l.prop == "C07" || inPool && l.prop != "C07" {
				s.addTo("placed", mk("placed", "", o.path, src))
			}
		case "remove", "removeall", "rename":
			p := o.path
			if o.op == "rename" {
				p = o.src
			}
			s.remFrom("placed", func(t *Term) bool { return t.args[0] == p })
			if x, ok := l.poolPath(p); ok {
				e.count("files removed")
				gone, tx := false, false
				for k, v := range s.facts.boolv {
					if !v && k.isApp("dbhas") && isBucket(k.args[0], "pool") && stripStr(k.args[1]) == x {
						gone = true
					}
				}
				tx = s.is("tx") || s.is("aborted")
				if !gone || tx {
					l.v(e, s, ev, "C08", "file-before-record", "pool file", "the pooled file of "+short(x)+" is removed although its record has not been deleted (and committed) before")
				}
				if !gone {
					l.v(e, s, ev, "C06", "file-of-kept-record", "pool file", "the pooled file of "+short(x)+" is removed although its record was not deleted with its last reference")
				}
			} else if x, ok := l.repoPath(p, nil); ok {
				e.count("files removed")
				if l.on("C08") && !l.delisted(e, s, x) {
					l.v(e, s, ev, "C08", "file-of-listed", "repository file", "the file of "+short(x)+" is removed from the repository while the package record may still list it")
				}
			}
		}
	}
}

// poolFilesOf: the items whose pool files a list holds.
func poolFilesOf(l *ledger, list *Term) (out []*Term) {
	if list == nil || list.op != "set" && list.op != "list" {
		return nil
	}
	for _, w := range list.args {
		if w.op == "when" {
			w = w.args[0]
		}
		if x, ok := l.poolPath(w); ok {
			out = append(out, x)
		}
	}
	return
}

// unloop forgets which iteration a term belongs to.
func unloop(t *Term) *Term {
	return t.subst(func(t *Term) *Term {
		if t.op == "loop" || t.op == "prev" || t.op == "each" {
			return mk("each", t.aux)
		}
		return nil
	}, map[*Term]*Term{})
}

func contentOf2(t *Term) *Term {
	if t == nil {
		return nil
	}
	return contentOf(t)
}

func (l *ledger) back(e *Engine, s *State, ev *Event) {
	sym, over := ev.args[0], ev.args[1]
	l.settled(e, s, ev, "loop", sym)
	if l.on("C06", "C21") && itemList(over) {
		if s.remFrom("loose", func(t *Term) bool { return t.contains(sym) }) {
			s.setB("rel:"+ev.name, true)
		} else {
			gone := false
			for k, v := range s.facts.boolv {
				if !v && k.isApp("dbhas") && isBucket(k.args[0], "pool") && k.args[1].contains(sym) {
					gone = true
				}
			}
			if gone {
				s.setB("gone:"+ev.name, true)
			} else {
				s.setB("unc:"+ev.name, true)
			}
		}
		sg := l.signature(s, over, sym)
		if v, _ := sg.args[1].intVal(); v != mAll || sg.args[2] != sg.args[3] || sg.args[2] != tInt(mAll) {
			var sigs []*Term
			site := tStr(ev.name)
			s.remFrom("cls", func(c *Term) bool {
				if c.args[0] == site && c.args[1] == over {
					sigs = c.args[2:]
					return true
				}
				return false
			})
			m := mkSet(append(append([]*Term{}, sigs...), sg)...)
			s.addTo("cls", mk("cls", "", append([]*Term{site, over}, m.args...)...))
		}
	}
	if l.on("C10") {
		l.searchStep(e, s, ev, sym, over)
	}
	s.remFrom("placed", func(t *Term) bool { return t.contains(sym) })
}

func (l *ledger) done(e *Engine, s *State, ev *Event) {
	if l.on("C06") && ev.kind == "loop.done" && !s.is("unrm:"+ev.name) {
		for _, x := range poolFilesOf(l, ev.args[1]) {
			x := unloop(x)
			s.remFrom("orphan", func(t *Term) bool { return t == x })
		}
	}
	s.set("unrm:"+ev.name, nil)
	if !l.on("C06", "C21") {
		return
	}
	if over := ev.args[1]; itemList(over) && !s.is("unc:"+ev.name) && ev.kind == "loop.done" {
		if s.is("rel:" + ev.name) {
			s.addTo("cov", over)
		} else if s.is("gone:" + ev.name) {
			s.addTo("covg", over) // nothing left to release in it
		}
	}
	s.set("unc:"+ev.name, nil)
	s.set("rel:"+ev.name, nil)
	s.set("gone:"+ev.name, nil)
}

// ---- maximum search ----

// searchPair: a loop-carried ID and the release compared with it.
type searchPair struct {
	id, rel string
	bad     string
	updates int
	filters map[*Term]bool
}

// searchStep examines one iteration of a loop over builds.
func (l *ledger) searchStep(e *Engine, s *State, ev *Event, sym, over *Term) {
	if !itemList(over) {
		return
	}
	isEl := func(t *Term) bool {
		return (t.op == "elem" || t.op == "index") && t.args[1].contains(sym) && itemList(t.args[0])
	}
	isRel := func(t, id *Term) bool { return t.isApp("eopkg.GetRelease") && metaIs(t.args[0], id) }
	// the element of this iteration, however it is used
	var el *Term
	note := func(t *Term) {
		if x := t.find(isEl); x != nil && el == nil {
			el = x
		}
	}
	for _, v := range ev.vars {
		note(v.new)
	}
	for p := range s.facts.mask {
		note(p[0])
		note(p[1])
	}
	for k := range s.facts.boolv {
		note(k)
	}
	ps := l.search[ev.name]
	if ps == nil {
		ps = map[string]*searchPair{}
		l.search[ev.name] = ps
	}
	// possible pairs: string variables × integer variables that ever held the element / its release
	type chg = varChange
	byKey := map[string]chg{}
	for _, v := range ev.vars {
		if v.cell != nil && v.cell.contains(sym) {
			continue
		}
		byKey[v.key] = v
	}
	if el != nil {
		for _, v := range byKey {
			if v.new != el {
				continue
			}
			for _, w := range byKey {
				if isRel(w.new, el) {
					k := v.key + "/" + w.key
					if ps[k] == nil {
						ps[k] = &searchPair{id: v.key, rel: w.key, filters: map[*Term]bool{}}
					}
				}
			}
		}
	}
	l.steps[ev.name] = append(l.steps[ev.name], &searchRec{el: el, vars: byKey, facts: s.facts.clone(), sym: sym})
}

type searchRec struct {
	el    *Term
	vars  map[string]varChange
	facts *Facts
	sym   *Term
}

// judge decides whether a recorded loop is a maximum search for the pair.
func (l *ledger) judge(site string) string {
	best := "no variable of the loop keeps the highest build so far with its release"
	isRel := func(t, id *Term) bool { return t.isApp("eopkg.GetRelease") && metaIs(t.args[0], id) }
	for _, p := range l.search[site] {
		bad := ""
		for _, r := range l.steps[site] {
			v, okv := r.vars[p.id]
			w, okw := r.vars[p.rel]
			changed := okv && v.old != v.new
			first := okv && (v.old == tStr("") || v.old == tNil)
			if okv && !first && r.facts.maskOf(v.old, tStr("")) == mEQ {
				first = true
			}
			// release of the element against the best so far
			cmp := func() uint8 {
				if !okw || r.el == nil {
					return mAll
				}
				m := uint8(mAll)
				for k, f := range r.facts.mask {
					if isRel(k[0], r.el) && k[1] == w.old {
						m &= f
					}
					if isRel(k[1], r.el) && k[0] == w.old {
						m &= flip(f)
					}
				}
				for k := range r.facts.rng {
					if c, ok := w.old.intVal(); ok && isRel(k, r.el) {
						m &= r.facts.rngMask(k, c)
					}
				}
				return m
			}
			filtered := func() bool {
				if r.el == nil {
					return false
				}
				for k, f := range r.facts.mask {
					if f == mEQ && (k[0] == r.el || k[1] == r.el) {
						o := k[0]
						if o == r.el {
							o = k[1]
						}
						p.filters[o] = true
						return true
					}
				}
				return false
			}
			switch {
			case changed && v.new == r.el:
				if !okw || !isRel(w.new, r.el) {
					bad = "the release of the highest build so far is not kept up to date"
				} else if !first && cmp()&mLT != 0 {
					bad = "a build with a lower release may replace the highest one"
				}
			case changed:
				bad = "the highest build so far is overwritten"
			case okw && w.old != w.new:
				bad = "the highest release so far changes without the build"
			case filtered():
			case first:
				bad = "the first remaining build may be passed over"
			default:
				if cmp()&mGT != 0 {
					bad = "a build with a higher release may be passed over"
				}
			}
			if bad != "" {
				break
			}
		}
		if bad == "" {
			return ""
		}
		best = bad
	}
	return best
}

// wantTop: pub must be the outcome of a maximum search over the builds that remain.
func (l *ledger) wantTop(e *Engine, s *State, ev *Event, pub, oav *Term, d listDiff) {
	var xs []*Term
	for _, w := range d.filter {
		for _, c := range realConds(w) {
			for i := 0; i < 2; i++ {
				if c.args[i] == w.args[0] && len(c.args) > 1 {
					xs = append(xs, c.args[1-i])
				}
			}
		}
	}
	// the published build was the highest one before; it still is if it remains
	if opub := e.fldOf(ev.prev, "Published"); pub == opub {
		stays := len(d.filter) > 0
		for _, w := range d.filter {
			for _, c := range realConds(w) {
				if condFalse(s, c, w.args[0], opub) {
					stays = false
				}
				other := c.args[0]
				if other == w.args[0] && len(c.args) > 1 {
					other = c.args[1]
				}
				if s.facts.maskOf(other, opub)&mEQ != 0 {
					stays = false
				}
			}
		}
		if stays {
			return
		}
	}
	site := ""
	if (pub.op == "elem" || pub.op == "index") && itemList(pub.args[0]) {
		if p := pub.args[1].find(func(t *Term) bool { return t.op == "prev" }); p != nil {
			site = p.aux
		}
	}
	msg := ""
	switch {
	case site == "":
		msg = "it is not the outcome of a search over the remaining builds"
	case s.is("brk:" + site):
		msg = "the search for it can end early"
	default:
		l.tops = append(l.tops, &topWant{site: site, xs: xs, pub: short(pub), ev: ev, pos: e.P.pos(ev.in.Pos()), fn: shortFn(ev.fn)})
		return
	}
	l.v(e, s, ev, "C10", "not-highest", "Published", "after a removal the published build is "+short(pub)+": "+msg)
}

type topWant struct {
	site    string
	xs      []*Term
	pub     string
	ev      *Event
	pos, fn string
}

// finish judges the searches once every iteration has been seen.
func (l *ledger) finish() {
	for _, t := range l.tops {
		msg := l.judge(t.site)
		if msg == "" {
			for _, p := range l.search[t.site] {
				for y := range p.filters {
					ok := false
					for _, x := range t.xs {
						ok = ok || x == y
					}
					if !ok {
						msg = "the search leaves out " + short(y)
					}
				}
			}
		}
		l.c.count("maximum searches judged", 1)
		if msg != "" {
			l.c.violate("not-highest", t.fn, "Published", t.pos, "after a removal the published build is "+t.pub+", but "+msg)
		}
	}
}
