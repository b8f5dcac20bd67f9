package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which builds an operation selects (C14–C19).

// prim classifies the functions that list or unlist one item in a repository:
// they change the package lists of a record, do not iterate over records and
// take exactly one string, the item.
func (P *Program) prim(f *ssa.Function) (kind string, id int) {
	if f == nil || f.Pkg != P.pkgs["core"] || f.Parent() != nil || f.Signature.Recv() == nil {
		return "", 0
	}
	id = -1
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if id >= 0 {
				return "", 0
			}
			id = i
		}
	}
	if id < 0 {
		return "", 0
	}
	ef := P.effectsOf(f)
	if ef.invokes["ForEach"] || !(ef.stores["RepoEntry.Available"] || ef.stores["RepoEntry.Deltas"]) {
		return "", 0
	}
	if rt := f.Params[0].Type(); !types.Identical(rt, types.NewPointer(P.named["core.Repository"])) {
		return "", 0
	}
	switch {
	case ef.invokes["DeleteObject"] && ef.stores["RepoEntry.Available"]:
		return "remove", id
	case ef.stores["RepoEntry.Available"]:
		return "add", id
	}
	return "addDelta", id
}

// primExt makes those functions opaque steps that can succeed or fail.
func primExt(P *Program) func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
	return func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		f := cs.common.StaticCallee()
		k, i := P.prim(f)
		if k == "" || f.Signature.Results().Len() != 1 {
			return nil, false
		}
		s2 := s.clone()
		er := mk("err", cs.site, cs.active...)
		args := []*Term{cs.args[0], cs.args[i]}
		e.emit(s, &Event{kind: "prim", name: k, args: args, res: []*Term{tNil}, ok: 1, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx})
		e.emit(s2, &Event{kind: "prim", name: k, args: args, res: []*Term{er}, ok: 2, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx})
		return []*callRes{{s, []*Term{tNil}}, {s2, []*Term{er}}}, true
	}
}

func init() {
	for _, p := range []struct{ id, entry, rule string }{
		{"C14", "RemoveSource", "selection analysis: every build passed to a removal step satisfies the request on the path that selected it (source name equal; release not positive or equal), every available build that was not selected is refuted by the facts of its iteration, all selected ones are processed, success needs at least one removal"},
		{"C15", "CopySource", "selection analysis: as C14 for the builds referenced in the target repository, read from the source repository's records"},
		{"C16", "PullRepo", "selection analysis over the source's records: a published build is referenced exactly if the target has no record of the name or the release order is strictly higher; iterations that may be lower do not complete; references only after the whole comparison and after the assets were copied; the names returned are collected under the same conditions"},
		{"C17", "CloneRepo", "selection analysis over the source's records: on the full path every available build and every delta is referenced, on the other exactly the published builds; the source is looked up before the target is created, which must not exist; assets are copied first"},
		{"C18", "TrimPackages", "selection analysis: a build is removed only from a position at or beyond the limit in its package's list sorted by descending release (comparator checked) and when it is not the published one; every such position is visited; a limit below one allows no change and no success"},
		{"C20", "DeleteRepo", "selection analysis over the deleted repository's records: every available build and delta of every record has its pool record decremented or deleted, every record and the repository's own record are deleted, all inside one transaction; directories, and only this repository's, are removed after its commit; existence is established first"},
		{"C19", "TrimObsolete", "selection analysis: every removed build's name, or name without -dbginfo, was found obsolete in the distribution file loaded for this repository, every build kept was found not to be; success and changes only after that file was loaded"},
	} {
		p := p
		register(p.id, p.rule, func(c *Ctx) { checkSelect(c, p.entry) })
	}
}

type selector struct {
	c        *Ctx
	prop     string
	src, tgt *Term // repository names
	name     *Term // source name
	release  *Term
	full     *Term
	keep     *Term
	ix       map[*Term]map[*Term]bool // list -> index expressions used
	phase    map[string]bool
}

func checkSelect(c *Ctx, entry string) {
	fn := c.P.fn("core.Manager." + entry)
	if fn == nil {
		c.violate("anchor", "", "core.Manager."+entry, "-", "operation core.Manager."+entry+" not found")
		return
	}
	q := &selector{c: c, prop: c.id, ix: map[*Term]map[*Term]bool{}, phase: map[string]bool{}}
	var strs, ints, bools []*Term
	for i, p := range fn.Params {
		if i == 0 {
			continue
		}
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		t := paramOf(fn, i)
		switch {
		case b.Info()&types.IsString != 0:
			strs = append(strs, t)
		case b.Info()&types.IsBoolean != 0:
			bools = append(bools, t)
		case b.Info()&types.IsInteger != 0:
			ints = append(ints, t)
		}
	}
	want := map[string][3]int{"C14": {2, 1, 0}, "C15": {3, 1, 1}, "C16": {2, 0, 0}, "C17": {2, 0, 1}, "C18": {1, 1, 0}, "C19": {1, 0, 0}, "C20": {1, 0, 0}}[c.id]
	if want != [3]int{len(strs), len(ints), len(bools)} {
		c.violate("anchor", shortFn(fn), "parameters", c.P.pos(fn.Pos()), "the operation's parameters changed: the property cannot be decided")
		return
	}
	q.src, q.tgt = strs[0], strs[0]
	switch c.id {
	case "C14":
		q.name, q.release = strs[1], ints[0]
	case "C15":
		q.tgt, q.name, q.release = strs[1], strs[2], ints[0]
	case "C16":
		q.tgt = strs[1]
	case "C17":
		q.tgt, q.full = strs[1], bools[0]
	case "C18":
		q.keep = ints[0]
		checkReleaseOrder(c)
	}
	if c.id == "C19" {
		checkObsolete(c)
	}
	o := runOpt{noIndex: true, ext: primExt(c.P)}
	if c.id == "C20" {
		o.ext = nil
	}
	c.run("core.Manager."+entry, q, o)
	c.require("items handed to a repository step", 1)
	c.require("selection decisions", 1)
	c.require("successful returns", 1)
}

// item recognises a build or delta of a record: x, its metadata or its ID.
func (q *selector) item(x *Term) (it, rec *Term, field string, ok bool) {
	for {
		x = stripStr(x)
		switch {
		case x.isApp("eopkg.GetID"):
			x = x.args[0]
			continue
		case x.op == "ptr" || x.op == "addrof":
			x = x.args[0]
			continue
		case x.isFld("Meta"):
			id, k := poolRecord(x.args[0])
			if !k {
				return nil, nil, "", false
			}
			x = id
			continue
		}
		break
	}
	l := x
	if x.op == "elem" || x.op == "index" {
		l = x.args[0]
		if !l.isFld("Available") && !l.isFld("Deltas") {
			return nil, nil, "", false
		}
	} else if !x.isFld("Published") {
		return nil, nil, "", false
	}
	if _, _, k := pkgRecord(l.args[0]); !k {
		return nil, nil, "", false
	}
	return x, l.args[0], l.aux, true
}

func recordList(l *Term) bool {
	if !l.isFld("Available") && !l.isFld("Deltas") {
		return false
	}
	_, _, ok := pkgRecord(l.args[0])
	return ok
}

// itemsOf lists the items of a list that is iterated over.
func (q *selector) itemsOf(over *Term) (els []*Term, ok bool) {
	if over.isApp("slice") {
		return q.itemsOf(over.args[0])
	}
	if recordList(over) {
		return nil, true
	}
	if over.op != "set" && over.op != "list" {
		return nil, false
	}
	for _, w := range over.args {
		if w.op == "when" {
			w = w.args[0]
		}
		if w.op == "spread" {
			if !recordList(w.args[0]) {
				return nil, false
			}
			els = append(els, w)
			continue
		}
		if _, _, _, k := q.item(w); !k {
			return nil, false
		}
		els = append(els, w)
	}
	return els, len(els) > 0
}

const (
	yes = 1
	no  = 2
)

// matches: 1 the request selects the item, 2 it does not, 3 not known.
func (q *selector) matches(e *Engine, s *State, x *Term) int {
	it, rec, field, ok := q.item(x)
	if !ok {
		return yes | no
	}
	repo, key, _ := pkgRecord(rec)
	for _, t := range s.all("!match") {
		if t.args[0] == it {
			m, _ := strconv.Atoi(t.aux)
			return m
		}
	}
	meta := fld(mk("loaded", "", poolBucketOf(rec.args[0]), it), "Meta")
	f := s.facts
	if repo != q.src {
		return no
	}
	switch q.prop {
	case "C14", "C15":
		if field != "Available" {
			return no
		}
		nm := f.maskOf(fld(fld(meta, "Source"), "Name"), q.name)
		rm := uint8(mAll)
		for k, m := range f.mask {
			if k[0] == q.release && k[1].isApp("eopkg.GetRelease") && metaIs(k[1].args[0], it) || k[1] == q.release && k[0].isApp("eopkg.GetRelease") && metaIs(k[0].args[0], it) {
				rm &= m
			}
		}
		r := f.rangeOf(q.release)
		switch {
		case nm&mEQ == 0:
			return no
		case r.lo >= 1 && rm&mEQ == 0:
			return no
		case nm == mEQ && (r.hi <= 0 || rm == mEQ):
			return yes
		}
	case "C16":
		if field != "Published" {
			return no
		}
		m := uint8(mAll)
		known := false
		for _, k := range []*Term{key, fld(rec, "Name")} {
			t := mk("loaded", "", pkgBucketOf(rec.args[0], q.tgt), k)
			if v, ok := f.boolv[mk("app", "dbhas", t.args[0], k)]; ok {
				known = known || v
				if !v {
					return yes
				}
			}
			m &= relMask(s, it, fld(t, "Published"))
		}
		if m == mGT {
			return yes
		}
		if m&mGT == 0 && known {
			if m&mLT != 0 {
				return 0 // must be refused
			}
			return no
		}
	case "C20":
		if field != "Published" {
			return yes
		}
		return no
	case "C17":
		switch f.maskBool(q.full) {
		case 1:
			if field != "Published" {
				return yes
			}
			return no
		case 2:
			if field == "Published" {
				return yes
			}
			return no
		}
	case "C18":
		if field != "Available" {
			return no
		}
		pub := fld(rec, "Published")
		pm := f.maskOf(it, pub)
		for k, m := range f.mask {
			for i := 0; i < 2; i++ {
				if k[1-i] == pub {
					if y, _, _, ok := q.item(k[i]); ok && (y == it || y.mentionsEach() && unloop(y) == unloop(it)) {
						pm &= m
					}
				}
			}
		}
		pos := uint8(mAll) // position against the limit
		if p := s.get("!pos"); p != nil {
			pos = q.position(s, p.args[0], p.args[1])
		}
		switch {
		case pm == mEQ || pos&(mGT|mEQ) == 0:
			return no
		case pos&mLT == 0 && pm&mEQ == 0:
			return yes
		}
	case "C19":
		if field != "Available" {
			return no
		}
		nm := fld(meta, "Name")
		suffix := f.maskBool(mk("app", "strings.HasSuffix", nm, tStr("-dbginfo")))
		own, base := 3, 3 // the name itself, the name without -dbginfo
		for k, v := range f.boolv {
			if !k.isApp("eopkg.IsObsolete") || !q.dist(e, k.args[0]) {
				continue
			}
			b := 2
			if v {
				b = 1
			}
			switch a := k.args[1]; {
			case a == nm:
				own &= b
			case dbgBase(a, nm) && suffix == 1, a.isApp("strings.TrimSuffix") && a.args[0] == nm && isName(a.args[1], "-dbginfo"):
				base &= b
			}
		}
		switch {
		case own == 1 || base == 1:
			return yes
		case own == 2 && (base == 2 || suffix == 2):
			return no
		}
	}
	return yes | no
}

// dbgBase: a is name without its -dbginfo suffix (which it is known to have).
func dbgBase(a, name *Term) bool {
	if !a.isApp("slice") || a.args[0] != name || a.args[1] != tInt(0) {
		return false
	}
	b, k := linear(a.args[2])
	return b == mk("len", "", name) && k == -int64(len("-dbginfo"))
}

// dist: the distribution file loaded from the repository's assets.
func (q *selector) dist(e *Engine, d *Term) bool {
	p := d.find(func(t *Term) bool {
		return t.isApp("path") && len(t.args) == 3 && t.args[0].isFld(e.P.rootFieldOf("assets")) && t.args[1] == q.src && isName(t.args[2], "distribution.xml")
	})
	return p != nil
}

// rootFieldOf names the field holding a root directory.
func (P *Program) rootFieldOf(kind string) string {
	for f, k := range P.rootFields() {
		if k == kind {
			return f
		}
	}
	return "?"
}

func pkgBucketOf(b, repo *Term) *Term {
	return mk("bucket", "", tStr("package"), mk("bucket", "", repo, mk("bucket", "", tStr("repo"), rootDb(b))))
}

func (q *selector) hand(s *State, x *Term, how string, e *Engine) {
	m := q.matches(e, s, x)
	s.addTo("hand", mk("hand", how, x, tInt(int64(m))))
	if how != "prim" && m != no {
		s.addTo("pend", unloop(x))
	}
}

func (q *selector) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "append":
		if len(ev.args) < 2 {
			return
		}
		added := ev.args[1].args
		if recordList(ev.args[1]) {
			added = []*Term{mk("spread", "", ev.args[1])}
		}
		for _, a := range added {
			if a.op == "spread" {
				if recordList(a.args[0]) {
					rec := a.args[0].args[0]
					x := mk("elem", "", a.args[0], mk("each", "spread"))
					m := q.matches(e, s, x)
					q.mark(e, s, ev, mk("spread", "", unloop(a.args[0])), m)
					if m != no {
						s.addTo("pend", mk("spread", "", unloop(a.args[0])))
					}
					_ = rec
					s.addTo("cov", a.args[0])
				}
				continue
			}
			if _, _, _, ok := q.item(a); ok {
				q.hand(s, a, "list", e)
			} else if q.isKey(a) {
				s.addTo("names", a)
				if q.prop == "C20" {
					s.addTo("pend", unloop(a))
				}
			}
		}
	case "index":
		if _, ok := q.itemsOf(ev.args[0]); ok {
			k := ev.args[0]
			if q.ix[k] == nil {
				q.ix[k] = map[*Term]bool{}
			}
			q.ix[k][ev.args[1]] = true
			if q.prop == "C18" {
				s.set("!pos", mk("pos", "", k, ev.args[1]))
			}
		}
	case "prim":
		if ev.ok != 1 {
			s.setB("failed", true)
			return
		}
		q.step(e, s, ev)
	case "db":
		if q.prop == "C20" {
			q.dropped(e, s, ev)
			return
		}
		if q.prop == "C17" && (ev.name == "get" || ev.name == "has") && ev.ok == 2 && isBucket(ev.args[0], "repo") && ev.args[1] == q.tgt {
			s.setB("absent", true)
		}
		if ev.ok == 1 && (ev.name == "put" || ev.name == "delete") {
			if q.prop == "C17" && ev.name == "put" && isBucket(ev.args[0], "repo") {
				q.created(e, s, ev)
				return
			}
			e.violate(s, ev, "other-write", ev.name, "a record is changed outside the steps that list or unlist one item: "+short(ev.args[0]))
		}
	case "assume":
		if q.prop == "C20" {
			if h := ev.args[0]; h.isApp("dbhas") && ev.args[1] == tFalse && isBucket(h.args[0], "pool") {
				if _, _, _, ok := q.item(h.args[1]); ok {
					s.addTo("hand", mk("hand", "prim", h.args[1], tInt(yes)))
				}
			}
			return
		}
		// what a condition decided about an item outlives the joining of paths
		for it := range subterms(ev.args[0], func(t *Term) bool {
			x, rec, _, ok := q.item(t)
			return ok && x == t && !t.mentionsEach() && rec.args[0] == pkgBucketOf(rec.args[0], q.src)
		}) {
			if m := q.matches(e, s, it); m == yes || m == no {
				s.addTo("!match", mk("match", strconv.Itoa(m), it))
			}
		}
	case "loop.iter":
		s.set("!pos", nil)
	case "loop.back":
		q.back(e, s, ev)
	case "loop.break":
		if _, ok := q.itemsOf(ev.args[1]); ok || q.records(ev.args[1]) {
			s.setB("unc:"+ev.name, true)
		}
	case "loop.done":
		q.done(e, s, ev)
	case "call":
		q.call(e, s, ev)
	case "return":
		if isEntryRet(ev) && okRet(ev) {
			q.success(e, s, ev)
		}
	}
}

func (q *selector) isKey(a *Term) bool {
	if a.isFld("Name") {
		_, _, ok := pkgRecord(a.args[0])
		return ok
	}
	if a.op == "iterk" {
		_, ok := pkgBucket(a.args[0])
		return ok
	}
	return false
}

func (q *selector) records(over *Term) bool {
	id, ok := pkgBucket(over)
	return ok && id == q.src
}

// position of the element of a sorted list against the limit.
func (q *selector) position(s *State, list, idx *Term) uint8 {
	base := list
	m := s.facts.maskOf(idx, q.keep)
	if list.isApp("slice") {
		base = list.args[0]
		m = mAll
		if lo := list.args[1]; lo == q.keep || s.facts.maskOf(lo, q.keep)&mLT == 0 {
			m = mGT | mEQ
		}
	}
	if d := s.heap[mk("sorted", "", skel(base))]; !descending(d) {
		return mAll
	}
	return m
}

func descending(d *Term) bool { return sortOrder(d) < 0 }

// sortOrder: how a list was sorted: 1 by ascending release, -1 by descending
// release, 0 otherwise.
func sortOrder(d *Term) int {
	if d == nil {
		return 0
	}
	if v, ok := d.strVal(); ok {
		switch {
		case !strings.HasSuffix(v, "libeopkg.PackageSet"):
		case strings.HasPrefix(v, "sort.Sort.Reverse:") || strings.HasPrefix(v, "sort.Stable.Reverse:"):
			return -1
		case strings.HasPrefix(v, "sort.Sort:") || strings.HasPrefix(v, "sort.Stable:"):
			return 1
		}
		return 0
	}
	if d.op != "cmpfn" || len(d.args) != 1 {
		return 0
	}
	r := d.args[0]
	if len(r.args) != 2 {
		return 0
	}
	side := func(t *Term) int {
		if !t.isApp("eopkg.GetRelease") || t.args[0].op != "elem" {
			return 0
		}
		switch t.args[0].args[1] {
		case mk("param", "i"):
			return 1
		case mk("param", "j"):
			return -1
		}
		return 0
	}
	x, y := side(r.args[0]), side(r.args[1])
	if x*y != -1 {
		return 0
	}
	switch {
	case r.op == "cmp" && r.aux == "1", r.op == "bin" && r.aux == "-", r.isApp("cmp.Compare"):
		return x
	case r.op == "cmp" && r.aux == "4":
		return -x
	}
	return 0
}

// mark records the outcome of a selection decision.
func (q *selector) mark(e *Engine, s *State, ev *Event, x *Term, m int) {
	e.count("selection decisions")
	if m == yes {
		s.addTo("sel", x)
	} else {
		s.addTo("unsel", x)
	}
}

func (q *selector) step(e *Engine, s *State, ev *Event) {
	e.count("items handed to a repository step")
	s.setB("did", true)
	x := ev.args[1]
	q.hand(s, x, "prim", e)
	wantKind := map[string]string{"C14": "remove", "C18": "remove", "C19": "remove", "C15": "add", "C16": "add"}[q.prop]
	it, rec, field, ok := q.item(x)
	if q.prop == "C17" {
		wantKind = "add"
		if field == "Deltas" {
			wantKind = "addDelta"
		}
	}
	if ev.name != wantKind {
		e.violate(s, ev, "wrong-step", ev.name, "the operation applies a step of kind "+ev.name+" to "+short(x)+", expected "+wantKind)
		return
	}
	if id := e.field(s, ev.args[0], "ID"); id != q.tgt {
		e.violate(s, ev, "wrong-repository", ev.name, "the change is made in repository "+short(id)+" instead of "+short(q.tgt))
	}
	if !ok {
		e.violate(s, ev, "foreign-item", ev.name, short(x)+" is not known to be an item of the repository's records")
		return
	}
	if id, _, _ := pkgRecord(rec); id != q.src {
		e.violate(s, ev, "foreign-item", ev.name, short(x)+" is an item of repository "+short(id)+" instead of "+short(q.src))
	}
	sp := unloopEl(it)
	n := unloop(x)
	m := q.matches(e, s, x)
	selected := s.has("sel", n) && !s.has("unsel", n)
	if field != "Published" && (s.has("sel", sp) && !s.has("unsel", sp)) {
		selected = true
	}
	if m != yes && !selected {
		e.violate(s, ev, "unselected", ev.name, "the request is not known to select "+short(x))
	}
	if q.prop == "C16" && !s.is("compared") {
		e.violate(s, ev, "before-comparison", ev.name, "a build is referenced before all packages have been compared")
	}
	if q.prop == "C16" || q.prop == "C17" {
		q.needAssets(e, s, ev)
	}
	if q.prop == "C18" && s.facts.rangeOf(q.keep).lo < 1 {
		e.violate(s, ev, "limit", ev.name, "a build is removed although the limit may be below one")
	}
	if q.prop == "C19" && !s.is("dist") {
		e.violate(s, ev, "no-distribution", ev.name, "a build is removed without a distribution file having been loaded")
	}
}

// unloopEl: the list an element comes from, as a whole.
func unloopEl(it *Term) *Term {
	if it.op == "elem" || it.op == "index" {
		return mk("spread", "", unloop(it.args[0]))
	}
	return it
}

var assetFiles = []string{"distribution.xml", "components.xml", "groups.xml"}

func (q *selector) asset(e *Engine, p *Term) (repo *Term, file string, ok bool) {
	if p == nil || !p.isApp("path") || len(p.args) != 3 || !p.args[0].isFld(e.P.rootFieldOf("assets")) {
		return nil, "", false
	}
	file, ok = p.args[2].strVal()
	return p.args[1], file, ok
}

func (q *selector) call(e *Engine, s *State, ev *Event) {
	switch q.prop {
	case "C20":
		q.directory(e, s, ev)
	case "C19":
		if strings.HasSuffix(ev.name, "libeopkg.NewDistribution") && ev.ok == 1 {
			if r, f, ok := q.asset(e, ev.args[0]); ok && r == q.src && f == "distribution.xml" {
				s.setB("dist", true)
			}
		}
	case "C16", "C17":
		switch ev.name {
		case "os.Stat", "os.Lstat", "os.Open":
			if r, f, ok := q.asset(e, ev.args[0]); ok && ev.ok == 2 && r == q.src && !s.is("seen:"+f) {
				s.setB("asset:"+f, true)
			} else if ok && ev.ok == 1 && r == q.src {
				s.setB("seen:"+f, true)
				s.setB("asset:"+f, false)
			}
		case "os.SameFile":
			// already the same file: nothing to copy
			if len(ev.args) == 2 {
				a, fa, ok1 := q.asset(e, pathIn(ev.args[0]))
				b, fb, ok2 := q.asset(e, pathIn(ev.args[1]))
				if ok1 && ok2 && fa == fb && (a == q.src && b == q.tgt || a == q.tgt && b == q.src) {
					s.set("same:"+fa, ev.res[0])
				}
			}
		case "io.Copy":
			if ev.ok == 1 && len(ev.args) == 2 {
				a, fa, ok1 := q.asset(e, pathIn(ev.args[1]))
				b, fb, ok2 := q.asset(e, pathIn(ev.args[0]))
				if ok1 && ok2 && fa == fb && a == q.src && b == q.tgt {
					s.setB("asset:"+fa, true)
				}
			}
		}
	}
}

var repoDirs = []string{"repo", "assets", "deltaBuilds", "deltaStaging"}

// directory: what deleting a repository does to directories.
func (q *selector) directory(e *Engine, s *State, ev *Event) {
	if len(ev.args) == 0 {
		return
	}
	p := ev.args[0]
	own := ""
	if p.isApp("path") && len(p.args) == 2 && p.args[1] == q.src {
		for f, k := range e.P.rootFields() {
			if p.args[0].isFld(f) && k != "pool" {
				own = k
			}
		}
	}
	switch ev.name {
	case "os.Stat", "os.Lstat":
		if own != "" {
			s.setB("gone:"+own, ev.ok == 2)
		}
	case "os.RemoveAll", "os.Rename":
		e.count("directory removals")
		if own == "" || ev.name == "os.Rename" {
			e.violate(s, ev, "foreign-directory", ev.name, short(p)+" is removed, which is not one of the repository's directories")
			return
		}
		if !s.is("committed") {
			e.violate(s, ev, "early-removal", own, "the directory "+short(p)+" is removed before the records are gone")
		}
		s.setB("gone:"+own, true)
	case "os.Remove":
		if !s.is("committed") {
			e.violate(s, ev, "early-removal", "file", "the file "+short(p)+" is removed before the records are gone")
		}
	}
}

func pathIn(t *Term) *Term {
	return t.find(func(t *Term) bool { return t.isApp("path") })
}

func (q *selector) needAssets(e *Engine, s *State, ev *Event) {
	for _, f := range assetFiles {
		if s.is("asset:" + f) {
			continue
		}
		if r := s.get("same:" + f); r != nil && s.facts.maskBool(r) == 1 {
			continue
		}
		e.violate(s, ev, "assets", f, "the source's "+f+" has not been copied before")
	}
}

func (q *selector) created(e *Engine, s *State, ev *Event) {
	e.count("repositories created")
	if ev.args[1] != q.tgt {
		e.violate(s, ev, "wrong-repository", "create", "repository "+short(ev.args[1])+" is created instead of "+short(q.tgt))
	}
	has := func(id *Term) int {
		m := 3
		for k, v := range s.facts.boolv {
			b := 2
			if v {
				b = 1
			}
			if k.isApp("dbhas") && isBucket(k.args[0], "repo") && k.args[1] == id {
				m &= b
			}
			if k.isApp("maphas") && k.args[1] == id && v {
				m &= 1
			}
		}
		return m
	}
	if has(q.src) != 1 {
		e.violate(s, ev, "source-missing", "create", "the new repository is created before the source is known to exist")
	}
	if ev.had != 2 && has(q.tgt) != 2 && !s.is("absent") {
		e.violate(s, ev, "exists", "create", "the target may exist already")
	}
	s.setB("created", true)
}

func (q *selector) back(e *Engine, s *State, ev *Event) {
	sym, over := ev.args[0], ev.args[1]
	if q.records(over) {
		q.recordBack(e, s, ev, sym, over)
		return
	}
	if q.keys(over) {
		if !s.remFrom("delk", func(t *Term) bool { return true }) {
			s.setB("unc:"+ev.name, true)
		}
		return
	}
	els, ok := q.itemsOf(over)
	if !ok {
		return
	}
	// what was done with the element of this iteration
	var hands []*Term
	s.remFrom("hand", func(h *Term) bool {
		it, _, _, _ := q.item(h.args[0])
		if it.contains(sym) && (it.op == "elem" || it.op == "index") && it.args[0] == over {
			hands = append(hands, h)
			return true
		}
		for _, el := range els {
			if w, _, _, _ := q.item(el); w != nil && unloop(w) == unloop(it) || el.op == "spread" && unloop(el.args[0]) == unloop(it.args[0]) {
				hands = append(hands, h)
				return true
			}
		}
		return false
	})
	if len(hands) == 0 {
		m := yes | no
		if recordList(over) || over.isApp("slice") && recordList(over.args[0]) {
			for el := range s.facts.terms(func(t *Term) bool {
				return (t.op == "elem" || t.op == "index") && t.args[0] == over && t.contains(sym)
			}) {
				if k := q.matches(e, s, el); k != yes|no {
					m = k
				}
			}
		} else {
			m = 0
			for _, el := range els {
				m |= q.matches(e, s, el)
			}
		}
		if m != no {
			s.setB("unc:"+ev.name, true)
			s.note("skipped")
		}
		return
	}
	for _, h := range hands {
		if h.aux == "prim" {
			continue // judged there
		}
		m, _ := h.args[1].intVal()
		q.mark(e, s, ev, unloop(h.args[0]), int(m))
	}
}

// fullRange: the loop visits every element that matters.
func (q *selector) fullRange(e *Engine, s *State, ev *Event, over *Term) bool {
	if n, ok := e.loopStep[ev.name]; ok && n != 1 {
		return false
	}
	init := s.heap[mk("loopinit", ev.name)]
	ixs := q.ix[over]
	if init == nil || len(ixs) == 0 {
		return true // not an indexed loop
	}
	ok := false
	for ix := range ixs {
		b, k := linear(ix)
		if b.op != "loop" || b.aux != strings.TrimPrefix(ev.name, "") && !strings.HasSuffix(ev.name, b.aux) {
			continue
		}
		ib, ik := linear(init)
		if ib == tInt(0) || ib == nil || ib.isConst() {
			if ik+k == 0 {
				ok = true
			}
			if v, isInt := init.intVal(); isInt && v+k == 0 {
				ok = true
			}
			continue
		}
		if q.prop == "C18" && ib == q.keep && ik+k == 0 && descending(s.heap[mk("sorted", "", skel(over))]) {
			ok = true
		}
	}
	return ok
}

func (q *selector) done(e *Engine, s *State, ev *Event) {
	over := ev.args[1]
	unc := s.is("unc:" + ev.name)
	s.set("unc:"+ev.name, nil)
	if q.records(over) {
		if !unc {
			s.setB("compared", true)
		}
		return
	}
	els, ok := q.itemsOf(over)
	if q.keys(over) {
		els, ok = over.args, true
	}
	if !ok || unc {
		return
	}
	if !q.fullRange(e, s, ev, over) {
		return
	}
	if over.isApp("slice") {
		if q.prop != "C18" || over.args[1] != q.keep || len(over.args) > 2 && over.args[2].op != "len" {
			return
		}
		over = over.args[0]
	}
	if recordList(over) {
		s.addTo("cov", over)
		return
	}
	for _, el := range els {
		if el.op == "when" {
			el = el.args[0]
		}
		n := unloop(el)
		s.remFrom("pend", func(t *Term) bool { return t == n })
	}
}

// keys: a list of record keys.
func (q *selector) keys(over *Term) bool {
	if q.prop != "C20" || over.op != "set" && over.op != "list" || len(over.args) == 0 {
		return false
	}
	for _, w := range over.args {
		if w.op == "when" {
			w = w.args[0]
		}
		if !q.isKey(w) {
			return false
		}
	}
	return true
}

// dropped follows the deletion of a repository.
func (q *selector) dropped(e *Engine, s *State, ev *Event) {
	if ev.name == "commit" {
		s.setB("committed", true)
		return
	}
	if ev.name == "abort" {
		s.setB("failed", true)
	}
	if ev.name == "get" && ev.ok == 1 && isBucket(ev.args[0], "repo") && ev.args[1] == q.src {
		s.setB("found", true)
	}
	if ev.name != "put" && ev.name != "delete" {
		return
	}
	if ev.ok != 1 {
		s.setB("failed", true)
		return
	}
	if ev.args[3] != tTrue {
		e.violate(s, ev, "transaction", ev.name, "a record is changed outside the transaction: "+short(ev.args[0]))
	}
	if s.is("committed") {
		e.violate(s, ev, "transaction", ev.name, "a record is changed in a second transaction: "+short(ev.args[0]))
	}
	switch {
	case isBucket(ev.args[0], "pool"):
		e.count("items handed to a repository step")
		x := ev.args[1]
		it, rec, field, ok := q.item(x)
		if !ok {
			e.violate(s, ev, "foreign-item", "pool", "the pool record of "+short(x)+" is changed")
			return
		}
		if id, _, _ := pkgRecord(rec); id != q.src || field == "Published" {
			e.violate(s, ev, "foreign-item", "pool", "the pool record of "+short(it)+" is changed")
		}
		if ev.name == "put" {
			b, k := linear(e.fldOf(ev.args[2], "RefCount"))
			if !b.isFld("RefCount") || k != -1 {
				e.violate(s, ev, "not-released", "pool", "the reference count of "+short(it)+" becomes "+short(e.fldOf(ev.args[2], "RefCount")))
			}
		}
		s.addTo("hand", mk("hand", "prim", it, tInt(yes)))
		q.mark(e, s, ev, unloop(it), yes)
	case isBucket(ev.args[0], "repo"):
		if ev.name != "delete" || ev.args[1] != q.src {
			e.violate(s, ev, "foreign-item", "repo", "the repository record "+short(ev.args[1])+" is changed")
		}
		e.count("repository records deleted")
		s.setB("own", true)
		if ev.had == 1 || q.known(s) {
			s.setB("found", true)
		}
	default:
		id, ok := pkgBucket(ev.args[0])
		if !ok || id != q.src || ev.name != "delete" || !q.isKey(ev.args[1]) {
			e.violate(s, ev, "other-write", ev.name, "the record "+short(ev.args[1])+" of "+short(ev.args[0])+" is changed")
			return
		}
		s.addTo("names", ev.args[1])
		s.addTo("delk", ev.args[1])
	}
}

func (q *selector) recordBack(e *Engine, s *State, ev *Event, sym, over *Term) {
	rec := mk("loaded", "", over, mk("iterk", "", over, sym))
	if q.prop == "C18" {
		// lists that are not longer than the limit
		for k, m := range s.facts.mask {
			for i := 0; i < 2; i++ {
				if l := k[i]; k[1-i] == q.keep && l.op == "len" && (i == 0 && m&mGT == 0 || i == 1 && m&mLT == 0) {
					if els, ok := q.itemsOf(l.args[0]); ok {
						for _, el := range els {
							n := unloop(el)
							s.remFrom("pend", func(t *Term) bool { return t == n })
						}
					}
				}
			}
		}
	}
	// the record's single items
	handled := map[string]bool{}
	chosen := false
	s.remFrom("hand", func(h *Term) bool {
		_, r, f, _ := q.item(h.args[0])
		if r == rec && f == "Published" {
			m, _ := h.args[1].intVal()
			if h.aux != "prim" {
				q.mark(e, s, ev, unloop(h.args[0]), int(m))
			}
			handled[f] = true
			if m == yes {
				chosen = true
			}
			return true
		}
		return false
	})
	s.remFrom("cov", func(t *Term) bool {
		if t.args[0] == rec {
			handled[t.aux] = true
			return true
		}
		return false
	})
	named := s.remFrom("names", func(t *Term) bool { return t == fld(rec, "Name") || t == mk("iterk", "", over, sym) })
	miss := func(f string) bool {
		if handled[f] {
			return false
		}
		l := fld(rec, f)
		if f == "Published" {
			return q.matches(e, s, l)&yes != 0
		}
		if s.facts.rangeOf(mk("len", "", l)).hi <= 0 {
			return false
		}
		if q.prop == "C18" && s.facts.maskOf(mk("len", "", l), q.keep)&mGT == 0 {
			return false
		}
		return q.matches(e, s, mk("elem", "", l, mk("each", "spread"))) != no
	}
	fs := []string{"Available"}
	switch q.prop {
	case "C16":
		fs = []string{"Published"}
		m := q.matches(e, s, fld(rec, "Published"))
		if !chosen && (m == 0 || m == yes|no && q.mayBeLower(s, rec)) {
			e.violate(s, ev, "not-refused", "Published", "a package whose published release in the target may be higher is passed over")
		}
		if named != handled["Published"] {
			e.violate(s, ev, "names", "Name", "the names reported are not collected together with the builds referenced")
		}
	case "C17":
		fs = []string{"Available", "Deltas", "Published"}
	case "C20":
		fs = []string{"Available", "Deltas"}
		if !named {
			s.setB("unc:"+ev.name, true)
			s.note("record kept")
		}
	}
	for _, f := range fs {
		if miss(f) {
			s.setB("unc:"+ev.name, true)
			s.note("skipped " + f)
		}
	}
}

func (q *selector) mayBeLower(s *State, rec *Term) bool {
	_, key, _ := pkgRecord(rec)
	m := uint8(mAll)
	for _, k := range []*Term{key, fld(rec, "Name")} {
		t := mk("loaded", "", pkgBucketOf(rec.args[0], q.tgt), k)
		m &= relMask(s, fld(rec, "Published"), fld(t, "Published"))
	}
	return m&mLT != 0
}

func (q *selector) success(e *Engine, s *State, ev *Event) {
	e.count("successful returns")
	if s.is("failed") {
		e.violate(s, ev, "dropped-failure", "return", "success is reported although a step failed")
	}
	if !s.is("compared") {
		e.violate(s, ev, "incomplete", "selection", "success is reported although a build may have been passed over that the request selects")
	}
	for _, p := range s.all("pend") {
		e.violate(s, ev, "incomplete", "processing", "success is reported although "+short(p)+" may not have been processed")
	}
	switch q.prop {
	case "C14", "C15":
		if !s.is("did") {
			e.violate(s, ev, "nothing-matched", "return", "success is reported although nothing may have matched")
		}
	case "C16":
		q.needAssets(e, s, ev)
		q.names(e, s, ev)
	case "C17":
		q.needAssets(e, s, ev)
		if !s.is("created") {
			e.violate(s, ev, "not-created", "return", "success is reported although the repository was not created")
		}
	case "C18":
		if s.facts.rangeOf(q.keep).lo < 1 {
			e.violate(s, ev, "limit", "return", "success is reported although the limit may be below one")
		}
	case "C20":
		if !s.is("own") || !s.is("committed") {
			e.violate(s, ev, "not-deleted", "return", "success is reported although the repository's own record was not deleted")
		}
		if !s.is("found") {
			e.violate(s, ev, "unknown-repository", "return", "success is reported although the repository may not exist")
		}
		for _, d := range repoDirs {
			if !s.is("gone:" + d) {
				e.violate(s, ev, "directory-kept", d, "success is reported without removing the repository's directory below "+d)
			}
		}
	case "C19":
		if !s.is("dist") {
			e.violate(s, ev, "no-distribution", "return", "success is reported without a distribution file having been loaded")
		}
	}
}

func (q *selector) names(e *Engine, s *State, ev *Event) {
	l := ev.args[0]
	if isZeroList(l) {
		if s.is("did") {
			e.violate(s, ev, "names", "return", "no names are reported although builds were referenced")
		}
		return
	}
	if l.op != "list" && l.op != "set" {
		e.violate(s, ev, "names", "return", "the names reported are "+short(l))
		return
	}
	for _, w := range l.args {
		if w.op == "when" {
			w = w.args[0]
		}
		if !q.isKey(w) {
			e.violate(s, ev, "names", "return", "the names reported include "+short(w))
		}
	}
}

// known: the repository is in the cache or has a record.
func (q *selector) known(s *State) bool {
	for k, v := range s.facts.boolv {
		if v && (k.isApp("maphas") && k.args[1] == q.src || k.isApp("dbhas") && isBucket(k.args[0], "repo") && k.args[1] == q.src) {
			return true
		}
	}
	return false
}
