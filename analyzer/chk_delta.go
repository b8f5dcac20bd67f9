package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Deltas (C22–C24).

func init() {
	register("C22", "path-fact analysis: opening a producer and creating a delta succeed only on paths where the facts establish lower release and equal name, distribution release and architecture for the two packages (index metadata and package metadata); the files handed to the producer are those of the pair; the delta's name is a fixed function of the pair in order; delta jobs pass as the new build the highest of the package's available builds, and record the mapping of the very pair they built",
		checkC22)
	register("C24", "typestate over every path of a delta job: a pair is recorded as pointless only on paths where its production reported exactly that, under its own name and mapping; no production where the name is recorded as pointless, is listed already or is in the pool (then referenced); every other production, inclusion or recording error reaches the result; the staged file is removed only after inclusion; skip records are written and read under the name given",
		checkC24)
}

var pairFields = []string{"Name", "DistributionRelease", "Architecture"}

// pairFacts: what is missing for a delta from one package to another.
func pairFacts(s *State, isOld, isNew func(*Term) bool) string {
	f := s.facts
	rel := func(t *Term, is func(*Term) bool) bool {
		return t.isApp("eopkg.GetRelease") && is(stripAddr(t.args[0]))
	}
	ok := false
	for k, m := range f.mask {
		if m == mLT && rel(k[0], isOld) && rel(k[1], isNew) || m == mGT && rel(k[0], isNew) && rel(k[1], isOld) {
			ok = true
		}
	}
	if !ok {
		return "the old release may not be lower than the new one"
	}
	for _, n := range pairFields {
		fl := func(t *Term, is func(*Term) bool) bool { return t.isFld(n) && is(stripAddr(t.args[0])) }
		if !sameFact(s, func(a, b *Term) bool { return fl(a, isOld) && fl(b, isNew) }) {
			return "the " + n + " of the two packages may differ"
		}
	}
	return ""
}

// sameFact: two values satisfying p are known to be equal.
func sameFact(s *State, p func(a, b *Term) bool) bool {
	for k, m := range s.facts.mask {
		if m == mEQ && (p(k[0], k[1]) || p(k[1], k[0])) {
			return true
		}
	}
	return false
}

func strParams(c *Ctx, name string) []*Term {
	fn := c.P.fn(name)
	if fn == nil {
		return nil
	}
	var out []*Term
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			out = append(out, paramOf(fn, i))
		}
	}
	return out
}

func metaParams(c *Ctx, name string) []*Term {
	fn := c.P.fn(name)
	if fn == nil {
		return nil
	}
	var out []*Term
	for i, p := range fn.Params {
		if strings.HasSuffix(p.Type().String(), "libeopkg.MetaPackage") {
			out = append(out, paramOf(fn, i))
		}
	}
	return out
}

func checkC22(c *Ctx) {
	checkReleaseOrder(c)
	// the packages' own metadata
	ps := strParams(c, "libeopkg.NewDeltaProducer")
	if len(ps) != 3 {
		c.violate("anchor", "", "libeopkg.NewDeltaProducer", "-", "the producer's parameters changed: the property cannot be decided")
	} else {
		of := func(in, out *Term) func(*Term) bool {
			return func(t *Term) bool { return t.isFld("Package") && t.contains(in) && !t.contains(out) }
		}
		c.run("libeopkg.NewDeltaProducer", monFunc(func(e *Engine, s *State, ev *Event) {
			if !isEntryRet(ev) || !okRet(ev) {
				return
			}
			e.count("producers opened")
			if m := pairFacts(s, of(ps[1], ps[2]), of(ps[2], ps[1])); m != "" {
				e.violate(s, ev, "mismatch", "producer", "a producer is opened although "+m)
			}
		}), runOpt{pkgs: []string{"libeopkg"}})
		c.require("producers opened", 1)
	}
	// the index metadata, and which files are compared
	ms := metaParams(c, "core.Manager.CreateDelta")
	if len(ms) != 2 {
		c.violate("anchor", "", "core.Manager.CreateDelta", "-", "the operation's parameters changed: the property cannot be decided")
		return
	}
	is := func(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }
	c.run("core.Manager.CreateDelta", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "call" && strings.HasSuffix(ev.name, "libeopkg.NewDeltaProducer"):
			if ev.ok == 2 {
				return
			}
			e.count("producers asked for")
			for i, what := range []string{"old", "new"} {
				p := ev.args[1+i]
				if !p.isApp("path") || p.args[len(p.args)-1] != fld(ms[i], "PackageURI") {
					e.violate(s, ev, "files", what, "the "+what+" package compared is "+short(p))
				}
			}
			s.set("made", mk("call", "producer", ev.args[1], ev.args[2]))
		case isEntryRet(ev) && okRet(ev):
			e.count("deltas created")
			if m := pairFacts(s, is(ms[0]), is(ms[1])); m != "" {
				e.violate(s, ev, "mismatch", "CreateDelta", "a delta is created although "+m)
			}
			_, b := pathBase(ev.args[0])
			if b == nil || !deltaName(b, ms[0], ms[1]) {
				e.violate(s, ev, "name", "CreateDelta", "the delta is created as "+short(ev.args[0])+", which does not name its pair")
			}
		}
	}), runOpt{pkgs: []string{"core", "libeopkg"}, ext: opaqueFns("libeopkg.NewDeltaProducer", "libeopkg.DeltaProducer.Commit", "libeopkg.DeltaProducer.Close")})
	c.require("producers asked for", 1)
	c.require("deltas created", 2)
	// what jobs ask for and record
	c.run("jobs.DeltaJobHandler.Execute", &deltaJob{c: c}, deltaJobOpt(c))
	c.require("deltas asked for", 1)
	c.require("deltas included", 1)
	// what the pool keeps
	var mapping *Term
	if fn := c.P.fn("core.Manager.AddDelta"); fn != nil {
		for i, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "core.DeltaInformation") {
				mapping = paramOf(fn, i)
			}
		}
	}
	if mapping == nil {
		c.violate("anchor", "", "core.Manager.AddDelta", "-", "the operation's parameters changed: the property cannot be decided")
		return
	}
	c.run("core.Manager.AddDelta", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind != "db" || ev.name != "put" || !isBucket(ev.args[0], "pool") || len(ev.args) < 3 {
			return
		}
		e.count("deltas recorded")
		d := e.fldOf(ev.args[2], "Delta")
		if poolOwn(d) {
			return
		}
		for _, f := range []string{"FromID", "ToID", "FromRelease", "ToRelease"} {
			if g := e.field(s, d, f); g != fld(mapping, f) && !releaseOf(g, fld(mapping, strings.Replace(f, "Release", "ID", 1))) {
				e.violate(s, ev, "recorded", f, "the "+f+" kept for the delta is "+short(g))
			}
		}
	}), runOpt{noIndex: true})
	c.require("deltas recorded", 1)
}

// releaseOf: the release of the package the pool records under an ID.
func releaseOf(t, id *Term) bool {
	if !t.isApp("eopkg.GetRelease") {
		return false
	}
	m := stripAddr(t.args[0])
	if !m.isFld("Meta") {
		return false
	}
	k, ok := poolRecord(stripAddr(m.args[0]))
	return ok && k == id
}

// poolOwn: the mapping a pool record had already.
func poolOwn(d *Term) bool {
	if !d.isFld("Delta") {
		return false
	}
	_, ok := poolRecord(d.args[0])
	return ok
}

func checkC24(c *Ctx) {
	c.run("jobs.DeltaJobHandler.Execute", &deltaJob{c: c}, deltaJobOpt(c))
	c.require("deltas asked for", 1)
	c.require("deltas marked", 1)
	c.require("deltas included", 1)
	c.require("deltas referenced", 1)
	// the marks
	isSkip := func(b *Term) bool { return isBucket(b, "deltaSkip") }
	for _, m := range []string{"MarkDeltaFailed", "GetDeltaFailed", "HasDelta"} {
		if len(strParams(c, "core.Manager."+m)) == 0 {
			c.violate("anchor", "", "core.Manager."+m, "-", "the operation was not found")
			return
		}
	}
	mark, asked := strParams(c, "core.Manager.MarkDeltaFailed")[0], strParams(c, "core.Manager.GetDeltaFailed")[0]
	c.runManager(func(entry string) Monitor {
		return monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && (ev.name == "put" || ev.name == "delete") && isSkip(ev.args[0]) {
				e.count("marks written")
				if entry != "MarkDeltaFailed" || ev.name == "delete" {
					e.violate(s, ev, "mark-changed", entry, "the record of pointless deltas is changed ("+ev.name+") by "+entry)
				} else if ev.args[1] != mark {
					e.violate(s, ev, "mark-key", entry, "a mark is recorded under "+short(ev.args[1]))
				}
				if ev.ok == 1 {
					s.setB("marked", true)
				}
			}
			if !isEntryRet(ev) || !okRet(ev) {
				return
			}
			switch entry {
			case "MarkDeltaFailed":
				if v, known := s.facts.boolv[dbHas(s, isSkip, mark)]; !s.is("marked") && !(known && v) {
					e.violate(s, ev, "mark-lost", entry, "marking succeeds although no mark is recorded")
				}
			case "GetDeltaFailed":
				e.count("mark queries answered")
				v, known := s.facts.boolv[dbHas(s, isSkip, asked)]
				switch {
				case ev.args[0] == tTrue && !(known && v):
					e.violate(s, ev, "mark-query", entry, "a delta is reported as marked although no mark under its name is known")
				case ev.args[0] == tFalse && known && v && s.is("read"):
					e.violate(s, ev, "mark-query", entry, "a marked delta is reported as not marked")
				case ev.args[0] != tTrue && ev.args[0] != tFalse && ev.args[0] != dbHas(s, isSkip, asked):
					e.violate(s, ev, "mark-query", entry, "the answer "+short(ev.args[0])+" does not follow from the mark")
				}
			}
		})
	}, runOpt{noIndex: true}, nil)
	c.require("marks written", 1)
	c.require("mark queries answered", 2)
}

// dbHas finds the presence term of a record among the facts.
func dbHas(s *State, bucket func(*Term) bool, key *Term) *Term {
	for k := range s.facts.boolv {
		if k.isApp("dbhas") && bucket(k.args[0]) && k.args[1] == key {
			return k
		}
	}
	return nil
}

func deltaJobOpt(c *Ctx) runOpt {
	in := c.jobInline()
	return runOpt{inline: func(f *ssa.Function) bool { return in(f) || f.Pkg == c.P.pkgs["libeopkg"] }, ext: opaqueManager(c.P)}
}

// pathBase splits a joined path.
func pathBase(p *Term) (dir []*Term, base *Term) {
	if p == nil || !p.isApp("path") || len(p.args) < 2 {
		return nil, nil
	}
	return p.args[:len(p.args)-1], p.args[len(p.args)-1]
}

// deltaName: a name built from the pair, the old release before the new one.
func deltaName(t, old, new *Term) bool {
	var parts []*Term
	if t.isApp("cat") {
		for _, a := range t.args {
			if _, lit := a.strVal(); !lit {
				parts = append(parts, a)
			}
		}
	}
	rel := func(m *Term) *Term { return mk("app", "dec", mk("app", "eopkg.GetRelease", m)) }
	want := []*Term{fld(new, "Name"), rel(old), rel(new), fld(new, "DistributionRelease"), fld(new, "Architecture")}
	if len(parts) != len(want) {
		return false
	}
	for i, w := range want {
		p := parts[i]
		if p != w && !(w.op == "fld" && p == fld(old, w.aux)) {
			return false
		}
	}
	l, ok := t.args[len(t.args)-1].strVal()
	return ok && strings.HasSuffix(l, ".delta.eopkg")
}

type deltaJob struct{ c *Ctx }

// mgrResult recognises the i-th result of a manager operation.
func mgrResult(t *Term, op string, i int) bool {
	return t != nil && t.op == "opq" && strings.HasPrefix(t.aux, op+"."+strconv.Itoa(i)+"@")
}

func globalNamed(t *Term, n string) bool {
	return t.op == "global" && (t.aux == n || strings.HasSuffix(t.aux, "."+n))
}

// sentinel: the error is known to be the named one.
func sentinel(s *State, err *Term, n string) bool {
	return sameFact(s, func(a, b *Term) bool { return a == err && globalNamed(b, n) }) || func() bool {
		for k, v := range s.facts.boolv {
			if v && k.isApp("errors.Is") && k.args[0] == err && globalNamed(k.args[1], n) {
				return true
			}
		}
		return false
	}()
}

func (d *deltaJob) v(e *Engine, s *State, ev *Event, p, rule, con, msg string) {
	if d.c.id == p {
		e.violate(s, ev, rule, con, msg)
	}
}

// mapping: a delta's mapping names the pair.
func (d *deltaJob) mapping(e *Engine, s *State, ev *Event, p string, m, old, new *Term) {
	id := func(x *Term) *Term { return mk("app", "eopkg.GetID", x) }
	rel := func(x *Term) *Term { return mk("app", "eopkg.GetRelease", x) }
	for _, w := range []struct {
		f string
		t *Term
	}{{"FromID", id(old)}, {"ToID", id(new)}, {"FromRelease", rel(old)}, {"ToRelease", rel(new)}} {
		g := e.field(s, m, w.f)
		if g.isApp("filepath.Base") && g.args[0].isFld("PackageURI") {
			g = id(g.args[0].args[0])
		}
		if g != w.t {
			d.v(e, s, ev, p, "mapping", w.f, "the "+w.f+" recorded for the delta is "+short(g))
		}
	}
}

func (d *deltaJob) Event(e *Engine, s *State, ev *Event) {
	pair := func(k string) (res, old, new, repo *Term) {
		t := s.get(k)
		if t == nil {
			return
		}
		return t.args[0], t.args[1], t.args[2], t.args[3]
	}
	switch ev.kind {
	case "call":
		if !strings.HasPrefix(ev.name, corePath+"Manager.") {
			for _, o := range fsOps(e, s, ev) {
				if o.op != "remove" && o.op != "removeall" && o.op != "rename" {
					continue
				}
				if t := s.get("!included"); t == nil || t != o.path || o.op != "remove" {
					d.v(e, s, ev, "C24", "early-removal", o.op, "the job "+o.op+"s "+short(o.path)+", which is not the staged file of a delta that was included")
				}
			}
			return
		}
		op := strings.TrimPrefix(ev.name, corePath+"Manager.")
		a := ev.args[1:]
		switch op {
		case "GetPoolEntry":
			if ev.ok == 2 {
				s.addTo("!absent", a[0])
			} else {
				s.set("!inpool", a[0])
			}
		case "CreateDelta":
			d.create(e, s, ev, a[0], a[1], a[2])
			if ev.ok == 2 {
				s.set("!failed", mk("pair", "", ev.res[len(ev.res)-1], a[1], a[2], a[0]))
				s.setB("must", true)
			} else {
				s.set("!made", mk("pair", "", ev.res[0], a[1], a[2], a[0]))
				s.setB("pending", true)
			}
		case "MarkDeltaFailed":
			e.count("deltas marked")
			err, old, new, _ := pair("!failed")
			if err == nil || !sentinel(s, err, "ErrDeltaPointless") {
				d.v(e, s, ev, "C24", "not-pointless", "mark", "a delta is marked as never to be attempted again although its production did not report that it is pointless")
				return
			}
			if !deltaName(a[0], old, new) {
				d.v(e, s, ev, "C24", "wrong-mark", "mark", "the mark is recorded under "+short(a[0])+", which does not name the pair that failed")
			}
			d.mapping(e, s, ev, "C24", a[1], old, new)
			if ev.ok == 1 {
				s.set("!failed", nil)
				s.setB("must", false)
			} else {
				s.setB("must2", true)
			}
		case "AddDelta":
			e.count("deltas included")
			res, old, new, repo := pair("!made")
			if res == nil || res != a[1] {
				d.v(e, s, ev, "C22", "foreign", "include", "the file included, "+short(a[1])+", is not the delta that was produced")
				return
			}
			if repo != a[0] {
				d.v(e, s, ev, "C22", "repository", "include", "the delta is included in "+short(a[0])+" instead of "+short(repo))
			}
			for _, p := range []string{"C22", "C24"} {
				d.mapping(e, s, ev, p, a[2], old, new)
			}
			if ev.ok == 1 {
				s.set("!included", res)
				s.setB("pending", false)
			} else {
				s.setB("must2", true)
			}
		case "RefDelta":
			e.count("deltas referenced")
			if t := s.get("!inpool"); t == nil || t != a[1] {
				d.v(e, s, ev, "C24", "ref", "reference", "the delta referenced, "+short(a[1])+", is not known to be in the pool")
			}
			if ev.ok == 1 {
				s.set("!inpool", nil)
			} else {
				s.setB("must2", true)
			}
		}
	case "loop.back", "return":
		if ev.kind == "return" && !isEntryRet(ev) {
			return
		}
		if err, _, _, _ := pair("!failed"); err != nil && sentinel(s, err, "ErrMismatchedDelta") {
			s.setB("must", false)
			s.set("!failed", nil)
		}
		if t := s.get("!inpool"); t != nil && (ev.kind == "loop.back" || okRet(ev)) {
			d.v(e, s, ev, "C24", "not-referenced", ev.kind, "a delta that is in the pool already is not referenced")
		}
		if ev.kind != "return" || !okRet(ev) {
			return
		}
		if s.is("must") || s.is("must2") {
			d.v(e, s, ev, "C24", "swallowed", "return", "the job reports success although producing or including a delta failed for a reason other than being pointless")
		}
		if s.is("pending") {
			d.v(e, s, ev, "C24", "not-included", "return", "the job reports success although a delta it produced was not included")
		}
	}
}

func (d *deltaJob) create(e *Engine, s *State, ev *Event, repo, old, new *Term) {
	e.count("deltas asked for")
	// from an available build to the newest
	el := func(t *Term) (list, i *Term) {
		t = stripAddr(t)
		if t.op == "elem" || t.op == "index" {
			return t.args[0], t.args[1]
		}
		return nil, nil
	}
	l, i := el(new)
	lo, _ := el(old)
	for l != nil && l.isApp("slice") {
		l = l.args[0]
	}
	base := lo
	for base != nil && base.isApp("slice") {
		base = base.args[0]
	}
	switch {
	case l == nil || base == nil || !mgrResult(l, "GetPackages", 0) || !mgrResult(base, "GetPackages", 0):
		d.v(e, s, ev, "C22", "pair", "job", "a delta is asked for from "+short(old)+" to "+short(new)+", which are not builds of one package")
	case l != base || l.args[0] != repo:
		d.v(e, s, ev, "C22", "pair", "job", "the builds compared are not those of one package in the repository the delta is for")
	default:
		o := sortOrder(s.heap[mk("sorted", "", skel(l))])
		last := plus(mk("len", "", l), tInt(-1))
		if !(o > 0 && i == last || o < 0 && i == tInt(0)) {
			d.v(e, s, ev, "C22", "not-newest", "job", "a delta is asked for to "+short(new)+", which is not known to be the newest build")
		}
	}
	// only where it is new
	named := func(t *Term) bool {
		return t.find(func(x *Term) bool { return x == t && deltaName(x, old, new) }) != nil
	}
	known := func(op string) bool {
		for k, v := range s.facts.boolv {
			if !v && mgrResult(k, op, 0) {
				for _, a := range k.args {
					if named(a) {
						return op != "HasDelta" || k.args[0] == repo
					}
				}
			}
		}
		return false
	}
	if !known("GetDeltaFailed") {
		d.v(e, s, ev, "C24", "retried", "job", "a delta is produced that may be marked as never to be attempted again")
	}
	if !known("HasDelta") {
		d.v(e, s, ev, "C24", "rebuilt", "listed", "a delta is produced that may be listed already")
	}
	ok := false
	for _, a := range s.all("!absent") {
		ok = ok || named(a)
	}
	if !ok {
		d.v(e, s, ev, "C24", "rebuilt", "pool", "a delta is produced that may be in the pool already")
	}
}

// opaqueFns makes functions single steps that succeed or fail.
func opaqueFns(names ...string) func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
	return func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		for _, n := range names {
			if cs.name == repoPath+"src/"+n || cs.name == repoPath+"src/ferryd/"+n {
				return opaqueCall(e, s, cs), true
			}
		}
		return nil, false
	}
}
