package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The job store and the workers (C29–C33).

func init() {
	register("C29", "typestate over every path of a worker's loop: every claimed job is turned into a handler once, executed once when that succeeded, given its end time after that, its failure field is set exactly when one of the two failed, and the job is handed to the reaper once before the next round; the loop is left only after receiving from the exit channel and re-arms its timer; retiring deletes the job's own entry from the queue it was claimed from and records timing, description and error in the history of its outcome",
		checkC29)
	register("C30", "path-fact analysis of every claim operation: entries are skipped only when known to be claimed, the entry stored is the one decoded, under its own key, known unclaimed before, changed in nothing but the claim mark and start time, in the transaction and under the lock of the scan; it is returned only after the commit succeeded; exactly one sequential worker is constructed and every worker is started once",
		checkC30)
	register("C31", "typestate over every path of opening the job store: success only after a complete scan of each queue in which every entry not known to be unclaimed was stored back under its key with the claim mark and times cleared and nothing else changed, and the transaction committed; no operation outside start-up stores a loaded entry as unclaimed",
		checkC31)
	register("C32", "path-fact analysis of every history write and reset: records go under the 8-byte big-endian of a position whose range is known to be 0 to 99, that is the stored position plus one or 0 when there is none or the end was reached, and equals the position stored under the same lock; a reset deletes the position and every record of one history and nothing else",
		checkC32)
	register("C33", "typestate over every path of every queueing operation: an entry is stored under a key obtained from the same queue's sequence while holding the lock that is still held at the write, with no other write to the queue in the same transaction between; the sequence is the successor of the greatest key in 8-byte big-endian",
		checkC33)
}

const jobsPath = repoPath + "src/ferryd/jobs."

// jobStore describes the operations of the job store.
type jobStore struct {
	c       *Ctx
	entries []string
	claims  []string
	queues  map[string][]string // claim operation -> queues it stores to
	all     map[string]bool
}

func jobStoreOf(c *Ctx) *jobStore {
	j := &jobStore{c: c, queues: map[string][]string{}, all: map[string]bool{}}
	j.entries = c.methodsOf("jobs.JobStore")
	for _, m := range j.entries {
		fn := c.P.fn(m)
		r := fn.Signature.Results()
		if fn.Signature.Params().Len() == 0 && r.Len() == 2 && strings.HasSuffix(r.At(0).Type().String(), "jobs.JobEntry") {
			j.claims = append(j.claims, m)
		}
	}
	// the queues are what claim operations write to
	for _, m := range j.claims {
		set := map[string]bool{}
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && ev.name == "put" {
				if n := oneName(ev.args[0]); n != "" {
					set[n] = true
				}
			}
		}), runOpt{pkgs: []string{"jobs"}})
		for n := range set {
			j.queues[m] = append(j.queues[m], n)
			j.all[n] = true
		}
		if len(set) != 1 {
			c.violate("claim-queue", m, "queue", c.P.pos(c.P.fn(m).Pos()), "the operation does not claim from one fixed queue")
		}
	}
	c.count("claim operations", len(j.claims))
	c.require("claim operations", 1)
	return j
}

// oneName: the name of a top-level bucket.
func oneName(b *Term) string {
	ns := bucketNames(b)
	if len(ns) != 1 {
		return ""
	}
	n, _ := ns[0].strVal()
	return n
}

func (j *jobStore) queue(b *Term) string {
	if n := oneName(b); j.all[n] {
		return n
	}
	return ""
}

// runStore runs a monitor over the operations given.
func (j *jobStore) runStore(ms []string, mk func(m string) Monitor, o runOpt) {
	if o.pkgs == nil {
		o.pkgs = []string{"jobs"}
	}
	for _, m := range ms {
		j.c.run(m, mk(m), o)
	}
}

// watchLocks keeps the set of locks held in "lk" and the open transactions in
// "tx"; it reports what the event released.
func watchLocks(s *State, ev *Event) (unlocked, ended bool) {
	switch ev.kind {
	case "call":
		switch ev.name {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock":
			s.addTo("lk", ev.args[0])
		case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
			s.remFrom("lk", func(t *Term) bool { return t == ev.args[0] })
			return true, false
		}
	case "db":
		switch ev.name {
		case "begin":
			s.addTo("tx", ev.args[0])
		case "commit", "abort":
			s.remFrom("tx", func(t *Term) bool { return t == ev.args[0] })
			return false, true
		}
	}
	return
}

// fieldChanges: what a struct term changes on the value it was built from.
func fieldChanges(v *Term) (base *Term, ch map[string]*Term) {
	ch = map[string]*Term{}
	for v.op == "struct" {
		for i := 1; i+1 < len(v.args); i += 2 {
			n, _ := v.args[i].strVal()
			if _, ok := ch[n]; !ok {
				ch[n] = v.args[i+1]
			}
		}
		v = v.args[0]
	}
	for n, x := range ch {
		if x == fld(v, n) {
			delete(ch, n)
		}
	}
	return v, ch
}

func utcNow(t *Term) bool {
	return t.isApp("time.Time.UTC") && t.args[0].op == "call" && strings.HasSuffix(t.args[0].aux, ":now")
}

func unexported(n string) bool { return n != "" && n[0] >= 'a' && n[0] <= 'z' }

func zeroVal(t *Term) bool {
	return t == tNil || t.op == "zero" || t == tFalse || t == tInt(0) || t == tStr("")
}

// timing: the changes a stored job makes to its times.
func timing(base *Term, ch map[string]*Term) map[string]*Term {
	t := ch["Timing"]
	if t == nil {
		return nil
	}
	b, tc := fieldChanges(t)
	if b != fld(base, "Timing") {
		if b.op == "zero" {
			for _, n := range []string{"Queued", "Begin", "End"} {
				if tc[n] == nil {
					tc[n] = b
				}
			}
			for n, x := range tc {
				if x == fld(fld(base, "Timing"), n) {
					delete(tc, n)
				}
			}
			return tc
		}
		tc["?"] = b
	}
	return tc
}

// ---- C30 ----

type claimMon struct {
	j *jobStore
	q string
}

func (m *claimMon) Event(e *Engine, s *State, ev *Event) {
	unl, end := watchLocks(s, ev)
	if unl || end && ev.name == "abort" {
		s.set("scan", nil)
		if end {
			s.set("put", nil)
		}
	}
	if end && ev.name == "commit" && s.get("put") != nil {
		s.set("done", s.get("put"))
	}
	claimed := func(t *Term) *Term { return fld(t, "Claimed") }
	switch {
	case ev.kind == "db" && ev.name == "foreach" && m.j.queue(ev.args[0]) != "":
		e.count("queue scans")
		if len(s.all("lk")) == 0 {
			e.violate(s, ev, "scan-lock", m.q, "the queue is searched without holding the store's lock")
		}
		if len(s.all("tx")) > 0 {
			s.set("scan", ev.args[0])
		}
	case ev.kind == "loop.back" && len(ev.args) > 1 && m.j.queue(ev.args[1]) != "":
		it := mk("loaded", "", ev.args[1], mk("iterk", "", ev.args[1], ev.args[0]))
		if s.facts.maskBool(claimed(it)) != 1 && !s.is("picked") {
			e.violate(s, ev, "skip", m.q, "an entry is passed over that is not known to be claimed")
		}
	case ev.kind == "store" && ev.args[0].op == "addr" && ev.args[0].aux == "Claimed" && ev.args[1] == tTrue:
		s.setB("picked", true)
	case ev.kind == "db" && ev.name == "put" && ev.ok == 1:
		e.count("claims stored")
		b, key := ev.args[0], ev.args[1]
		if m.j.queue(b) == "" {
			e.violate(s, ev, "put", m.q, "a claim writes to "+bucketKind(b))
			return
		}
		if ev.args[3] != tTrue || len(s.all("lk")) == 0 || s.get("scan") != b {
			e.violate(s, ev, "atomic", m.q, "the claim is not stored in the transaction and under the lock of the search")
		}
		base, ch := fieldChanges(ev.args[2])
		if key.op != "iterk" || key.args[0] != b || base != mk("loaded", "", b, key) {
			e.violate(s, ev, "identity", m.q, "a claim stores "+short(base)+" under "+short(key)+": not the entry it found, under its own key")
			return
		}
		if s.facts.maskBool(claimed(base)) != 2 {
			e.violate(s, ev, "claimed-twice", m.q, "an entry is claimed that may have been claimed already")
		}
		if ch["Claimed"] != tTrue {
			e.violate(s, ev, "unmarked", m.q, "an entry is handed out without being marked as claimed in storage")
		}
		tc := timing(base, ch)
		if tc["Begin"] == nil || !utcNow(tc["Begin"]) {
			e.violate(s, ev, "begin", m.q, "a claim does not store the current UTC time as the start time")
		}
		for n := range tc {
			if n != "Begin" {
				e.violate(s, ev, "changed", n, "a claim changes "+n+" of the stored entry")
			}
		}
		for n := range ch {
			if n != "Claimed" && n != "Timing" && !unexported(n) {
				e.violate(s, ev, "changed", n, "a claim changes "+n+" of the stored entry")
			}
		}
		if s.get("put") != nil {
			e.violate(s, ev, "two", m.q, "one claim marks more than one entry")
		}
		s.set("put", mk("pair", "", ev.args[4], key))
	case isEntryRet(ev):
		r := ev.args[0]
		if !okRet(ev) {
			if s.facts.maskOf(r, tNil) != mEQ {
				e.violate(s, ev, "error-result", m.q, "a failed claim hands out an entry")
			}
			return
		}
		e.count("claims handed out")
		d := s.get("done")
		if d == nil || d.args[0] != r || len(s.all("tx")) > 0 {
			e.violate(s, ev, "result", m.q, "an entry is handed out that is not the one stored as claimed")
			return
		}
		if e.bytesOf(s, e.field(s, r, "id")) != d.args[1] {
			e.violate(s, ev, "id", m.q, "the entry handed out does not carry its own identity")
		}
	}
}

func checkC30(c *Ctx) {
	j := jobStoreOf(c)
	j.runStore(j.claims, func(m string) Monitor { return &claimMon{j: j, q: strings.TrimPrefix(m, "jobs.JobStore.")} }, runOpt{})
	c.require("queue scans", 1)
	c.require("claims stored", 1)
	c.require("claims handed out", 1)
	// one sequential worker
	seqQ := ""
	for _, m := range j.claims {
		if strings.Contains(m, "equential") {
			seqQ = m
		}
	}
	if seqQ == "" {
		c.violate("anchor", "", "sequential claim", "-", "no operation claims sequential jobs: the property cannot be decided")
		return
	}
	short := seqQ[strings.LastIndex(seqQ, ".")+1:]
	c.run("jobs.NewProcessor", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "store" && ev.args[1].op == "closure" && strings.Contains(ev.args[1].aux, "."+short+"$"):
			e.count("sequential workers")
			if s.is("one") || len(ev.args[0].loops) > 0 || len(ev.args[0].args) > 0 && len(ev.args[0].args[0].loops) > 0 {
				e.violate(s, ev, "many", "NewProcessor", "more than one worker for sequential jobs is constructed")
			}
			s.setB("one", true)
		case isEntryRet(ev):
			if !s.is("one") {
				e.violate(s, ev, "none", "NewProcessor", "no worker for sequential jobs is constructed")
			}
		}
	}), runOpt{pkgs: []string{"jobs"}})
	c.require("sequential workers", 1)
	// started once each
	start := c.P.fn("jobs.Worker.Start")
	c.run("jobs.Processor.Begin", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "go" || ev.kind == "enter" && ev.name == funcName(start):
			e.count("worker starts")
			w := ev.args[len(ev.args)-1]
			if s.is("!go") || w.op != "elem" || len(w.loops) == 0 {
				e.violate(s, ev, "start", "Begin", "a worker may be started more than once")
			}
			s.set("!go", tTrue)
			s.set("!w", w)
		case ev.kind == "loop.iter":
			s.set("!go", nil)
		}
	}), runOpt{pkgs: []string{"jobs"}, ext: opaqueFns("jobs.Worker.Start")})
	c.require("worker starts", 1)
	// by the program as a whole
	np, bg := c.P.fn("jobs.NewProcessor"), c.P.fn("jobs.Processor.Begin")
	for _, x := range []struct {
		f    *ssa.Function
		from *ssa.Function
		what string
	}{{c.P.fn(seqQ), np, "claims sequential jobs"}, {start, bg, "starts workers"}, {np, nil, "constructs processors"}, {bg, nil, "starts the processor"}} {
		if x.f == nil {
			c.violate("anchor", "", "processor", "-", "NewProcessor, Begin or Start not found: the property cannot be decided")
			continue
		}
		refs := c.P.referrers(x.f)
		n := 0
		for f, k := range refs {
			n += k
			if x.from != nil && !c.P.reaches(x.from, f) {
				c.violate("other", shortFn(f), x.what, c.P.pos(f.Pos()), "this function also "+x.what)
			}
		}
		c.count("uses of worker set-up", n)
		if x.from == nil && n != 1 {
			c.violate("once", shortFn(x.f), x.what, c.P.pos(x.f.Pos()), "more or fewer than one place "+x.what)
		}
	}
}

func funcName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return shortFn(f)
}

// referrers counts the references to a function (calls, method values,
// closures) by the function containing them; bound-method wrappers count as
// the function that makes them.
func (P *Program) referrers(target *ssa.Function) map[*ssa.Function]int {
	same := func(g *ssa.Function) bool {
		if g == target {
			return true
		}
		return g != nil && g.Synthetic != "" && g.Object() != nil && g.Object() == target.Object()
	}
	out := map[*ssa.Function]int{}
	for _, f := range P.funcs {
		if f.Synthetic != "" && f.Object() == target.Object() && target.Object() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				hit := false
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && same(g) {
						hit = true
					}
				}
				if hit {
					out[f]++
				}
			}
		}
	}
	return out
}

// ---- C31 ----

type unclaimMon struct{ j *jobStore }

func (m *unclaimMon) Event(e *Engine, s *State, ev *Event) {
	_, end := watchLocks(s, ev)
	if end && ev.name == "abort" {
		for q := range m.j.all {
			s.setB("scan:"+q, false)
		}
	}
	switch {
	case ev.kind == "go":
		e.violate(s, ev, "early", "NewStore", "something is started before the queues are repaired")
	case ev.kind == "loop.iter" && len(ev.args) > 1 && m.j.queue(ev.args[1]) != "":
		s.set("!put", nil)
	case ev.kind == "loop.back" && len(ev.args) > 1 && m.j.queue(ev.args[1]) != "":
		k := mk("iterk", "", ev.args[1], ev.args[0])
		it := mk("loaded", "", ev.args[1], k)
		if s.facts.maskBool(fld(it, "Claimed")) != 2 && s.get("!put") != k {
			e.violate(s, ev, "left", m.j.queue(ev.args[1]), "an entry that may be claimed is left as it is at start-up")
		}
	case ev.kind == "loop.done" && len(ev.args) > 1 && m.j.queue(ev.args[1]) != "":
		e.count("queues repaired at start-up")
		s.setB("scan:"+m.j.queue(ev.args[1]), true)
	case ev.kind == "db" && ev.name == "delete" && ev.ok == 1:
		e.violate(s, ev, "deleted", "NewStore", "start-up deletes stored jobs")
	case ev.kind == "db" && ev.name == "put" && ev.ok == 1 && m.j.queue(ev.args[0]) != "":
		e.count("entries put back")
		b, key := ev.args[0], ev.args[1]
		base, ch := fieldChanges(ev.args[2])
		if key.op != "iterk" || key.args[0] != b || base != mk("loaded", "", b, key) {
			e.violate(s, ev, "identity", "put back", "an entry is not put back under its own key")
			return
		}
		if ch["Claimed"] != tFalse && s.facts.maskBool(fld(base, "Claimed")) != 2 {
			e.violate(s, ev, "claimed", "put back", "an entry is put back as claimed")
		}
		tc := timing(base, ch)
		for _, n := range []string{"Begin", "End"} {
			if tc[n] == nil || !zeroVal(tc[n]) {
				e.violate(s, ev, "times", n, "an entry is put back without clearing its "+n+" time")
			}
		}
		for n := range tc {
			if n != "Begin" && n != "End" {
				e.violate(s, ev, "changed", n, "start-up changes "+n+" of a stored entry")
			}
		}
		for n := range ch {
			if n != "Claimed" && n != "Timing" && !unexported(n) {
				e.violate(s, ev, "changed", n, "start-up changes "+n+" of a stored entry")
			}
		}
		s.set("!put", key)
	case isEntryRet(ev) && okRet(ev) && s.facts.maskOf(ev.args[0], tNil)&mNE != 0:
		e.count("stores opened")
		var qs []string
		for q := range m.j.all {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		for _, q := range qs {
			if !s.is("scan:" + q) {
				e.violate(s, ev, "missed", q, "the store opens although the claimed entries of queue "+q+" were not all put back")
			}
		}
	}
}

func checkC31(c *Ctx) {
	j := jobStoreOf(c)
	j.runStore([]string{"jobs.NewStore"}, func(string) Monitor { return &unclaimMon{j} }, runOpt{ext: opaqueFns("libdb.Open", "core.NewContext")})
	c.require("queues repaired at start-up", 2)
	c.require("entries put back", 1)
	c.require("stores opened", 1)
	ns := c.P.fn("jobs.NewStore")
	for _, m := range j.entries {
		fn := c.P.fn(m)
		un := false
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind != "db" || ev.name != "put" || j.queue(ev.args[0]) == "" {
				return
			}
			e.count("queue writes of other operations")
			base, ch := fieldChanges(ev.args[2])
			cl := ch["Claimed"]
			if cl == nil {
				cl = fld(base, "Claimed")
			}
			if ev.args[1].op != "seq" && e.knownBool(s, cl) != 1 {
				un = true
			}
		}), runOpt{pkgs: []string{"jobs"}})
		if un {
			for _, f := range c.P.usersOutside(fn, ns) {
				c.violate("unclaim", shortFn(f), shortFn(fn), c.P.pos(f.Pos()), "queued entries are un-claimed outside start-up, through "+shortFn(fn))
			}
		}
	}
	c.require("queue writes of other operations", 2)
}

// usersOutside: functions other than root that use fn, following uses upward
// until root is met.
func (P *Program) usersOutside(fn, root *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if f == root || seen[f] {
			return
		}
		seen[f] = true
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		if g != f {
			up(g)
			return
		}
		refs := P.referrers(f)
		if len(refs) == 0 && f != fn {
			out = append(out, f)
			return
		}
		for r := range refs {
			up(r)
		}
	}
	up(fn)
	// a method of the same type nobody uses harms nothing
	var res []*ssa.Function
	for _, f := range out {
		if f.Signature.Recv() != nil && fn.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), fn.Signature.Recv().Type()) {
			continue
		}
		res = append(res, f)
	}
	return res
}

// ---- C32 ----

const maxHistory = 100

// position recognises a stored position: the history it belongs to.
func (j *jobStore) position(b *Term) string {
	ns := bucketNames(b)
	if len(ns) != 2 {
		return ""
	}
	n, _ := ns[0].strVal()
	return n
}

type historyMon struct {
	j     *jobStore
	m     string
	wrote map[string]bool // histories written
	reset map[string]bool // histories cleared
}

func (m *historyMon) Event(e *Engine, s *State, ev *Event) {
	unl, end := watchLocks(s, ev)
	if unl && len(s.all("lk")) == 0 {
		for k := range s.mon {
			if strings.HasPrefix(k, "got:") {
				s.set(k, nil)
			}
		}
	}
	if end && ev.name == "abort" {
		for k := range s.mon {
			if strings.HasPrefix(k, "txrec:") || strings.HasPrefix(k, "txclear:") {
				s.set(k, nil)
			}
		}
	}
	switch {
	case ev.kind == "db" && ev.name == "get" && m.j.position(ev.args[0]) != "":
		h := m.j.position(ev.args[0])
		if len(s.all("lk")) == 0 {
			e.violate(s, ev, "lock", h, "the history position is read without holding the store's lock")
		}
		if ev.ok == 1 {
			s.set("got:"+h, ev.args[3])
		} else {
			s.set("got:"+h, tNil)
		}
	case ev.kind == "db" && ev.name == "put" && m.j.position(ev.args[0]) != "" && ev.ok == 1:
		h := m.j.position(ev.args[0])
		base, ch := fieldChanges(ev.args[2])
		at := ch["Index"]
		if at == nil && base.op == "zero" {
			at = tInt(0)
		} else if at == nil {
			at = fld(base, "Index")
		}
		s.set("pos:"+h, mk("pos", "", ev.args[1], at, tBool(len(s.all("lk")) > 0)))
	case ev.kind == "db" && ev.name == "put" && m.j.queue(ev.args[0]) == "" && ev.ok == 1:
		h := oneName(ev.args[0])
		if h == "" {
			e.violate(s, ev, "bucket", bucketKind(ev.args[0]), "the job store writes to "+bucketKind(ev.args[0]))
			return
		}
		e.count("records written")
		m.wrote[h] = true
		key := ev.args[1]
		if !key.isApp("be64") {
			e.violate(s, ev, "slot", h, "a record is written under "+short(key)+", which is not a slot number")
			return
		}
		i := key.args[0]
		r := s.facts.rangeOf(i)
		if v, ok := i.intVal(); ok {
			r = rng{lo: v, hi: v}
		}
		modulo := i.op == "bin" && i.aux == "%" && i.args[1] == tInt(maxHistory)
		if r.hi >= maxHistory && !modulo {
			e.violate(s, ev, "bound", h, "a record is written to a slot that may exceed the history's size")
		}
		if len(s.all("lk")) == 0 {
			e.violate(s, ev, "lock", h, "a record is written without holding the store's lock")
		}
		got := s.get("got:" + h)
		switch {
		case got == nil:
			e.violate(s, ev, "turn", h, "a record is written without reading the history's position")
		case i == tInt(0):
			if got != tNil && s.facts.rangeOf(fld(got, "Index")).lo < maxHistory-1 && s.facts.rangeOf(plus(fld(got, "Index"), tInt(1))).lo < maxHistory {
				e.violate(s, ev, "turn", h, "a record is written to slot 0 although the position read may not be the last one")
			}
		case modulo && got != tNil && i.args[0] == plus(fld(got, "Index"), tInt(1)):
		case got == tNil || i != plus(fld(got, "Index"), tInt(1)):
			e.violate(s, ev, "turn", h, "a record is written to slot "+short(i)+", not the one after the stored position")
		}
		if s.get("txrec:"+h) != nil {
			e.violate(s, ev, "two", h, "one operation writes two records")
		}
		s.set("txrec:"+h, i)
	case ev.kind == "db" && ev.name == "has" && ev.ok == 1 && m.j.position(ev.args[0]) != "":
		s.set("haspos:"+m.j.position(ev.args[0]), ev.res[0])
	case ev.kind == "db" && ev.name == "delete" && m.j.position(ev.args[0]) != "":
		if ev.ok == 1 {
			s.setB("nopos:"+m.j.position(ev.args[0]), true)
			s.set("poskey:"+m.j.position(ev.args[0]), ev.args[1])
		}
	case ev.kind == "db" && ev.name == "delete" && m.j.queue(ev.args[0]) == "" && ev.ok == 1:
		h := oneName(ev.args[0])
		if h == "" || ev.args[1].op != "iterk" || ev.args[1].args[0] != ev.args[0] {
			e.violate(s, ev, "delete", "history", "a record is deleted under "+short(ev.args[1])+" of "+bucketKind(ev.args[0]))
			return
		}
		e.count("records deleted")
		s.set("!del", ev.args[1])
	case ev.kind == "loop.iter" && len(ev.args) > 1 && ev.args[1].op == "bucket":
		s.set("!del", nil)
	case ev.kind == "loop.back" && len(ev.args) > 1 && ev.args[1].op == "bucket":
		if s.get("!del") != mk("iterk", "", ev.args[1], ev.args[0]) {
			s.set("kept:"+oneName(ev.args[1]), tTrue)
		}
	case ev.kind == "loop.done" && len(ev.args) > 1 && ev.args[1].op == "bucket" && oneName(ev.args[1]) != "":
		if !s.is("kept:" + oneName(ev.args[1])) {
			s.set("txclear:"+oneName(ev.args[1]), tTrue)
		}
	case isEntryRet(ev) && okRet(ev):
		var hs []string
		for k := range s.mon {
			for _, p := range []string{"txrec:", "nopos:", "poskey:", "haspos:"} {
				if strings.HasPrefix(k, p) {
					hs = append(hs, k[len(p):])
				}
			}
		}
		sort.Strings(hs)
		for _, h := range hs {
			if i := s.get("txrec:" + h); i != nil {
				p := s.get("pos:" + h)
				if p == nil || p.args[1] != i {
					e.violate(s, ev, "position", h, "a record is written without its position being stored")
				} else if p.args[2] != tTrue {
					e.violate(s, ev, "lock", h, "the history position is stored without holding the store's lock")
				}
			}
		}
		if strings.HasPrefix(m.m, "Reset") || len(s.mon) > 0 && s.get("reset") != nil {
			e.count("resets")
			n := 0
			for k := range s.mon {
				if !strings.HasPrefix(k, "txclear:") {
					continue
				}
				n++
				h := k[len("txclear:"):]
				m.reset[h] = true
				hp := s.get("haspos:" + h)
				if !s.is("nopos:"+h) && (hp == nil || s.facts.maskBool(hp) != 2) {
					e.violate(s, ev, "reset-position", h, "a reset leaves the history's position")
				}
			}
			if n != 1 {
				e.violate(s, ev, "reset-records", m.m, "a reset does not delete all records of one history")
			}
			for _, h := range hs {
				if !s.is("txclear:" + h) {
					e.violate(s, ev, "reset-other", h, "a reset touches the position of another history")
				}
			}
		}
	case ev.kind == "db" && (ev.name == "put" || ev.name == "delete") && m.j.queue(ev.args[0]) != "" && strings.HasPrefix(m.m, "Reset"):
		e.violate(s, ev, "reset-queue", m.m, "a reset changes a queue")
	}
}

func checkC32(c *Ctx) {
	j := jobStoreOf(c)
	wrote, reset := map[string]bool{}, map[string]bool{}
	poskeys := map[string]bool{}
	j.runStore(j.entries, func(m string) Monitor {
		h := &historyMon{j: j, m: strings.TrimPrefix(m, "jobs.JobStore."), wrote: wrote, reset: reset}
		return monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && len(ev.args) > 1 && j.position(ev.args[0]) != "" {
				poskeys[ev.args[0].args[0].String()+"/"+ev.args[1].String()] = true
			}
			h.Event(e, s, ev)
		})
	}, runOpt{})
	c.require("records written", 1)
	c.require("records deleted", 1)
	c.require("resets", 1)
	if len(poskeys) > 1 {
		c.violate("position-key", "", "position", "-", "the position of a history is not always kept under the same key")
	}
	for h := range wrote {
		if !reset[h] {
			c.violate("no-reset", "", h, "-", "no reset operation clears the history "+h)
		}
		if j.all[h] {
			c.violate("shared", "", h, "-", "a history shares the bucket of a queue")
		}
	}
	c.count("histories", len(wrote))
	c.require("histories", 2)
}

// ---- C33 ----

type pushMon struct {
	j      *jobStore
	pushes bool
}

func (m *pushMon) Event(e *Engine, s *State, ev *Event) {
	unl, end := watchLocks(s, ev)
	if unl {
		s.set("fresh", nil)
	}
	if end {
		s.set("dirty", nil)
		if ev.name == "abort" {
			s.set("pushed", nil)
		}
	}
	switch {
	case ev.kind == "db" && ev.name == "next":
		s.set("fresh", nil)
		if len(s.all("lk")) > 0 && !s.has("dirty", ev.args[0]) {
			s.set("fresh", mk("pair", "", ev.res[0], ev.args[0]))
		}
	case ev.kind == "db" && ev.name == "put" && m.j.queue(ev.args[0]) != "" && ev.ok == 1:
		key, b := ev.args[1], ev.args[0]
		base, _ := fieldChanges(ev.args[2])
		if key.op == "iterk" && key.args[0] == b && base == mk("loaded", "", b, key) {
			return // an entry stored back
		}
		e.count("jobs queued")
		m.pushes = true
		fr := s.get("fresh")
		if fr == nil || fr.args[0] != key || fr.args[1] != b {
			e.violate(s, ev, "identity", m.j.queue(b), "a job is queued under "+short(key)+", which was not taken from the queue's sequence under the lock held here")
		}
		if ev.args[3] == tTrue {
			s.addTo("dirty", b)
		}
		s.set("fresh", nil)
		if s.get("pushed") != nil {
			e.violate(s, ev, "two", m.j.queue(b), "a job is queued twice")
		}
		s.set("pushed", base)
	case isEntryRet(ev) && okRet(ev) && m.pushes:
		if s.get("pushed") == nil || len(s.all("tx")) > 0 {
			e.violate(s, ev, "lost", "push", "a queueing operation succeeds without having stored the job")
		}
	}
}

func checkC33(c *Ctx) {
	j := jobStoreOf(c)
	for _, m := range j.entries {
		// a first run finds out whether the operation queues jobs at all
		pm := &pushMon{j: j}
		p0 := false
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && ev.name == "put" && j.queue(ev.args[0]) != "" && ev.args[1].op != "iterk" {
				p0 = true
			}
		}), runOpt{pkgs: []string{"jobs"}})
		pm.pushes = p0
		c.run(m, pm, runOpt{pkgs: []string{"jobs"}})
	}
	c.require("jobs queued", 2)
	checkSequence(c)
}

// checkSequence: the key sequence of a bucket.
func checkSequence(c *Ctx) {
	for _, m := range []string{"libdb.levelDbHandle.NextSequence"} {
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			watchLocks(s, ev)
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.name, "leveldb.DB.NewIterator"):
				if len(s.all("lk")) == 0 {
					e.violate(s, ev, "seq-lock", "NextSequence", "the highest key is looked up without holding the sequence lock")
				}
				a := ev.args[1]
				if a != fld(paramOf(c.P.fn(m), 0), "prefixBytes") {
					e.violate(s, ev, "seq-range", "NextSequence", "the highest key is looked up in "+short(a)+", not among the bucket's own keys")
				}
			case ev.kind == "call" && strings.HasSuffix(ev.name, "iterator.IteratorSeeker.Last"), ev.kind == "call" && strings.HasSuffix(ev.name, "terator.Last"):
				s.set("last", ev.res[0])
			case ev.kind == "assume":
				// no key yet, or the last one is not a number
				if l := s.get("last"); l != nil && s.facts.maskBool(l) == 2 {
					s.setB("none", true)
				}
				for t := range s.facts.rng {
					if t.op == "len" && s.facts.rngMask(t, 8)&mEQ == 0 {
						s.setB("none", true)
					}
				}
			case isEntryRet(ev):
				e.count("sequence results")
				v := e.bytesOf(s, ev.args[0])
				if !v.isApp("be64") {
					e.violate(s, ev, "seq-form", "NextSequence", "the key returned is "+short(v)+", not an 8-byte big-endian number")
					return
				}
				x := v.args[0]
				last := s.get("last")
				if last == nil {
					e.violate(s, ev, "seq-last", "NextSequence", "a key is returned without looking at the highest one")
					return
				}
				ok := false
				if x == tInt(0) {
					ok = s.is("none")
				} else {
					y := plus(x, tInt(-1))
					if y.isApp("encoding/binary.bigEndian.Uint64") && s.facts.maskBool(last) == 1 {
						k := y.args[len(y.args)-1]
						pre := fld(paramOf(c.P.fn(m), 0), "keyPrefix")
						ok = (k.isApp("strings.TrimPrefix") && k.args[1] == pre || k.isApp("slice") && k.args[1] == mk("len", "", pre)) && k.args[0].contains(last.args[0])
					}
				}
				if !ok {
					e.violate(s, ev, "seq-next", "NextSequence", "the key returned is the number "+short(x)+", not the successor of the bucket's highest key")
				}
			}
		}), runOpt{pkgs: []string{"libdb"}, noDb: true})
	}
	c.require("sequence results", 1)
}

// ---- C29 ----

type retireMon struct {
	j       *jobStore
	m       string
	job     *Term
	queues  map[string]bool
	hist    map[bool]map[string]bool // failed? -> histories written
	retires bool
}

func (m *retireMon) Event(e *Engine, s *State, ev *Event) {
	_, end := watchLocks(s, ev)
	if end && ev.name == "abort" {
		s.set("rec", nil)
		s.set("del", nil)
	}
	fail := fld(m.job, "failure")
	switch {
	case ev.kind == "db" && ev.name == "delete" && m.j.queue(ev.args[0]) != "":
		m.retires = true
		if ev.args[1] != fld(m.job, "id") {
			e.violate(s, ev, "other-job", m.m, "retiring a job removes the entry "+short(ev.args[1])+", not the job's own")
		}
		m.queues[m.j.queue(ev.args[0])] = true
		if ev.ok == 1 {
			e.count("queue removals")
			s.set("del", tTrue)
		}
	case ev.kind == "db" && ev.name == "put" && ev.ok == 1 && m.j.queue(ev.args[0]) == "" && oneName(ev.args[0]) != "":
		e.count("outcomes recorded")
		base, ch := fieldChanges(ev.args[2])
		failed := s.facts.maskOf(fail, tNil)
		if failed&mEQ != 0 && failed&mNE != 0 {
			e.violate(s, ev, "outcome", m.m, "a job's outcome is recorded on a path where it is not known whether it failed")
			return
		}
		isF := failed&mEQ == 0
		m.hist[isF][oneName(ev.args[0])] = true
		if !zeroVal(base) {
			e.violate(s, ev, "record", m.m, "what is recorded is not built from the retired job alone")
		}
		if ch["Timing"] != fld(m.job, "Timing") {
			e.violate(s, ev, "timing", m.m, "the job is recorded without its timing")
		}
		if ch["Description"] != fld(m.job, "description") {
			e.violate(s, ev, "description", m.m, "the job is recorded without its description")
		}
		f, er := ch["Failed"], ch["Error"]
		if isF && (f == nil || e.knownBool(s, f) != 1 || er == nil || !er.isApp("error.Error") || er.args[0] != fail) {
			e.violate(s, ev, "failed", m.m, "a failed job is recorded without its error")
		}
		if !isF && (f != nil && e.knownBool(s, f) != 2 || er != nil && er != tStr("")) {
			e.violate(s, ev, "succeeded", m.m, "a completed job is recorded as failed")
		}
		if s.is("rec") {
			e.violate(s, ev, "two", m.m, "a job is recorded twice")
		}
		s.setB("rec", true)
	case isEntryRet(ev) && okRet(ev) && m.retires:
		e.count("retirements")
		if !s.is("del") {
			e.violate(s, ev, "kept", m.m, "a retired job stays in its queue")
		}
		if !s.is("rec") {
			e.violate(s, ev, "unrecorded", m.m, "a retired job is not recorded in a history")
		}
	}
}

type workerMon struct {
	c    *Ctx
	self *Term
}

// job of the current round
func (w *workerMon) Event(e *Engine, s *State, ev *Event) {
	j := s.get("!job")
	dyn := func(f string) bool {
		return ev.kind == "call" && ev.name == "dynamic" && len(ev.args) > 0 && ev.args[0] == fld(w.self, f)
	}
	now := func(k string) string { return "!" + k }
	switch {
	case ev.kind == "recv" && ev.args[0] == fld(w.self, "exit"):
		s.setB("stop", true)
	case ev.kind == "recv":
		s.set(now("fired"), tTrue)
		s.set(now("armed"), nil)
	case ev.kind == "call" && strings.HasPrefix(ev.name, "time.") && (strings.HasSuffix(ev.name, "Timer.Reset") || strings.HasSuffix(ev.name, ".NewTimer") || strings.HasSuffix(ev.name, ".After")):
		s.set(now("armed"), tTrue)
	case ev.kind == "call" && ev.name == "time.NewTicker":
		s.setB("ticker", true)
	case ev.kind == "loop.iter" && s.get("round") == nil:
		s.set("!x", nil)
	case dyn("fetcher") && ev.ok == 1:
		e.count("jobs fetched")
		if j != nil {
			e.violate(s, ev, "dropped", "fetch", "another job is fetched before the last one was retired")
		}
		s.set("!job", ev.res[0])
		for _, k := range []string{"!handler", "!hfail", "!exec", "!retired", "!endt"} {
			s.set(k, nil)
		}
	case ev.kind == "call" && ev.name == jobsPath+"NewJobHandler":
		e.count("handlers made")
		if j == nil || ev.args[0] != j {
			e.violate(s, ev, "handler", "NewJobHandler", "a handler is made for something that is not the job fetched")
			return
		}
		if ev.ok == 2 {
			s.set("!hfail", ev.res[1])
		} else {
			s.set("!handler", ev.res[0])
		}
	case ev.kind == "call" && strings.HasSuffix(ev.name, "JobHandler.Execute"):
		e.count("executions")
		if s.get("!handler") == nil || ev.args[0] != s.get("!handler") {
			e.violate(s, ev, "executes", "Execute", "something other than the fetched job's handler is executed")
		}
		if s.get("!exec") != nil {
			e.violate(s, ev, "twice", "Execute", "a job is executed twice")
		}
		if ev.ok == 2 {
			s.set("!exec", ev.res[0])
		} else {
			s.set("!exec", tNil)
		}
	case ev.kind == "call" && ev.name == "time.Now":
		if s.get("!exec") != nil || s.get("!hfail") != nil {
			s.set("!endt", ev.res[0])
		}
	case dyn("reaper"):
		e.count("jobs retired")
		if j == nil || ev.args[1] != j {
			e.violate(s, ev, "reaps", "retire", "something other than the job fetched is retired")
			return
		}
		if s.get("!retired") != nil {
			e.violate(s, ev, "reaps", "retire", "a job is retired twice")
		}
		s.set("!retired", tTrue)
		var failed *Term
		switch {
		case s.get("!hfail") != nil:
			failed = s.get("!hfail")
		case s.get("!exec") == nil:
			e.violate(s, ev, "unexecuted", "retire", "a job is retired without having been executed")
			return
		case s.get("!exec") != tNil:
			failed = s.get("!exec")
		}
		f := e.field(s, j, "failure")
		if failed != nil && f != failed && s.facts.maskOf(f, failed) != mEQ {
			e.violate(s, ev, "outcome", "failure", "a job whose handling failed is retired without its error")
		}
		if failed == nil && f != fld(j, "failure") && f != tNil {
			e.violate(s, ev, "outcome", "success", "a job that succeeded is retired as failed")
		}
		if h := s.get("!handler"); h != nil {
			d := e.field(s, j, "description")
			if !(d.op == "call" || d.op == "opq" || d.op == "app") || !strings.Contains(d.aux, "Describe") {
				e.violate(s, ev, "description", "description", "a job is retired without its description")
			}
		}
		end := e.field(s, fld(j, "Timing"), "End")
		if x, ok := s.heap[addrOf(addrOf(j, "Timing"), "End")]; ok {
			end = x
		}
		if _, ch := fieldChanges(e.field(s, j, "Timing")); ch["End"] != nil {
			end = ch["End"] // the times are replaced together
		}
		if !utcNow(end) || s.get("!endt") == nil {
			e.violate(s, ev, "end", "Timing.End", "a job is retired without the time at which it ended")
		}
	case ev.kind == "loop.back" && s.get("!job") != nil, isEntryRet(ev) && s.get("!job") != nil:
		if s.get("!retired") == nil {
			e.violate(s, ev, "lost", "round", "the worker goes on without retiring the job it fetched")
		}
		w.wake(e, s, ev)
	case ev.kind == "loop.back":
		w.wake(e, s, ev)
	case isEntryRet(ev):
		e.count("worker exits")
		if !s.is("stop") {
			e.violate(s, ev, "exit", "Start", "a worker ends without having been told to")
		}
	}
}

func (w *workerMon) wake(e *Engine, s *State, ev *Event) {
	if ev.kind == "loop.back" && s.get("!fired") != nil && s.get("!armed") == nil && !s.is("ticker") {
		e.violate(s, ev, "asleep", "timer", "the worker goes round without setting its timer again: it never wakes up")
	}
}

func checkC29(c *Ctx) {
	j := jobStoreOf(c)
	st := c.P.fn("jobs.Worker.Start")
	if st == nil {
		c.violate("anchor", "", "jobs.Worker.Start", "-", "the worker's loop was not found")
		return
	}
	c.run("jobs.Worker.Start", &workerMon{c: c, self: paramOf(st, 0)}, runOpt{pkgs: []string{"jobs"}, ext: opaqueFns("jobs.NewJobHandler", "jobs.NewJobHandler")})
	c.require("jobs fetched", 1)
	c.require("handlers made", 1)
	c.require("executions", 1)
	c.require("jobs retired", 1)
	c.require("worker exits", 1)
	// retire operations
	hist := map[bool]map[string]bool{true: {}, false: {}}
	retires := map[string]map[string]bool{}
	for _, m := range j.entries {
		fn := c.P.fn(m)
		if len(fn.Params) != 2 || !strings.HasSuffix(fn.Params[1].Type().String(), "jobs.JobEntry") {
			continue
		}
		r := &retireMon{j: j, m: strings.TrimPrefix(m, "jobs.JobStore."), job: paramOf(fn, 1), queues: map[string]bool{}, hist: hist}
		c.run(m, r, runOpt{pkgs: []string{"jobs"}})
		if r.retires {
			retires[m[strings.LastIndex(m, ".")+1:]] = r.queues
		}
	}
	c.require("retirements", 1)
	c.require("outcomes recorded", 1)
	for h := range hist[true] {
		if hist[false][h] {
			c.violate("mixed", "", h, "-", "failed and completed jobs share the history "+h)
		}
	}
	if len(hist[true]) != 1 || len(hist[false]) != 1 {
		c.violate("histories", "", "histories", "-", "failed or completed jobs are not recorded in one fixed history each")
	}
	// status requests read the right one
	for _, x := range []struct {
		m string
		h map[string]bool
	}{{"jobs.JobStore.FailedJobs", hist[true]}, {"jobs.JobStore.CompletedJobs", hist[false]}} {
		c.run(x.m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && ev.name == "foreach" {
				e.count("history listings")
				if !x.h[oneName(ev.args[0])] {
					e.violate(s, ev, "listing", x.m, "the listing reads "+bucketKind(ev.args[0]))
				}
			}
		}), runOpt{pkgs: []string{"jobs"}})
	}
	c.require("history listings", 2)
	// a worker's claim and retire operations belong to the same queue
	method := func(t *Term, of []string) string {
		if t == nil || t.op != "closure" {
			return ""
		}
		for _, m := range of {
			if strings.Contains(t.aux, "."+m+"$") {
				return m
			}
		}
		return ""
	}
	var claims, rets []string
	for _, m := range j.claims {
		claims = append(claims, m[strings.LastIndex(m, ".")+1:])
	}
	for m := range retires {
		rets = append(rets, m)
	}
	for _, ctor := range []string{"jobs.NewWorkerAsync", "jobs.NewWorkerSequential"} {
		c.run(ctor, monFunc(func(e *Engine, s *State, ev *Event) {
			if !isEntryRet(ev) {
				return
			}
			e.count("workers constructed")
			f, r := method(e.field(s, ev.args[0], "fetcher"), claims), method(e.field(s, ev.args[0], "reaper"), rets)
			if f == "" || r == "" {
				e.violate(s, ev, "pairing", ctor, "the worker's claim and retire operations are not the job store's")
				return
			}
			for _, q := range j.queues["jobs.JobStore."+f] {
				if !retires[r][q] || len(retires[r]) != 1 {
					e.violate(s, ev, "pairing", ctor, "jobs claimed with "+f+" are retired with "+r+", which removes them from another queue")
				}
			}
		}), runOpt{pkgs: []string{"jobs"}})
	}
	c.require("workers constructed", 2)
}
