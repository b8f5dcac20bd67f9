package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34-C37: the database layer. Everything is decided on the methods of the
// handles a program really gets: libdb.Open is followed, then Bucket and
// Update on what it returns, and each operation is analysed on each of those
// handles, down to the calls of goleveldb.

func init() {
	register("C34", "transactions apply completely or not at all", checkC34)
	register("C35", "buckets are isolated from each other", checkC35)
	register("C36", "iteration data is not kept without a copy", checkC36)
	register("C37", "objects are encoded and decoded independently", checkC37)
}

const ldbPath = "github.com/syndtr/goleveldb/leveldb."

type dbHandle struct {
	label  string
	st     *State
	h      *Term
	tx     bool
	depth  int
	names  []*Term
	batch  *Term
	prefix map[string]*Term // what precedes the identity in the storage key, per operation
}

type dbLayer struct {
	c       *Ctx
	handles []*dbHandle
	funcs   map[string]*ssa.Function
	path    *Term
}

func (d *dbLayer) method(h *Term, name string) *ssa.Function {
	t := h.typ
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	p := d.c.P.pkgs["libdb"]
	if p == nil {
		return nil
	}
	sel := d.c.P.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(p.Pkg, name)
	if sel == nil {
		return nil
	}
	return d.c.P.prog.MethodValue(sel)
}

// stage runs a step whose outcome later steps start from.
func (d *dbLayer) stage(fn *ssa.Function, ctx string, args []*Term, st *State, mon Monitor) []*Outcome {
	e := newEngine(d.c.P, mon)
	e.entry = ctx
	e.dbModel = false
	e.inline = func(f *ssa.Function) bool { return true }
	for k, f := range d.funcs {
		e.funcs[k] = f
	}
	outs := e.run(fn, args, nil, st.clone(), ctx, nil)
	for k, f := range e.funcs {
		d.funcs[k] = f
	}
	for p := range e.problems {
		d.c.violate("undecided", shortFn(fn), p, d.c.P.pos(fn.Pos()), "analysis could not decide: "+p)
	}
	return outs
}

var nopMon = monFunc(func(*Engine, *State, *Event) {})

func newDbLayer(c *Ctx) *dbLayer {
	d := &dbLayer{c: c, funcs: map[string]*ssa.Function{}}
	open := c.P.fn("libdb.Open")
	if open == nil {
		c.violate("anchor", "", "libdb.Open", "-", "not found")
		return d
	}
	d.path = mk("param", "path")
	sym := func(n string) *Term { t := mk("param", n); t.typ = types.NewSlice(types.Typ[types.Byte]); return t }
	for _, o := range d.stage(open, "open", []*Term{d.path}, newState(), nopMon) {
		if len(o.rets) == 2 && o.rets[1] == tNil {
			d.handles = append(d.handles, &dbHandle{label: "the database", st: o.st, h: o.rets[0]})
		}
	}
	bucket := func(h *dbHandle, name, label string) *dbHandle {
		fn := d.method(h.h, "Bucket")
		if fn == nil {
			c.violate("anchor", "", "Bucket", "-", "the method is not found on "+h.label)
			return nil
		}
		n := sym(name)
		outs := d.stage(fn, "bucket"+name, []*Term{h.h, n}, h.st, nopMon)
		var out *dbHandle
		for _, o := range outs {
			if len(o.rets) != 1 {
				continue
			}
			if out != nil && (out.h != o.rets[0] || true) {
				c.violate("undecided", "Bucket", label, c.P.pos(fn.Pos()), "the bucket got depends on more than the database and the name")
				return nil
			}
			out = &dbHandle{label: label, st: o.st, h: o.rets[0], tx: h.tx, depth: h.depth + 1, names: append(append([]*Term{}, h.names...), n)}
		}
		return out
	}
	add := func(h *dbHandle) *dbHandle {
		if h != nil {
			d.handles = append(d.handles, h)
		}
		return h
	}
	if len(d.handles) != 1 {
		c.violate("undecided", "libdb.Open", "handle", c.P.pos(open.Pos()), "what opening a database returns is not known")
		return d
	}
	root := d.handles[0]
	b1 := add(bucket(root, "bucketA", "a bucket"))
	if b1 != nil {
		add(bucket(b1, "bucketB", "a bucket of a bucket"))
	}
	for _, h := range []*dbHandle{root, b1} {
		if h == nil {
			continue
		}
		fn := d.method(h.h, "Update")
		if fn == nil {
			c.violate("anchor", "", "Update", "-", "the method is not found on "+h.label)
			continue
		}
		f := mk("param", "f")
		var tx *dbHandle
		d.stage(fn, "update", []*Term{h.h, f}, h.st, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "call" && ev.name == "dynamic" && ev.args[0] == f && len(ev.args) > 1 && tx == nil {
				tx = &dbHandle{label: "a transaction on " + h.label, st: s.clone(), h: ev.args[1], tx: true, depth: h.depth, names: h.names}
			}
		}))
		if tx == nil {
			c.violate("handle", shortFn(fn), h.label, c.P.pos(fn.Pos()), "the function of the transaction is not given a handle")
			continue
		}
		add(tx)
		add(bucket(tx, "bucketC", "a bucket of "+tx.label))
	}
	c.count("handles", len(d.handles))
	c.require("handles", 7)
	return d
}

// run analyses an operation on a handle.
func (d *dbLayer) run(h *dbHandle, op string, mon Monitor, args ...*Term) {
	fn := d.method(h.h, op)
	if fn == nil {
		d.c.violate("anchor", "", op, "-", "the method is not found on "+h.label)
		return
	}
	d.c.runFn(op+" on "+h.label, fn, mon, runOpt{noDb: true, inline: func(*ssa.Function) bool { return true }, funcs: d.funcs, state: h.st, argv: append([]*Term{h.h}, args...)})
}

// again runs an operation for a second time on a handle: what the first run
// left behind in the handle must not get in the way.
func (d *dbLayer) again(h *dbHandle, op, what string, args ...*Term) {
	fn := d.method(h.h, op)
	if fn == nil {
		return
	}
	argv := append([]*Term{h.h}, args...)
	for _, o := range d.stage(fn, "first"+op, argv, h.st, &codec{what: what}) {
		if len(o.rets) == 0 || o.rets[len(o.rets)-1] != tNil {
			continue
		}
		d.c.runFn(what, fn, &codec{what: what}, runOpt{noDb: true, inline: func(*ssa.Function) bool { return true }, funcs: d.funcs, state: o.st, argv: argv})
	}
}

func dbParam(n string) *Term { return mk("param", n) }

func ldb(ev *Event, names ...string) bool {
	if ev.kind != "call" {
		return false
	}
	for _, n := range names {
		if ev.name == ldbPath+n {
			return true
		}
	}
	return false
}

// pieces of a byte string that is put together.
func (e *Engine) pieces(s *State, t *Term) []*Term {
	t = stripStr(e.bytesOf(s, t))
	switch {
	case t.isApp("cat"):
		var out []*Term
		for _, x := range t.args {
			if x.op == "list" {
				out = append(out, e.pieces(s, x)...)
			} else {
				out = append(out, x)
			}
		}
		return cat(out...).catArgs()
	case t.op == "list":
		var out []*Term
		for _, x := range t.args {
			if x.op != "spread" {
				return []*Term{t}
			}
			out = append(out, e.pieces(s, x.args[0])...)
		}
		return cat(out...).catArgs()
	}
	return []*Term{t}
}
func (t *Term) catArgs() []*Term {
	if t.isApp("cat") {
		return t.args
	}
	return []*Term{t}
}

// failing keeps track of failed steps, and holds the operation to reporting them.
func failing(e *Engine, s *State, ev *Event, what string) {
	if ev.kind == "call" && ev.ok == 2 && !strings.HasSuffix(ev.name, ".Close") {
		s.setB("failed", true)
	}
	if isEntryRet(ev) && okRet(ev) && s.is("failed") {
		e.violate(s, ev, "swallowed", what, what+" succeeds although a step of it failed")
	}
	if isEntryRet(ev) && ev.ok == 2 && !s.is("failed") && !s.is("refused") {
		e.violate(s, ev, "refuses", what, what+" reports an error although nothing of it failed")
	}
}

func checkC34(c *Ctx) {
	d := newDbLayer(c)
	id, obj := dbParam("id"), dbParam("object")
	for _, h := range d.handles {
		for _, op := range []string{"PutObject", "DeleteObject"} {
			h, op := h, op
			verb := strings.TrimSuffix(op, "Object")
			what := op + " on " + h.label
			args := []*Term{id}
			if verb == "Put" {
				args = append(args, obj)
			}
			d.run(h, op, monFunc(func(e *Engine, s *State, ev *Event) {
				switch {
				case ldb(ev, "DB.Put", "DB.Delete", "DB.Write"):
					if h.tx {
						e.violate(s, ev, "direct", what, what+" writes straight to storage: it takes effect even if the transaction is given up")
						break
					}
					if ev.ok == 2 {
						break
					}
					if ldb(ev, "DB.Write") {
						if !s.has("batched", ev.args[1]) {
							e.violate(s, ev, "other", what, what+" writes something else to storage")
						}
						s.remFrom("batched", func(t *Term) bool { return t == ev.args[1] })
					} else if !ldb(ev, "DB."+verb) {
						e.violate(s, ev, "other", what, what+" writes something else to storage")
					}
					if s.is("done") {
						e.violate(s, ev, "twice", what, what+" writes to storage more than once")
					}
					s.setB("done", true)
				case ldb(ev, "Batch.Put", "Batch.Delete"):
					if !ldb(ev, "Batch."+verb) {
						e.violate(s, ev, "other", what, what+" records something else in the transaction")
					}
					if !h.tx {
						s.addTo("batched", ev.args[0])
						break
					}
					if h.batch == nil {
						h.batch = ev.args[0]
					}
					if h.batch != ev.args[0] {
						e.violate(s, ev, "batch", what, what+" is recorded in different places")
					}
					if s.is("done") {
						e.violate(s, ev, "twice", what, what+" is recorded more than once")
					}
					s.setB("done", true)
				case ldb(ev, "Batch.Reset", "Batch.Replay", "Batch.Load"):
					if h.tx {
						e.violate(s, ev, "reset", what, what+" drops what the transaction has collected")
					}
				case ev.kind == "assume":
					if s.is("refused") {
						break
					}
					for t := range s.facts.boolv {
						if t.isApp("strings.HasPrefix") && t.args[0] == id && s.facts.maskBool(t) == 1 {
							s.setB("refused", true)
						}
					}
				case isEntryRet(ev):
					e.count("writes")
					if okRet(ev) && !s.is("done") {
						e.violate(s, ev, "lost", what, what+" succeeds without anything being written or recorded")
					}
					if ev.ok == 2 && s.is("done") && !s.is("failed") {
						e.violate(s, ev, "half", what, what+" fails after its change was made")
					}
				}
				if ev.ok == 2 && s.is("done") && ev.kind == "call" && ldb(ev, "DB.Put", "DB.Delete", "DB.Write") {
					s.remFrom("done", func(*Term) bool { return true })
				}
				failing(e, s, ev, what)
			}), args...)
		}
	}
	c.require("writes", 14)
	// the transaction itself
	for _, h := range d.handles {
		h := h
		if h.tx {
			continue
		}
		f := dbParam("f")
		what := "Update on " + h.label
		var batch *Term
		for _, g := range d.handles {
			if g.tx && g.label == "a transaction on "+h.label {
				batch = g.batch
			}
		}
		if batch == nil && h.depth < 2 {
			c.violate("batch", what, what, "-", "what is put through the handle of a transaction is not collected")
			continue
		}
		d.run(h, "Update", monFunc(func(e *Engine, s *State, ev *Event) {
			switch {
			case ev.kind == "go":
				e.violate(s, ev, "go", what, "the transaction is carried out in the background")
			case ev.kind == "call" && ev.name == "dynamic" && ev.args[0] == f:
				if s.is("ran") || s.is("gave up") {
					e.violate(s, ev, "twice", what, "the function of the transaction is called more than once")
				}
				if ev.ok == 2 {
					s.set("gave up", ev.res[0])
				} else {
					s.setB("ran", true)
				}
			case ldb(ev, "DB.Write"):
				e.count("transactions written")
				if !s.is("ran") {
					e.violate(s, ev, "early", what, "a transaction is written although its function has not succeeded")
				}
				b := ev.args[1]
				if s.is("written") {
					e.violate(s, ev, "atomic", what, "a transaction is written in more than one step")
				}
				if batch != nil && norm(b) != norm(batch) {
					e.violate(s, ev, "batch", what, "what is written is not what was collected: "+short(b))
				}
				if b.op != "alloc" && b.op != "call" {
					e.violate(s, ev, "shared", what, "the transaction collects its changes in "+short(b)+", which it shares with others")
				}
				for _, v := range h.st.heap {
					if v == b {
						e.violate(s, ev, "shared", what, "the transaction collects its changes where other transactions do")
					}
				}
				if ev.ok != 2 {
					s.setB("written", true)
				}
			case ldb(ev, "DB.Put", "DB.Delete"):
				e.violate(s, ev, "atomic", what, "a transaction is written in more than one step")
			case ldb(ev, "Batch.Reset"):
				if s.is("ran") && !s.is("written") {
					e.violate(s, ev, "dropped", what, "what the transaction has collected is dropped")
				}
			case isEntryRet(ev):
				e.count("transactions")
				if okRet(ev) && !s.is("written") {
					e.violate(s, ev, "lost", what, "the transaction succeeds without having been written")
				}
				if g := s.get("gave up"); g != nil && okRet(ev) {
					e.violate(s, ev, "gave-up", what, "the transaction succeeds although its function failed")
				}
			}
			failing(e, s, ev, what)
		}), f)
	}
	c.require("transactions", 3)
	c.require("transactions written", 3)
	// reads report what storage reports
	out := dbParam("out")
	for _, h := range d.handles {
		h := h
		for _, op := range []string{"GetObject", "HasObject"} {
			what := op + " on " + h.label
			op := op
			args := []*Term{id}
			if op == "GetObject" {
				args = append(args, out)
			}
			d.run(h, op, monFunc(func(e *Engine, s *State, ev *Event) {
				if ldb(ev, "DB.Get") && ev.ok == 1 {
					s.set("read", ev.res[0])
				}
				if ldb(ev, "DB.Has") && ev.ok == 1 {
					s.set("read", ev.res[0])
				}
				if ev.kind == "call" && strings.HasSuffix(ev.name, "gob.Decoder.Decode") && ev.ok == 1 && ev.args[1] == out {
					s.setB("decoded", true)
				}
				if isEntryRet(ev) {
					e.count("reads")
					if okRet(ev) {
						r := s.get("read")
						if r == nil {
							e.violate(s, ev, "unread", what, what+" succeeds without having read storage")
						} else if op == "HasObject" && ev.args[0] != r && !(s.facts.maskBool(r) != 3 && s.facts.maskBool(r) == s.facts.maskBool(ev.args[0])) {
							e.violate(s, ev, "unread", what, what+" does not report what storage does")
						} else if op == "GetObject" && !s.is("decoded") {
							e.violate(s, ev, "unread", what, what+" succeeds without having decoded the object")
						}
					}
				}
				failing(e, s, ev, what)
			}), args...)
		}
	}
	c.require("reads", 14)
	// no transaction inside a transaction: it would be written on its own
	for _, m := range append(c.managerEntries(), c.methodsOf("jobs.JobStore")...) {
		pk := []string{"core"}
		if strings.HasPrefix(m, "jobs.") {
			pk = []string{"jobs"}
		}
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind != "db" {
				return
			}
			switch ev.name {
			case "begin":
				e.count("transactions begun")
				if s.is("intx") {
					e.violate(s, ev, "nested", m, "a transaction is begun inside another: its changes are written even if the outer one is given up")
				}
				s.setB("intx", true)
			case "commit", "abort":
				s.setB("intx", false)
			}
		}), runOpt{pkgs: pk, noIndex: true})
	}
	c.require("transactions begun", 10)
}

// norm renames what only depends on the step a value was made in.
func norm(t *Term) string {
	x := t.String()
	for _, p := range []string{"update", "bucketC", "bucketA", "bucketB", "open"} {
		x = strings.ReplaceAll(x, p+"/", "")
		x = strings.ReplaceAll(x, p+"#", "#")
	}
	return x
}

// ---- C35 ----

func checkC35(c *Ctx) {
	d := newDbLayer(c)
	id, obj, out := dbParam("id"), dbParam("object"), dbParam("out")
	type keyed struct {
		h   *dbHandle
		pre []*Term
	}
	var ks []keyed
	pos := "-"
	for _, h := range d.handles {
		h := h
		h.prefix = map[string]*Term{}
		for _, op := range []string{"PutObject", "DeleteObject", "GetObject", "HasObject"} {
			op := op
			what := op + " on " + h.label
			args := []*Term{id}
			switch op {
			case "PutObject":
				args = append(args, obj)
			case "GetObject":
				args = append(args, out)
			}
			d.run(h, op, monFunc(func(e *Engine, s *State, ev *Event) {
				if ldb(ev, "DB.Put", "DB.Delete", "DB.Get", "DB.Has", "Batch.Put", "Batch.Delete") {
					e.count("storage keys")
					ps := e.pieces(s, ev.args[1])
					k := len(ps) - 1
					if ps[k] != id {
						e.violate(s, ev, "key", what, "the object is not stored under its own identity but under "+short(ev.args[1]))
						return
					}
					pre := mk("list", "", ps[:k]...)
					if h.prefix[op] == nil {
						h.prefix[op] = pre
					}
					if h.prefix["PutObject"] != pre {
						e.violate(s, ev, "where", what, op+" looks elsewhere than where objects of the bucket are put")
					}
					// a handle and the transaction on it mean the same bucket
					for _, g := range d.handles {
						if g != h && g.depth == h.depth && len(g.names) == len(h.names) && sameNames(g.names, h.names) && g.prefix["PutObject"] != nil && g.prefix["PutObject"] != pre {
							e.violate(s, ev, "where", what, "objects put in a transaction are not put where those of the bucket are")
						}
					}
					if ldb(ev, "DB.Put", "DB.Delete", "Batch.Put", "Batch.Delete") {
						s.setB("wrote", true)
						if s.is("reserved") {
							e.violate(s, ev, "reserved", what, "a reserved key is written")
						}
					}
				}
				if ev.kind == "assume" {
					for t := range s.facts.boolv {
						if t.isApp("strings.HasPrefix") && t.args[0] == id {
							switch s.facts.maskBool(t) {
							case 1:
								s.setB("reserved", true)
							case 2:
								s.addTo("plain", t.args[1])
							}
						}
					}
				}
				if isEntryRet(ev) && okRet(ev) && s.is("reserved") {
					e.violate(s, ev, "reserved", what, what+" succeeds for a reserved key")
				}
				if isEntryRet(ev) && okRet(ev) && s.is("wrote") {
					pos = c.P.pos(ev.in.Pos())
					// the markers: what the keys of plain and nested buckets begin with
					for _, g := range d.handles {
						m := headOf(g.prefix["PutObject"])
						if m == "" || g.tx || g.depth > 1 {
							continue
						}
						hit := false
						for _, t := range s.all("plain") {
							if x, ok := t.strVal(); ok && x != "" && strings.HasPrefix(m, x) {
								hit = true
							}
						}
						if !hit {
							e.violate(s, ev, "marker", what+" "+m, what+" accepts keys that look like the internal marker "+m)
						}
						e.count("markers refused")
					}
				}
			}), args...)
		}
		p := h.prefix["PutObject"]
		if p == nil {
			c.violate("key", "PutObject on "+h.label, h.label, "-", "objects put in "+h.label+" reach no storage key")
			continue
		}
		ks = append(ks, keyed{h, p.args})
	}
	c.require("storage keys", 28)
	c.require("markers refused", 4)
	// different buckets, different keys
	for _, k := range ks {
		for _, n := range k.h.names {
			found := false
			for i, x := range k.pre {
				if x.contains(n) {
					found = true
					okSep := i+1 < len(k.pre)
					if okSep {
						_, okSep = k.pre[i+1].strVal()
					}
					if !okSep {
						c.violate("separator", "Bucket", k.h.label, pos, "nothing separates the name of "+k.h.label+" from the keys in it: a bucket also shows those of buckets whose names begin like its own")
					}
					c.counts["bucket names"]++
					if !delimited(k.pre, i, n) {
						c.violate("ambiguous", "Bucket", "bucket name", pos, "the name of a bucket is joined to the keys in it without marking where it ends: keys of one bucket can be those of another whose name contains the separator")
					}
				}
			}
			if !found {
				c.violate("name", "Bucket", k.h.label, pos, "the keys in "+k.h.label+" do not depend on its name")
			}
		}
		for _, g := range ks {
			if g.h.depth == k.h.depth || len(g.pre) == 0 || len(k.pre) == 0 {
				continue
			}
			a, _ := g.pre[0].strVal()
			b, _ := k.pre[0].strVal()
			c.counts["levels compared"]++
			if strings.HasPrefix(a, b) {
				c.violate("level", "Bucket", k.h.label+" and "+g.h.label, pos, "keys in "+g.h.label+" can be keys in "+k.h.label)
			}
		}
	}
	c.require("bucket names", 6)
	c.require("levels compared", 10)
	// iteration
	f := dbParam("f")
	for _, h := range d.handles {
		h := h
		p := h.prefix["PutObject"]
		if p == nil {
			continue
		}
		pre := cat(p.args...)
		what := "ForEach on " + h.label
		iter := func(t *Term, m string) *Term { // the iterator whose Key or Value it is
			if t.op == "call" && strings.HasSuffix(t.aux, "terator."+m+".0") || t.op == "call" && strings.HasSuffix(t.aux, "CommonIterator."+m+".0") {
				return t.args[0]
			}
			return nil
		}
		isPre := func(e *Engine, s *State, t *Term) bool { return cat(e.pieces(s, t)...) == pre }
		d.run(h, "ForEach", monFunc(func(e *Engine, s *State, ev *Event) {
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.name, "leveldb.DB.NewIterator"):
				e.count("iterations")
				r := ev.args[1]
				if !(r.op == "call" && strings.HasSuffix(r.aux, "util.BytesPrefix.0")) || !isPre(e, s, r.args[0]) {
					e.violate(s, ev, "range", what, what+" goes over "+short(r)+", not over the keys of the bucket")
				}
			case ev.kind == "loop.iter":
				s.setB("!shown", false)
				s.setB("!in", true)
			case ev.kind == "call" && ev.name == "dynamic" && ev.args[0] == f:
				s.setB("!shown", true)
				s.setB("moved", false)
				e.count("keys shown")
				k, v := stripStr(ev.args[1]), ev.args[2]
				okK := false
				var src *Term
				if k.isApp("strings.TrimPrefix") && isPre(e, s, k.args[1]) {
					src = iter(k.args[0], "Key")
					okK = src != nil
				} else if k.isApp("slice") && (k.args[1] == mk("len", "", pre) || k.args[1].op == "len" && isPre(e, s, k.args[1].args[0]) || constLen(k.args[1], pre)) && k.args[2] == lenOf(s, k.args[0]) {
					src = iter(k.args[0], "Key")
					okK = src != nil
				}
				if !okK {
					e.violate(s, ev, "shown", what, "the key reported is "+short(k)+", not the key the object was stored under")
				}
				if x := iter(v, "Value"); x == nil || src != nil && x != src {
					e.violate(s, ev, "value", what, "the value reported is "+short(v)+", not the stored one")
				}
				if ev.ok == 2 {
					s.setB("stopped", true)
				}
			case ev.kind == "loop.back":
				if !s.is("!shown") {
					e.violate(s, ev, "skipped", what, what+" leaves out some keys of the bucket")
				}
				if s.is("stopped") {
					e.violate(s, ev, "goes-on", what, what+" goes on after its function failed")
				}
			case ev.kind == "call" && strings.Contains(ev.name, "terator") && (strings.HasSuffix(ev.name, ".Next") || strings.HasSuffix(ev.name, ".First")):
				// the key moved to has to be shown before going on
				if s.is("moved") {
					e.violate(s, ev, "skipped", what, what+" leaves out some keys of the bucket")
				}
				s.setB("moved", true)
			case ev.kind == "call" && strings.HasSuffix(ev.name, ".Error") && strings.Contains(ev.name, "terator"):
				s.setB("asked", true)
			case ev.kind == "assume":
				for t := range s.facts.boolv {
					if t.op == "call" && (strings.HasSuffix(t.aux, "terator.Next.0") || strings.HasSuffix(t.aux, "terator.First.0")) && s.facts.maskBool(t) == 2 {
						s.setB("exhausted", true)
						s.setB("moved", false)
					}
				}
			case isEntryRet(ev) && okRet(ev):
				if s.is("stopped") {
					e.violate(s, ev, "goes-on", what, what+" succeeds although its function failed")
				}
				if !s.is("exhausted") {
					e.violate(s, ev, "skipped", what, what+" succeeds before all keys were seen")
				}
				if !s.is("asked") {
					e.violate(s, ev, "unasked", what, what+" succeeds without finding out whether the iteration failed")
				}
			}
			failing(e, s, ev, what)
		}), f)
	}
	c.require("iterations", 7)
	c.require("keys shown", 7)
	_ = token.NoPos
}

func sameNames(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// headOf: the constant keys begin with.
func headOf(p *Term) string {
	if p == nil || len(p.args) == 0 {
		return ""
	}
	x, _ := p.args[0].strVal()
	return x
}

// delimited: the piece holding a name is written so that it cannot run into
// what follows.
func delimited(ps []*Term, i int, n *Term) bool {
	x := ps[i]
	if x != n {
		// an encoding whose results never contain the separator
		sep, _ := "", false
		if i+1 < len(ps) {
			sep, _ = ps[i+1].strVal()
		}
		if sep == "" {
			return false
		}
		switch {
		case strings.Contains(x.aux, "hex.EncodeToString"), strings.Contains(x.aux, "Encoding.EncodeToString"):
			return !strings.ContainsAny(sep[:1], "0123456789abcdefABCDEFghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ+/=_") && !(strings.Contains(x.aux, "Encoding.EncodeToString") && sep[:1] == "-")
		case strings.Contains(x.aux, "url.PathEscape"), strings.Contains(x.aux, "url.QueryEscape"):
			return strings.ContainsAny(sep[:1], "/|\x00#")
		case strings.Contains(x.aux, "strconv.Quote"):
			return true
		}
		return false
	}
	// or its length comes first
	if i >= 2 {
		sep, _ := ps[i-1].strVal()
		l := ps[i-2]
		if sep != "" && (sep[0] < '0' || sep[0] > '9') && l.isApp("dec") && l.args[0].op == "len" && stripStr(l.args[0].args[0]) == n {
			return true
		}
	}
	return false
}

// ---- C36 ----

// escape finds out whether a slice is kept beyond a call.
type escape struct {
	c       *Ctx
	done    map[string]bool
	ret     map[string]bool
	entry   string
	sources int
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// isDbCallback: a function that can be given to an iteration.
func isDbCallback(sig *types.Signature) bool {
	return sig.Params().Len() == 2 && sig.Results().Len() == 1 && isBytes(sig.Params().At(0).Type()) && isBytes(sig.Params().At(1).Type()) && types.Identical(sig.Results().At(0).Type(), types.Universe.Lookup("error").Type())
}

// alias returns which parts of the result of a library call share memory
// with its arguments.
func aliases(name string) bool {
	for _, p := range []string{"bytes.Trim", "bytes.Split", "bytes.Fields", "bytes.Cut", "bytes.NewReader", "bytes.NewBuffer", "slices.Clip", "slices.Grow", "bytes.SplitN"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// follow analyses a function some of whose values are borrowed, and reports
// whether its results are.
func (x *escape) follow(fn *ssa.Function, borrowed map[ssa.Value]bool) bool {
	if fn.Blocks == nil {
		return false
	}
	var keys []string
	for v := range borrowed {
		keys = append(keys, v.Name())
	}
	sort.Strings(keys)
	key := fn.String() + "|" + strings.Join(keys, ",")
	if x.done[key] {
		return x.ret[key]
	}
	x.done[key] = true
	x.c.fns[fn] = true
	bad := func(in ssa.Instruction, what string) {
		x.c.violate("kept", x.entry, shortFn(fn)+" "+what, x.c.P.pos(in.Pos()), "data borrowed from the iteration of the database is "+what+" without being copied")
	}
	T := borrowed
	holder := map[ssa.Value]bool{} // local cells holding borrowed data
	add := func(v ssa.Value) bool {
		if T[v] {
			return false
		}
		T[v] = true
		return true
	}
	reported := map[ssa.Instruction]bool{}
	returns := false
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Slice:
					if T[y.X] || holder[rootOf(y.X)] {
						changed = add(y) || changed
					}
				case *ssa.ChangeType:
					if T[y.X] {
						changed = add(y) || changed
					}
				case *ssa.ChangeInterface:
					if T[y.X] {
						changed = add(y) || changed
					}
				case *ssa.Convert:
					if _, isSlice := y.Type().Underlying().(*types.Slice); isSlice && T[y.X] {
						if _, from := y.X.Type().Underlying().(*types.Slice); from {
							changed = add(y) || changed
						}
					}
				case *ssa.MakeInterface:
					if T[y.X] {
						changed = add(y) || changed
					}
				case *ssa.TypeAssert:
					if T[y.X] {
						changed = add(y) || changed
					}
				case *ssa.Extract:
					if T[y.Tuple] {
						if _, ok := y.Type().Underlying().(*types.Basic); !ok {
							changed = add(y) || changed
						}
					}
				case *ssa.Field:
					if T[y.X] {
						if _, ok := y.Type().Underlying().(*types.Basic); !ok {
							changed = add(y) || changed
						}
					}
				case *ssa.Phi:
					for _, e := range y.Edges {
						if T[e] {
							changed = add(y) || changed
						}
					}
				case *ssa.UnOp:
					if y.Op == token.MUL && holder[rootOf(y.X)] {
						if _, ok := y.Type().Underlying().(*types.Basic); !ok {
							changed = add(y) || changed
						}
					}
				case *ssa.Store:
					if !T[y.Val] {
						continue
					}
					r := rootOf(y.Addr)
					if a, ok := r.(*ssa.Alloc); ok {
						if !holder[a] {
							holder[a] = true
							changed = true
						}
						continue
					}
					if T[r] {
						continue // into what is borrowed itself
					}
					if !reported[in] {
						reported[in] = true
						bad(in, "stored in "+types.TypeString(y.Addr.Type(), func(p *types.Package) string { return p.Name() }))
					}
				case *ssa.MapUpdate:
					if (T[y.Value] || T[y.Key]) && !reported[in] {
						reported[in] = true
						bad(in, "stored in a map")
					}
				case *ssa.Send:
					if T[y.X] && !reported[in] {
						reported[in] = true
						bad(in, "sent to another goroutine")
					}
				case *ssa.Return:
					for _, r := range y.Results {
						if T[r] || holder[rootOf(r)] {
							returns = true
						}
					}
				case *ssa.MakeClosure:
					g := y.Fn.(*ssa.Function)
					fv := map[ssa.Value]bool{}
					for i, b := range y.Bindings {
						if T[b] || holder[b] {
							fv[g.FreeVars[i]] = true
						}
					}
					if len(fv) > 0 && !reported[in] {
						reported[in] = true
						// captured cells: what is loaded from them is borrowed
						h := map[ssa.Value]bool{}
						for v := range fv {
							for _, ref := range *v.Referrers() {
								if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
									h[u] = true
								}
							}
						}
						if len(h) > 0 && x.follow(g, h) {
							returns = true
						}
						for _, ref := range *y.Referrers() {
							switch ref.(type) {
							case *ssa.Call, *ssa.Defer:
							default:
								bad(in, "captured by a function that is kept")
							}
						}
					}
				case ssa.CallInstruction:
					cc := y.Common()
					any := false
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for _, a := range args {
						if T[a] || holder[rootOf(a)] {
							any = true
						}
					}
					if !any {
						continue
					}
					if _, ok := in.(*ssa.Go); ok {
						if !reported[in] {
							reported[in] = true
							bad(in, "given to another goroutine")
						}
						continue
					}
					v, _ := in.(ssa.Value)
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" && v != nil {
							elemRef := false
							if s, ok := v.Type().Underlying().(*types.Slice); ok {
								_, basic := s.Elem().Underlying().(*types.Basic)
								elemRef = !basic
							}
							if T[args[0]] || elemRef && (T[args[1]] || holder[rootOf(args[1])]) {
								changed = add(v) || changed
							}
						}
						continue
					}
					var fns []*ssa.Function
					if sc := cc.StaticCallee(); sc != nil {
						fns = []*ssa.Function{sc}
					} else if cc.IsInvoke() {
						fns = x.c.P.implementations(cc)
					} else {
						// a function value: another callback of the same kind
						if sig, ok := cc.Value.Type().Underlying().(*types.Signature); ok && isDbCallback(sig) {
							continue
						}
						if !reported[in] {
							reported[in] = true
							bad(in, "given to an unknown function")
						}
						continue
					}
					for _, g := range fns {
						if !inRepo(g) {
							if aliases(strings.TrimPrefix(g.RelString(nil), "")) && v != nil {
								changed = add(v) || changed
							}
							continue
						}
						fv := map[ssa.Value]bool{}
						for i, a := range args {
							if (T[a] || holder[rootOf(a)]) && i < len(g.Params) {
								fv[g.Params[i]] = true
							}
						}
						if x.follow(g, fv) && v != nil {
							changed = add(v) || changed
						}
					}
				}
			}
		}
	}
	// a cell holding borrowed data must not outlive the call itself
	for h := range holder {
		a := h.(*ssa.Alloc)
		for _, ref := range *a.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Val == a {
					if _, local := rootOf(r.Addr).(*ssa.Alloc); !local {
						bad(r, "kept in an object that is stored")
					}
				}
			case *ssa.MapUpdate:
				bad(r, "kept in an object that is stored in a map")
			case *ssa.Send:
				bad(r, "kept in an object that is sent")
			}
		}
	}
	x.ret[key] = returns
	return returns
}

// implementations of an interface method in the repository.
func (P *Program) implementations(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, n := range P.named {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if _, isI := n.Underlying().(*types.Interface); isI || !types.Implements(t, it) {
				continue
			}
			if sel := P.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := P.prog.MethodValue(sel); f != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

func checkC36(c *Ctx) {
	x := &escape{c: c, done: map[string]bool{}, ret: map[string]bool{}}
	for _, fn := range c.P.funcs {
		if isDbCallback(fn.Signature) && fn.Signature.Recv() == nil {
			x.entry = shortFn(fn)
			c.entries = append(c.entries, x.entry)
			c.counts["iteration functions"]++
			n := len(fn.Params)
			x.follow(fn, map[ssa.Value]bool{fn.Params[n-2]: true, fn.Params[n-1]: true})
		}
		// and what iterators lend
		src := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && cl.Call.IsInvoke() && (cl.Call.Method.Name() == "Key" || cl.Call.Method.Name() == "Value") && isBytes(cl.Type()) {
					src[cl] = true
					c.counts["keys and values lent by iterators"]++
				}
			}
		}
		if len(src) > 0 {
			x.entry = shortFn(fn)
			if x.follow(fn, src) {
				c.violate("kept", x.entry, shortFn(fn)+" returned", c.P.pos(fn.Pos()), "data borrowed from an iterator is returned without being copied")
			}
		}
	}
	c.require("iteration functions", 5)
	c.require("keys and values lent by iterators", 2)
	// iterators are released
	d := newDbLayer(c)
	for _, h := range d.handles {
		for _, op := range []string{"ForEach", "NextSequence", "GetObject", "HasObject", "PutObject", "DeleteObject"} {
			op := op
			what := op + " on " + h.label
			var args []*Term
			switch op {
			case "ForEach":
				args = []*Term{dbParam("f")}
			case "GetObject", "PutObject":
				args = []*Term{dbParam("id"), dbParam("object")}
			case "HasObject", "DeleteObject":
				args = []*Term{dbParam("id")}
			}
			d.run(h, op, monFunc(func(e *Engine, s *State, ev *Event) {
				switch {
				case ev.kind == "call" && strings.HasSuffix(ev.name, ".NewIterator"):
					e.count("iterators")
					s.addTo("open", ev.res[0])
				case ev.kind == "call" && strings.HasSuffix(ev.name, ".Release") && strings.Contains(ev.name, "terator"), ev.kind == "call" && strings.HasSuffix(ev.name, "util.Releaser.Release"):
					r := ev.args[0]
					if !s.has("open", r) {
						e.violate(s, ev, "released", what, what+" releases an iterator it does not have")
					}
					s.remFrom("open", func(t *Term) bool { return t == r })
					s.addTo("gone", r)
				case ev.kind == "call" && strings.Contains(ev.name, "terator.") && len(ev.args) > 0 && s.has("gone", ev.args[0]) && !strings.HasSuffix(ev.name, ".Error"):
					e.violate(s, ev, "after", what, what+" uses an iterator after releasing it")
				case isEntryRet(ev):
					if len(s.all("open")) > 0 {
						e.violate(s, ev, "leak", what, what+" ends without releasing its iterator")
					}
				}
			}), args...)
		}
	}
	c.require("iterators", 14)
}

// ---- C37 ----

// codec follows the encoders and decoders of an operation.
type codec struct {
	what string
	w    map[string]bool
}

func bytesBuf(t *Term) *Term {
	t = stripStr(t)
	if b := callOf(t, "bytes.Buffer.Bytes"); b != nil {
		return b
	}
	if t.isApp("bytes.Buffer.Bytes") {
		return t.args[0]
	}
	return nil
}

func (k *codec) Event(e *Engine, s *State, ev *Event) {
	if ev.kind == "call" {
		n := ev.name
		switch {
		case n == "encoding/gob.NewEncoder" || n == "encoding/gob.NewDecoder" || n == "encoding/json.NewEncoder" || n == "encoding/json.NewDecoder":
			s.addTo("made", ev.res[0])
		case n == "encoding/gob.Encoder.Encode" || n == "encoding/gob.Encoder.EncodeValue":
			e.count("objects encoded")
			r := ev.args[0]
			if ev.ok == 2 {
				break
			}
			if !s.has("made", r) {
				e.violate(s, ev, "shared", k.what, "an object is encoded with an encoder that is not its own: what is stored cannot be read back alone")
				break
			}
			if s.has("used", r) {
				e.violate(s, ev, "reused", k.what, "an encoder is used for more than one object: what is stored cannot be read back alone")
			}
			s.addTo("used", r)
			w := callOf(r, "encoding/gob.NewEncoder")
			if w == nil {
				break
			}
			if w.op != "alloc" {
				e.violate(s, ev, "buffer", k.what, "an object is encoded into "+short(w)+", which is not its own")
			}
			if s.has("filled", w) {
				e.violate(s, ev, "buffer", k.what, "an object is encoded into a buffer that already holds something")
			}
			s.addTo("filled", w)
			s.addTo("encoded", w)
		case n == "encoding/gob.Decoder.Decode" || n == "encoding/gob.Decoder.DecodeValue":
			e.count("objects decoded")
			r := ev.args[0]
			if ev.ok == 2 {
				break
			}
			if !s.has("made", r) {
				e.violate(s, ev, "shared", k.what, "an object is decoded with a decoder that is not its own: concurrent readers and other values get in its way")
				break
			}
			if s.has("used", r) {
				e.violate(s, ev, "reused", k.what, "a decoder is used for more than one object")
			}
			s.addTo("used", r)
			in := callOf(r, "encoding/gob.NewDecoder")
			var src *Term
			for i := 0; in != nil && i < 4; i++ {
				if in.isApp("bytes.NewReader") || in.isApp("bytes.NewBuffer") {
					src = in.args[0]
					break
				}
				if c1 := callOf(in, "bytes.NewReader"); c1 != nil {
					src = c1
					break
				}
				if c1 := callOf(in, "bytes.NewBuffer"); c1 != nil {
					src = c1
					break
				}
				if c1 := callOf(in, "bufio.NewReader"); c1 != nil {
					in = c1
					continue
				}
				break
			}
			if src == nil && in != nil {
				if !s.has("filled", in) {
					e.violate(s, ev, "input", k.what, "an object is decoded from a buffer the stored value was not put in")
				}
				src = s.get("from:" + in.String())
			}
			s.set("decodedfrom", orNil(src))
		case n == "io.Copy" || n == "bytes.Buffer.Write" || n == "bytes.Buffer.ReadFrom" || n == "bytes.Buffer.WriteString":
			w := ev.args[0]
			if ev.ok == 2 {
				break
			}
			src := ev.args[1]
			if src.isApp("bytes.NewReader") || src.isApp("bytes.NewBuffer") {
				src = src.args[0]
			}
			if s.has("filled", w) {
				s.set("from:"+w.String(), mk("list", "", s.get("from:"+w.String()), src))
			} else {
				s.set("from:"+w.String(), src)
			}
			s.addTo("filled", w)
			if s.has("lent", w) {
				s.addTo("spoilt", w)
			}
		case n == "bytes.Buffer.Bytes":
			s.addTo("lent", ev.args[0])
		case strings.HasPrefix(n, ldbPath) && (strings.HasSuffix(n, ".Put")):
			k.stored(e, s, ev, ev.args[2])
		}
		if ev.ok == 2 && !strings.HasSuffix(n, ".Close") {
			s.setB("failed", true)
		}
	}
	if isEntryRet(ev) && okRet(ev) {
		if s.is("failed") {
			e.violate(s, ev, "swallowed", k.what, k.what+" succeeds although encoding, decoding or storing failed")
		}
		if len(ev.args) > 0 {
			if b := bytesBuf(ev.args[0]); b != nil {
				k.stored(e, s, ev, ev.args[0])
			}
		}
	}
}

// stored: bytes that are stored or handed out are one whole encoded object.
func (k *codec) stored(e *Engine, s *State, ev *Event, v *Term) {
	e.count("encoded objects stored")
	b := bytesBuf(e.bytesOf(s, v))
	if b == nil {
		e.violate(s, ev, "stored", k.what, "what is stored is "+short(v)+", not the encoded object")
		return
	}
	if !s.has("encoded", b) {
		e.violate(s, ev, "stored", k.what, "what is stored is not the encoded object")
	}
	if s.has("spoilt", b) || s.get("from:"+b.String()) != nil {
		e.violate(s, ev, "stored", k.what, "the encoded object is modified before it is stored")
	}
}

func checkC37(c *Ctx) {
	d := newDbLayer(c)
	id, obj, out, in := dbParam("id"), dbParam("object"), dbParam("out"), dbParam("input")
	for _, h := range d.handles {
		k := &codec{what: "PutObject on " + h.label}
		d.run(h, "PutObject", k, id, obj)
		d.again(h, "PutObject", "PutObject on "+h.label+" for the second time", id, obj)
		d.again(h, "GetObject", "GetObject on "+h.label+" for the second time", id, out)
		d.again(h, "Decode", "Decode on "+h.label+" for the second time", in, out)
		for _, op := range []string{"GetObject", "Decode"} {
			op := op
			what := op + " on " + h.label
			k := &codec{what: what}
			a := []*Term{id, out}
			if op == "Decode" {
				a = []*Term{in, out}
			}
			d.run(h, op, monFunc(func(e *Engine, s *State, ev *Event) {
				k.Event(e, s, ev)
				if ldb(ev, "DB.Get") && ev.ok == 1 {
					s.set("value", ev.res[0])
				}
				if isEntryRet(ev) && okRet(ev) {
					want := in
					if op == "GetObject" {
						want = s.get("value")
					}
					if got := s.get("decodedfrom"); got == nil || want == nil || e.bytesOf(s, stripStr(got)) != want {
						e.violate(s, ev, "input", what, "what is decoded is not exactly the stored value")
					}
				}
			}), a...)
		}
	}
	// everything else that encodes or decodes stored objects
	for _, fn := range c.P.funcs {
		if c.fns[fn] || fn.Parent() != nil {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/gob" {
						uses = true
					}
				}
			}
		}
		if uses && fn.Signature.Recv() != nil && len(c.P.referrers(fn)) == 0 {
			continue // nobody calls it
		}
		if uses {
			n := shortFn(fn)
			c.counts["other encoding functions"]++
			c.runFn(n, fn, &codec{what: n}, runOpt{noDb: true, inline: func(*ssa.Function) bool { return true }})
		}
	}
	c.require("objects encoded", 7)
	c.require("objects decoded", 14)
	c.require("encoded objects stored", 7)
	// a decoder leaves fields alone that are missing in what it reads
	for _, m := range append(c.managerEntries(), c.methodsOf("jobs.JobStore")...) {
		pk := []string{"core"}
		if strings.HasPrefix(m, "jobs.") {
			pk = []string{"jobs"}
		}
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "db" && (ev.name == "decode" || ev.name == "get") && ev.ok == 1 {
				e.count("objects loaded")
				if ev.prev != nil {
					e.violate(s, ev, "merged", fmt.Sprint(m, " ", ev.fn), "a stored object is decoded into one that already holds "+short(ev.prev)+": what is missing in the one is taken from the other")
				}
			}
		}), runOpt{pkgs: pk, noIndex: true})
	}
	c.require("objects loaded", 20)
}

// constLen: the length of a constant string.
func constLen(n, str *Term) bool {
	v, ok := str.strVal()
	if !ok {
		return false
	}
	i, ok := n.intVal()
	return ok && i == int64(len(v))
}
