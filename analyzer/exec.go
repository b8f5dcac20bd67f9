package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something the program does on a path.
type Event struct {
	kind string // call, enter, leave, store, mapupdate, mapdelete, go, send, recv, panic, index, tx.begin, tx.commit, tx.abort, loop.iter, loop.back, loop.done, loop.break, return, deref, alloc
	name string
	args []*Term
	res  []*Term
	ok   int // 0 n/a, 1 succeeded, 2 failed
	in   ssa.Instruction
	fn   *ssa.Function
	ctx  string
	site string
	typ  types.Type
	prev *Term       // put/delete: the record before, nil if there is none
	had  int         // put/delete: 1 the record was there, 2 it was not, 3 unknown
	vars []varChange // loop.back: what the iteration did to loop-carried variables
}

// varChange: a loop-carried variable (phi or memory cell) before and after an iteration.
type varChange struct {
	key      string
	cell     *Term
	old, new *Term
}

func (ev *Event) is(names ...string) bool {
	if ev.kind != "call" {
		return false
	}
	for _, n := range names {
		if ev.name == n {
			return true
		}
	}
	return false
}
func (ev *Event) arg(i int) *Term {
	if i < len(ev.args) {
		return ev.args[i]
	}
	return mk("none", "")
}

// Monitor observes the events of every path.
type Monitor interface {
	Event(e *Engine, s *State, ev *Event)
}

type monFunc func(e *Engine, s *State, ev *Event)

func (f monFunc) Event(e *Engine, s *State, ev *Event) { f(e, s, ev) }

type Violation struct {
	rule, fn, construct, pos, msg, entry, path string
}

func (v *Violation) key() string { return v.rule + "|" + v.fn + "|" + v.construct }

// Engine runs repository functions abstractly.
type Engine struct {
	loopStep map[string]int64 // counted loops
	P        *Program
	mon      Monitor
	inline   func(f *ssa.Function) bool
	dbModel  bool
	entry    string
	steps    int
	maxSteps int
	stack    []*ssa.Function
	infos    map[*ssa.Function]*fnInfo
	funcs    map[string]*ssa.Function
	viols    map[string]*Violation
	problems map[string]bool
	counts   map[string]int // vacuity counters
	covFn    map[*ssa.Function]bool
	covCall  map[ssa.Instruction]bool
	covEvent int
	covPaths int
	invoke   func(e *Engine, name string, recv *Term, args []*Term) *ssa.Function // resolves interface calls
	readFork bool                                                                 // database reads fail in two ways: absent / broken
	ext      func(e *Engine, s *State, c *callSite) ([]*callRes, bool)            // model override
	curFn    *ssa.Function
	memo     map[string]bool
	tmpl     func(m, k *Term, f string) *Term
	depthCut int
}

func newEngine(P *Program, mon Monitor) *Engine {
	e := &Engine{P: P, loopStep: map[string]int64{}, mon: mon, maxSteps: 6000000, infos: map[*ssa.Function]*fnInfo{}, funcs: map[string]*ssa.Function{},
		viols: map[string]*Violation{}, problems: map[string]bool{}, counts: map[string]int{}, covFn: map[*ssa.Function]bool{}, covCall: map[ssa.Instruction]bool{}, dbModel: true}
	e.inline = func(f *ssa.Function) bool { return true }
	return e
}

func (e *Engine) violate(s *State, ev *Event, rule, construct, msg string) {
	if d := os.Getenv("VDUMP"); d != "" && strings.HasPrefix(rule, d) {
		dumpState(s, ev)
	}
	fn, pos := "", "-"
	if ev != nil {
		if ev.fn != nil {
			fn = shortFn(ev.fn)
		}
		if ev.in != nil {
			pos = e.P.pos(instrPos(ev.in))
		}
	}
	v := &Violation{rule: rule, fn: fn, construct: construct, pos: pos, msg: msg, entry: e.entry}
	if s != nil {
		v.path = s.path()
	}
	if _, ok := e.viols[v.key()]; !ok {
		e.viols[v.key()] = v
	}
}
func (e *Engine) count(k string) { e.counts[k]++ }

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	// nearest preceding instruction with a position
	b := in.Block()
	if b != nil {
		last := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				last = x.Pos()
			}
			if x == in && last.IsValid() {
				return last
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

// ---- function info ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ind    *ssa.Phi   // induction variable, if any
	step   int64      // per iteration
	cmp    *ssa.BinOp // header condition ind ? bound
	bound  ssa.Value
	off    int64     // compared value is ind+off
	next   *ssa.Next // map or string range
	exitOn bool      // header condition false leaves the loop
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	nest   map[*ssa.BasicBlock][]*loopInfo // loops containing the block, outermost first
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (e *Engine) info(f *ssa.Function) *fnInfo {
	if fi := e.infos[f]; fi != nil {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, nest: map[*ssa.BasicBlock][]*loopInfo{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit in reverse so that loop bodies come before loop exits
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// order: blocks of a loop before the blocks after it
	for _, b := range fi.order {
		var ls []*loopInfo
		for _, l := range fi.loops {
			if l.body[b] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool {
			if len(ls[i].body) != len(ls[j].body) {
				return len(ls[i].body) > len(ls[j].body)
			}
			return ls[i].header.Index < ls[j].header.Index
		})
		fi.nest[b] = ls
	}
	for _, li := range fi.loops {
		li.analyse()
	}
	e.liveness(f, fi)
	e.infos[f] = fi
	return fi
}

func (li *loopInfo) analyse() {
	h := li.header
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			li.next = n
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	li.exitOn = li.body[h.Succs[0]] && !li.body[h.Succs[1]]
	// find an induction phi used in the header condition
	indOf := func(v ssa.Value) (*ssa.Phi, int64, int64) {
		off := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				off = c.Int64()
				if b.Op == token.SUB {
					off = -off
				}
				v = b.X
			}
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != h {
			return nil, 0, 0
		}
		step := int64(0)
		for i, ed := range p.Edges {
			if !li.body[h.Preds[i]] {
				continue
			}
			b, ok := ed.(*ssa.BinOp)
			if !ok || b.X != p || (b.Op != token.ADD && b.Op != token.SUB) {
				return nil, 0, 0
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return nil, 0, 0
			}
			s := c.Int64()
			if b.Op == token.SUB {
				s = -s
			}
			if step != 0 && step != s {
				return nil, 0, 0
			}
			step = s
		}
		return p, step, off
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	if p, st, off := indOf(c.X); p != nil && st != 0 {
		li.ind, li.step, li.off, li.bound, li.cmp = p, st, off, c.Y, c
	}
}

func (e *Engine) liveness(f *ssa.Function, fi *fnInfo) {
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar, nil:
			return false
		}
		return true
	}
	for _, b := range fi.order {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if tracked(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			in := fi.liveIn[b]
			n := len(in)
			for v := range use[b] {
				in[v] = true
			}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					if !def[b][v] {
						in[v] = true
					}
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && tracked(p.Edges[k]) && !def[b][p.Edges[k]] {
							in[p.Edges[k]] = true
						}
					}
				}
			}
			if len(in) != n {
				ch = true
			}
		}
	}
	// phis of a block are live-in for state identity
	for _, b := range fi.order {
		for _, x := range b.Instrs {
			if p, ok := x.(*ssa.Phi); ok {
				fi.liveIn[b][p] = true
			}
		}
	}
	// and those of a loop stay known throughout its body, so that the end of an
	// iteration can be compared with its start
	for _, li := range fi.loops {
		for _, x := range li.header.Instrs {
			if p, ok := x.(*ssa.Phi); ok {
				for b := range li.body {
					fi.liveIn[b][p] = true
				}
			}
		}
	}
}

// ---- configurations ----

type deferred struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
}

type config struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []*deferred
	iters  map[*ssa.BasicBlock]*Term // active loop -> loop symbol or iteration constant
	first  map[*ssa.BasicBlock]bool
	hheap  map[*ssa.BasicBlock]map[*Term]*Term
}

func (c *config) fork() *config {
	n := &config{env: make(map[ssa.Value]*Term, len(c.env)), st: c.st.clone(), defers: c.defers, iters: c.iters, first: c.first, hheap: c.hheap}
	for k, v := range c.env {
		n.env[k] = v
	}
	return n
}

type item struct {
	b    *ssa.BasicBlock
	c    *config
	key  string
	done bool
}

type ssaFn = ssa.Function
type ssaInstr = ssa.Instruction

type Outcome struct {
	st   *State
	rets []*Term
}

type frame struct {
	e     *Engine
	fn    *ssa.Function
	fi    *fnInfo
	args  []*Term
	free  []*Term
	ctx   string
	outer []*Term // active loop symbols of the callers
	outs  map[string]*Outcome
	order []string
	items map[string]*item
	work  [][]*item // by rpo
	valNo map[ssa.Value]int
	entry map[*Term]*Term // sorted and dbcell entries on entry
}

func (e *Engine) problem(s string) { e.problems[s] = true }

// run executes fn abstractly.
func (e *Engine) run(fn *ssa.Function, args, free []*Term, st *State, ctx string, outer []*Term) []*Outcome {
	if fn.Blocks == nil {
		return []*Outcome{{st, e.opaqueResults(fn.Signature, ctx, outer)}}
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	if n >= 2 || len(e.stack) > 60 {
		e.depthCut++
		return []*Outcome{{st, e.opaqueResults(fn.Signature, ctx, outer)}}
	}
	e.stack = append(e.stack, fn)
	saved := e.curFn
	e.curFn = fn
	defer func() { e.stack = e.stack[:len(e.stack)-1]; e.curFn = saved }()
	e.covFn[fn] = true
	fr := &frame{e: e, fn: fn, fi: e.info(fn), args: args, free: free, ctx: ctx, outer: outer, outs: map[string]*Outcome{}, items: map[string]*item{}, valNo: map[ssa.Value]int{}}
	fr.work = make([][]*item, len(fr.fi.order))
	fr.entry = map[*Term]*Term{}
	for k, v := range st.heap {
		if k.op == "sorted" || k.op == "dbcell" {
			fr.entry[k] = v
		}
	}
	c := &config{env: map[ssa.Value]*Term{}, st: st}
	fr.push(fn.Blocks[0], c)
	for {
		var it *item
		for i := range fr.work {
			if len(fr.work[i]) > 0 {
				it = fr.work[i][0]
				fr.work[i] = fr.work[i][1:]
				break
			}
		}
		if it == nil {
			break
		}
		it.done = true
		e.steps++
		if e.steps > e.maxSteps {
			e.problem("step budget exhausted in " + shortFn(e.rootFn()))
			break
		}
		fr.block(it.b, it.c.fork())
	}
	var outs []*Outcome
	for _, k := range fr.order {
		outs = append(outs, fr.outs[k])
	}
	if dbgOuts > 0 && len(outs) >= dbgOuts {
		dbgOuts = len(outs)
		fmt.Println("OUTS", shortFn(fn), len(outs), e.steps)
		if len(outs) > 60 {
			diffStates(outs)
		}
	}
	return outs
}

var dbgOuts, _ = strconv.Atoi(os.Getenv("DBG"))

func diffStates(outs []*Outcome) {
	vals := map[string]map[string]bool{}
	add := func(k, v string) {
		if vals[k] == nil {
			vals[k] = map[string]bool{}
		}
		vals[k][v] = true
	}
	n := map[string]int{}
	for _, o := range outs {
		add("RET", termList(o.rets))
		n["RET"]++
		for k, v := range o.st.heap {
			add(k.String(), v.String())
			n[k.String()]++
		}
		for k, v := range o.st.mon {
			add(k, v.String())
			n[k]++
		}
	}
	for k, m := range vals {
		if len(m) > 1 || n[k] < len(outs) {
			fmt.Println("   ", n[k], len(m), k)
			i := 0
			for v := range m {
				if i++; i > 3 {
					break
				}
				if len(v) > 300 {
					v = v[:300]
				}
				fmt.Println("         ", v)
			}
		}
	}
}
func (e *Engine) rootFn() *ssa.Function { return e.stack[0] }

func (e *Engine) opaqueResults(sig *types.Signature, site string, outer []*Term) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := mk("call", site+"."+strconv.Itoa(i), outer...)
		t.typ = sig.Results().At(i).Type()
		r = append(r, t)
	}
	return r
}

func (fr *frame) key(b *ssa.BasicBlock, c *config) string {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(b.Index))
	var eh hash128
	for v, t := range c.env {
		n, ok := fr.valNo[v]
		if !ok {
			n = len(fr.valNo)
			fr.valNo[v] = n
		}
		eh.add(uint64(n), uint64(skel(t).id))
	}
	sb.WriteString("|" + eh.String())
	for _, d := range c.defers {
		fmt.Fprintf(&sb, "|d%d", d.fn.id)
		for _, a := range d.args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	var hs []string
	for h, t := range c.iters {
		if t.op == "iter" || fr.fi.loops[b] != nil {
			hs = append(hs, fmt.Sprintf("i%d=%d", h.Index, t.id))
		}
	}
	if c.first[b] {
		hs = append(hs, "first")
	}
	sort.Strings(hs)
	sb.WriteString("|" + strings.Join(hs, ","))
	sb.WriteString("|" + c.st.shapeKey())
	return sb.String()
}

func (fr *frame) push(b *ssa.BasicBlock, c *config) {
	k := fr.key(b, c)
	if it, ok := fr.items[k]; ok {
		ch := it.c.st.join(c.st)
		for v, t := range c.env {
			if o := it.c.env[v]; o != nil && o != t {
				if n := mergeVal(o, t); n != o {
					it.c.env[v] = n
					ch = true
				}
			}
		}
		if ch && it.done {
			it.done = false
			i := fr.fi.rpo[b]
			fr.work[i] = append(fr.work[i], it)
		}
		return
	}
	it := &item{b: b, c: c, key: k}
	fr.items[k] = it
	i := fr.fi.rpo[b]
	fr.work[i] = append(fr.work[i], it)
}

func (fr *frame) loopSite(h *ssa.BasicBlock) string { return fr.ctx + "#L" + strconv.Itoa(h.Index) }

func (fr *frame) active(c *config, b *ssa.BasicBlock) []*Term {
	r := fr.outer
	for _, l := range fr.fi.nest[b] {
		if t := c.iters[l.header]; t != nil {
			r = append(r[:len(r):len(r)], t)
		}
	}
	return r
}

// edge takes c from block a to block b.
func (fr *frame) edge(a, b *ssa.BasicBlock, c *config) {
	e := fr.e
	// which predecessor
	pi := -1
	for i, p := range b.Preds {
		if p == a {
			pi = i
		}
	}
	// loops left
	for _, l := range fr.fi.nest[a] {
		if !l.body[b] && c.iters[l.header] != nil {
			ev := &Event{kind: "loop.break", name: fr.loopSite(l.header), fn: fr.fn, ctx: fr.ctx, in: a.Instrs[len(a.Instrs)-1], args: []*Term{c.iters[l.header], fr.loopOver(l, c)}}
			if a == l.header {
				ev.kind = "loop.done"
				e.memberDone(c.st, ev.name, fr.loopOver(l, c))
			}
			delete(c.st.heap, mk("notin", ev.name))
			e.emit(c.st, ev)
			c.iters = copyIters(c.iters)
			delete(c.iters, l.header)
		}
	}
	li := fr.fi.loops[b]
	vals := map[ssa.Value]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = fr.val(c, p.Edges[pi])
	}
	if li != nil {
		back := li.body[a]
		site := fr.loopSite(b)
		if !back {
			c.st.endIter(site)
			delete(c.st.heap, mk("notin", site))
			// decide how to treat this loop
			n, known := fr.tripCount(li, c, vals)
			c.iters = copyIters(c.iters)
			c.first = copyFirst(c.first)
			if known && n <= 40 {
				c.iters[b] = mk("iter", site, append([]*Term{tInt(0)}, fr.active0(c, b)...)...)
			} else {
				sym := mk("loop", site, fr.active0(c, b)...)
				c.iters[b] = sym
				c.first[b] = true
				if li.ind != nil {
					init := vals[li.ind]
					vals[li.ind] = sym
					if iv, ok := init.intVal(); ok {
						c.st.facts.assumeInt(sym, iv, mEQ)
					} else {
						c.st.facts.assume(sym, init, mEQ)
					}
					// remember where it starts
					c.st.heap[mk("loopinit", site)] = init
					e.loopStep[site] = int64(li.step)
				}
				c.hheap = copyHH(c.hheap)
				c.hheap[b] = c.st.heap
			}
		} else {
			cur := c.iters[b]
			over := fr.loopOver(li, c)
			ev := &Event{kind: "loop.back", name: site, fn: fr.fn, ctx: fr.ctx, in: a.Instrs[len(a.Instrs)-1], args: []*Term{cur, over}}
			for p, v := range vals {
				if p != ssa.Value(li.ind) {
					ev.vars = append(ev.vars, varChange{"p" + p.Name(), nil, c.env[p], v})
				}
			}
			ev.vars = append(ev.vars, heapChanges(c.hheap[b], c.st.heap)...)
			e.membership(c.st, site, cur, over)
			e.emit(c.st, ev)
			if cur.op == "iter" {
				n, _ := cur.args[0].intVal()
				c.iters = copyIters(c.iters)
				c.iters[b] = mk("iter", site, append([]*Term{tInt(n + 1)}, cur.args[1:]...)...)
				if n > 60 {
					return // bounded unrolling exhausted (cannot happen: trip count known)
				}
			} else {
				// widen
				for p, v := range vals {
					if p == ssa.Value(li.ind) {
						vals[p] = cur
						continue
					}
					old := c.env[p]
					vals[p] = widen(site, "p"+p.Name(), cur, old, v, c.st.facts)
				}
				hh := c.hheap[b]
				for k, v := range c.st.heap {
					o := hh[k]
					if o != nil && o != v {
						c.st.heap[k] = widen(site, "h"+strconv.Itoa(k.id), cur, o, v, c.st.facts)
					} else if o == nil && (v.op == "list" || v.op == "set") && v.mentions("loop:"+site) && !k.mentions("loop:"+site) {
						c.st.heap[k] = widen(site, "h"+strconv.Itoa(k.id), cur, tNil, v, c.st.facts)
					}
				}
				c.defers = loopDefers(c.defers, site)
				prevSub := func(t *Term) *Term {
					if t.op == "loop" && t.aux == site {
						return mk("prev", site)
					}
					return nil
				}
				cache := map[*Term]*Term{}
				for p, v := range vals {
					if p != ssa.Value(li.ind) && v.mentions("loop:"+site) && v.op != "wid" {
						vals[p] = v.subst(prevSub, cache)
					}
				}
				for v, t := range c.env {
					if t.mentions("loop:"+site) && t.op != "wid" && v != ssa.Value(li.ind) {
						c.env[v] = t.subst(prevSub, cache)
					}
				}
				c.st.endIter(site)
				if li.ind != nil {
					init := c.st.heap[mk("loopinit", site)]
					if init != nil {
						if iv, ok := init.intVal(); ok {
							if li.step > 0 {
								c.st.facts.assumeInt(cur, iv, mGT)
							} else {
								c.st.facts.assumeInt(cur, iv, mLT)
							}
						} else if li.step > 0 {
							c.st.facts.assume(cur, init, mGT)
						} else if li.step < 0 {
							c.st.facts.assume(cur, init, mLT)
						}
					}
				}
				c.first = copyFirst(c.first)
				delete(c.first, b)
				c.hheap = copyHH(c.hheap)
				c.hheap[b] = c.st.heap
			}
		}
	}
	if li == nil && shortCircuit(b) {
		// keep the alternatives of a || or && apart for the rest of the iteration
		if act := fr.active(c, b); len(act) > 0 {
			if sym := act[len(act)-1]; sym.op == "loop" {
				c.st.set("!via:"+fr.ctx+strconv.Itoa(b.Index), mk("via", strconv.Itoa(a.Index), sym))
			}
		}
	}
	live := fr.fi.liveIn[b]
	env := make(map[ssa.Value]*Term, len(live))
	for v := range live {
		if t, ok := vals[v]; ok {
			env[v] = t
		} else if t, ok := c.env[v]; ok {
			env[v] = t
		}
	}
	c.env = env
	fr.push(b, c)
}

// shortCircuit: a block that collects elements and that several tests of
// one || or && lead to.
func shortCircuit(b *ssa.BasicBlock) bool {
	if !appends(b) {
		return false
	}
	for _, p := range b.Preds {
		if _, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		for _, q := range b.Preds {
			if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); !ok || q == p {
				continue
			}
			for _, x := range p.Succs {
				if x == q {
					return true
				}
			}
		}
	}
	return false
}

func appends(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f, ok := c.Call.Value.(*ssa.Builtin); ok && f.Name() == "append" {
				return true
			}
		}
	}
	return false
}

// selects: v decides whether something is appended.
func selects(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.If:
			for _, b := range r.Block().Succs {
				if appends(b) {
					return true
				}
			}
		case *ssa.UnOp:
			if selects(r) {
				return true
			}
		}
	}
	return false
}

func (fr *frame) active0(c *config, h *ssa.BasicBlock) []*Term {
	r := append([]*Term{}, fr.outer...)
	for _, l := range fr.fi.nest[h] {
		if l.header != h {
			if t := c.iters[l.header]; t != nil {
				r = append(r, t)
			}
		}
	}
	return r
}

func copyIters(m map[*ssa.BasicBlock]*Term) map[*ssa.BasicBlock]*Term {
	n := map[*ssa.BasicBlock]*Term{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copyFirst(m map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	n := map[*ssa.BasicBlock]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copyHH(m map[*ssa.BasicBlock]map[*Term]*Term) map[*ssa.BasicBlock]map[*Term]*Term {
	n := map[*ssa.BasicBlock]map[*Term]*Term{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// loopOver tells what a loop iterates over (the slice whose length bounds
// it, or the map ranged over), if that is visible.
func (fr *frame) loopOver(li *loopInfo, c *config) *Term {
	if li.next != nil {
		if r := fr.peek(c, li.next.Iter); r != nil && len(r.args) > 0 {
			return r.args[0]
		}
	}
	if li.bound != nil {
		if b := fr.peek(c, li.bound); b != nil {
			if b.op == "len" {
				return b.args[0]
			}
			return b
		}
	}
	return tNil
}

// peek evaluates a value if it is available, computing len() chains.
func (fr *frame) peek(c *config, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return fr.val(c, v)
	case *ssa.Call:
		if t, ok := c.env[v]; ok {
			return t
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := fr.peek(c, x.Call.Args[0]); a != nil {
				return lenOf(c.st, a)
			}
		}
		return nil
	case *ssa.UnOp:
		if t, ok := c.env[v]; ok {
			return t
		}
		if x.Op == token.MUL {
			if a := fr.peek(c, x.X); a != nil {
				return fr.e.load(c.st, a, x.Type())
			}
		}
		return nil
	case *ssa.FieldAddr:
		if t, ok := c.env[v]; ok {
			return t
		}
		if a := fr.peek(c, x.X); a != nil {
			return addrOf(a, fieldName(x.X.Type(), x.Field))
		}
		return nil
	}
	if t, ok := c.env[v]; ok {
		return t
	}
	return nil
}

// tripCount: the number of iterations, if it is a known constant.
func (fr *frame) tripCount(li *loopInfo, c *config, vals map[ssa.Value]*Term) (int64, bool) {
	if li.next != nil {
		r := fr.peek(c, li.next.Iter)
		if r != nil && r.op == "range" {
			if ks, ok := knownMap(c.st, r.args[0]); ok {
				return int64(len(ks)), true
			}
		}
		return 0, false
	}
	if li.ind == nil || li.bound == nil {
		return 0, false
	}
	b := fr.peek(c, li.bound)
	if b == nil {
		return 0, false
	}
	bv, ok := b.intVal()
	if !ok {
		return 0, false
	}
	init := vals[li.ind]
	iv, ok := init.intVal()
	if !ok {
		return 0, false
	}
	d := bv - iv
	if li.step < 0 {
		d = -d
	}
	if d < 0 {
		d = 0
	}
	return d, true
}

func isListy(t *Term) bool { return t.op == "list" || t.op == "set" || t == tNil }

func heapChanges(old, now map[*Term]*Term) []varChange {
	var out []varChange
	for k, v := range now {
		if k.op == "loopinit" || k.op == "notin" || k.op == "range" {
			continue
		}
		if o := old[k]; o != v {
			if o == nil {
				o = tNil
			}
			out = append(out, varChange{"h" + strconv.Itoa(k.id), k, o, v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// membership: which values were found different from the element in every
// iteration so far.
func (e *Engine) membership(st *State, site string, sym, over *Term) {
	if n, ok := e.loopStep[site]; sym.op != "loop" || over == tNil || ok && n != 1 {
		return
	}
	// the element of this iteration: the index runs from 0
	init := int64(0)
	if t := st.heap[mk("loopinit", site)]; t != nil {
		init, _ = t.intVal()
	}
	el := func(t *Term) bool {
		if t.op != "elem" || t.args[0] != over {
			return false
		}
		b, k := linear(t.args[1])
		return b == sym && init+k == 0
	}
	var ys []*Term
	for p, m := range st.facts.mask {
		if m&mEQ != 0 {
			continue
		}
		if el(p[0]) && !p[1].mentions("loop:"+site) {
			ys = append(ys, p[1])
		} else if el(p[1]) && !p[0].mentions("loop:"+site) {
			ys = append(ys, p[0])
		}
	}
	k := mk("notin", site)
	cur := st.heap[k]
	if cur == nil {
		st.heap[k] = mkSet(ys...)
		return
	}
	var keep []*Term
	for _, y := range cur.args {
		for _, z := range ys {
			if y == z {
				keep = append(keep, y)
			}
		}
	}
	st.heap[k] = mkSet(keep...)
}
func (e *Engine) memberDone(st *State, site string, over *Term) {
	if s := st.heap[mk("notin", site)]; s != nil {
		for _, y := range s.args {
			st.facts.boolv[mk("app", "in", over, y)] = false
		}
	}
}

// widen summarises what a loop does to a value.
func widen(site, name string, sym, old, nv *Term, f *Facts) *Term {
	if old == nil || old == nv {
		return nv
	}
	if nv.op == "wid" {
		return nv
	}
	if isListy(nv) && (nv.op == "list" || nv.op == "set") && nv != old {
		// shrinking or equal keeps; growth becomes a set of templates
		grow := nv.mentions("loop:" + site)
		if !grow && nv.op == "list" {
			on := 0
			if old.op == "list" || old.op == "set" {
				on = len(old.args)
			}
			grow = len(nv.args) > on
		}
		if grow || old.op == "set" {
			var out []*Term
			if old.op == "set" {
				out = append(out, old.args...)
			}
			for _, x := range nv.args {
				out = append(out, templ(site, x, f))
			}
			return mergeTempl(out)
		}
		return nv
	}
	_, oi := old.intVal()
	_, ni := nv.intVal()
	if old.op == "wid" || (oi && ni) || old != nv && sameBase(old, nv) || nv.contains(old) && old != tNil && nv.op != "struct" && !old.isConst() || oi && nv.op == "bin" {
		if old.op == "wid" && !(nv.contains(old) || ni) {
			return nv
		}
		return mk("wid", site+name, sym)
	}
	if old.isConst() && nv.isApp("cat") {
		return mk("wid", site+name, sym)
	}
	return nv
}

// loopDefers folds the calls deferred by the iterations of a loop into one.
func loopDefers(ds []*deferred, site string) []*deferred {
	var out []*deferred
	cache := map[*Term]*Term{}
	each := func(t *Term) *Term {
		if t.op == "loop" && t.aux == site {
			return mk("each", site)
		}
		return nil
	}
	changed := false
	for _, d := range ds {
		n := &deferred{in: d.in, fn: d.fn.subst(each, cache)}
		for _, a := range d.args {
			n.args = append(n.args, a.subst(each, cache))
		}
		dup := false
		for _, o := range out {
			if o.in == n.in && o.fn == n.fn && len(o.args) == len(n.args) {
				dup = true
				for i := range o.args {
					dup = dup && o.args[i] == n.args[i]
				}
			}
			if dup {
				break
			}
		}
		if dup {
			changed = true
			continue
		}
		out = append(out, n)
	}
	if !changed && len(out) == len(ds) {
		same := true
		for i := range ds {
			same = same && ds[i].fn == out[i].fn && len(ds[i].args) == len(out[i].args)
			for j := range ds[i].args {
				same = same && ds[i].args[j] == out[i].args[j]
			}
		}
		if same {
			return ds
		}
	}
	return out
}

// sameBase: two sums that differ by a constant.
func sameBase(a, b *Term) bool {
	base := func(t *Term) *Term {
		if t.op == "bin" && t.aux == "+" {
			if _, ok := t.args[1].intVal(); ok {
				return t.args[0]
			}
		}
		return t
	}
	x, y := base(a), base(b)
	return x == y && (x != a || y != b)
}

// templ abstracts an element appended in a loop: the loop symbol becomes
// "each", with the facts known about it.
func templ(site string, x *Term, f *Facts) *Term {
	if !x.mentions("loop:" + site) {
		return x
	}
	l := "loop:" + site
	each := mk("each", site)
	sub := func(t *Term) *Term {
		if t.op == "loop" && t.aux == site {
			return each
		}
		return nil
	}
	cache := map[*Term]*Term{}
	var conds []*Term
	if x.op == "when" {
		for _, c := range x.args[1:] {
			conds = append(conds, c.subst(sub, cache))
		}
		x = x.args[0]
	}
	has := func(c *Term) bool {
		for _, d := range conds {
			if c == d {
				return true
			}
		}
		return false
	}
	for t, v := range f.boolv {
		if t.mentions(l) {
			if c := mk("cond", "b:"+strconv.FormatBool(v), t.subst(sub, cache)); !has(c) {
				conds = append(conds, c)
			}
		}
	}
	for p, m := range f.mask {
		if (p[0].op == "len" || p[1].op == "len") && (p[0].hasSet || p[1].hasSet) {
			continue
		}
		if p[0].mentions(l) || p[1].mentions(l) {
			if c := mk("cond", "m:"+strconv.Itoa(int(m)), p[0].subst(sub, cache), p[1].subst(sub, cache)); !has(c) {
				conds = append(conds, c)
			}
		}
	}
	for t, r := range f.rng {
		if t.mentions(l) {
			if t.op == "loop" {
				continue
			}
			if c := mk("cond", fmt.Sprintf("r:%d:%d:%s", r.lo, r.hi, r.ne), t.subst(sub, cache)); !has(c) {
				conds = append(conds, c)
			}
		}
	}
	sort.Slice(conds, func(i, j int) bool { return conds[i].id < conds[j].id })
	return mk("when", "", append([]*Term{x.subst(sub, cache)}, conds...)...)
}

func mergeTempl(ts []*Term) *Term {
	by := map[*Term][][]*Term{} // element -> alternative condition lists
	var order []*Term
	for _, t := range ts {
		x, cs := t, []*Term(nil)
		if t.op == "when" {
			x, cs = t.args[0], t.args[1:]
		}
		alts, ok := by[x]
		if !ok {
			order = append(order, x)
		}
		by[x] = addAlt(alts, cs)
	}
	var out []*Term
	for _, x := range order {
		for _, cs := range by[x] {
			if !x.mentionsEach() && len(cs) == 0 {
				out = append(out, x)
				continue
			}
			out = append(out, mk("when", "", append([]*Term{x}, cs...)...))
		}
	}
	return mkSet(out...)
}

// addAlt adds a condition list to alternatives: stronger ones are absorbed,
// complementary ones are resolved, and too many are merged to what they share.
func addAlt(alts [][]*Term, cs []*Term) [][]*Term {
	for {
		var keep [][]*Term
		merged := false
		for i, o := range alts {
			if subsetOf(o, cs) {
				return alts
			}
			if subsetOf(cs, o) {
				continue
			}
			if r, ok := resolve(o, cs); ok {
				cs = r
				keep = append(keep, alts[i+1:]...)
				merged = true
				break
			}
			keep = append(keep, o)
		}
		if !merged {
			alts = append(keep, cs)
			break
		}
		alts = keep
	}
	if len(alts) > 4 {
		m := alts[0]
		for _, o := range alts[1:] {
			m = shared(m, o)
		}
		alts = [][]*Term{m}
	}
	return alts
}
func subsetOf(a, b []*Term) bool {
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x == y {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func shared(a, b []*Term) []*Term {
	var k []*Term
	for _, x := range a {
		for _, y := range b {
			if x == y {
				k = append(k, x)
			}
		}
	}
	return k
}

// resolve joins two condition lists that differ in one condition about the
// same thing.
func resolve(a, b []*Term) ([]*Term, bool) {
	s := shared(a, b)
	if len(a) != len(s)+1 || len(b) != len(s)+1 {
		return nil, false
	}
	only := func(x []*Term) *Term {
		for _, c := range x {
			if !subsetOf([]*Term{c}, s) {
				return c
			}
		}
		return nil
	}
	x, y := only(a), only(b)
	if x == nil || y == nil || len(x.args) != len(y.args) {
		return nil, false
	}
	for i := range x.args {
		if x.args[i] != y.args[i] {
			return nil, false
		}
	}
	switch {
	case x.aux[0] == 'b' && y.aux[0] == 'b':
		return s, true
	case x.aux[0] == 'm' && y.aux[0] == 'm':
		i, _ := strconv.Atoi(x.aux[2:])
		j, _ := strconv.Atoi(y.aux[2:])
		if i|j == mAll {
			return s, true
		}
		r := append(append([]*Term{}, s...), mk("cond", "m:"+strconv.Itoa(i|j), x.args...))
		sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
		return r, true
	}
	return nil, false
}

// picks enumerates the possible elements of a set at an index.
func (e *Engine) picks(st *State, set, idx *Term) []pick {
	var out []pick
	for _, t := range set.args {
		s := st.clone()
		x := t
		var conds []*Term
		if t.op == "when" {
			x, conds = t.args[0], t.args[1:]
		}
		sub := func(u *Term) *Term {
			if u.op == "each" && len(u.args) == 0 {
				return mk("each", u.aux, idx)
			}
			return nil
		}
		cache := map[*Term]*Term{}
		x = x.subst(sub, cache)
		ok := true
		for _, c := range conds {
			a := c.args[0].subst(sub, cache)
			switch c.aux[0] {
			case 'b':
				v := c.aux == "b:true"
				if !e.assumeBool(s, a, v) {
					ok = false
				}
			case 'm':
				m, _ := strconv.Atoi(c.aux[2:])
				if !s.facts.assume(a, c.args[1].subst(sub, cache), uint8(m)) {
					ok = false
				}
			case 'r':
				p := strings.SplitN(c.aux[2:], ":", 3)
				lo, _ := strconv.ParseInt(p[0], 10, 64)
				hi, _ := strconv.ParseInt(p[1], 10, 64)
				r := rng{lo, hi, p[2]}
				cur := s.facts.rangeOf(a)
				if cur.lo > r.lo {
					r.lo = cur.lo
				}
				if cur.hi < r.hi {
					r.hi = cur.hi
				}
				if r.lo > r.hi {
					ok = false
				} else {
					s.facts.rng[a] = r
				}
			}
		}
		if !ok {
			continue
		}
		if x.op == "spread" {
			x = mk("elem", "", x.args[0], mk("each", "spread", idx))
		}
		out = append(out, pick{s, x})
	}
	return out
}

type pick struct {
	st *State
	x  *Term
}

func (e *Engine) emit(s *State, ev *Event) {
	e.covEvent++
	if ev.fn == nil {
		ev.fn = e.curFn
	}
	if e.mon != nil {
		e.mon.Event(e, s, ev)
	}
}

// ---- values ----

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return "?" + strconv.Itoa(i)
}

func addrOf(p *Term, f string) *Term { return mk("addr", f, p) }

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk("zero", types.TypeString(t, nil))
	}
	return tNil
}

// pastObject: made in an iteration that is over, by a loop that forgot what
// each iteration's objects hold.
func pastObject(a *Term) bool {
	for _, x := range a.args {
		if x.op == "each" || x.op == "prev" {
			return true
		}
	}
	return false
}

// content gives the value stored at address a.
func (e *Engine) content(st *State, a *Term) *Term {
	if v, ok := st.heap[a]; ok {
		if over := e.overlay(st, a, v); over != nil {
			return over
		}
		return v
	}
	switch a.op {
	case "addr":
		b := e.base(st, a)
		if over := e.overlay(st, a, b); over != nil {
			return over
		}
		return b
	case "elemaddr":
		return mk("elem", "", e.content(st, a.args[0]), a.args[1])
	case "alloc":
		z := mk("zero", "?"+a.aux)
		if a.typ != nil {
			z = zeroTerm(a.typ)
		}
		if pastObject(a) {
			z = a // made in an earlier iteration: it may hold anything
		}
		if over := e.overlay(st, a, z); over != nil {
			return over
		}
		return z
	case "global":
		return e.globalVal(a)
	}
	// an opaque pointer names its object; fields written through it
	if over := e.overlay(st, a, a); over != nil {
		return over
	}
	return a
}

// base is the value of a field before the writes to fields inside it.
func (e *Engine) base(st *State, a *Term) *Term {
	p := a.args[0]
	if v, ok := st.heap[p]; ok {
		return e.fldOf(v, a.aux)
	}
	switch p.op {
	case "addr":
		return e.fldOf(e.base(st, p), a.aux)
	case "alloc":
		if pastObject(p) {
			return fld(p, a.aux)
		}
		if p.typ != nil {
			return e.fldOf(zeroTerm(p.typ), a.aux)
		}
	case "elemaddr", "global":
		return e.fldOf(e.content(st, p), a.aux)
	}
	return e.fldOf(p, a.aux)
}

// bytesOf names the content of a byte slice that was copied or encoded into a
// buffer of exactly its length.
func (e *Engine) bytesOf(st *State, t *Term) *Term {
	switch {
	case t.op == "alloc", t.isApp("slice"):
		v := st.heap[t]
		if v == nil && t.isApp("slice") && (t.args[1] == tNil || t.args[1] == tInt(0)) && t.args[0].op == "alloc" {
			v = st.heap[t.args[0]]
		}
		if v == nil {
			break
		}
		n := st.heap[mk("mklen", "", t)]
		if t.isApp("slice") && (t.args[1] == tNil || t.args[1] == tInt(0)) {
			n = t.args[2]
		}
		if v.isApp("copyof") && n == lenOf(st, v.args[0]) {
			return e.bytesOf(st, v.args[0])
		}
		if v.isApp("be64") && n == tInt(8) {
			return v
		}
	case t.op == "list" && len(t.args) == 1 && t.args[0].op == "spread":
		return e.bytesOf(st, t.args[0].args[0])
	case t.isApp("bytes.Clone"), t.isApp("slices.Clone"):
		return e.bytesOf(st, t.args[0])
	}
	return t
}

// overlay applies field writes on top of a whole-struct value.
func (e *Engine) overlay(st *State, a, base *Term) *Term {
	var fs []string
	seen := map[string]bool{}
	for k := range st.heap {
		// a field, or a field of a struct inside it
		for k.op == "addr" && k.args[0] != a {
			k = k.args[0]
		}
		if k.op == "addr" && !seen[k.aux] {
			seen[k.aux] = true
			fs = append(fs, k.aux)
		}
	}
	if len(fs) == 0 {
		return nil
	}
	sort.Strings(fs)
	args := []*Term{base}
	for _, f := range fs {
		args = append(args, tStr(f), e.content(st, addrOf(a, f)))
	}
	return mk("struct", "", args...)
}

func (e *Engine) fldOf(b *Term, f string) *Term {
	if b.op == "struct" {
		for i := 1; i+1 < len(b.args); i += 2 {
			if n, _ := b.args[i].strVal(); n == f {
				return b.args[i+1]
			}
		}
		return e.fldOf(b.args[0], f)
	}
	if b.op == "mapval" && e.tmpl != nil {
		if t := e.tmpl(b.args[0], b.args[1], f); t != nil {
			return t
		}
	}
	return fld(b, f)
}

func (e *Engine) load(st *State, a *Term, t types.Type) *Term {
	var v *Term
	if x, ok := st.heap[a]; ok && len(st.heap) > 0 {
		v = x
		if _, isStruct := t.Underlying().(*types.Struct); isStruct {
			v = e.content(st, a)
		}
	} else if a.op == "addr" {
		// field of ...
		base := a.args[0]
		if bv, ok := st.heap[base]; ok {
			v = e.fldOf(bv, a.aux)
		} else {
			v = e.content(st, a)
		}
	} else {
		v = e.content(st, a)
	}
	if v.op == "zero" || v.op == "zerofld" {
		return zeroTerm(t)
	}
	if v.typ == nil {
		v.typ = t
	}
	return v
}

func (e *Engine) store(st *State, a, v *Term) {
	// drop field cells below a
	for k := range st.heap {
		if k != a && within(k, a) {
			delete(st.heap, k)
		}
	}
	st.heap[a] = v
	st.facts.kill(func(t *Term) bool { return t.op == "deref" && t.args[0] == a })
}

func within(k, a *Term) bool {
	for k.op == "addr" || k.op == "elemaddr" {
		k = k.args[0]
		if k == a {
			return true
		}
	}
	return false
}

func (e *Engine) globalVal(g *Term) *Term {
	if iv, ok := e.P.globalInit[g.aux]; ok && e.P.globalStores[g.aux] == 0 {
		if t := constExpr(iv); t != nil {
			return t
		}
	}
	if sentinelGlobals[g.aux] {
		return g
	}
	if _, ok := e.P.globalInit[g.aux]; !ok && e.P.globalStores[g.aux] == 0 && e.P.isRepoGlobal(g.aux) {
		return mk("zero", "global")
	}
	return g
}

// constExpr evaluates simple constant initialisers.
func constExpr(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Convert:
		return constExpr(x.X)
	case *ssa.ChangeType:
		return constExpr(x.X)
	case *ssa.MakeInterface:
		return constExpr(x.X)
	}
	return nil
}

func (fr *frame) val(c *config, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		n := x.Pkg.Pkg.Path() + "." + x.Name()
		t := mk("global", n)
		return t
	case *ssa.Function:
		k := x.String()
		fr.e.funcs[k] = x
		return mk("func", k)
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	}
	if t, ok := c.env[v]; ok {
		return t
	}
	return mk("undef", fr.ctx+v.Name())
}

func (fr *frame) site(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fr.ctx + "#b" + strconv.Itoa(b.Index) + "i" + strconv.Itoa(i)
		}
	}
	return fr.ctx + "#?"
}
func (fr *frame) subctx(in ssa.Instruction) string {
	return strings.Replace(fr.site(in), "#", "/", 1)
}

func lenOf(st *State, x *Term) *Term {
	switch x.op {
	case "list":
		for _, a := range x.args {
			if a.op == "spread" {
				return mk("len", "", x)
			}
		}
		return tInt(int64(len(x.args)))
	case "const":
		if s, ok := x.strVal(); ok {
			return tInt(int64(len(s)))
		}
		if x == tNil {
			return tInt(0)
		}
	case "alloc":
		if x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				if ks, ok := knownMap(st, x); ok {
					return tInt(int64(len(ks)))
				}
			}
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	}
	return mk("len", "", x)
}

// knownMap lists the keys of a locally built map (insertion order by id).
func knownMap(st *State, m *Term) ([]*Term, bool) {
	if m == tNil {
		return nil, true
	}
	if m.op != "alloc" {
		return nil, false
	}
	if st.heap[mk("mapopen", "", m)] != nil {
		return nil, false
	}
	var ks []*Term
	for k := range st.heap {
		if k.op == "mapcell" && k.args[0] == m {
			ks = append(ks, k.args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks, true
}

// assumeBool assumes a boolean term; false if impossible.
func (e *Engine) assumeBool(st *State, t *Term, v bool) bool {
	switch t.op {
	case "const":
		return (t == tTrue) == v
	case "not":
		return e.assumeBool(st, t.args[0], !v)
	case "cmp":
		m, _ := strconv.Atoi(t.aux)
		mm := uint8(m)
		if !v {
			mm = mAll &^ mm
		}
		return st.facts.assume(t.args[0], t.args[1], mm)
	case "and":
		if v {
			return e.assumeBool(st, t.args[0], true) && e.assumeBool(st, t.args[1], true)
		}
	}
	if o, ok := st.facts.boolv[t]; ok {
		return o == v
	}
	st.facts.boolv[t] = v
	return true
}

func (e *Engine) truth(st *State, t *Term) (bool, bool) {
	switch t.op {
	case "const":
		return t == tTrue, true
	case "not":
		v, ok := e.truth(st, t.args[0])
		return !v, ok
	case "cmp":
		m, _ := strconv.Atoi(t.aux)
		cur := st.facts.maskOf(t.args[0], t.args[1])
		if cur&uint8(m) == 0 {
			return false, true
		}
		if cur&^uint8(m) == 0 {
			return true, true
		}
		return false, false
	}
	v, ok := st.facts.boolv[t]
	return v, ok
}

func cmpTerm(op token.Token, a, b *Term) *Term {
	var m uint8
	switch op {
	case token.EQL:
		m = mEQ
	case token.NEQ:
		m = mNE
	case token.LSS:
		m = mLT
	case token.LEQ:
		m = mLT | mEQ
	case token.GTR:
		m = mGT
	case token.GEQ:
		m = mGT | mEQ
	}
	// booleans
	if b == tTrue || b == tFalse {
		pos := (b == tTrue) == (m == mEQ)
		if pos {
			return a
		}
		return notTerm(a)
	}
	if a == tTrue || a == tFalse {
		return cmpTerm(op, b, a)
	}
	if a.isConst() && b.isConst() {
		f := newFacts()
		if x, ok := a.strVal(); ok {
			if y, ok := b.strVal(); ok {
				c := strings.Compare(x, y)
				bit := uint8(mEQ)
				if c < 0 {
					bit = mLT
				} else if c > 0 {
					bit = mGT
				}
				return tBool(bit&m != 0)
			}
		}
		cur := f.maskOf(a, b)
		if cur&m == 0 {
			return tFalse
		}
		if cur&^m == 0 {
			return tTrue
		}
	}
	// len(x) == 0 for strings is x == ""
	if a.op == "len" && len(a.args) == 1 && a.args[0].typ != nil {
		if bt, ok := a.args[0].typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if y, ok := b.intVal(); ok && (y == 0 && (m == mEQ || m == mNE || m == mGT || m == mLT|mEQ) || y == 1 && (m == mLT || m == mGT|mEQ)) {
				eq := y == 0 && (m == mEQ || m == mLT|mEQ) || y == 1 && m == mLT
				if eq {
					return mk("cmp", strconv.Itoa(mEQ), a.args[0], tStr(""))
				}
				return mk("cmp", strconv.Itoa(mNE), a.args[0], tStr(""))
			}
		}
	}
	return mk("cmp", strconv.Itoa(int(m)), a, b)
}
func notTerm(t *Term) *Term {
	switch t.op {
	case "not":
		return t.args[0]
	case "const":
		return tBool(t != tTrue)
	case "cmp":
		m, _ := strconv.Atoi(t.aux)
		return mk("cmp", strconv.Itoa(int(mAll&^uint8(m))), t.args...)
	}
	return mk("not", "", t)
}

// ---- blocks ----

func (fr *frame) block(b *ssa.BasicBlock, c *config) {
	fr.instrs(b, 0, c)
}

func (fr *frame) instrs(b *ssa.BasicBlock, from int, c *config) {
	e := fr.e
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		set := func(t *Term) {
			if v, ok := in.(ssa.Value); ok {
				if t.typ == nil {
					t.typ = v.Type()
				}
				c.env[v] = t
			}
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Alloc:
			t := mk("alloc", fr.site(in), fr.active(c, b)...)
			t.typ = x.Type().Underlying().(*types.Pointer).Elem()
			// a new instance: forget an old one
			for k := range c.st.heap {
				if k == t || within(k, t) {
					delete(c.st.heap, k)
				}
			}
			set2(c, x, t)
		case *ssa.BinOp:
			a, d := fr.val(c, x.X), fr.val(c, x.Y)
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				set(cmpTerm(x.Op, a, d))
			case token.ADD:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
					set(cat(a, d))
				} else {
					set(bin("+", a, d))
				}
			default:
				set(bin(x.Op.String(), a, d))
			}
		case *ssa.UnOp:
			a := fr.val(c, x.X)
			switch x.Op {
			case token.MUL:
				if a.op == "elemaddr" {
					rs := fr.loadElem(c, a, x.Type())
					if len(rs) == 1 && rs[0].st == c.st {
						set(rs[0].x)
						continue
					}
					for _, r := range rs {
						n := c.fork()
						n.st = r.st
						n.env[x] = r.x
						fr.instrs(b, i+1, n)
					}
					return
				}
				e.emit(c.st, &Event{kind: "load", args: []*Term{a}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.Type()})
				set(e.load(c.st, a, x.Type()))
			case token.NOT:
				set(notTerm(a))
			case token.SUB:
				if v, ok := a.intVal(); ok {
					set(tInt(-v))
				} else {
					set(mk("neg", "", a))
				}
			case token.ARROW:
				t := mk("recv", fr.site(in), append([]*Term{a}, fr.active(c, b)...)...)
				e.emit(c.st, &Event{kind: "recv", args: []*Term{a}, res: []*Term{t}, in: in, fn: fr.fn, ctx: fr.ctx})
				if x.CommaOk {
					set(mk("tuple", "", t, mk("recvok", "", t)))
				} else {
					set(t)
				}
			default:
				set(mk("un", x.Op.String(), a))
			}
		case *ssa.Call:
			rs := fr.call(c, in, &x.Call)
			fr.continueWith(b, i, c, x, rs)
			return
		case *ssa.Defer:
			d := &deferred{in: x}
			d.fn, d.args = fr.calleeArgs(c, &x.Call)
			c.defers = append(c.defers[:len(c.defers):len(c.defers)], d)
			e.emit(c.st, &Event{kind: "defer", name: d.fn.String(), args: d.args, in: in, fn: fr.fn, ctx: fr.ctx})
		case *ssa.RunDefers:
			ds := c.defers
			c.defers = nil
			cs := []*config{c}
			for k := len(ds) - 1; k >= 0; k-- {
				var nc []*config
				for _, q := range cs {
					for _, r := range fr.callTerm(q, ds[k].in, ds[k].in.Common(), ds[k].fn, ds[k].args) {
						n := q.fork()
						n.st = r.st
						nc = append(nc, n)
					}
				}
				cs = mergeConfigs(nc)
			}
			for _, q := range cs {
				fr.instrs(b, i+1, q)
			}
			return
		case *ssa.Go:
			fn, as := fr.calleeArgs(c, &x.Call)
			e.emit(c.st, &Event{kind: "go", name: fn.String(), args: append([]*Term{fn}, as...), in: in, fn: fr.fn, ctx: fr.ctx})
		case *ssa.Extract:
			t := fr.val(c, x.Tuple)
			if t.op == "tuple" && x.Index < len(t.args) {
				set2(c, x, t.args[x.Index])
			} else {
				set(mk("extract", strconv.Itoa(x.Index), t))
			}
		case *ssa.Field:
			set(e.fldOf(fr.val(c, x.X), fieldName(x.X.Type(), x.Field)))
		case *ssa.FieldAddr:
			p := fr.val(c, x.X)
			e.emit(c.st, &Event{kind: "deref", args: []*Term{p}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
			set2(c, x, addrOf(p, fieldName(x.X.Type(), x.Field)))
		case *ssa.Index:
			a, ix := fr.val(c, x.X), fr.val(c, x.Index)
			e.emit(c.st, &Event{kind: "index", args: []*Term{a, ix}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
			set(mk("elem", "", a, ix))
		case *ssa.IndexAddr:
			a, ix := fr.val(c, x.X), fr.val(c, x.Index)
			e.emit(c.st, &Event{kind: "index", args: []*Term{a, ix}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
			set2(c, x, mk("elemaddr", "", a, ix))
		case *ssa.Lookup:
			a, ix := fr.val(c, x.X), fr.val(c, x.Index)
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				e.emit(c.st, &Event{kind: "index", args: []*Term{a, ix}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
				set(mk("elem", "", a, ix))
				continue
			}
			e.emit(c.st, &Event{kind: "maplookup", args: []*Term{a, ix}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
			rs := e.lookup(c.st, a, ix, x)
			fr.continueWith(b, i, c, x, rs)
			return
		case *ssa.MakeChan:
			set(mk("alloc", fr.site(in), fr.active(c, b)...))
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			k := f.String() + "@" + strconv.Itoa(int(f.Pos()))
			e.funcs[k] = f
			var bs []*Term
			for _, v := range x.Bindings {
				bs = append(bs, fr.val(c, v))
			}
			set2(c, x, mk("closure", k, bs...))
		case *ssa.MakeInterface:
			t := fr.val(c, x.X)
			if t == tNil {
				t = mk("typednil", typeName(x.X.Type()))
			}
			if t.typ == nil {
				t.typ = x.X.Type()
			}
			set2(c, x, t)
			if e.memo == nil {
				e.memo = map[string]bool{}
			}
		case *ssa.MakeMap:
			t := mk("alloc", fr.site(in), fr.active(c, b)...)
			t.typ = x.Type()
			for k := range c.st.heap {
				if k.op == "mapcell" && k.args[0] == t {
					delete(c.st.heap, k)
				}
			}
			set2(c, x, t)
		case *ssa.MakeSlice:
			n := fr.val(c, x.Len)
			if v, ok := n.intVal(); ok && v == 0 {
				set2(c, x, mk("list", ""))
			} else {
				t := mk("alloc", fr.site(in), append([]*Term{n}, fr.active(c, b)...)...)
				t.typ = x.Type()
				for k := range c.st.heap {
					if within(k, t) {
						delete(c.st.heap, k)
					}
				}
				c.st.heap[mk("mklen", "", t)] = n
				set2(c, x, t)
			}
		case *ssa.MapUpdate:
			m, k, v := fr.val(c, x.Map), fr.val(c, x.Key), fr.val(c, x.Value)
			if m.op == "alloc" && len(k.loops) > 0 {
				c.st.heap[mk("mapopen", "", m)] = tTrue
			}
			c.st.heap[mk("mapcell", "", m, k)] = v
			had := c.st.facts.maskBool(mk("app", "maphas", m, k))
			c.st.facts.boolv[mk("app", "maphas", m, k)] = true
			e.emit(c.st, &Event{kind: "mapupdate", args: []*Term{m, k, v}, had: had, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.Map.Type()})
		case *ssa.Next:
			rs := fr.next(c, x)
			fr.continueWith(b, i, c, x, rs)
			return
		case *ssa.Range:
			m := fr.val(c, x.X)
			t := mk("range", fr.site(in), m)
			delete(c.st.heap, t)
			e.emit(c.st, &Event{kind: "maprange", args: []*Term{m}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
			set2(c, x, t)
		case *ssa.Select:
			// any ready case
			n := len(x.States)
			lo := 0
			if !x.Blocking {
				lo = -1
			}
			for k := lo; k < n; k++ {
				q := c.fork()
				var tup []*Term
				tup = append(tup, tInt(int64(k)), mk("selok", fr.site(in), fr.active(c, b)...))
				if k >= 0 {
					ch := fr.val(q, x.States[k].Chan)
					kind := "recv"
					as := []*Term{ch}
					if x.States[k].Dir == types.SendOnly {
						kind = "send"
						as = append(as, fr.val(q, x.States[k].Send))
					}
					var rs []*Term
					if kind == "recv" {
						t := mk("recv", fr.site(in)+"."+strconv.Itoa(k), append([]*Term{ch}, fr.active(c, b)...)...)
						t.typ = x.States[k].Chan.Type().Underlying().(*types.Chan).Elem()
						rs = []*Term{t}
					}
					e.emit(q.st, &Event{kind: kind, name: "select", args: as, res: rs, in: in, fn: fr.fn, ctx: fr.ctx})
				}
				for j, s := range x.States {
					if s.Dir == types.RecvOnly {
						t := mk("recv", fr.site(in)+"."+strconv.Itoa(j), append([]*Term{fr.val(q, s.Chan)}, fr.active(c, b)...)...)
						t.typ = s.Chan.Type().Underlying().(*types.Chan).Elem()
						tup = append(tup, t)
					}
				}
				q.env[x] = mk("tuple", "", tup...)
				fr.instrs(b, i+1, q)
			}
			return
		case *ssa.Send:
			e.emit(c.st, &Event{kind: "send", args: []*Term{fr.val(c, x.Chan), fr.val(c, x.X)}, in: in, fn: fr.fn, ctx: fr.ctx})
		case *ssa.Slice:
			set2(c, x, fr.slice(c, x))
		case *ssa.Store:
			a, v := fr.val(c, x.Addr), fr.val(c, x.Val)
			e.emit(c.st, &Event{kind: "store", args: []*Term{a, v}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.Val.Type()})
			e.store(c.st, a, v)
		case *ssa.TypeAssert:
			t := fr.val(c, x.X)
			if !x.CommaOk {
				e.emit(c.st, &Event{kind: "typeassert", args: []*Term{t}, in: in, fn: fr.fn, ctx: fr.ctx, typ: x.AssertedType})
				set2(c, x, t)
				continue
			}
			okT := mk("app", "is:"+typeName(x.AssertedType), t)
			if !types.IsInterface(x.AssertedType) && t.op == "alloc" && t.typ != nil {
				okT = tBool(types.Identical(x.AssertedType, t.typ) || types.Identical(x.AssertedType, types.NewPointer(t.typ)))
			}
			set(mk("tuple", "", t, okT))
		case *ssa.ChangeInterface:
			set2(c, x, fr.val(c, x.X))
		case *ssa.ChangeType:
			set2(c, x, fr.val(c, x.X))
		case *ssa.Convert:
			t := fr.val(c, x.X)
			if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				if tt, ok := x.Type().Underlying().(*types.Basic); ok && tt.Info()&types.IsString != 0 {
					t = app("runestr", t)
				}
			}
			set2(c, x, t)
		case *ssa.MultiConvert:
			set2(c, x, fr.val(c, x.X))
		case *ssa.SliceToArrayPointer:
			set2(c, x, fr.val(c, x.X))
		case *ssa.Panic:
			e.emit(c.st, &Event{kind: "panic", args: []*Term{fr.val(c, x.X)}, in: in, fn: fr.fn, ctx: fr.ctx})
			return
		case *ssa.Jump:
			fr.edge(b, b.Succs[0], c)
			return
		case *ssa.If:
			t := fr.val(c, x.Cond)
			for k, v := range []bool{true, false} {
				q := c.fork()
				if tv, known := e.truth(q.st, t); known {
					if tv != v {
						continue
					}
				} else if !e.assumeBool(q.st, t, v) {
					continue
				}
				e.emit(q.st, &Event{kind: "assume", fn: fr.fn, ctx: fr.ctx, in: in, args: []*Term{t, tBool(v)}})
				if li := fr.fi.loops[b]; li != nil && li.body[b.Succs[k]] && q.iters[b] != nil {
					e.emit(q.st, &Event{kind: "loop.iter", name: fr.loopSite(b), fn: fr.fn, ctx: fr.ctx, in: in, args: []*Term{q.iters[b], fr.loopOver(li, q)}})
				}
				fr.edge(b, b.Succs[k], q)
			}
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, fr.val(c, r))
			}
			fr.ret(c, in, rs)
			return
		default:
			e.problem(fmt.Sprintf("instruction %T not modelled in %s", in, shortFn(fr.fn)))
			if v, ok := in.(ssa.Value); ok {
				c.env[v] = mk("call", fr.site(in), fr.active(c, b)...)
			}
		}
	}
}

func set2(c *config, v ssa.Value, t *Term) { c.env[v] = t }

func mergeConfigs(cs []*config) []*config {
	by := map[string]*config{}
	var out []*config
	for _, c := range cs {
		k := c.st.shapeKey()
		if o, ok := by[k]; ok {
			o.st.facts.join(c.st.facts)
			continue
		}
		by[k] = c
		out = append(out, c)
	}
	return out
}

// continueWith resumes after a value instruction with several outcomes.
func (fr *frame) continueWith(b *ssa.BasicBlock, i int, c *config, v ssa.Value, rs []*callRes) {
	// merge equal outcomes
	by := map[string]*callRes{}
	var out []*callRes
	for _, r := range rs {
		var sb strings.Builder
		for _, t := range r.res {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
		k := sb.String() + "|" + r.st.shapeKey()
		if o, ok := by[k]; ok {
			o.st.facts.join(r.st.facts)
			continue
		}
		by[k] = r
		out = append(out, r)
	}
	sel := false
	var sym *Term
	if act := fr.active(c, b); len(act) > 0 && len(out) > 1 {
		sym = act[len(act)-1]
		bt, ok := v.Type().Underlying().(*types.Basic)
		sel = ok && bt.Kind() == types.Bool && sym.op == "loop" && selects(v)
	}
	for k, r := range out {
		var n *config
		if k == len(out)-1 {
			n = c
		} else {
			n = c.fork()
		}
		n.st = r.st
		if sel && len(out) > 1 {
			// like a || or &&: keep the alternatives apart
			n.st.set("!via:"+fr.ctx+v.Name(), mk("via", strconv.Itoa(k), sym))
		}
		switch len(r.res) {
		case 0:
			n.env[v] = mk("tuple", "")
		case 1:
			if _, isTup := v.Type().(*types.Tuple); isTup {
				n.env[v] = mk("tuple", "", r.res...)
			} else {
				n.env[v] = r.res[0]
				if r.res[0].typ == nil {
					r.res[0].typ = v.Type()
				}
			}
		default:
			n.env[v] = mk("tuple", "", r.res...)
		}
		fr.instrs(b, i+1, n)
	}
}

func (fr *frame) loadElem(c *config, a *Term, t types.Type) []pick {
	e := fr.e
	if v, ok := c.st.heap[a]; ok {
		if v.typ == nil {
			v.typ = t
		}
		return []pick{{c.st, v}}
	}
	base, idx := a.args[0], a.args[1]
	cont := base
	if base.op == "addr" || base.op == "global" || base.op == "elemaddr" {
		cont = e.content(c.st, base) // arrays by address
	} else if v, ok := c.st.heap[base]; ok && base.op == "alloc" {
		cont = v
	}
	if cont.op == "alloc" {
		if s := c.st.heap[mk("elems", "", cont)]; s != nil {
			cont = s
		}
	}
	switch cont.op {
	case "list":
		if n, ok := idx.intVal(); ok && n >= 0 && n < int64(len(cont.args)) {
			sp := false
			for k := int64(0); k <= n; k++ {
				if cont.args[k].op == "spread" {
					sp = true
				}
			}
			if !sp {
				return []pick{{c.st, cont.args[n]}}
			}
		}
		ps := e.picks(c.st, cont, idx)
		if len(ps) > 0 {
			return ps
		}
	case "set":
		ps := e.picks(c.st, cont, idx)
		if len(ps) == 0 {
			return nil
		}
		return ps
	case "app":
		if b := cont.args; cont.isApp("slice") && (b[0].op == "set" || b[0].op == "list") {
			if ps := e.picks(c.st, b[0], plus(b[1], idx)); len(ps) > 0 {
				return ps
			}
		}
	case "alloc", "zero":
		z := zeroTerm(t)
		if cont.op == "alloc" && c.st.heap[mk("mklen", "", cont)] != nil {
			z = mk("elem", "", cont, idx)
		}
		return []pick{{c.st, z}}
	}
	v := mk("elem", "", cont, idx)
	if v.typ == nil {
		v.typ = t
	}
	return []pick{{c.st, v}}
}

func (fr *frame) slice(c *config, x *ssa.Slice) *Term {
	e := fr.e
	a := fr.val(c, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = fr.val(c, x.Low)
	}
	if x.High != nil {
		hi = fr.val(c, x.High)
	}
	base := a
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			// array literal
			if a.op == "alloc" && lo == nil && hi == nil {
				// a buffer filled by somebody else stays a reference
				var cells []*Term
				any := false
				if v, ok := c.st.heap[a]; ok {
					return v
				}
				for i := int64(0); i < arr.Len() && i < 64; i++ {
					ea := mk("elemaddr", "", a, tInt(i))
					v := e.content(c.st, ea)
					if _, ok := c.st.heap[ea]; ok {
						any = true
					} else if over := e.overlay(c.st, ea, zeroTerm(arr.Elem())); over != nil {
						v, any = over, true
					} else {
						v = zeroTerm(arr.Elem())
					}
					cells = append(cells, v)
				}
				if any || arr.Len() == 0 {
					return mk("list", "", cells...)
				}
				return a
			}
		}
	}
	if lo == nil && hi == nil {
		return base
	}
	if lo != nil {
		if v, ok := lo.intVal(); ok && v == 0 && hi == nil {
			return base
		}
	}
	l, h := tInt(0), mk("len", "", base)
	if lo != nil {
		l = lo
	}
	if hi != nil {
		h = hi
	}
	e.emit(c.st, &Event{kind: "slice", args: []*Term{base, l, h}, in: x, fn: fr.fn, ctx: fr.ctx, typ: x.X.Type()})
	if base.op == "list" {
		lv, ok1 := l.intVal()
		hv, ok2 := h.intVal()
		if hi == nil {
			hv, ok2 = int64(len(base.args)), true
		}
		if ok1 && ok2 && lv >= 0 && hv <= int64(len(base.args)) && lv <= hv {
			for _, q := range base.args {
				if q.op == "spread" {
					ok1 = false
				}
			}
			if ok1 {
				return mk("list", "", base.args[lv:hv]...)
			}
		}
	}
	if hv, ok := h.intVal(); ok && hv == 0 {
		return mk("list", "")
	}
	return app("slice", base, l, h)
}

func (fr *frame) ret(c *config, in ssa.Instruction, rs []*Term) {
	e := fr.e
	st := c.st
	if len(e.stack) > 1 {
		for i, r := range rs {
			if r.op == "err" && r.aux != fr.ctx || r.isApp("fmt.Errorf") || r.isApp("errors.New") {
				if sig := fr.fn.Signature; i < sig.Results().Len() && isErrType(sig.Results().At(i).Type()) {
					// keep one anonymous failure per call
					rs[i] = mk("err", fr.ctx, fr.outer...)
				}
			}
		}
	}
	// a condition the path decides
	for i, r := range rs {
		if r.op == "cmp" || r.op == "not" {
			if v, known := e.truth(st, r); known {
				rs[i] = tBool(v)
			}
		}
	}
	e.emit(st, &Event{kind: "return", name: shortFn(fr.fn), args: rs, in: in, fn: fr.fn, ctx: fr.ctx, ok: resultOk(st, fr.fn.Signature, rs)})
	fr.gc(st, rs)
	var sb strings.Builder
	for _, t := range rs {
		fmt.Fprintf(&sb, "%d,", skel(t).id)
	}
	k := sb.String() + "|" + st.shapeKey()
	if o, ok := fr.outs[k]; ok {
		o.st.join(st)
		for i := range rs {
			o.rets[i] = mergeVal(o.rets[i], rs[i])
		}
		return
	}
	e.covPaths++
	fr.outs[k] = &Outcome{st, rs}
	fr.order = append(fr.order, k)
}

func isErrType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// resultOk: 1 if the error result is nil, 2 if non-nil, 0 if unknown or none.
func resultOk(st *State, sig *types.Signature, rs []*Term) int {
	n := sig.Results().Len()
	if n == 0 || n != len(rs) || !isErrType(sig.Results().At(n-1).Type()) {
		return 0
	}
	m := st.facts.maskOf(rs[n-1], tNil)
	if m == mEQ {
		return 1
	}
	if m&mEQ == 0 {
		return 2
	}
	return 0
}

func (fr *frame) gc(st *State, rs []*Term) {
	own := func(t *Term) bool {
		return t.op == "alloc" && (strings.HasPrefix(t.aux, fr.ctx+"#") || strings.HasPrefix(t.aux, fr.ctx+"/"))
	}
	rootOf := func(k *Term) *Term {
		for {
			switch k.op {
			case "addr", "elemaddr", "mapcell", "elems", "mklen", "mapopen":
				k = k.args[0]
				continue
			}
			return k
		}
	}
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if !t.hasAlloc || seen[t] {
			return
		}
		seen[t] = true
		if own(t) {
			live[t] = true
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	mark0 := mark
	mark = func(t *Term) {
		mark0(t)
		if t.hasAlloc && t.hasSet {
			mark0(skel(t))
		}
	}
	for _, r := range rs {
		mark(r)
	}
	for _, v := range st.mon {
		mark(v)
	}
	type kv struct{ k, v, root *Term }
	var pend []kv
	for k, v := range st.heap {
		r := rootOf(k)
		if k.op == "loopinit" || k.op == "range" {
			if strings.HasPrefix(k.aux, fr.ctx+"#") || strings.HasPrefix(k.aux, fr.ctx+"/") {
				delete(st.heap, k)
				continue
			}
		}
		if own(r) {
			pend = append(pend, kv{k, v, r})
		} else {
			mark(v)
		}
	}
	for ch := true; ch; {
		ch = false
		for i, p := range pend {
			if p.k != nil && live[p.root] {
				mark(p.k)
				mark(p.v)
				pend[i].k = nil
				ch = true
			}
		}
	}
	for _, p := range pend {
		if p.k != nil {
			delete(st.heap, p.k)
		}
	}
	// what only this call knew about sorted values, and what it wrote before failing
	for _, a := range fr.args {
		mark(a)
	}
	for _, a := range fr.free {
		mark(a)
	}
	kept := func(x *Term) bool {
		if seen[x] {
			return true
		}
		for _, ts := range [][]*Term{rs, fr.args, fr.free} {
			for _, t := range ts {
				if skel(t).contains(x) {
					return true
				}
			}
		}
		for k, v := range st.heap {
			if k.op != "sorted" && skel(v) == x {
				return true
			}
		}
		return false
	}
	failed := len(fr.e.stack) > 1 && resultOk(st, fr.fn.Signature, rs) == 2
	for k, v := range st.heap {
		switch {
		case k.op == "sorted" && fr.entry[k] == nil && !kept(k.args[0]):
			delete(st.heap, k)
		case k.op == "dbcell" && failed && fr.entry[k] != v:
			st.heap[k] = mk("dbany", "", k.args...)
		}
	}
	// facts about dead allocations
	st.facts.kill(func(t *Term) bool {
		d := t.find(func(u *Term) bool { return own(u) && !live[u] })
		return d != nil
	})
}

func (fr *frame) next(c *config, x *ssa.Next) []*callRes {
	e := fr.e
	r := fr.val(c, x.Iter)
	if x.IsString {
		b := x.Block()
		act := fr.active(c, b)
		ok := mk("nextok", fr.site(x), act...)
		return []*callRes{{c.st, []*Term{ok, mk("stridx", fr.site(x), act...), mk("strrune", fr.site(x), act...)}}}
	}
	m := r.args[0]
	if ks, known := knownMap(c.st, m); known {
		i := int64(0)
		if v := c.st.heap[r]; v != nil {
			i, _ = v.intVal()
		}
		if i >= int64(len(ks)) {
			delete(c.st.heap, r)
			return []*callRes{{c.st, []*Term{tFalse, tNil, tNil}}}
		}
		c.st.heap[r] = tInt(i + 1)
		return []*callRes{{c.st, []*Term{tTrue, ks[i], c.st.heap[mk("mapcell", "", m, ks[i])]}}}
	}
	b := x.Block()
	var sym *Term
	if l := fr.fi.loops[b]; l != nil {
		sym = c.iters[b]
	}
	if sym == nil {
		sym = mk("loop", fr.site(x))
	}
	k := mk("mapkey", "", m, sym)
	if mt, ok := typesMap(x); ok {
		k.typ = mt.Key()
	}
	s1, s2 := c.st.clone(), c.st
	_ = e
	s1.facts.boolv[mk("app", "maphas", m, k)] = true
	v := mk("mapval", "", m, k)
	if mt, ok := typesMap(x); ok && v.typ == nil {
		v.typ = mt.Elem()
	}
	return []*callRes{{s1, []*Term{tTrue, k, v}}, {s2, []*Term{tFalse, tNil, tNil}}}
}

func typesMap(x *ssa.Next) (*types.Map, bool) {
	if r, ok := x.Iter.(*ssa.Range); ok {
		m, ok := r.X.Type().Underlying().(*types.Map)
		return m, ok
	}
	return nil, false
}

func (e *Engine) lookup(st *State, m, k *Term, x *ssa.Lookup) []*callRes {
	res := func(s *State, v *Term, ok *Term) *callRes {
		if x.CommaOk {
			return &callRes{s, []*Term{v, ok}}
		}
		return &callRes{s, []*Term{v}}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if v, ok := st.heap[mk("mapcell", "", m, k)]; ok {
		return []*callRes{res(st, v, tTrue)}
	}
	if ks, known := knownMap(st, m); known {
		maybe := false
		for _, q := range ks {
			if st.facts.maskOf(q, k)&mEQ != 0 && !(q.isConst() && k.isConst()) {
				maybe = true
			}
		}
		if !maybe {
			st.facts.boolv[mk("app", "maphas", m, k)] = false
			return []*callRes{res(st, zeroTerm(mt.Elem()), tFalse)}
		}
		var out []*callRes
		none := st.clone()
		for _, q := range ks {
			s := st.clone()
			if s.facts.assume(k, q, mEQ) {
				out = append(out, res(s, st.heap[mk("mapcell", "", m, q)], tTrue))
			}
			none.facts.assume(k, q, mNE)
		}
		return append(out, res(none, zeroTerm(mt.Elem()), tFalse))
	}
	has := mk("app", "maphas", m, k)
	v := mk("mapval", "", m, k)
	if v.typ == nil {
		v.typ = mt.Elem()
	}
	var out []*callRes
	s1 := st.clone()
	if e.assumeBool(s1, has, true) {
		s1.facts.assume(v, tNil, mNE)
		out = append(out, res(s1, v, tTrue))
	}
	s2 := st
	if e.assumeBool(s2, has, false) {
		out = append(out, res(s2, zeroTerm(mt.Elem()), tFalse))
	}
	return out
}

// plus adds two integer terms, keeping constants last.
func plus(a, b *Term) *Term {
	x, m := linear(a)
	y, n := linear(b)
	switch {
	case x == tNil:
		x = y
	case y != tNil:
		x = mk("bin", "+", x, y)
	}
	if x == tNil {
		return tInt(m + n)
	}
	if m+n == 0 {
		return x
	}
	return mk("bin", "+", x, tInt(m+n))
}
