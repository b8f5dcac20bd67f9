package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "path-sensitive bounds and definedness analysis of every operation that handles packages, manifests, records, requests or replies: each element access and each slice is within bounds, no pointer known to be absent is followed, metadata is used only after it was read successfully and is only accepted with a history and a source name, records are only stored with metadata, deltas are only described by records of deltas, no panic and no unchecked type assertion is reachable", checkC44)
}

type crashMon struct {
	c     *Ctx
	entry string
}

// below: the number is known to be less than (or equal to) another.
func below(s *State, a, b *Term, orEqual bool) bool {
	m := s.facts.maskOf(a, b)
	if m&mGT == 0 && (orEqual || m&mEQ == 0) && m != 0 {
		return true
	}
	ra, rb := numRange(s, a), numRange(s, b)
	if ra.hi < rb.lo || orEqual && ra.hi <= rb.lo {
		return true
	}
	x, m1 := linear(a)
	y, m2 := linear(b)
	slack := int64(0)
	if orEqual {
		slack = 1
	}
	if x == y {
		return m1 < m2+slack
	}
	// the bounds of the loops under way
	for _, p := range s.all("!loops") {
		off, _ := p.args[1].intVal()
		z, c := linear(p.args[2])
		// x + off < z + c
		if p.args[0] == x && z == y && m1-off+c-1 < m2+slack {
			return true
		}
	}
	for k, v := range s.facts.mask {
		for i := 0; i < 2; i++ {
			p, q, w := k[i], k[1-i], v
			if i == 1 {
				w = flip(v)
			}
			// p < q or p <= q
			u, d1 := linear(p)
			z, d2 := linear(q)
			if u != x || z != y || w&mGT != 0 {
				continue
			}
			if w&mEQ == 0 {
				d2--
			}
			// x + d1 <= y + d2
			if m1-d1+d2 < m2+slack {
				return true
			}
		}
	}
	// how much was decoded is not more than there was
	return orEqual && a.isApp("unicode/utf8.DecodeRune#1") && b.op == "len" && b.args[0] == a.args[0]
}

// numRange: the bounds of a number.
func numRange(s *State, t *Term) rng {
	if v, ok := t.intVal(); ok {
		return rng{lo: v, hi: v}
	}
	if t.op == "len" && t.args[0].op == "list" {
		n := int64(0)
		for _, x := range t.args[0].args {
			if x.op == "spread" || x.op == "when" {
				return s.facts.rangeOf(t)
			}
			n++
		}
		return rng{lo: n, hi: n}
	}
	r := s.facts.rangeOf(t)
	if t.isApp("unicode/utf8.DecodeRune#1") {
		r.lo = 0
	}
	if x, c := linear(t); x.op == "len" {
		for k, v := range s.facts.boolv {
			if v && (k.isApp("strings.HasSuffix") || k.isApp("strings.HasPrefix")) && k.args[0] == x.args[0] {
				if l, ok := k.args[1].strVal(); ok && int64(len(l))+c > r.lo {
					r.lo = int64(len(l)) + c
				}
			}
		}
		if q := s.facts.rangeOf(x); q.lo+c > r.lo {
			r.lo = q.lo + c
		}
	}
	return r
}

// least: the smallest value a counter can have.
func least(v ssa.Value) int64 {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Int64()
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && k.Value != nil {
			if l := least(x.X); l > minI {
				return l + k.Int64()
			}
		}
	case *ssa.Phi:
		lo := int64(maxI)
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == v {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() >= 0 {
					continue
				}
			}
			k, ok := e.(*ssa.Const)
			if !ok || k.Value == nil {
				return minI
			}
			if k.Int64() < lo {
				lo = k.Int64()
			}
		}
		return lo
	}
	return minI
}

func indexOf(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return x.Index
	case *ssa.Index:
		return x.Index
	case *ssa.Lookup:
		return x.Index
	}
	return nil
}

func arrayLen(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// isNumber: the bound of the loop is the length of something.
func isNumber(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func (m *crashMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "loop.iter":
		if f, ok := ev.in.(*ssa.If); ok {
			if c, ok := f.Cond.(*ssa.BinOp); ok && c.Op == token.LSS && ev.arg(1) != tNil {
				off := int64(0)
				if b, ok := c.X.(*ssa.BinOp); ok {
					k, ok := b.Y.(*ssa.Const)
					if !ok || b.Op != token.ADD || k.Value == nil {
						return
					}
					off = k.Int64()
				}
				over := ev.arg(1)
				if isNumber(c.Y) && over.op != "bin" {
					over = mk("len", "", over)
				}
				s.addTo("!loops", mk("upto", "", ev.arg(0), tInt(off), over))
			}
		}
	case "index":
		a, ix := ev.arg(0), ev.arg(1)
		e.count("element accesses")
		if n := arrayLen(ev.typ); n >= 0 {
			if r := numRange(s, ix); r.lo < 0 || r.hi >= n {
				e.violate(s, ev, "index", short(a)+"["+short(ix)+"]", "may be out of range")
			}
			return
		}
		if iv := indexOf(ev.in); numRange(s, ix).lo < 0 && (iv == nil || least(iv) < 0) || !below(s, ix, mk("len", "", a), false) {
			switch {
			case ix == tInt(0) && a.op == "fld" && a.aux == "History" && published(a.args[0]):
				e.count("histories relied upon")
			case a.op == "param" && ix.op == "param" && (ev.fn.Name() == "Less" || ev.fn.Name() == "Swap") && len(ev.fn.Params) == 3:
				// called by sort
			default:
				e.violate(s, ev, "index", short(a)+"["+short(ix)+"]", "the element "+short(ix)+" of "+short(a)+" is used although nothing on this path shows that there is one")
			}
		}
	case "slice":
		a, l, h := ev.arg(0), ev.arg(1), ev.arg(2)
		e.count("slices taken")
		ln := mk("len", "", a)
		if n := arrayLen(ev.typ); n >= 0 {
			if h != ln && !below(s, h, tInt(n), true) || numRange(s, l).lo < 0 || !(h == ln && below(s, l, tInt(n), true) || below(s, l, h, true)) {
				e.violate(s, ev, "slice", short(a)+"["+short(l)+":"+short(h)+"]", "may be out of range")
			}
			return
		}
		if numRange(s, l).lo < 0 || !(h == ln || below(s, h, ln, true)) || !below(s, l, h, true) {
			n := a
			for n.isApp("strings.ToLower") || n.isApp("strings.ToUpper") {
				n = n.args[0]
			}
			if h == tInt(1) && l == tInt(0) && n.op == "fld" && n.aux == "Name" && n.args[0].op == "fld" && n.args[0].aux == "Source" && published(n.args[0].args[0]) {
				e.count("source names relied upon")
				return
			}
			e.violate(s, ev, "slice", short(a)+"["+short(l)+":"+short(h)+"]", "the part "+short(l)+":"+short(h)+" of "+short(a)+" is taken although nothing on this path shows that it is there")
		}
	case "panic":
		e.violate(s, ev, "panic", short(ev.arg(0)), "the daemon can panic")
	case "typeassert":
		e.violate(s, ev, "typeassert", short(ev.arg(0)), "the daemon panics if the value has another type")
	case "call":
		if ev.ok != 2 && (strings.HasSuffix(ev.name, "libeopkg.Package.ReadMetadata") || strings.HasSuffix(ev.name, "libeopkg.Package.ReadAll") || strings.HasSuffix(ev.name, "libeopkg.Package.ReadFiles")) {
			if !strings.HasSuffix(ev.name, "ReadFiles") {
				s.addTo("read", mk("has", "Meta", ev.arg(0)))
			}
			if !strings.HasSuffix(ev.name, "ReadMetadata") {
				s.addTo("read", mk("has", "Files", ev.arg(0)))
			}
		}
		if ci, ok := ev.in.(ssa.CallInstruction); ok && len(ev.args) > 0 {
			// library methods do not accept an absent receiver
			if f := ci.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil && (ev.args[0] == tNil || s.facts.maskOf(ev.args[0], tNil)&mNE == 0) {
				if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
					e.violate(s, ev, "nil", ev.name, "a method is called on a pointer that is nil on this path")
				}
			}
		}
		if strings.HasPrefix(ev.name, "regexp.MustCompile") || strings.HasPrefix(ev.name, "html/template.Must") || strings.HasPrefix(ev.name, "text/template.Must") {
			if _, ok := ev.arg(0).strVal(); !ok {
				e.violate(s, ev, "panic", short(ev.arg(0)), "the daemon panics if this is malformed")
			}
		}
	case "mapupdate":
		if ev.arg(0) == tNil {
			e.violate(s, ev, "nil", short(ev.arg(0)), "an absent map is written to")
		}
	case "db":
		if ev.name == "put" && isBucket(ev.arg(0), "pool") && ev.ok != 2 {
			e.count("pool records stored")
			m.record(e, s, ev)
		}
	case "store":
		a, v := ev.arg(0), ev.arg(1)
		if a.op == "addr" && a.aux == "Meta" && v != tNil && strings.HasSuffix(types.TypeString(ev.typ, nil), "libeopkg.Metadata") {
			e.count("metadata accepted")
			p := e.field(s, v, "Package")
			h := e.field(s, p, "History")
			if numRange(s, lenOf(s, h)).lo < 1 {
				e.violate(s, ev, "history", short(v), "metadata is accepted although its history may be empty")
			}
			n := e.field(s, e.field(s, p, "Source"), "Name")
			if numRange(s, lenOf(s, n)).lo < 1 && s.facts.maskOf(n, tStr(""))&mEQ != 0 {
				e.violate(s, ev, "source-name", short(v), "metadata is accepted although the name of its source may be empty")
			}
		}
	case "deref", "load":
		p := ev.arg(0)
		if p == tNil || p.op == "typednil" || s.facts.maskOf(p, tNil)&mNE == 0 {
			e.violate(s, ev, "nil", short(p), "a pointer that is nil on this path is followed")
			return
		}
		if p.op != "fld" || len(p.args) == 0 || s.facts.maskOf(p, tNil)&mEQ == 0 {
			return
		}
		b := stripAddr(p.args[0])
		switch {
		case (p.aux == "Meta" || p.aux == "Files") && b.op == "call" && strings.Contains(b.aux, "libeopkg.Open.0"):
			e.count("uses of what was read")
			if !s.has("read", mk("has", p.aux, b)) {
				e.violate(s, ev, "unread", short(p), "what a package says is used although it was not read successfully on this path")
			}
		case p.aux == "Delta" && b.op == "loaded" && isBucket(b.args[0], "pool"):
			e.count("uses of a record's delta")
			if !deltaKey(b.args[1]) && !s.has("delta", b) {
				e.violate(s, ev, "delta", short(p), "the delta of a record is used although the record need not be that of a delta")
			}
		case optional(ev.typ):
			e.violate(s, ev, "optional", short(p), "an optional part of a package's metadata is used although it may be absent")
		}
	}
}

// published: metadata that was accepted when it was read: what a package that
// was read, a record or a parameter holds.
func published(m *Term) bool {
	for m != nil {
		switch m.op {
		case "fld", "addr", "elem", "elemaddr", "loaded", "when", "mapval":
			if m.op == "loaded" {
				return true
			}
			if len(m.args) == 0 {
				return false
			}
			m = m.args[0]
		case "param", "free", "call", "opq", "each", "loop":
			return true
		default:
			return false
		}
	}
	return false
}

// deltaKey: the identity is listed among the deltas of a package.
func deltaKey(k *Term) bool {
	return k.op == "elem" && k.args[0].isFld("Deltas") || k.op == "param"
}

// optional: a pointer to a list or to a structure of package metadata.
func optional(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Slice)
	return ok
}

// record: what is stored about a package has its metadata.
func (m *crashMon) record(e *Engine, s *State, ev *Event) {
	v := ev.arg(2)
	meta := e.field(s, v, "Meta")
	if x := ev.arg(4); x.op == "alloc" || x.op == "param" {
		meta = e.field(s, x, "Meta")
	}
	if meta == tNil {
		e.violate(s, ev, "record", short(ev.arg(1)), "a package is recorded without its metadata")
		return
	}
	if h := e.field(s, meta, "History"); meta.op == "alloc" && numRange(s, lenOf(s, h)).lo < 1 && !(h.op == "fld" && published(h.args[0])) {
		e.violate(s, ev, "record", short(ev.arg(1)), "a package is recorded with metadata whose history may be empty")
	}
}

// starting: operations of the start-up, which handle nothing from outside.
func starting(n string) bool {
	for _, p := range []string{"cmd.", "libferry.", "ferryd.LockFile.", "ferryd.NewLockFile", "ferryd.NewServer", "ferryd.Server.Bind", "ferryd.Server.Serve", "ferryd.Server.Close", "ferryd.Server.killHandler", "jobs.NewWorker", "jobs.NewProcessor", "jobs.NewStore"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func checkC44(c *Ctx) {
	only := os.Getenv("ONLY")
	var names []string
	for _, n := range c.everything() {
		if strings.Contains(n, only) && !starting(n) {
			names = append(names, n)
		}
	}
	c.parEach("operations", names, func(n string) {
		c.count("operations followed", 1)
		c.runAny(n, &crashMon{c: c, entry: n})
	})
	c.require("operations followed", 20)
	c.require("element accesses", 1)
	c.require("slices taken", 1)
	c.require("metadata accepted", 1)
	c.require("uses of what was read", 1)
	c.require("pool records stored", 1)
}
