package main

import (
	"sort"
	"strconv"
	"strings"
)

const (
	mLT  = 1
	mEQ  = 2
	mGT  = 4
	mNE  = 5
	mAll = 7
)

type rng struct {
	lo, hi int64
	ne     string // excluded values, "," separated
}

const (
	minI = int64(-1 << 62)
	maxI = int64(1 << 62)
)

// Facts: what the path so far has established.
type Facts struct {
	boolv map[*Term]bool     // boolean terms
	mask  map[[2]*Term]uint8 // orderings of pairs (ids ascending)
	rng   map[*Term]rng      // integer terms against constants
}

func newFacts() *Facts {
	return &Facts{map[*Term]bool{}, map[[2]*Term]uint8{}, map[*Term]rng{}}
}
func (f *Facts) clone() *Facts {
	g := &Facts{make(map[*Term]bool, len(f.boolv)), make(map[[2]*Term]uint8, len(f.mask)), make(map[*Term]rng, len(f.rng))}
	for k, v := range f.boolv {
		g.boolv[k] = v
	}
	for k, v := range f.mask {
		g.mask[k] = v
	}
	for k, v := range f.rng {
		g.rng[k] = v
	}
	return g
}

// join keeps what both know. Reports whether f lost something.
func (f *Facts) join(g *Facts) bool {
	ch := false
	// nothing is in an empty list
	for k, v := range f.boolv {
		if !v && k.isApp("in") {
			if _, ok := g.boolv[k]; !ok && g.rangeOf(mk("len", "", k.args[0])).hi <= 0 {
				g = g.clone()
				g.boolv[k] = false
			}
		}
	}
	for k, v := range g.boolv {
		if !v && k.isApp("in") {
			if _, ok := f.boolv[k]; !ok && f.rangeOf(mk("len", "", k.args[0])).hi <= 0 {
				f.boolv[k] = false
			}
		}
	}
	for k, v := range f.boolv {
		if w, ok := g.boolv[k]; !ok || w != v {
			delete(f.boolv, k)
			ch = true
		}
	}
	for k, v := range f.mask {
		w, ok := g.mask[k]
		if !ok {
			w = mAll
		}
		if v|w != v {
			ch = true
			if v|w == mAll {
				delete(f.mask, k)
			} else {
				f.mask[k] = v | w
			}
		}
	}
	for k, v := range f.rng {
		w, ok := g.rng[k]
		if !ok {
			delete(f.rng, k)
			ch = true
			continue
		}
		n := v
		if w.lo < n.lo {
			n.lo = w.lo
		}
		if w.hi > n.hi {
			n.hi = w.hi
		}
		if n.ne != w.ne {
			n.ne = ""
		}
		if n != v {
			ch = true
			if n.lo == minI && n.hi == maxI && n.ne == "" {
				delete(f.rng, k)
			} else {
				f.rng[k] = n
			}
		}
	}
	return ch
}
func (f *Facts) key() string {
	var ks []string
	for k, v := range f.boolv {
		ks = append(ks, "b"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	for k, v := range f.mask {
		ks = append(ks, "m"+strconv.Itoa(k[0].id)+"_"+strconv.Itoa(k[1].id)+"_"+strconv.Itoa(int(v)))
	}
	for k, v := range f.rng {
		ks = append(ks, "r"+strconv.Itoa(k.id)+"_"+strconv.FormatInt(v.lo, 10)+"_"+strconv.FormatInt(v.hi, 10)+"_"+v.ne)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// kill drops every fact about a term satisfying p.
func (f *Facts) kill(p func(*Term) bool) {
	for k := range f.boolv {
		if p(k) {
			delete(f.boolv, k)
		}
	}
	for k := range f.mask {
		if p(k[0]) || p(k[1]) {
			delete(f.mask, k)
		}
	}
	for k := range f.rng {
		if p(k) {
			delete(f.rng, k)
		}
	}
}

func flip(m uint8) uint8 {
	r := m & mEQ
	if m&mLT != 0 {
		r |= mGT
	}
	if m&mGT != 0 {
		r |= mLT
	}
	return r
}

// maskOf returns the possible orderings of a relative to b.
func (f *Facts) maskOf(a, b *Term) uint8 {
	if a == b {
		return mEQ
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			switch {
			case x < y:
				return mLT
			case x > y:
				return mGT
			}
			return mEQ
		}
	}
	if a.isConst() && b.isConst() {
		return mNE
	}
	if a == tNil && b.isApp("cat") || b == tNil && a.isApp("cat") {
		return mNE
	}
	if a == emptyStr && neverEmpty(b) || b == emptyStr && neverEmpty(a) {
		return mNE
	}
	if y, ok := b.intVal(); ok {
		return f.rngMask(a, y) & f.rawMask(a, b)
	}
	if x, ok := a.intVal(); ok {
		return flip(f.rngMask(b, x)) & f.rawMask(a, b)
	}
	if ra, rb := f.rangeOf(a), f.rangeOf(b); ra.hi < rb.lo {
		return mLT
	} else if rb.hi < ra.lo {
		return mGT
	} else if (ra.hi <= rb.lo || rb.hi <= ra.lo) && ra.lo > minI && ra.hi < maxI {
		m := f.rawMask(a, b)
		if ra.hi <= rb.lo {
			m &= mLT | mEQ
		}
		if rb.hi <= ra.lo {
			m &= mGT | mEQ
		}
		return m
	}
	// distinct known-different things
	if distinct(a, b) {
		return mNE
	}
	// nil comparison
	if b == tNil && nonNil(a) || a == tNil && nonNil(b) {
		return mNE
	}
	return f.rawMask(a, b)
}
func (f *Facts) rawMask(a, b *Term) uint8 {
	if a.id < b.id {
		if m, ok := f.mask[[2]*Term{a, b}]; ok {
			return m
		}
	} else if m, ok := f.mask[[2]*Term{b, a}]; ok {
		return flip(m)
	}
	return mAll
}
func (f *Facts) rangeOf(a *Term) rng {
	r := rng{minI, maxI, ""}
	if a.op == "len" || a.isApp("cap") {
		r.lo = 0
		if a.op == "len" && a.args[0].isFld("Available") && a.args[0].args[0].op == "loaded" {
			if _, ok := pkgBucket(a.args[0].args[0].args[0]); ok {
				r.lo = 1 // no record without a build is ever stored: rule empty-record of C10
			}
		}
		if a.op == "len" && (a.args[0].op == "set" || a.args[0].op == "list") {
			for _, x := range a.args[0].args {
				if x.op != "spread" && !(x.op == "when" && x.args[0].op == "spread") {
					r.lo = 1
				}
			}
		}
	}
	if v, ok := f.rng[a]; ok {
		if v.lo > r.lo {
			r.lo = v.lo
		}
		if v.hi < r.hi {
			r.hi = v.hi
		}
		r.ne = v.ne
	}
	// x + c
	if a.op == "bin" && a.aux == "+" {
		if c, ok := a.args[1].intVal(); ok {
			b := f.rangeOf(a.args[0])
			if b.lo > minI && b.lo+c > r.lo {
				r.lo = b.lo + c
			}
			if b.hi < maxI && b.hi+c < r.hi {
				r.hi = b.hi + c
			}
		}
	}
	return r
}
func (f *Facts) rngMask(a *Term, y int64) uint8 {
	r := f.rangeOf(a)
	var m uint8
	if r.lo < y {
		m |= mLT
	}
	if r.hi > y {
		m |= mGT
	}
	if r.lo <= y && y <= r.hi {
		m |= mEQ
		for _, s := range strings.Split(r.ne, ",") {
			if s != "" {
				if v, _ := strconv.ParseInt(s, 10, 64); v == y {
					m &^= mEQ
				}
			}
		}
	}
	return m
}

// assume restricts a ? b to the orderings in m; false if impossible.
func (f *Facts) assume(a, b *Term, m uint8) bool {
	cur := f.maskOf(a, b)
	n := cur & m
	if n == 0 {
		return false
	}
	if n == cur {
		return true
	}
	if y, ok := b.intVal(); ok && !a.isConst() {
		return f.assumeInt(a, y, n)
	}
	if x, ok := a.intVal(); ok && !b.isConst() {
		return f.assumeInt(b, x, flip(n))
	}
	if a.id < b.id {
		f.mask[[2]*Term{a, b}] = n
	} else {
		f.mask[[2]*Term{b, a}] = flip(n)
	}
	return f.bound(a, b, n) && f.bound(b, a, flip(n))
}

// bound carries the constant bounds of b over to a.
func (f *Facts) bound(a, b *Term, m uint8) bool {
	if m&mEQ != 0 && m != mEQ && m != mEQ|mLT && m != mEQ|mGT || m == mNE {
		return true
	}
	r := f.rangeOf(b)
	if m&mLT == 0 && r.lo > minI { // a >= b or a > b or a == b
		k := uint8(mGT | mEQ)
		if m == mGT {
			k = mGT
		}
		if !f.assumeInt(a, r.lo, k) {
			return false
		}
	}
	if m&mGT == 0 && r.hi < maxI {
		k := uint8(mLT | mEQ)
		if m == mLT {
			k = mLT
		}
		if !f.assumeInt(a, r.hi, k) {
			return false
		}
	}
	return true
}
func (f *Facts) assumeInt(a *Term, y int64, m uint8) bool {
	r := f.rangeOf(a)
	switch m {
	case mEQ:
		r.lo, r.hi, r.ne = y, y, ""
	case mLT:
		if y-1 < r.hi {
			r.hi = y - 1
		}
	case mGT:
		if y+1 > r.lo {
			r.lo = y + 1
		}
	case mLT | mEQ:
		if y < r.hi {
			r.hi = y
		}
	case mGT | mEQ:
		if y > r.lo {
			r.lo = y
		}
	case mNE:
		if r.lo == y {
			r.lo = y + 1
		} else if r.hi == y {
			r.hi = y - 1
		} else {
			r.ne += strconv.FormatInt(y, 10) + ","
		}
	}
	if r.lo > r.hi {
		return false
	}
	f.rng[a] = r
	return true
}

// distinct: certainly different values.
func distinct(a, b *Term) bool {
	ident := func(t *Term) bool {
		switch t.op {
		case "global", "err", "alloc", "func", "fresh":
			return true
		case "app":
			return t.aux == "fmt.Errorf" || t.aux == "errors.New"
		}
		return false
	}
	if !ident(a) || !ident(b) {
		return false
	}
	// external failures may be external sentinels (io.EOF…)
	ext := func(t *Term) bool { return t.op == "err" }
	extGlobal := func(t *Term) bool { return t.op == "global" && !strings.HasPrefix(t.aux, repoPath) }
	if ext(a) && (extGlobal(b) || ext(b)) || ext(b) && extGlobal(a) {
		return false
	}
	return a != b
}

func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "closure", "func", "err", "addr", "elemaddr", "fresh", "tx", "bucket", "struct", "mkmap":
		return true
	case "global":
		return sentinelGlobals[t.aux]
	case "list":
		return len(t.args) > 0
	case "app":
		return t.aux == "fmt.Errorf" || t.aux == "errors.New" || t.aux == "nonnil"
	case "const":
		return t != tNil
	}
	return false
}

// ---- State ----

type State struct {
	facts *Facts
	heap  map[*Term]*Term
	mon   map[string]*Term
	trace *traceNode
	dead  bool
}

type traceNode struct {
	prev *traceNode
	msg  string
}

func newState() *State {
	return &State{facts: newFacts(), heap: map[*Term]*Term{}, mon: map[string]*Term{}}
}
func (s *State) clone() *State {
	h := make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	m := make(map[string]*Term, len(s.mon))
	for k, v := range s.mon {
		m[k] = v
	}
	return &State{facts: s.facts.clone(), heap: h, mon: m, trace: s.trace}
}
func (s *State) note(msg string) { s.trace = &traceNode{s.trace, msg} }
func (s *State) path() string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 40 {
		out = append([]string{"…"}, out[len(out)-40:]...)
	}
	return strings.Join(out, " > ")
}

// shapeKey identifies a state up to its facts.
func (s *State) shapeKey() string {
	var h hash128
	for k, v := range s.heap {
		if k.op == "notin" || k.op == "sorted" {
			continue
		}
		h.add(uint64(k.id), uint64(skel(v).id))
	}
	for k, v := range s.mon {
		h.add(monKeyID(k), uint64(skel(v).id))
	}
	return h.String()
}

// hash128 is an order-independent hash of pairs.
type hash128 struct{ a, b, n uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}
func (h *hash128) add(k, v uint64) {
	x := mix64(mix64(k) ^ (v + 0x632be59bd9b4e019))
	h.a += x
	h.b += mix64(x ^ 0xd6e8feb86659fd93)
	h.n++
}
func (h *hash128) String() string {
	var b [24]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(h.a >> (8 * i))
		b[8+i] = byte(h.b >> (8 * i))
		b[16+i] = byte(h.n >> (8 * i))
	}
	return string(b[:])
}

var monIDs = map[string]uint64{}

func monKeyID(k string) uint64 {
	n, ok := monIDs[k]
	if !ok {
		n = uint64(len(monIDs)+1) << 40
		monIDs[k] = n
	}
	return n
}

var skelTab = map[*Term]*Term{}

// skel drops the conditions of set templates: states that differ only in them are joined.
func skel(t *Term) *Term {
	if !t.hasSet {
		return t
	}
	if r, ok := skelTab[t]; ok {
		return r
	}
	var r *Term
	if t.op == "when" {
		r = mk("when", "", skel(t.args[0]))
	} else {
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = skel(a)
		}
		if t.op == "set" {
			r = mkSet(as...)
		} else {
			r = mk(t.op, t.aux, as...)
		}
	}
	skelTab[t] = r
	return r
}

// mergeVal joins two values with the same skeleton.
func mergeVal(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == "set" && b.op == "set" {
		return mergeTempl(append(append([]*Term{}, a.args...), b.args...))
	}
	if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) {
		return a
	}
	as := make([]*Term, len(a.args))
	for i := range as {
		as[i] = mergeVal(a.args[i], b.args[i])
	}
	r := mk(a.op, a.aux, as...)
	if r.typ == nil {
		r.typ = a.typ
	}
	return r
}

// join merges a state with the same shape into s; reports whether s changed.
func (s *State) join(o *State) bool {
	ch := s.facts.join(o.facts)
	for k, v := range o.heap {
		switch k.op {
		case "notin":
			c, ok := s.heap[k]
			if !ok {
				s.heap[k] = v
				ch = true
				continue
			}
			var keep []*Term
			for _, x := range c.args {
				for _, y := range v.args {
					if x == y {
						keep = append(keep, x)
					}
				}
			}
			if n := mkSet(keep...); n != c {
				s.heap[k] = n
				ch = true
			}
		case "sorted":
		default:
			c := s.heap[k]
			if c != nil && c != v {
				if n := mergeVal(c, v); n != c {
					s.heap[k] = n
					ch = true
				}
			}
		}
	}
	for k, v := range s.heap {
		if k.op == "sorted" && o.heap[k] != v {
			if w, ok := o.heap[k]; ok || !o.emptyList(k.args[0]) {
				_ = w
				delete(s.heap, k)
				ch = true
			}
		}
	}
	for k, v := range o.mon {
		if c := s.mon[k]; c != nil && c != v {
			if n := mergeVal(c, v); n != c {
				s.mon[k] = n
				ch = true
			}
		}
	}
	return ch
}
func (s *State) emptyList(x *Term) bool { return s.facts.rangeOf(mk("len", "", x)).hi <= 0 }

// monitor variables
func (s *State) get(k string) *Term { return s.mon[k] }
func (s *State) is(k string) bool   { return s.mon[k] == tTrue }
func (s *State) set(k string, t *Term) {
	if t == nil {
		delete(s.mon, k)
	} else {
		s.mon[k] = t
	}
}
func (s *State) setB(k string, b bool) {
	if b {
		s.mon[k] = tTrue
	} else {
		delete(s.mon, k)
	}
}
func (s *State) addTo(k string, t *Term) {
	if o := s.mon[k]; o != nil {
		s.mon[k] = mkSet(append(append([]*Term{}, o.args...), t)...)
	} else {
		s.mon[k] = mkSet(t)
	}
}
func (s *State) remFrom(k string, p func(*Term) bool) bool {
	o := s.mon[k]
	if o == nil {
		return false
	}
	var out []*Term
	rem := false
	for _, a := range o.args {
		if p(a) {
			rem = true
		} else {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		delete(s.mon, k)
	} else {
		s.mon[k] = mkSet(out...)
	}
	return rem
}
func (s *State) has(k string, t *Term) bool {
	if o := s.mon[k]; o != nil {
		for _, a := range o.args {
			if a == t {
				return true
			}
		}
	}
	return false
}
func (s *State) all(k string) []*Term {
	if o := s.mon[k]; o != nil {
		return o.args
	}
	return nil
}

// endIter is applied when a loop starts its next iteration: facts about the
// old element die, remembered values that mention it become "some earlier
// element".
func (s *State) endIter(loop string) {
	l := "loop:" + loop
	s.facts.kill(func(t *Term) bool { return t.mentions(l) || t.mentions("each:"+loop) })
	prev := mk("prev", loop)
	f := func(t *Term) *Term {
		if t.op == "loop" && t.aux == loop {
			return prev
		}
		return nil
	}
	cache := map[*Term]*Term{}
	for k, v := range s.heap {
		if k.mentions(l) {
			delete(s.heap, k)
			continue
		}
		if v.mentions(l) {
			s.heap[k] = v.subst(f, cache)
		}
	}
	for k, v := range s.mon {
		if v.mentions(l) {
			if strings.HasPrefix(k, "!") { // per-iteration monitor variable
				delete(s.mon, k)
			} else {
				s.mon[k] = v.subst(f, cache)
			}
		}
	}
}

var emptyStr = tStr("")

// neverEmpty: an element of the list of builds or deltas of a stored record
// (identities are base names of files), or a path of several components.
func neverEmpty(t *Term) bool {
	return t.isApp("path") && len(t.args) > 1 || t.op == "elem" && t.args[0].op == "fld" && (t.args[0].aux == "Available" || t.args[0].aux == "Deltas") && t.args[0].args[0].op == "loaded"
}

// subterms collects the parts of t for which p holds.
func subterms(t *Term, p func(*Term) bool) map[*Term]bool {
	out := map[*Term]bool{}
	collect(t, p, out, map[*Term]bool{})
	return out
}

func collect(t *Term, p func(*Term) bool, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if p(t) {
		out[t] = true
	}
	for _, a := range t.args {
		collect(a, p, out, seen)
	}
}

// terms collects the terms the facts mention for which p holds.
func (f *Facts) terms(p func(*Term) bool) map[*Term]bool {
	out, seen := map[*Term]bool{}, map[*Term]bool{}
	for k := range f.mask {
		collect(k[0], p, out, seen)
		collect(k[1], p, out, seen)
	}
	for k := range f.boolv {
		collect(k, p, out, seen)
	}
	for k := range f.rng {
		collect(k, p, out, seen)
	}
	return out
}
