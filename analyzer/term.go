package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

// A Term is an interned abstract value: where a run-time value comes from.
// Two values with the same Term are the same value (within one iteration of
// the loops whose symbols the term mentions).
type Term struct {
	id       int
	op       string
	aux      string
	args     []*Term
	typ      types.Type // static type of allocations and calls, if known
	loops    []string   // loop symbols mentioned (sorted)
	depth    int
	hasSet   bool
	hasAlloc bool
}

var internTab = map[string]*Term{}

// termID numbers terms. The numbers only serve to order things; ANSHUF numbers
// them differently, to test that nothing found depends on the order.
var termMul = func() uint32 {
	if n, _ := strconv.Atoi(os.Getenv("ANSHUF")); n > 0 {
		return uint32(n)*2654435762 | 1
	}
	return 1
}()

func termID(n int) int { return int(uint32(n) * termMul) }

func mk(op, aux string, args ...*Term) *Term {
	var buf [128]byte
	key := append(buf[:0], op...)
	key = append(key, '|')
	key = append(key, aux...)
	key = append(key, 0)
	for _, a := range args {
		n := uint32(a.id)
		key = append(key, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	}
	if t, ok := internTab[string(key)]; ok {
		return t
	}
	k := string(key)
	t := &Term{id: termID(len(internTab) + 1), op: op, aux: aux, args: append([]*Term(nil), args...)}
	set := map[string]bool{}
	if op == "loop" || op == "each" {
		set[op+":"+aux] = true
	}
	t.hasSet = op == "set" || op == "when"
	t.hasAlloc = op == "alloc"
	for _, a := range args {
		t.hasSet = t.hasSet || a.hasSet
		t.hasAlloc = t.hasAlloc || a.hasAlloc
		for _, l := range a.loops {
			set[l] = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	for l := range set {
		t.loops = append(t.loops, l)
	}
	sort.Strings(t.loops)
	internTab[k] = t
	return t
}

var (
	tNil   = mk("const", "nil")
	tTrue  = mk("const", "b:true")
	tFalse = mk("const", "b:false")
)

func tInt(i int64) *Term  { return mk("const", "i:"+strconv.FormatInt(i, 10)) }
func tStr(s string) *Term { return mk("const", "s:"+s) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func app(f string, args ...*Term) *Term { return mk("app", f, args...) }

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		// nil, or the zero value of an aggregate
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return mk("zero", types.TypeString(t, nil))
		}
		return tNil
	}
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		return mk("const", "i:"+v.ExactString())
	}
	return mk("const", "x:"+v.ExactString())
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && strings.HasPrefix(t.aux, "i:") {
		i, err := strconv.ParseInt(t.aux[2:], 10, 64)
		return i, err == nil
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.aux, "s:") {
		return t.aux[2:], true
	}
	return "", false
}
func (t *Term) isApp(f string) bool { return t.op == "app" && t.aux == f }
func (t *Term) isFld(f string) bool { return t.op == "fld" && t.aux == f }
func (t *Term) mentions(l string) bool {
	for _, x := range t.loops {
		if x == l {
			return true
		}
	}
	return false
}
func (t *Term) mentionsEach() bool {
	for _, x := range t.loops {
		if strings.HasPrefix(x, "each:") {
			return true
		}
	}
	return false
}

// contains reports whether u occurs in t.
func (t *Term) contains(u *Term) bool {
	if t == u {
		return true
	}
	if t.depth <= u.depth {
		return false
	}
	for _, a := range t.args {
		if a.contains(u) {
			return true
		}
	}
	return false
}

// find returns the first subterm satisfying p.
func (t *Term) find(p func(*Term) bool) *Term {
	if p(t) {
		return t
	}
	for _, a := range t.args {
		if r := a.find(p); r != nil {
			return r
		}
	}
	return nil
}

var strDepth = 8

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > strDepth {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	switch t.op {
	case "const":
		if strings.HasPrefix(t.aux, "s:") {
			return strconv.Quote(t.aux[2:])
		}
		if i := strings.IndexByte(t.aux, ':'); i >= 0 {
			return t.aux[i+1:]
		}
		return t.aux
	case "fld":
		return as[0] + "." + t.aux
	case "addr":
		return "&" + as[0] + "." + t.aux
	case "param":
		return t.aux
	case "global":
		return t.aux
	case "alloc":
		return "new" + lastPart(t.aux)
	case "loop":
		return "·" + lastPart(t.aux)
	case "each":
		return "∀" + lastPart(t.aux)
	case "elem":
		return as[0] + "[" + as[1] + "]"
	case "elemaddr":
		return "&" + as[0] + "[" + as[1] + "]"
	case "call":
		return lastPart(t.aux) + "(" + strings.Join(as, ", ") + ")"
	case "bin":
		return "(" + as[0] + t.aux + as[1] + ")"
	}
	n := t.aux
	if t.op != "app" {
		n = t.op
		if t.aux != "" {
			n += "<" + lastPart(t.aux) + ">"
		}
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}
func lastPart(s string) string {
	if i := strings.LastIndexByte(s, '#'); i >= 0 {
		return s[i:]
	}
	return s
}

// subst replaces subterms; f returns nil to descend.
func (t *Term) subst(f func(*Term) *Term, cache map[*Term]*Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	changed := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = a.subst(f, cache)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		switch t.op {
		case "set":
			r = mkSet(na...)
		case "app":
			r = simplifyApp(t.aux, na...)
		default:
			r = mk(t.op, t.aux, na...)
			r.typ = t.typ
		}
	}
	cache[t] = r
	return r
}

// ---- constructors with normalisation ----

func fld(base *Term, f string) *Term {
	switch base.op {
	case "struct":
		// struct(base, name, val, name, val…)
		for i := 1; i+1 < len(base.args); i += 2 {
			if s, _ := base.args[i].strVal(); s == f {
				return base.args[i+1]
			}
		}
		return fld(base.args[0], f)
	case "zero", "zerofld":
		return mk("zerofld", base.aux+"."+f)
	case "loaded":
		// records are stored under their own name
		if k := bucketKind(base.args[0]); f == "Name" && (k == "pool" || k == "package" || k == "deltaSkip") || f == "ID" && k == "repo" {
			return base.args[1]
		}
	}
	if f == "Release" || f == "Version" {
		// History[0].Release  ==  GetRelease()
		if (base.op == "elem" || base.op == "elemaddr") && len(base.args) == 2 && base.args[0].isFld("History") {
			if i, ok := base.args[1].intVal(); ok && i == 0 {
				return app("eopkg.Get"+f, base.args[0].args[0])
			}
		}
	}
	return mk("fld", f, base)
}

// mkSet: an unordered collection summary.
func mkSet(args ...*Term) *Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, a := range args {
		if !m[a] {
			m[a] = true
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("set", "", out...)
}

func bin(op string, a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			switch op {
			case "+":
				return tInt(x + y)
			case "-":
				return tInt(x - y)
			case "*":
				return tInt(x * y)
			case "|":
				return tInt(x | y)
			case "&":
				return tInt(x & y)
			case "/":
				if y != 0 {
					return tInt(x / y)
				}
			}
		}
	}
	if op == "+" {
		if b.isConst() {
			if y, ok := b.intVal(); ok && y == 0 {
				return a
			}
			// (x + c1) + c2
			if a.op == "bin" && a.aux == "+" {
				if c1, ok := a.args[1].intVal(); ok {
					if c2, ok := b.intVal(); ok {
						return bin("+", a.args[0], tInt(c1+c2))
					}
				}
			}
		} else if _, ok := a.intVal(); ok {
			return bin(op, b, a)
		}
	}
	if op == "-" {
		if y, ok := b.intVal(); ok {
			return bin("+", a, tInt(-y))
		}
	}
	return mk("bin", op, a, b)
}

// cat builds string concatenation, flattened, constants folded; a
// concatenation that contains "/" separators is normalised to a path.
func cat(args ...*Term) *Term {
	var flat []*Term
	for _, a := range args {
		a = stripStr(a)
		if a.isApp("cat") {
			flat = append(flat, a.args...)
		} else {
			flat = append(flat, a)
		}
	}
	var out []*Term
	for _, a := range flat {
		if s, ok := a.strVal(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].strVal(); ok {
					out[n-1] = tStr(p + s)
					continue
				}
			}
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	// path followed by constant suffix: extend the last component
	if out[0].isApp("path") {
		slash := false
		for _, o := range out[1:] {
			if s, ok := o.strVal(); ok && strings.Contains(s, "/") {
				slash = true
			}
		}
		if !slash {
			p := out[0].args
			last := cat(append([]*Term{p[len(p)-1]}, out[1:]...)...)
			return path(append(append([]*Term{}, p[:len(p)-1]...), last)...)
		}
	}
	// "/" separators: a path
	hasSlash := false
	for i, o := range out {
		if s, ok := o.strVal(); ok && strings.Contains(s, "/") && !strings.Contains(s, ":") && !(i == 0 && len(s) > 0 && s[0] == '/') {
			hasSlash = true
		}
	}
	if hasSlash {
		var comps []*Term
		var cur []*Term
		flush := func() {
			if len(cur) > 0 {
				comps = append(comps, cat(cur...))
				cur = nil
			}
		}
		for _, o := range out {
			if s, ok := o.strVal(); ok {
				parts := strings.Split(s, "/")
				for i, p := range parts {
					if i > 0 {
						flush()
					}
					if p != "" {
						cur = append(cur, tStr(p))
					}
				}
			} else {
				cur = append(cur, o)
			}
		}
		flush()
		if len(comps) > 1 {
			return path(comps...)
		}
	}
	return mk("app", "cat", out...)
}

func path(args ...*Term) *Term {
	var out []*Term
	for _, a := range args {
		a = stripStr(a)
		if a.isApp("path") {
			out = append(out, a.args...)
		} else if s, ok := a.strVal(); ok {
			if s == "" {
				continue
			}
			abs := strings.HasPrefix(s, "/") && len(out) == 0
			for i, p := range strings.Split(strings.Trim(s, "/"), "/") {
				if i == 0 && abs {
					p = "/" + p
				}
				if p != "" {
					out = append(out, tStr(p))
				}
			}
		} else {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("app", "path", out...)
}

// stripStr removes []byte<->string conversions.
func stripStr(t *Term) *Term {
	for t.isApp("str") || t.isApp("bytes") {
		t = t.args[0]
	}
	return t
}

// simplifyApp rebuilds an application after substitution.
func simplifyApp(f string, args ...*Term) *Term {
	switch f {
	case "cat":
		return cat(args...)
	case "path":
		return path(args...)
	}
	return mk("app", f, args...)
}

func dirOf(p *Term) *Term {
	if p.isApp("path") && len(p.args) > 1 {
		l := p.args[len(p.args)-1]
		if l.isApp("eopkg.GetPathComponent") { // two levels
			return path(append(append([]*Term{}, p.args[:len(p.args)-1]...), app("filepath.Dir", l))...)
		}
		return path(p.args[:len(p.args)-1]...)
	}
	return app("filepath.Dir", p)
}
func baseOf(p *Term) *Term {
	if p.isApp("path") {
		l := p.args[len(p.args)-1]
		if l.isConst() {
			return l
		}
		return app("filepath.Base", l)
	}
	if p.isApp("filepath.Base") {
		return p
	}
	return app("filepath.Base", p)
}

func termList(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, ", ")
}

var _ = fmt.Sprint
