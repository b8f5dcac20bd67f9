package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C46", "inductive simulation of the escaping writer's loop: what is decoded is what was held back followed by what was given; each pass decodes exactly one complete character at the head of the rest, appends exactly its text (an escape exactly for the classes to escape, the replacement character for what is invalid) and goes on directly behind it; the passes end only when no complete character is left, and exactly that rest is held back; all text and only it goes to the underlying writer in one write, whose failure is reported with no bytes accepted and whose success with all; so the text written is a function of the concatenation of everything given", checkC46)
}

type escMon struct {
	c          *Ctx
	held, sink string // the fields that hold back bytes and the writer
	in         *Term  // the parameter
}

// input: what there is to decode.
func (m *escMon) input(s *State, t *Term) bool {
	p := fld(mk("param", "self"), m.held)
	if t == mk("app", "cat", p, m.in) {
		return true
	}
	return t == m.in && (numRange(s, mk("len", "", p)).hi == 0 || s.facts.maskOf(p, tNil)&^mEQ == 0)
}

// wide: the value of a variable of the loop after any number of passes.
func wide(v *Term, t *Term) bool { return v != nil && t.op == "wid" && t.aux == v.aux }

// at: the position in the input is the one reached.
func (m *escMon) at(s *State, p *Term) bool {
	k := s.get("posvar")
	if k == nil {
		v, ok := p.intVal()
		return ok && v == 0
	}
	return p == s.get("pos") || wide(k, p)
}

// rest: the text is what is left to decode.
func (m *escMon) rest(s *State, t *Term) bool {
	if k := s.get("restvar"); k != nil {
		return t == s.get("rest") || wide(k, t)
	}
	i := s.get("input")
	if i == nil {
		if m.input(s, t) {
			s.set("input", t)
			return true
		}
		if t.isApp("slice") && m.input(s, t.args[0]) {
			s.set("input", t.args[0])
			i = t.args[0]
		} else {
			return false
		}
	}
	if t == i {
		return s.get("posvar") == nil
	}
	if t.isApp("slice") && t.args[0] == i && len(t.args) > 2 && t.args[2] == mk("len", "", i) {
		return m.at(s, t.args[1])
	}
	return false
}

// tables named in a test of a character's class
func classes(k, r *Term) (out []string) {
	name := func(t *Term) string {
		x := t.aux[strings.LastIndexByte(t.aux, '.')+1:]
		switch x {
		case "S", "Symbol", "IsSymbol":
			return "Symbol"
		case "C", "Other":
			return "C"
		case "Z", "Space":
			return "Space"
		}
		return x
	}
	switch {
	case k.isApp("unicode.In") && k.args[0] == r && k.args[1].op == "list":
		for _, t := range k.args[1].args {
			out = append(out, name(t))
		}
	case k.isApp("unicode.Is") && k.args[1] == r:
		out = append(out, name(k.args[0]))
	case k.isApp("unicode.IsSymbol") && k.args[0] == r:
		out = append(out, "Symbol")
	}
	return out
}

// class: 1 the character must be escaped, 2 it must not, 0 the path leaves it open.
func class(s *State, r *Term) int {
	q := s.facts.rangeOf(r)
	if q.hi <= 127 {
		return 2
	}
	seen := map[string]bool{}
	yes := false
	for k, v := range s.facts.boolv {
		cl := classes(k, r)
		if len(cl) == 0 {
			continue
		}
		only := true
		for _, c := range cl {
			if !v {
				seen[c] = true
			}
			only = only && (c == "Symbol" || c == "C" || c == "Space")
		}
		yes = yes || v && only
	}
	if seen["Symbol"] && seen["C"] && seen["Space"] {
		return 2
	}
	if yes && q.lo > 127 {
		return 1
	}
	return 0
}

// added: what was appended to the text.
func added(o, n *Term) (last *Term, asRune bool) {
	empty := isZeroList(o) || o.op == "const" || o.isApp("make") || o.op == "make"
	switch {
	case n.isApp("unicode/utf8.AppendRune") && n.args[0] == o:
		return n.args[1], true
	case n.isApp("fmt.Appendf") && n.args[0] == o:
		return mk("app", "fmt.Sprintf", n.args[1:]...), false
	case n.isApp("cat") && len(n.args) == 2 && n.args[0] == o:
		return n.args[1], false
	case n.isApp("cat") && o.isApp("cat") && len(n.args) == len(o.args)+1:
		for i, a := range o.args {
			if n.args[i] != a {
				return nil, false
			}
		}
		return n.args[len(n.args)-1], false
	case empty && (n.isApp("fmt.Sprintf") || n.isApp("slice") || n.isApp("string") || n.isApp("cat")):
		return n, false
	}
	return nil, false
}

// isEscape: the text is the numeric escape of the character.
func isEscape(t, r *Term) bool {
	if !t.isApp("fmt.Sprintf") || len(t.args) != 2 {
		return t.isApp("cat") && len(t.args) == 3 && isName(t.args[0], "&#x") && isName(t.args[2], ";") && t.args[1].isApp("fmt.Sprintf") &&
			isName(t.args[1].args[0], "%X") && t.args[1].args[1] == mk("list", "", r)
	}
	f, ok := t.args[0].strVal()
	return ok && f == "&#x%X;" && t.args[1] == mk("list", "", r)
}

func (m *escMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "assume":
		k := ev.arg(0)
		if k.isApp("unicode/utf8.FullRune") && m.rest(s, k.args[0]) {
			if ev.arg(1) == tTrue {
				s.set("complete", k.args[0])
			} else {
				s.setB("ended", true)
			}
		}
		// what a test has shown outlives the facts about it
		if r := s.get("rune"); r != nil {
			if cl := class(s, r); cl != 0 {
				s.set("class", tInt(int64(cl)))
			}
		}
		for x := range lens(k) {
			if numRange(s, x).hi != 0 && s.facts.maskOf(x, tInt(0))&^mEQ != 0 && s.facts.maskOf(x.args[0], tStr(""))&^mEQ != 0 {
				continue
			}
			if o := s.get("outvar"); o != nil && (x.args[0] == s.get("out") || wide(o, x.args[0])) {
				s.setB("outempty", true)
			} else if m.rest(s, x.args[0]) {
				s.setB("ended", true)
				s.setB("restempty", true)
			}
		}
	case "call":
		switch {
		case ev.name == "unicode/utf8.DecodeRune" || ev.name == "unicode/utf8.DecodeRuneInString":
			x := ev.arg(0)
			e.count("characters decoded")
			if !m.rest(s, x) {
				e.violate(s, ev, "decoded", short(x), "what is decoded, "+short(x)+", is not the rest of what was held back followed by what was given")
				return
			}
			if s.get("complete") != x {
				e.violate(s, ev, "incomplete", short(x), "a character is decoded although the rest may only hold part of it")
			}
			if s.get("rune") != nil {
				e.violate(s, ev, "decoded-twice", short(x), "a pass decodes two characters")
			}
			s.set("rune", mk("app", "unicode/utf8.DecodeRune", x))
		case strings.HasSuffix(ev.name, "io.Writer.Write"):
			if !ev.arg(0).isFld(m.sink) {
				return
			}
			e.count("writes")
			if s.is("written") {
				e.violate(s, ev, "written-twice", short(ev.arg(1)), "the text is written in more than one write")
			}
			s.setB("written", true)
			s.setB("failed", ev.ok == 2)
			t := ev.arg(1)
			if k := s.get("outvar"); k == nil && !isZeroList(t) && t.op != "make" && !t.isApp("make") || k != nil && t != s.get("out") && !wide(k, t) {
				e.violate(s, ev, "written", short(t), "what is written, "+short(t)+", is not the text of the characters decoded")
			}
			if !s.is("ended") {
				e.violate(s, ev, "ended", "loop", "the text is written although complete characters may be left")
			}
		}
	case "loop.back":
		x := s.get("complete")
		r := s.get("rune")
		if x == nil || r == nil || r.args[0] != x {
			e.violate(s, ev, "pass", "loop", "a pass goes by without a character being decoded")
			return
		}
		size := mk("app", "unicode/utf8.DecodeRune#1", x)
		site := func(v varChange) *Term { return mk("var", ev.name+v.key) }
		moved, wrote := false, false
		why := "nothing is appended for the character"
		e.count("passes")
		for _, v := range ev.vars {
			if strings.HasPrefix(v.key, "h") && v.cell != nil && v.cell.op != "buf" && v.cell.op != "content" {
				continue
			}
			switch {
			case v.new.isApp("slice") && v.new.args[0] == x && v.new.args[1] == size:
				s.set("restvar", site(v))
				s.set("rest", v.new)
				moved = true
			case v.new == mk("bin", "+", v.old, size) || v.new == size && v.old == tInt(0):
				if s.get("input") != nil && (x.isApp("slice") && x.args[1] == v.old || x == s.get("input")) {
					s.set("posvar", site(v))
					s.set("pos", v.new)
					moved = true
				}
			default:
				t, asRune := added(v.old, v.new)
				if t == nil {
					continue
				}
				if k := s.get("outvar"); k != nil && k != site(v) {
					continue
				}
				bad := s.facts.maskOf(r, tInt(0xFFFD))
				why = ""
				switch {
				case bad&^mEQ == 0: // invalid
					if !asRune || t != r && t != tInt(0xFFFD) {
						why = "what is invalid becomes " + short(t) + ", not the replacement character"
					}
				case bad&mEQ != 0 && !(asRune && (t == r)):
					why = "what may be invalid is not replaced"
				case isEscape(t, r):
					if m.class(s, r) != 1 {
						why = "a character is escaped that need not be of the classes to escape"
					}
				case asRune && t == r, !asRune && t == mk("app", "slice", x, tInt(0), size):
					if m.class(s, r) != 2 {
						why = "a character that may have to be escaped is written as it is"
					}
				default:
					why = "the character " + short(r) + " becomes " + short(t)
				}
				wrote = true
				s.set("outvar", site(v))
				s.set("out", v.new)
			}
		}
		if !moved {
			e.violate(s, ev, "moved", "loop", "a pass does not go on directly behind the character it decoded")
		}
		if !wrote || why != "" {
			e.violate(s, ev, "text", why, why)
		}
		s.set("complete", nil)
		s.set("rune", nil)
		s.set("class", nil)
	case "return":
		if !isEntryRet(ev) || len(ev.args) != 2 {
			return
		}
		e.count("ways a write ends")
		n := ev.args[0]
		if ev.ok == 2 {
			if !s.is("failed") {
				e.violate(s, ev, "refused", short(ev.args[1]), "an error is returned although nothing failed")
			}
			if v, ok := n.intVal(); !ok || v != 0 {
				e.violate(s, ev, "count", short(n), "a failed write says it accepted "+short(n)+" bytes")
			}
			return
		}
		if s.is("failed") {
			e.violate(s, ev, "hidden", short(n), "a failed write is reported as a success")
		}
		if !s.is("written") && !m.nothing(s) {
			e.violate(s, ev, "unwritten", short(n), "the text is not written")
		}
		if !s.is("ended") {
			e.violate(s, ev, "ended", "loop", "a write ends although complete characters may be left")
		}
		if n != mk("len", "", m.in) {
			e.violate(s, ev, "count", short(n), "a successful write says it accepted "+short(n)+" bytes, not all it was given")
		}
		h := e.field(s, mk("param", "self"), m.held)
		if !m.rest(s, h) && !m.emptied(s, h) {
			e.violate(s, ev, "held", short(h), "what is held back, "+short(h)+", is not the rest that was not decoded")
		}
	case "store":
		// bytes that belong to the caller may not be kept
		if a := ev.arg(0); a.op == "addr" && a.aux == m.held && s.get("input") == m.in {
			if st, ok := ev.in.(*ssa.Store); ok && !isCopy(st.Val) {
				e.violate(s, ev, "kept", short(ev.arg(1)), "bytes that belong to the caller are kept without a copy")
			}
		}
	}
}

// class: by the facts, or by what a test has shown before.
func (m *escMon) class(s *State, r *Term) int64 {
	if k := s.get("class"); k != nil {
		v, _ := k.intVal()
		return v
	}
	return int64(class(s, r))
}

// lens: the lengths named in a condition.
func lens(k *Term) map[*Term]bool {
	out := map[*Term]bool{}
	if k.op == "len" {
		out[k] = true
	}
	if k.op == "cmp" && k.args[1] == tStr("") {
		out[mk("len", "", k.args[0])] = true
	}
	for _, a := range k.args {
		for x := range lens(a) {
			out[x] = true
		}
	}
	return out
}

// nothing: no text was made.
func (m *escMon) nothing(s *State) bool {
	return s.get("outvar") == nil || s.is("outempty")
}

// emptied: nothing is left, and nothing is held back.
func (m *escMon) emptied(s *State, h *Term) bool {
	return (isZeroList(h) || h.op == "zeroslice") && s.is("restempty")
}

func zeroLen(h *Term) bool {
	return (h.op == "make" || h.isApp("make")) && len(h.args) > 0 && h.args[0] == tInt(0)
}

func isCopy(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value == nil {
				return true
			}
			if _, ok := x.Call.Args[0].(*ssa.MakeSlice); ok {
				return true
			}
			return false
		}
		f := x.Call.StaticCallee()
		return f != nil && f.Name() == "Clone" || f != nil && strings.Contains(f.String(), "slices.Clone")
	}
	return false
}

func checkC46(c *Ctx) {
	w := c.P.named["core.EscapedWriter"]
	const n = "core.EscapedWriter.Write"
	fn := c.P.fn(n)
	if w == nil || fn == nil || c.P.fn("core.NewEscapedWriter") == nil {
		c.violate("anchor", n, "-", "-", "the escaping writer was not found")
		return
	}
	m := &escMon{c: c, in: paramOf(fn, 1)}
	st := w.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := types.TypeString(f.Type(), nil); {
		case t == "io.Writer":
			m.sink = f.Name()
		case t == "[]byte":
			if m.held != "" {
				c.violate("undecided", n, f.Name(), "-", "the writer holds back more than one thing")
			}
			m.held = f.Name()
		}
	}
	if m.sink == "" {
		c.violate("undecided", n, "sink", "-", "the writer's destination was not found")
		return
	}
	if m.held == "" {
		c.violate("held", n, "-", "-", "the writer holds nothing back, so a character split across two writes cannot be handled like one written whole")
		return
	}
	c.run(n, m, runOpt{pkgs: []string{"core"}})
	c.run("core.NewEscapedWriter", monFunc(func(e *Engine, s *State, ev *Event) {
		if !isEntryRet(ev) {
			return
		}
		e.count("writers made")
		r := ev.args[0]
		if h := e.field(s, r, m.held); !isZeroList(h) && !(r.op == "alloc" && h == fld(r, m.held)) && !zeroLen(h) {
			e.violate(s, ev, "initial", short(h), "a new writer already holds "+short(h))
		}
		if t := e.field(s, r, m.sink); t != paramOf(c.P.fn("core.NewEscapedWriter"), 0) {
			e.violate(s, ev, "initial", short(t), "a new writer writes to "+short(t))
		}
	}), runOpt{pkgs: []string{"core"}})
	c.require("characters decoded", 1)
	c.require("passes", 1)
	c.require("writes", 1)
	c.require("ways a write ends", 2)
	c.require("writers made", 1)
}
