package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Placing and clearing away files (C48, C51).

func init() {
	register("C48", "typestate of the functions that place a file: success only after a hard link, a completed copy of the source from its start into an emptied or new file, or with the destination known to be the source itself; nothing is emptied or removed that may be the source, and nothing at all before the source has been opened; a copy gets the default permissions", checkC48)
	register("C51", "effect analysis of every manager operation and of the delta producer: each recursive deletion is of a directory of the repository whose record was deleted on the same path or of a directory the producer itself made; each directory removal is of one of the two directories enclosing a removed package file", checkC51)
}

type placeMon struct {
	c         *Ctx
	src, dst  *Term
	choice    *Term // the flag to force a copy
	mayLink   bool
	succeeded int
}

// same: whether the two paths are the same file: 1 yes, 2 no, 3 unknown.
func (m *placeMon) same(s *State, p *Term) int {
	if s.has("gone", p) || s.has("differs", p) {
		return 2
	}
	if s.has("equals", p) {
		return 1
	}
	for k, v := range s.facts.boolv {
		if k.isApp("os.SameFile") && len(k.args) == 2 {
			a, b := statOf(k.args[0]), statOf(k.args[1])
			if a == m.src && b == p || a == p && b == m.src {
				if v {
					return 1
				}
				return 2
			}
		}
	}
	return 3
}

func (m *placeMon) Event(e *Engine, s *State, ev *Event) {
	if isEntryRet(ev) {
		if !okRet(ev) {
			return
		}
		m.succeeded++
		e.count("successful ways to place a file")
		switch {
		case s.is("placed"):
		case m.same(s, m.dst) == 1:
		default:
			e.violate(s, ev, "not-placed", short(m.dst), "the file is reported as placed although neither the hard link nor a complete copy of the source has succeeded (a failure, or an incomplete copy, is not reported)")
			return
		}
		if s.is("copied") && s.get("mode") != tInt(0644) {
			e.violate(s, ev, "permissions", short(m.dst), "a copied file does not end up with the default read permissions")
		}
		return
	}
	if ev.kind == "assume" {
		if t := ev.arg(0); t.isApp("os.SameFile") && len(t.args) == 2 {
			a, b := statOf(t.args[0]), statOf(t.args[1])
			if b == m.src {
				a, b = b, a
			}
			if a == m.src && b != nil {
				if ev.arg(1) == tTrue {
					s.addTo("equals", b)
				} else if ev.arg(1) == tFalse {
					s.addTo("differs", b)
				}
			}
		}
		return
	}
	if ev.kind != "call" {
		return
	}
	if ev.ok == 1 && ev.arg(0) == m.src {
		switch ev.name {
		case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile":
			s.setB("opened", true)
		}
	}
	if (ev.name == "os.Stat" || ev.name == "os.Lstat") && ev.ok == 2 {
		// there is nothing there that could be the source
		s.addTo("gone", ev.arg(0))
	}
	if ev.name == "os.File.Close" && ev.ok == 1 {
		if p, _ := fileOf(ev.arg(0)); p != nil && s.has("full", ev.arg(0)) && s.has("whole", ev.arg(0)) {
			m.complete(s, p)
		}
		return
	}
	if (ev.name == "os.File.Chmod") && ev.ok != 2 {
		if p, _ := fileOf(ev.arg(0)); p == m.dst {
			s.set("mode", ev.arg(1))
		}
	}
	// anything else done with a handle of the source moves its position
	for i, a := range ev.args {
		p, _ := fileOf(a)
		if p != m.src || i == 1 && (ev.name == "io.Copy" || ev.name == "io.CopyBuffer" || ev.name == "io.CopyN" || ev.name == "os.File.ReadFrom") {
			continue
		}
		switch ev.name {
		case "os.File.Stat", "os.File.Fd", "os.File.Name", "os.File.Close", "os.File.Sync", "os.File.Chmod":
		default:
			s.addTo("moved", a)
		}
	}
	if ev.name == "os.File.ReadFrom" {
		m.copy(e, s, ev, ev.arg(0), ev.arg(1))
	}
	for _, o := range fsOps(e, s, ev) {
		switch o.op {
		case "link":
			if ev.name != "os.Link" {
				e.violate(s, ev, "not-a-hard-link", short(o.path), "the file is placed as a symbolic link")
				continue
			}
			if o.path != m.dst || o.src != m.src {
				e.violate(s, ev, "wrong-file", short(o.path), "a file other than the source is linked, or it is linked elsewhere")
				continue
			}
			e.count("links")
			if ev.ok == 1 {
				s.setB("placed", true)
				s.setB("linked", true)
			} else {
				s.setB("tried", true)
			}
		case "write", "truncate", "remove", "removeall", "rename":
			m.change(e, s, ev, o)
		case "copy":
			m.copy(e, s, ev, ev.arg(0), ev.arg(1))
		case "chmod":
			if o.path == m.dst {
				s.set("mode", o.mode)
			}
		}
	}
}

func (m *placeMon) complete(s *State, p *Term) {
	s.addTo("done", p)
	if p == m.dst {
		s.setB("placed", true)
		s.setB("copied", true)
	}
}

// change: something happens to a path that may be there already.
func (m *placeMon) change(e *Engine, s *State, ev *Event, o fsOp) {
	e.count("changes to the destination")
	p := o.path
	if s.is("linked") && p == m.dst || p == m.src {
		e.violate(s, ev, "source-damaged", ev.name, "the source, or the destination that is a hard link to it by now, is changed")
		return
	}
	excl, trunc := false, o.op != "write" || ev.name != "os.OpenFile"
	if ev.name == "os.OpenFile" {
		if fl, ok := o.mode.intVal(); ok {
			excl, trunc = fl&oEXCL != 0 && fl&oCREATE != 0, fl&oTRUNC != 0
		}
	}
	fresh := excl || p.find(func(x *Term) bool {
		return x.op == "call" && (strings.Contains(x.aux, "TempFile") || strings.Contains(x.aux, "CreateTemp") || strings.Contains(x.aux, "TempDir") || strings.Contains(x.aux, "MkdirTemp"))
	}) != nil
	if ev.ok == 1 && o.file != nil && (trunc || excl) {
		s.addTo("full", o.file)
	}
	if o.op == "rename" {
		if p == m.dst && s.has("done", o.src) && m.same(s, p) != 3 || p == m.dst && s.has("done", o.src) && o.src != m.src {
			if ev.ok == 1 {
				s.setB("placed", true)
				s.setB("copied", true)
			}
			return
		}
	}
	if p != m.dst || fresh {
		return
	}
	if ev.name == "os.Remove" && ev.ok == 1 && m.same(s, p) == 2 {
		s.addTo("gone", p)
	}
	if m.mayLink && !s.is("tried") && m.choice != nil && s.facts.maskBool(m.choice) == 2 {
		e.violate(s, ev, "link-not-tried", ev.name, "the file is copied without a hard link having been tried")
	}
	if m.same(s, p) != 2 {
		e.violate(s, ev, "same-file", ev.name, "the destination is emptied or removed although it may be the source file itself: its content would be lost")
		return
	}
	if !s.is("opened") {
		e.violate(s, ev, "before-source", ev.name, "an existing destination is emptied or removed before the source has been opened: if that fails, it has been damaged")
		return
	}
	if o.op == "write" && o.data != nil {
		if contentOf(o.data) == m.src {
			if ev.ok == 1 {
				m.complete(s, p)
			}
		} else {
			e.violate(s, ev, "incomplete", ev.name, "what is written to the destination is not the entire content of the source")
		}
	}
}

func (m *placeMon) copy(e *Engine, s *State, ev *Event, dst, src *Term) {
	p, _ := fileOf(dst)
	q, _ := fileOf(src)
	e.count("copies")
	if q != m.src {
		return
	}
	if ev.name == "io.CopyN" && sizeOf(ev.arg(2)) != m.src {
		return
	}
	if s.has("moved", src) {
		e.violate(s, ev, "incomplete", ev.name, "the source is not copied from its beginning")
		return
	}
	s.addTo("moved", src)
	if !s.has("full", dst) {
		e.violate(s, ev, "not-emptied", ev.name, "the source is copied into a file that may keep some of its old content")
		return
	}
	if ev.ok == 1 && p != nil {
		s.addTo("whole", dst)
	}
}

func checkC48(c *Ctx) {
	for _, n := range []string{"core.LinkOrCopyFile", "core.CopyFile"} {
		fn := c.P.fn(n)
		if fn == nil {
			c.violate("anchor", "", n, "-", "function "+n+" not found: the property cannot be decided")
			continue
		}
		ps := strParams(c, n)
		if len(ps) != 2 {
			c.violate("anchor", "", n, "-", "the parameters of "+n+" changed: the property cannot be decided")
			continue
		}
		m := &placeMon{c: c, src: ps[0], dst: ps[1]}
		for i, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				m.choice, m.mayLink = paramOf(fn, i), true
			}
		}
		c.run(n, m, runOpt{})
		if m.succeeded == 0 {
			c.violate("anchor", n, n, c.P.pos(fn.Pos()), "no successful way through "+n+" was found")
		}
	}
	c.require("successful ways to place a file", 2)
	c.require("links", 1)
	c.require("copies", 1)
	c.require("changes to the destination", 1)
}

// workField: where a delta builder keeps the name of its work directory.
var workField = "baseDir"

func findWorkField(P *Program) {
	if t := P.named["libeopkg.DeltaProducer"]; t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					workField = st.Field(i).Name()
				}
			}
		}
	}
}

type clearMon struct {
	c     *Ctx
	entry string
}

// above: how many components above path x the path p is (0: not above it).
func above(p, x *Term) int {
	n := 0
	for x != nil && n < 8 {
		switch {
		case x.isApp("path") && len(x.args) > 1:
			x = path(x.args[:len(x.args)-1]...)
		case x.isApp("filepath.Dir"):
			return 0
		default:
			x = pureApp("path/filepath.Dir", 0, []*Term{x})
		}
		n++
		if x == p {
			return n
		}
	}
	return 0
}

// rootDir: the path is one of the directories under which packages are kept.
func (m *clearMon) rootDir(p *Term) bool {
	if p.op == "fld" || p.op == "param" {
		return true
	}
	return p.isApp("path") && len(p.args) == 2 && p.args[0].op == "fld" && strings.HasSuffix(p.args[0].aux, "Base")
}

func (m *clearMon) ownDir(s *State, p *Term) bool { return s.has("made", p) }

func (m *clearMon) Event(e *Engine, s *State, ev *Event) {
	if ev.kind == "db" && ev.name == "delete" && ev.ok == 1 && isBucket(ev.arg(0), "repo") {
		s.addTo("deleted", ev.arg(1))
		return
	}
	if a := ev.arg(0); ev.kind == "store" && a.op == "addr" && a.aux == workField && strings.HasSuffix(typeName(a.args[0].typ), "libeopkg.DeltaProducer") && ev.arg(1) != tStr("") {
		e.count("work directories set")
		if !s.has("made", ev.arg(1)) {
			e.violate(s, ev, "shared-work-directory", short(ev.arg(1)), "the delta builder uses a work directory it did not make for itself, and deletes it afterwards: "+short(ev.arg(1)))
		}
	}
	if ev.kind != "call" {
		return
	}
	switch ev.name {
	case "io/ioutil.TempDir", "os.MkdirTemp":
		// the name is empty if it failed
		s.addTo("made", ev.res[0])
		e.count("private directories made")
	case "os.Mkdir":
		if ev.ok == 1 {
			s.addTo("made", ev.arg(0))
			e.count("private directories made")
		}
	}
	if strings.HasPrefix(ev.name, "os/exec.Command") {
		for _, a := range ev.args {
			if v, ok := a.strVal(); ok {
				switch v[strings.LastIndexByte(v, '/')+1:] {
				case "rm", "rmdir", "sh", "bash", "find":
					e.violate(s, ev, "external-removal", v, "an external program that can delete anything is run")
				}
			}
		}
	}
	for _, o := range fsOps(e, s, ev) {
		switch o.op {
		case "removeall":
			e.count("recursive deletions")
			m.recursive(e, s, ev, o.path)
		case "remove":
			m.remove(e, s, ev, o.path)
		}
	}
	if ev.name == "syscall.Rmdir" {
		m.remove(e, s, ev, ev.arg(0))
	}
}

func (m *clearMon) recursive(e *Engine, s *State, ev *Event, p *Term) {
	if m.ownDir(s, p) {
		return
	}
	if p.isFld(workField) && typeName(p.args[0].typ) == "libeopkg.DeltaProducer" {
		return
	}
	for _, id := range s.all("deleted") {
		for _, f := range m.c.P.repoTmpl {
			if !f.isApp("path") {
				continue
			}
			t := f.subst(func(x *Term) *Term {
				if x.op == "param" && x.aux == "$key" {
					return id
				}
				if x.op == "param" && x.aux == "$owner" {
					return mk("fld", "repo", mk("param", "self"))
				}
				return nil
			}, map[*Term]*Term{})
			if t == p {
				return
			}
		}
	}
	e.violate(s, ev, "recursive-deletion", short(p), "a directory is deleted with everything in it, which is neither one of the deleted repository's own nor one the delta builder made for itself: "+short(p))
}

func (m *clearMon) remove(e *Engine, s *State, ev *Event, p *Term) {
	if m.rootDir(p) {
		e.violate(s, ev, "root-removed", short(p), "one of the directories everything is kept under is removed when it is empty: "+short(p))
		return
	}
	// the package file it encloses is the one removed last
	x := s.get("!removed")
	n := 0
	if x != nil {
		n = above(p, x)
	}
	switch {
	case n == 0:
		s.set("!removed", p)
	case n > 2:
		e.violate(s, ev, "too-far", short(p), "more than the two directories enclosing a removed package file are removed: "+short(p))
	default:
		e.count("enclosing directories removed")
	}
}

func checkC51(c *Ctx) {
	repoTemplate(c.P)
	findWorkField(c.P)
	c.runManager(func(entry string) Monitor { return &clearMon{c: c, entry: entry} },
		runOpt{noIndex: true, pkgs: []string{"core", "libeopkg"}}, nil)
	for _, n := range []string{"core.Repository.Index", "libeopkg.NewDeltaProducer"} {
		m := &clearMon{c: c, entry: n}
		c.run(n, m, runOpt{pkgs: []string{"core", "libeopkg"}})
	}
	for _, n := range c.methodsOf("libeopkg.DeltaProducer") {
		c.run(n, &clearMon{c: c, entry: n}, runOpt{pkgs: []string{"libeopkg"}})
	}
	// nothing is deleted recursively anywhere else
	seen := map[string]bool{}
	for k := range c.callNames {
		seen[k] = true
	}
	for in := range c.calls {
		seen[c.P.fset.Position(in.Pos()).String()] = true
	}
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						n, sct := structOf(fa.X.Type())
						if n != nil && n.Obj().Name() == "DeltaProducer" && sct.Field(fa.Field).Name() == workField && !c.fns[f] && c.fnNames[shortFn(f)] == "" {
							c.violate("elsewhere", shortFn(f), workField, c.P.pos(in.Pos()), "the work directory of a delta builder is set outside the code that was analysed")
						}
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "os" || g.Name() != "RemoveAll" {
						continue
					}
					c.count("places that delete recursively", 1)
					if !seen[c.P.fset.Position(in.Pos()).String()] {
						c.violate("elsewhere", shortFn(f), "os.RemoveAll", c.P.pos(in.Pos()), "a directory is deleted with everything in it outside the operations whose clean-up is known")
					}
				}
			}
		}
	}
	c.require("places that delete recursively", 1)
	c.require("enclosing directories removed", 1)
	c.require("recursive deletions", 1)
	c.require("work directories set", 1)
}
