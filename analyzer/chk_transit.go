package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Uploads (C11–C13).

func init() {
	register("C11", "dataflow over every path of importing packages: with the strict flag not known to be off, no record or file is changed for a package before its name is known to be absent from the target repository or its release is known to be strictly higher than the published build's, and an import of a package for which neither is known never completes; without the flag no error depends on that comparison; uploads set the flag, other jobs do not",
		checkC11)
	register("C12", "dataflow over every path of an upload job and of loading a manifest: acceptance requires the version, target, payload, name and digest conditions on every listed file; the import is only reached after those, after the SHA-256 of the whole of every listed file was found equal to the listed one, and after the target repository was found; the files imported are the ones verified",
		checkC12)
	register("C13", "typestate over every path of an upload job: no file is removed, renamed or overwritten before the import has succeeded; then the removal of every imported file and of the manifest is attempted (or the file found absent); the import itself never removes or changes its input files",
		checkC13)
}

// ---- C11 ----

type uploader struct {
	c      *Ctx
	repo   *Term
	list   *Term
	strict *Term
}

func checkC11(c *Ctx) {
	fn := c.P.fn("core.Manager.AddPackages")
	if fn == nil {
		c.violate("anchor", "", "core.Manager.AddPackages", "-", "operation core.Manager.AddPackages not found")
		return
	}
	u := &uploader{c: c}
	flag := -1
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				u.repo = paramOf(fn, i)
			} else if t.Info()&types.IsBoolean != 0 {
				u.strict, flag = paramOf(fn, i), i
			}
		case *types.Slice:
			u.list = paramOf(fn, i)
		}
	}
	if u.repo == nil || u.list == nil || u.strict == nil {
		c.violate("anchor", shortFn(fn), "parameters", c.P.pos(fn.Pos()), "the operation's parameters changed: the property cannot be decided")
		return
	}
	c.run("core.Manager.AddPackages", u, runOpt{noIndex: true})
	c.require("changes made for a package", 3)
	c.require("packages imported", 1)
	// who asks for the comparison
	for _, h := range jobHandlers(c.P) {
		ex := c.P.fn(h + ".Execute")
		if ex == nil || !c.P.reaches(ex, fn) {
			continue
		}
		c.run(h+".Execute", monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind != "call" || ev.name != corePath+"Manager.AddPackages" || flag >= len(ev.args) {
				return
			}
			e.count("import calls of jobs")
			v := ev.args[flag]
			if h == "jobs.TransitJobHandler" {
				if v != tTrue {
					e.violate(s, ev, "not-strict", "upload", "an upload is imported without requiring newer releases")
				}
			} else if v != tFalse {
				e.violate(s, ev, "strict", "import", "an import that is not an upload requires newer releases")
			}
		}), runOpt{inline: c.jobInline(), ext: opaqueManager(c.P)})
	}
	c.require("import calls of jobs", 2)
}

// jobHandlers lists the types of package jobs that can execute a job.
func jobHandlers(P *Program) []string {
	var out []string
	p := P.pkgs["jobs"]
	if p == nil {
		return nil
	}
	for _, n := range p.Pkg.Scope().Names() {
		if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if _, isIf := tn.Type().Underlying().(*types.Interface); isIf {
				continue
			}
			if f := P.fn("jobs." + n + ".Execute"); f != nil {
				out = append(out, "jobs."+n)
			}
		}
	}
	return out
}

// reaches: a function calls another one, directly or through functions of the
// program.
func (P *Program) reaches(f, target *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if f == target {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && walk(g) {
						return true
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
						return true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// jobInline follows calls inside package jobs and the parts of package core
// that are not operations on the manager's state.
func (c *Ctx) jobInline() func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		p := g.Pkg
		if p == nil && g.Origin() != nil {
			p = g.Origin().Pkg
		}
		return p == nil || p == c.P.pkgs["jobs"] || p == c.P.pkgs["core"]
	}
}

// opaqueManager makes the manager's operations single steps that succeed or fail.
func opaqueManager(P *Program) func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
	return func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		if !strings.HasPrefix(cs.name, corePath+"Manager.") {
			return nil, false
		}
		return opaqueCall(e, s, cs), true
	}
}

// opaqueCall is a single step that succeeds or fails.
func opaqueCall(e *Engine, s *State, cs *callSite) []*callRes {
	sg := cs.sig
	n := sg.Results().Len()
	hasErr := n > 0 && isErrType(sg.Results().At(n-1).Type())
	args := cs.args
	if sg.Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	one := func(s *State, ok int) *callRes {
		var rs []*Term
		for i := 0; i < n; i++ {
			ty := sg.Results().At(i).Type()
			if i == n-1 && hasErr {
				if ok == 1 {
					rs = append(rs, tNil)
				} else {
					er := mk("opqerr", cs.site, cs.active...)
					s.facts.assume(er, tNil, mNE)
					rs = append(rs, er)
				}
				continue
			}
			t := mk("opq", cs.name[strings.LastIndex(cs.name, ".")+1:]+"."+strconv.Itoa(i)+"@"+cs.site, append(append([]*Term{}, args...), cs.active...)...)
			t.typ = ty
			if ok == 2 {
				t = zeroTerm(ty)
			} else if _, isPtr := ty.Underlying().(*types.Pointer); isPtr && ok == 1 {
				s.facts.assume(t, tNil, mNE)
			}
			rs = append(rs, t)
		}
		e.emit(s, &Event{kind: "call", name: cs.name, args: cs.args, res: rs, ok: ok, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx, site: cs.site})
		return &callRes{s, rs}
	}
	if !hasErr {
		return []*callRes{one(s, 0)}
	}
	s2 := s.clone()
	return []*callRes{one(s, 1), one(s2, 2)}
}

// upPkg recognises a field of the metadata of a package file being imported.
func (u *uploader) upMeta(m *Term) bool {
	m = stripAddr(m)
	return m.isFld("Package") && m.contains(u.list)
}

func stripAddr(t *Term) *Term {
	for t.op == "ptr" || t.op == "addrof" {
		t = t.args[0]
	}
	return t
}

// approved: the package is known to be new here or newer than the published one.
func (u *uploader) approved(s *State) *Term {
	f := s.facts
	mine := func(rec *Term) *Term { // record of the package's name in the target
		id, k, ok := pkgRecord(rec)
		if ok && id == u.repo && k.isFld("Name") && u.upMeta(k.args[0]) {
			return stripAddr(k.args[0])
		}
		return nil
	}
	for k, v := range f.boolv {
		if !v && k.isApp("dbhas") {
			if m := mine(mk("loaded", "", k.args[0], k.args[1])); m != nil {
				return m
			}
		}
	}
	rel := func(t *Term) *Term {
		if t.isApp("eopkg.GetRelease") && u.upMeta(t.args[0]) {
			return stripAddr(t.args[0])
		}
		return nil
	}
	pub := func(t, m *Term) bool {
		if !t.isApp("eopkg.GetRelease") || !t.args[0].isFld("Meta") {
			return false
		}
		id, ok := poolRecord(t.args[0].args[0])
		return ok && id.isFld("Published") && mine(id.args[0]) == m
	}
	for k, mask := range f.mask {
		if m := rel(k[0]); m != nil && pub(k[1], m) && mask == mGT {
			return m
		}
		if m := rel(k[1]); m != nil && pub(k[0], m) && mask == mLT {
			return m
		}
	}
	return nil
}

// compared: the state knows how the release relates to the published one.
func (u *uploader) compared(s *State) bool {
	for k, m := range s.facts.mask {
		if m == mAll {
			continue
		}
		for i := 0; i < 2; i++ {
			if a, b := k[i], k[1-i]; a.isApp("eopkg.GetRelease") && u.upMeta(a.args[0]) && b.isApp("eopkg.GetRelease") && !u.upMeta(b.args[0]) {
				return true
			}
		}
	}
	return false
}

func (u *uploader) Event(e *Engine, s *State, ev *Event) {
	change := func(what string, key *Term) {
		e.count("changes made for a package")
		if s.facts.maskBool(u.strict) == 2 {
			return
		}
		ok := s.get("!newer")
		if ok == nil {
			ok = u.approved(s)
		}
		if ok == nil {
			e.violate(s, ev, "unchecked", what, "a change is made ("+what+") for an uploaded package that may not be newer than the published one")
			return
		}
		if key != nil && !key.contains(ok.args[0].args[0]) {
			e.violate(s, ev, "unchecked", what, "a change is made for "+short(key)+" while the package that was compared is "+short(ok))
		}
	}
	switch ev.kind {
	case "assume":
		if s.get("!newer") == nil {
			s.set("!newer", u.approved(s))
		}
	case "db":
		if (ev.name == "put" || ev.name == "delete") && ev.ok == 1 {
			change(ev.name+" "+short(ev.args[0]), ev.args[1])
		}
	case "call":
		if ev.ok == 2 {
			return
		}
		for _, o := range fsOps(e, s, ev) {
			if o.op == "open" || o.path != nil && o.path.isApp("path") && u.ofRepo(e, o.path) {
				continue
			}
			change(o.op, nil)
		}
	case "loop.back":
		if ev.args[1] == u.list {
			e.count("packages imported")
			if s.facts.maskBool(u.strict) != 2 && s.get("!newer") == nil && u.approved(s) == nil {
				e.violate(s, ev, "accepted", "import", "an uploaded package that may not be newer than the published one is passed over without an error")
			}
		}
	case "return":
		if isEntryRet(ev) && ev.ok == 2 && s.facts.maskBool(u.strict) == 2 {
			r := ev.args[len(ev.args)-1]
			if (r.isApp("fmt.Errorf") || r.isApp("errors.New") || r.op == "global") && u.compared(s) {
				e.violate(s, ev, "bulk-rejected", "return", "an import that is not an upload is rejected because of its release")
			}
		}
	}
}

// ofRepo: the directories made when a repository is opened.
func (u *uploader) ofRepo(e *Engine, p *Term) bool {
	if len(p.args) != 2 || p.args[1] != u.repo {
		return false
	}
	for f := range e.P.rootFields() {
		if p.args[0].isFld(f) {
			return true
		}
	}
	return false
}

// ---- C12, C13 ----

// manifest recognises the list of files of a loaded manifest and its fields.
func manifestFiles(t *Term) (m *Term, ok bool) {
	if t.isFld("File") && t.args[0].op == "decoded" {
		return t.args[0], true
	}
	return nil, false
}
func trimmed(t *Term) *Term {
	for t.isApp("strings.TrimSpace") {
		t = t.args[0]
	}
	return t
}

type upload struct {
	c     *Ctx
	entry string
}

// nonBlank: the trimmed value is known not to be empty.
func nonBlank(s *State, raw *Term) bool {
	t := mk("app", "strings.TrimSpace", raw)
	for _, x := range []*Term{t, mk("app", "strings.TrimSpace", t)} {
		if s.facts.maskOf(x, emptyStr)&mEQ == 0 || s.facts.rangeOf(mk("len", "", x)).lo >= 1 {
			return true
		}
	}
	return false
}

func equalFact(s *State, p func(a, b *Term) bool) bool {
	for k, m := range s.facts.mask {
		if m == mEQ && (p(k[0], k[1]) || p(k[1], k[0])) {
			return true
		}
	}
	for k, v := range s.facts.boolv {
		if v && k.isApp("strings.EqualFold") && (p(k.args[0], k.args[1]) || p(k.args[1], k.args[0])) {
			return true
		}
	}
	return false
}

func (u *upload) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "store":
		// a trimmed value put back where it came from
		if a := ev.args[0]; a.op == "addr" && ev.args[1].isApp("strings.TrimSpace") {
			s.addTo("!put", mk("put", a.aux, trimmed(ev.args[1])))
		}
	case "loop.back":
		m, ok := manifestFiles(ev.args[1])
		if !ok {
			return
		}
		u.file(e, s, ev, m)
	case "loop.done":
		if m, ok := manifestFiles(ev.args[1]); ok {
			if n, counted := e.loopStep[ev.name]; counted && n != 1 {
				return
			}
			if i := s.heap[mk("loopinit", ev.name)]; i != nil {
				if v, _ := i.intVal(); v != -1 && v != 0 {
					return
				}
			}
			if !s.is("bad:name:" + ev.name) {
				s.addTo("named", m)
			}
			if !s.is("bad:sum:" + ev.name) {
				for _, p := range s.all("sum:" + ev.name) {
					s.addTo("verified", p)
				}
			}
		}
	case "loop.break":
		if _, ok := manifestFiles(ev.args[1]); ok {
			s.setB("bad:name:"+ev.name, true)
			s.setB("bad:sum:"+ev.name, true)
		}
	case "call":
		switch ev.name {
		case corePath + "Manager.GetRepo":
			if ev.ok == 1 {
				s.addTo("repo", ev.args[1])
			}
		case corePath + "Manager.AddPackages":
			if ev.ok == 1 {
				u.imported(e, s, ev)
			}
		default:
			if strings.HasPrefix(ev.name, corePath+"Manager.") && mutatingManager(strings.TrimPrefix(ev.name, corePath+"Manager.")) && !s.is("imported") {
				e.violate(s, ev, "early-change", ev.name[len(corePath):], "the upload changes repositories before its packages were imported")
			}
		}
	case "return":
		if u.entry == "load" && isEntryRet(ev) && okRet(ev) {
			e.count("manifests accepted")
			var m *Term
			for t := range s.facts.terms(func(t *Term) bool { return t.op == "decoded" }) {
				m = t
			}
			u.accept(e, s, ev, m)
		}
		if u.entry == "job" && isEntryRet(ev) && okRet(ev) && !s.is("imported") {
			e.violate(s, ev, "not-imported", "return", "the upload reports success without importing its packages")
		}
	}
}

func mutatingManager(m string) bool {
	return !strings.HasPrefix(m, "Get") && !strings.HasPrefix(m, "Has")
}

// accept: the conditions on a manifest as a whole.
func (u *upload) accept(e *Engine, s *State, ev *Event, m *Term) {
	if m == nil {
		e.violate(s, ev, "manifest", "decode", "a manifest is accepted that was not decoded")
		return
	}
	h := fld(m, "Manifest")
	if !equalFact(s, func(a, b *Term) bool { return trimmed(a) == fld(h, "Version") && isName(b, "1.0") }) {
		e.violate(s, ev, "manifest", "version", "a manifest is accepted whose version may not be 1.0")
	}
	if t := fld(h, "Target"); !nonBlank(s, t) && s.facts.maskOf(t, emptyStr)&mEQ != 0 && s.facts.rangeOf(mk("len", "", t)).lo < 1 {
		e.violate(s, ev, "manifest", "target", "a manifest is accepted that may not name a target")
	}
	if s.facts.rangeOf(mk("len", "", fld(m, "File"))).lo < 1 {
		e.violate(s, ev, "manifest", "payload", "a manifest is accepted that may not list any file")
	}
	if !s.has("named", m) {
		e.violate(s, ev, "manifest", "names", "a manifest is accepted that may list a file with a blank name or digest, or one whose name does not end in .eopkg")
	}
}

// file: what is known about the file of one iteration.
func (u *upload) file(e *Engine, s *State, ev *Event, m *Term) {
	over := ev.args[1]
	sym := ev.args[0]
	els := s.facts.terms(func(t *Term) bool {
		return (t.op == "elem" || t.op == "index") && t.args[0] == over && t.contains(sym)
	})
	name, sum := false, false
	for el := range els {
		p, d := fld(el, "Path"), fld(el, "Sha256")
		if nonBlank(s, p) && nonBlank(s, d) {
			for k, v := range s.facts.boolv {
				if !v || !k.isApp("strings.HasSuffix") || trimmed(k.args[0]) != p {
					continue
				}
				if suf, ok := k.args[1].strVal(); !ok || !strings.HasSuffix(suf, ".eopkg") {
					continue
				}
				if k.args[0] == p || s.has("!put", mk("put", "Path", p)) {
					name = true
				}
			}
			if equalFact(s, func(a, b *Term) bool {
				return (a.isApp("filepath.Ext") || a.isApp("path/filepath.Ext")) && trimmed(a.args[0]) == p && isName(b, ".eopkg")
			}) {
				name = true
			}
		}
		for k, mask := range s.facts.mask {
			if mask != mEQ {
				continue
			}
			for i := 0; i < 2; i++ {
				if trimmed(k[1-i]) != d {
					continue
				}
				if alg, of := digestOf(k[i]); of != nil && alg == "sha256" && of.isApp("path") && len(of.args) == 2 && trimmed(of.args[1]) == p {
					sum = true
					e.count("digests compared")
					s.addTo("sum:"+ev.name, anyIter(normPath(of)))
				}
			}
		}
	}
	if !name {
		s.setB("bad:name:"+ev.name, true)
	} else {
		e.count("listed files validated")
	}
	if !sum {
		s.setB("bad:sum:"+ev.name, true)
	}
}

func normPath(p *Term) *Term {
	as := make([]*Term, len(p.args))
	for i, a := range p.args {
		as[i] = trimmed(a)
	}
	return mk(p.op, p.aux, as...)
}

func (u *upload) imported(e *Engine, s *State, ev *Event) {
	e.count("imports")
	s.setB("imported", true)
	target, list := ev.args[1], ev.args[2]
	m := target.find(func(t *Term) bool { return t.op == "decoded" })
	u.accept(e, s, ev, m)
	if m == nil {
		return
	}
	if trimmed(target) != fld(fld(m, "Manifest"), "Target") {
		e.violate(s, ev, "target", "import", "the packages are imported into "+short(target))
	}
	if !s.has("repo", target) {
		e.violate(s, ev, "target-unknown", "import", "the import starts before the target repository is known to exist")
	}
	if list.op != "set" && list.op != "list" || len(list.args) == 0 {
		e.violate(s, ev, "files", "import", "the files imported are "+short(list))
		return
	}
	for _, w := range list.args {
		if w.op == "when" {
			if len(w.args) > 1 {
				for _, c := range w.args[1:] {
					if c.find(func(t *Term) bool { return t.op == "each" }) != nil {
						e.violate(s, ev, "files", "subset", "only some of the listed files are imported")
					}
				}
			}
			w = w.args[0]
		}
		if !s.has("verified", anyIter(normPath(w))) {
			e.violate(s, ev, "unverified", "import", "the file "+short(w)+" is imported although its digest may not have been verified")
		}
	}
}

func checkC12(c *Ctx) {
	c.run("core.NewTransitManifest", &upload{c, "load"}, runOpt{})
	c.run("jobs.TransitJobHandler.Execute", &upload{c, "job"}, runOpt{inline: c.jobInline(), ext: opaqueManager(c.P)})
	c.require("manifests accepted", 1)
	c.require("imports", 1)
	c.require("listed files validated", 2)
	c.require("digests compared", 1)
}

func checkC13(c *Ctx) {
	fn := c.P.fn("jobs.TransitJobHandler.Execute")
	if fn == nil {
		c.violate("anchor", "", "jobs.TransitJobHandler.Execute", "-", "the upload job was not found")
		return
	}
	self := paramOf(fn, 0)
	c.run("jobs.TransitJobHandler.Execute", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "call" && ev.name == corePath+"Manager.AddPackages" {
			if ev.ok == 1 {
				e.count("imports")
				s.set("files", ev.args[2])
				return
			}
			s.setB("failed", true)
		}
		if ev.kind == "call" && ev.ok == 2 && (ev.name == "os.Stat" || ev.name == "os.Lstat") {
			s.addTo("!gone", ev.args[0])
		}
		for _, o := range fsOps(e, s, ev) {
			switch o.op {
			case "open", "mkdir":
			default:
				e.count("file operations")
				if s.get("files") == nil {
					e.violate(s, ev, "early-removal", o.op, "the job "+o.op+"s "+short(o.path)+" before its packages were imported")
				}
				if o.op == "remove" || o.op == "removeall" {
					s.addTo("!gone", o.path)
				}
				if o.op == "remove" && !owned(s, o.path, self) || o.op == "removeall" {
					e.violate(s, ev, "foreign-removal", o.op, "the job removes "+short(o.path)+", which is not one of the upload's files")
				}
			}
		}
		switch {
		case ev.kind == "loop.back":
			// the file of this iteration
			if ev.args[1].op != "set" && ev.args[1].op != "list" {
				return
			}
			ok := false
			for _, g := range s.all("!gone") {
				for _, w := range ev.args[1].args {
					if covers(w, g) {
						ok = true
					}
				}
			}
			if !ok {
				s.setB("unc:"+ev.name, true)
			}
		case ev.kind == "loop.break":
			s.setB("unc:"+ev.name, true)
		case ev.kind == "loop.done":
			if !s.is("unc:"+ev.name) && (ev.args[1].op == "set" || ev.args[1].op == "list") {
				for _, w := range ev.args[1].args {
					s.addTo("removed", bare(w))
				}
			}
			s.set("unc:"+ev.name, nil)
		case isEntryRet(ev) && okRet(ev):
			e.count("successful returns")
			l := s.get("files")
			if l == nil {
				return
			}
			done := func(t *Term) bool {
				if s.has("removed", bare(t)) {
					return true
				}
				for _, r := range s.all("removed") {
					if r.op == "spread" && r.args[0] == l {
						return true
					}
				}
				return s.has("!gone", t)
			}
			for _, w := range l.args {
				if !done(w) {
					e.violate(s, ev, "kept", "file", "the upload succeeds without removing "+short(w))
				}
			}
			if p := fld(self, "path"); !done(p) && !doneManifest(s, self) {
				e.violate(s, ev, "kept", "manifest", "the upload succeeds without removing its manifest")
			}
		}
	}), runOpt{inline: c.jobInline(), ext: opaqueManager(c.P)})
	c.require("imports", 1)
	c.require("file operations", 1)
	c.require("successful returns", 1)
	// the import itself
	am := c.P.fn("core.Manager.AddPackages")
	if am == nil {
		c.violate("anchor", "", "core.Manager.AddPackages", "-", "operation core.Manager.AddPackages not found")
		return
	}
	var list *Term
	for i, p := range am.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			list = paramOf(am, i)
		}
	}
	c.run("core.Manager.AddPackages", monFunc(func(e *Engine, s *State, ev *Event) {
		for _, o := range fsOps(e, s, ev) {
			in := func(t *Term) bool {
				if t != nil && t.isFld("Path") && t.args[0].op == "call" && strings.Contains(t.args[0].aux, "libeopkg.Open.0") {
					t = t.args[0].args[0]
				}
				return t != nil && (t.op == "elem" || t.op == "index") && t.args[0] == list
			}
			if o.op == "open" {
				continue
			}
			e.count("file operations of the import")
			if in(o.path) || o.op == "rename" && in(o.src) {
				e.violate(s, ev, "consumed", o.op, "the import "+o.op+"s the uploaded file itself")
			}
		}
	}), runOpt{noIndex: true, pkgs: []string{"core", "libeopkg"}})
	c.require("file operations of the import", 3)
}

// bare strips the conditions and loop counters off a list member.
func bare(w *Term) *Term {
	if w.op == "when" {
		w = w.args[0]
	}
	return anyIter(w)
}

func covers(w, g *Term) bool {
	if w.op == "when" {
		w = w.args[0]
	}
	return anyIter(w) == anyIter(g)
}

// isManifest: the path the job was given, possibly made absolute.
func isManifest(p, self *Term) bool {
	for len(p.args) == 1 && !p.isFld("path") || strings.Contains(p.aux, "filepath.Abs") {
		if !strings.Contains(p.aux, "filepath.Abs") && !p.isApp("filepath.Clean") {
			return false
		}
		p = p.args[0]
	}
	return p == fld(self, "path")
}

func owned(s *State, p, self *Term) bool {
	if isManifest(p, self) {
		return true
	}
	if l := s.get("files"); l != nil {
		for _, w := range l.args {
			if covers(w, p) {
				return true
			}
		}
	}
	return false
}

// doneManifest: the manifest was removed under its absolute name.
func doneManifest(s *State, self *Term) bool {
	for _, k := range []string{"removed", "!gone"} {
		for _, r := range s.all(k) {
			if isManifest(r, self) {
				return true
			}
		}
	}
	return false
}

// anyIter forgets which loop and iteration a term belongs to.
func anyIter(t *Term) *Term {
	return t.subst(func(t *Term) *Term {
		if t.op == "loop" || t.op == "prev" || t.op == "each" {
			return mk("each", "")
		}
		return nil
	}, map[*Term]*Term{})
}
