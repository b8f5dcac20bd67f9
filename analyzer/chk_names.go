package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "path-sensitive taint analysis of every name that ends up in a path the daemon creates, writes, links, renames, changes or deletes: each component below the daemon's directories is a constant, belongs to a record, is the name of a file that was opened, or was checked to be a single ordinary name on the path; names are checked before they become records, accepted metadata or accepted manifests", checkC43)
}

type nameMon struct {
	c     *Ctx
	entry string
}

// noSep: the text has no separator in it.
func noSep(s *State, t *Term) bool {
	if v, ok := t.strVal(); ok {
		return !strings.Contains(v, "/")
	}
	if t.isApp("filepath.Base") || t.isApp("strconv.Itoa") || t.isApp("strconv.FormatInt") || t.isApp("dec") {
		return true
	}
	if t.isApp("strings.ToLower") || t.isApp("strings.ToUpper") || t.isApp("strings.TrimSpace") || t.isApp("slice") {
		if noSep(s, t.args[0]) {
			return true
		}
	}
	for k, v := range s.facts.boolv {
		if v || len(k.args) != 2 || stripStr(k.args[0]) != t {
			continue
		}
		switch {
		case k.isApp("strings.ContainsRune"), k.isApp("bytes.ContainsRune"):
			if c, ok := k.args[1].intVal(); ok && c == '/' {
				return true
			}
		case k.isApp("strings.Contains"):
			if c, ok := k.args[1].strVal(); ok && c == "/" {
				return true
			}
		case k.isApp("strings.ContainsAny"):
			if c, ok := k.args[1].strVal(); ok && strings.Contains(c, "/") {
				return true
			}
		}
	}
	for k, m := range s.facts.mask {
		for i := 0; i < 2; i++ {
			p, q, w := k[i], k[1-i], m
			if i == 1 {
				w = flip(m)
			}
			if p == t && q.isApp("filepath.Base") && q.args[0] == t && w&^mEQ == 0 {
				return true
			}
		}
	}
	for _, n := range []string{"strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny"} {
		for _, c := range []*Term{tInt('/'), tStr("/")} {
			if s.facts.rangeOf(mk("app", n, t, c)).hi < 0 {
				return true
			}
		}
	}
	return false
}

// notSpecial: the text is none of the names that designate another directory.
func notSpecial(s *State, t *Term, empty bool) bool {
	if v, ok := t.strVal(); ok {
		return v != "." && v != ".." && (v != "" || empty)
	}
	for k, v := range s.facts.boolv {
		if v && (k.isApp("strings.HasSuffix") || k.isApp("strings.HasPrefix")) && k.args[0] == t {
			if c, ok := k.args[1].strVal(); ok && strings.Trim(c, "./") != "" {
				return true
			}
		}
	}
	if s.facts.rangeOf(mk("len", "", t)).lo > 2 {
		return true
	}
	return s.facts.maskOf(t, tStr(".."))&mEQ == 0 && s.facts.maskOf(t, tStr("."))&mEQ == 0 &&
		(empty || s.facts.maskOf(t, tStr(""))&mEQ == 0 || s.facts.rangeOf(mk("len", "", t)).lo > 0)
}

// ofRecord: what the database holds.
func ofRecord(t *Term) bool {
	for {
		switch t.op {
		case "loaded", "iterk":
			return true
		case "fld", "elem", "addr", "elemaddr", "when":
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		default:
			return false
		}
	}
}

// ofPackage: part of the metadata of a package that was read.
func ofPackage(t *Term) bool {
	for t.op == "fld" || t.op == "addr" || t.op == "elem" || t.op == "elemaddr" {
		if b := stripAddr(t.args[0]); t.isFld("Meta") && (b.op == "call" || b.op == "param" || b.isFld("new") || b.isFld("old")) {
			return true
		}
		if len(t.args) == 0 {
			return false
		}
		t = t.args[0]
	}
	return false
}

// learn: the name was found among the records.
func (m *nameMon) learn(s *State, t *Term) {
	if t.op == "param" || t.op == "fld" && stripAddr(t.args[0]).op != "loaded" && !ofRecord(t) {
		s.addTo("known", t)
	}
}

// known: the name is that of a record, or of something the daemon holds.
func (m *nameMon) known(s *State, t *Term) bool {
	if s.has("known", t) {
		return true
	}
	for k, v := range s.facts.boolv {
		if !v || len(k.args) != 2 || stripStr(k.args[1]) != t {
			continue
		}
		if k.isApp("maphas") || k.isApp("dbhas") && (isBucket(k.args[0], "repo") || isBucket(k.args[0], "pool")) {
			return true
		}
	}
	return false
}

// name: why the text may lead elsewhere when it is joined to a directory.
func (m *nameMon) name(e *Engine, s *State, t *Term) string {
	t = stripStr(t)
	if v, ok := t.strVal(); ok {
		if strings.HasPrefix(v, "/") || v == ".." || strings.HasPrefix(v, "../") || strings.Contains(v, "/../") || strings.HasSuffix(v, "/..") {
			return "leads out of the directory"
		}
		return ""
	}
	switch {
	case t.isApp("eopkg.GetPathComponent"):
		x := stripAddr(t.args[0])
		if ofRecord(x) || ofPackage(x) || x.op == "param" || x.op == "fld" && published(x) {
			return ""
		}
		return "belongs to metadata that was not accepted"
	case t.isApp("eopkg.ComputeDeltaName"):
		return ""
	case t.isApp("eopkg.GetID"):
		if ofRecord(stripAddr(t.args[0])) || s.has("known", t) {
			return ""
		}
	case t.isApp("filepath.Dir"), t.isApp("filepath.Clean"):
		return m.name(e, s, t.args[0])
	case t.isApp("path"):
		for _, a := range t.args {
			if w := m.name(e, s, a); w != "" {
				return w
			}
		}
		return ""
	case t.isApp("cat"):
		plain := false
		for _, a := range t.args {
			if v, ok := a.strVal(); ok && strings.Trim(v, "./") != "" {
				plain = true
			}
			if !noSep(s, a) && !ofRecord(a) && !ofPackage(a) {
				return short(a) + " may contain a separator"
			}
		}
		if plain {
			return ""
		}
		return "may designate another directory"
	case t.isFld("ID") && stripAddr(t.args[0]).op == "call" && strings.Contains(stripAddr(t.args[0]).aux, "libeopkg.Open.0"):
		return "" // see the rule for Open
	case t.isFld("ID") && t.args[0] == mk("param", "self") && strings.HasPrefix(m.entry, "core.Repository."):
		return "" // see the rule for the fields of a repository
	}
	if ofRecord(t) || ofPackage(t) && m.sane(t) || t.isFld("PackageURI") && stripAddr(t.args[0]).op == "param" {
		return ""
	}
	if m.known(s, t) {
		return ""
	}
	if !noSep(s, t) {
		return "may contain a separator: it was neither found among the records nor checked on this path"
	}
	if !notSpecial(s, t, false) {
		return "may be empty, \".\" or \"..\": it was neither found among the records nor checked on this path"
	}
	return ""
}

// sane: the names the metadata is checked for when it is read.
func (m *nameMon) sane(t *Term) bool {
	return t.isFld("Name") || t.isApp("eopkg.GetVersion") || t.isFld("DistributionRelease") || t.isFld("Architecture")
}

// root: the directory is one of the daemon's.
func (m *nameMon) root(s *State, t *Term) bool {
	if s.has("known", t) {
		return true
	}
	switch {
	case strings.HasPrefix(m.entry, "libeopkg.") && (t.op == "param" || t.op == "fld" && t.args[0] == mk("param", "self")):
		// the directory the caller gave
		return true
	case t.op == "fld":
		if m.c.P.rootFields()[t.aux] != "" || t.aux == "BaseDir" || strings.HasPrefix(t.aux, "Incoming") {
			return true
		}
		b := t.args[0]
		if strings.HasPrefix(m.entry, "core.Repository.") || strings.HasPrefix(m.entry, "core.TransitManifest.") {
			return b == mk("param", "self")
		}
		// a repository the daemon holds
		return b.op == "mapval" || b.op == "alloc" || b.op == "opq"
	case t.op == "call" && strings.Contains(t.aux, "libeopkg.DeltaProducer."):
		return true // see the rule for what it hands out
	case t.op == "call":
		return strings.Contains(t.aux, "TempDir.0") || strings.Contains(t.aux, "MkdirTemp.0") || strings.Contains(t.aux, "CreateTemp.0") || strings.Contains(t.aux, "filepath.Abs.0") && strings.HasPrefix(m.entry, "core.New")
	case t.isApp("os.TempDir"):
		return true
	}
	return false
}

// path: why the path may lead out of the daemon's directories.
func (m *nameMon) path(e *Engine, s *State, p *Term) string {
	p = stripStr(p)
	if m.root(s, p) {
		return ""
	}
	switch {
	case p.isApp("path"):
		if !m.root(s, p.args[0]) && !m.isPath(e, s, p.args[0]) {
			return short(p.args[0]) + " is not one of the daemon's directories"
		}
		for _, a := range p.args[1:] {
			if w := m.name(e, s, a); w != "" {
				return short(a) + " " + w
			}
		}
		return ""
	case p.isApp("cat") && len(p.args) > 1:
		// a file beside another
		if w := m.path(e, s, p.args[0]); w != "" {
			return w
		}
		for _, a := range p.args[1:] {
			if !noSep(s, a) {
				return short(a) + " may contain a separator"
			}
		}
		return ""
	case p.isApp("filepath.Dir"), p.isApp("strings.TrimSuffix"):
		return m.path(e, s, p.args[0])
	case p.op == "elem":
		l := p.args[0]
		if l.op == "call" && strings.Contains(l.aux, "TransitManifest.") || s.has("known", l) {
			return "" // see the rule for manifests
		}
		if l.op == "call" && (strings.Contains(l.aux, "filepath.Glob.0")) {
			return m.path(e, s, l.args[0])
		}
	case p.op == "opq":
		return "" // given by the manager
	case p.op == "call" && (strings.Contains(p.aux, "Name.0") && strings.Contains(p.aux, "os.File")):
		return ""
	}
	return short(p) + " is not known to be in one of the daemon's directories"
}

func (m *nameMon) isPath(e *Engine, s *State, p *Term) bool {
	return (p.isApp("path") || p.isApp("filepath.Dir") || p.op == "opq") && m.path(e, s, p) == ""
}

// repoField: the field of a repository that is written to.
func repoField(ev *Event) string {
	st, ok := ev.in.(*ssa.Store)
	if !ok {
		return ""
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !strings.HasSuffix(types.TypeString(p.Elem(), nil), "core.Repository") {
		return ""
	}
	f := p.Elem().Underlying().(*types.Struct).Field(fa.Field)
	if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return ""
	}
	return f.Name()
}

func (m *nameMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "db", "mapdelete":
		// what is known now may be gone afterwards
		if ev.kind == "mapdelete" || ev.name == "begin" || ev.name == "delete" {
			for k, v := range s.facts.boolv {
				if v && len(k.args) == 2 && m.known(s, stripStr(k.args[1])) {
					m.learn(s, stripStr(k.args[1]))
				}
			}
		}
	}
	switch ev.kind {
	case "call":
		if strings.Contains(ev.name, "libeopkg.") {
			for _, a := range ev.args {
				if a.isApp("path") {
					e.count("paths passed on")
					if w := m.path(e, s, a); w != "" {
						e.violate(s, ev, "passed", a.String(), "passes "+short(a)+" on: "+w)
					}
				}
			}
		}
		if ev.ok != 2 && strings.HasSuffix(ev.name, "core.NewTransitManifest") && strings.HasSuffix(m.entry, ".Execute") {
			m.learn(s, ev.arg(0))
		}
		if ev.is("os.ReadFile", "io/ioutil.ReadFile", "os.Open") {
			if p := ev.arg(0); p.isApp("path") && p.args[0].op == "const" {
				e.count("settings read")
				for _, a := range p.args[1:] {
					if w := m.name(e, s, a); w != "" {
						e.violate(s, ev, "read", p.String(), "reads "+short(p)+", but "+short(a)+" "+w)
					}
				}
			}
		}
	case "db":
		switch ev.name {
		case "get":
			if ev.ok == 1 && (isBucket(ev.arg(0), "pool") || isBucket(ev.arg(0), "repo")) {
				m.learn(s, stripStr(ev.arg(1)))
			}
		case "put":
			if ev.ok != 2 && (isBucket(ev.arg(0), "pool") || isBucket(ev.arg(0), "repo")) {
				e.count("names recorded")
				if w := m.name(e, s, ev.arg(1)); w != "" {
					e.violate(s, ev, "record", ev.arg(1).String(), "a record is made of "+short(ev.arg(1))+", which "+w)
				}
				m.learn(s, stripStr(ev.arg(1)))
			}
		}
		return
	case "mapupdate":
		if t, ok := ev.in.(*ssa.MapUpdate); ok && strings.HasSuffix(types.TypeString(t.Value.Type(), nil), "core.Repository") {
			e.count("repositories held")
			if w := m.name(e, s, ev.arg(1)); w != "" {
				e.violate(s, ev, "held", ev.arg(1).String(), "a repository is held under "+short(ev.arg(1))+", which "+w)
			}
		}
		return
	case "store":
		if f := repoField(ev); f != "" {
			v := ev.arg(1)
			e.count("repository fields set")
			w := ""
			if v.isApp("path") {
				w = m.path(e, s, v)
			} else {
				w = m.name(e, s, v)
			}
			if w != "" {
				e.violate(s, ev, "repository", f+" = "+v.String(), "the field "+f+" of a repository is set to "+short(v)+", but "+w)
			}
		}
		return
	case "return":
		if isEntryRet(ev) && okRet(ev) && (strings.HasPrefix(m.entry, "core.Manager.") || strings.HasPrefix(m.entry, "libeopkg.DeltaProducer.")) {
			for _, r := range ev.args {
				if r.isApp("path") || r.isApp("cat") || r.op == "call" && strings.HasSuffix(m.entry, "Commit") {
					e.count("paths handed out")
					if w := m.path(e, s, r); w != "" {
						e.violate(s, ev, "handed-out", r.String(), "hands out "+short(r)+", but "+w)
					}
				}
			}
		}
		return
	}
	for _, o := range fsOps(e, s, ev) {
		if o.op == "open" || o.op == "append" {
			continue
		}
		e.count("paths created, written, changed or removed")
		for _, p := range []*Term{o.path, o.src} {
			if p == nil || p == o.src && o.op != "rename" {
				continue
			}
			if w := m.path(e, s, p); w != "" {
				e.violate(s, ev, o.op, p.String(), o.op+" of "+short(p)+": "+w)
			}
		}
	}
}

// acceptMon: metadata is accepted only when its names are ordinary.
type acceptMon struct{ c *Ctx }

func (m *acceptMon) Event(e *Engine, s *State, ev *Event) {
	if ev.kind != "store" {
		return
	}
	a, v := ev.arg(0), ev.arg(1)
	if a.op != "addr" || a.aux != "Meta" || v == tNil || !strings.HasSuffix(types.TypeString(ev.typ, nil), "libeopkg.Metadata") {
		return
	}
	p := e.field(s, v, "Package")
	e.count("metadata accepted")
	src := e.field(s, e.field(s, p, "Source"), "Name")
	vers := []*Term{mk("app", "eopkg.GetVersion", p), e.field(s, mk("elem", "", e.field(s, p, "History"), tInt(0)), "Version")}
	for _, n := range []struct {
		what string
		ts   []*Term
		full bool
	}{
		{"name", []*Term{e.field(s, p, "Name")}, true},
		{"name of its source", []*Term{src}, true},
		{"version", vers, false},
		{"distribution's release", []*Term{e.field(s, p, "DistributionRelease")}, false},
		{"architecture", []*Term{e.field(s, p, "Architecture")}, false},
	} {
		sep, spec := false, !n.full
		for _, t := range n.ts {
			sep = sep || noSep(s, t)
			spec = spec || notSpecial(s, t, false)
		}
		if !sep {
			e.violate(s, ev, "metadata", n.what, "metadata is accepted although the "+n.what+" of the package may contain a separator")
		}
		if !spec {
			e.violate(s, ev, "metadata", n.what, "metadata is accepted although the "+n.what+" of the package may be empty, \".\" or \"..\"")
		}
	}
}

// manifestMon: a manifest is accepted only when it names files beside itself.
type manifestMon struct{ c *Ctx }

func (m *manifestMon) Event(e *Engine, s *State, ev *Event) {
	over := func() *Term {
		o := ev.arg(1)
		if o.op == "len" {
			o = o.args[0]
		}
		return o
	}
	switch ev.kind {
	case "store":
		if a := ev.arg(0); a.op == "addr" && a.aux == "Path" {
			s.remFrom("!put", func(t *Term) bool { return trimmed(t) == trimmed(ev.arg(1)) })
			s.addTo("!put", ev.arg(1))
		}
	case "loop.back":
		if l := over(); l.isFld("File") {
			sym, ok := ev.arg(0), false
			for el := range s.facts.terms(func(t *Term) bool { return t.op == "elem" && t.args[0] == l && t.contains(sym) }) {
				p := fld(el, "Path")
				for _, q := range s.all("!put") {
					if trimmed(q) == p {
						p = q // what was put back
					}
				}
				ok = ok || noSep(s, p) && (notSpecial(s, p, true) || s.facts.isBaseOf(p))
			}
			if !ok {
				s.addTo("unchecked", l)
			}
		}
	case "loop.done":
		if l := over(); l.isFld("File") && !s.has("unchecked", l) {
			s.addTo("checked", l)
		}
	case "return":
		if !isEntryRet(ev) || !okRet(ev) || len(ev.args) == 0 || ev.args[0] == tNil {
			return
		}
		e.count("manifests accepted")
		f := e.field(s, ev.args[0], "File")
		if !s.has("checked", f) {
			e.violate(s, ev, "manifest", short(f), "a manifest is accepted although a file it lists may lie elsewhere than beside it")
		}
	}
}

// isBaseOf: the text is its own last component.
func (f *Facts) isBaseOf(t *Term) bool {
	return f.maskOf(t, mk("app", "filepath.Base", t))&^mEQ == 0
}

// shapeMon: names computed from metadata are made of its checked names.
type shapeMon struct {
	c    *Ctx
	what string
}

func (m *shapeMon) Event(e *Engine, s *State, ev *Event) {
	if !isEntryRet(ev) || len(ev.args) == 0 {
		return
	}
	e.count("ways a name is computed")
	self := &nameMon{c: m.c}
	if w := m.ok(e, s, self, ev.args[0]); w != "" {
		e.violate(s, ev, "computed", short(ev.args[0]), m.what+" gives "+short(ev.args[0])+": "+w)
	}
}

// part: one of the names that were checked when the metadata was accepted.
func (m *shapeMon) part(t *Term) bool {
	t = stripStr(t)
	switch {
	case t.isApp("strings.ToLower"), t.isApp("strings.ToUpper"), t.isApp("strings.TrimSpace"):
		return m.part(t.args[0])
	case t.isFld("Version"), t.isFld("DistributionRelease"), t.isFld("Architecture"), t.isFld("Name"), t.isApp("eopkg.GetVersion"):
		return true
	case t.isApp("dec"), t.isApp("strconv.Itoa"):
		return true
	}
	return false
}

func (m *shapeMon) ok(e *Engine, s *State, n *nameMon, t *Term) string {
	t = stripStr(t)
	if v, ok := t.strVal(); ok {
		if v == ".." || strings.Contains(v, "/") {
			return "leads elsewhere"
		}
		return ""
	}
	switch {
	case t.isApp("path"):
		for _, a := range t.args {
			if w := m.ok(e, s, n, a); w != "" {
				return w
			}
		}
		return ""
	case t.isApp("cat"):
		plain := false
		for _, a := range t.args {
			v, ok := a.strVal()
			if ok && strings.Trim(v, "./") != "" {
				plain = true
			}
			if ok && strings.Contains(v, "/") || !ok && !m.part(a) && !a.isApp("eopkg.GetRelease") && !a.isApp("sprint") {
				return short(a) + " may contain a separator"
			}
		}
		if !plain {
			return "may designate another directory"
		}
		return ""
	case t.isApp("slice"):
		if !m.part(t.args[0]) {
			return short(t.args[0]) + " may contain a separator"
		}
		lo, _ := t.args[1].intVal()
		hi, ok := t.args[2].intVal()
		if !ok {
			return short(t) + " may be \"..\""
		}
		if hi-lo == 1 {
			return ""
		}
		for k, v := range s.facts.boolv {
			if v && k.isApp("strings.HasPrefix") && k.args[0] == t.args[0] && lo == 0 {
				if c, ok := k.args[1].strVal(); ok && strings.Trim(c, "./") != "" {
					return ""
				}
			}
		}
		return short(t) + " may be \"..\""
	case t.isFld("Name"), t.isApp("strings.ToLower") && m.part(t.args[0]):
		return ""
	}
	if n.name(e, s, t) == "" {
		return ""
	}
	return short(t) + " is not one of the names that are checked"
}

// openedMon: the name an opened package goes by is that of its file.
type openedMon struct{ c *Ctx }

func (m *openedMon) Event(e *Engine, s *State, ev *Event) {
	if !isEntryRet(ev) || !okRet(ev) || len(ev.args) == 0 || ev.args[0] == tNil {
		return
	}
	e.count("packages opened")
	id := e.field(s, ev.args[0], "ID")
	if !id.isApp("filepath.Base") && !noSep(s, id) {
		e.violate(s, ev, "opened", short(id), "an opened package goes by "+short(id)+", which need not be the name of its file")
	}
}

// sideMon: the files of a manifest are those beside it.
type sideMon struct{ c *Ctx }

func (m *sideMon) Event(e *Engine, s *State, ev *Event) {
	if !isEntryRet(ev) || len(ev.args) == 0 {
		return
	}
	e.count("lists of a manifest's files")
	l := ev.args[0]
	if isZeroList(l) {
		return
	}
	bad := false
	for _, x := range append([]*Term{}, l.args...) {
		for x.op == "when" || x.op == "spread" || x.op == "set" || x.op == "each" {
			if len(x.args) == 0 {
				break
			}
			x = x.args[0]
		}
		if !x.isApp("path") || len(x.args) != 2 || !x.args[0].isFld("dir") && !x.args[0].isApp("filepath.Dir") || !x.args[1].isFld("Path") {
			bad = true
		}
	}
	if bad {
		e.violate(s, ev, "listed", short(l), "the files of a manifest are given as "+short(l)+", not as the listed names beside the manifest")
	}
}

func checkC43(c *Ctx) {
	only := os.Getenv("ONLY")
	var names []string
	for _, n := range c.everything() {
		if !strings.Contains(n, only) {
			continue
		}
		switch {
		case strings.HasPrefix(n, "core.Manager."), strings.HasSuffix(n, ".Execute"), n == "core.NewManager", n == "core.Repository.Index", strings.HasPrefix(n, "libeopkg.") && !strings.HasPrefix(n, "libeopkg.Package."), strings.HasPrefix(n, "core.TransitManifest."):
			names = append(names, n)
		}
	}
	c.parEach("operations", names, func(n string) {
		c.count("operations followed", 1)
		c.runAny(n, &nameMon{c: c, entry: n})
	})
	if only != "" {
		return
	}
	one := func(n string, mon Monitor) {
		if c.P.fn(n) == nil {
			c.violate("anchor", n, "-", "-", n+" not found")
			return
		}
		c.run(n, mon, runOpt{pkgs: []string{n[:strings.IndexByte(n, '.')]}, noDb: true})
	}
	for _, n := range c.everything() {
		if strings.HasPrefix(n, "libeopkg.Package.") {
			one(n, &acceptMon{c: c})
		}
	}
	one("core.NewTransitManifest", &manifestMon{c: c})
	one("core.TransitManifest.GetPaths", &sideMon{c: c})
	one("libeopkg.Open", &openedMon{c: c})
	one("libeopkg.MetaPackage.GetPathComponent", &shapeMon{c: c, what: "GetPathComponent"})
	one("libeopkg.ComputeDeltaName", &shapeMon{c: c, what: "ComputeDeltaName"})
	c.require("operations followed", 20)
	c.require("paths created, written, changed or removed", 10)
	c.require("names recorded", 1)
	c.require("metadata accepted", 1)
	c.require("manifests accepted", 1)
	c.require("ways a name is computed", 2)
	c.require("packages opened", 1)
}
