package main

import (
	"strings"
)

// What a delta carries (C23).

func init() {
	register("C23", "typestate and path-fact analysis of the delta producer: content indexes cover every file of each package, the set of entries to include is exactly those whose hash is known absent from the old index or empty, every payload entry is copied exactly when its name is in that set, every other member of the new package is copied, pointless is returned exactly where the set is as large as the file list, a payload is attached exactly where the set is not empty, and every failure removes the archive and reaches the result",
		checkC23)
}

// wholeLoop: a finished loop went over its list one by one from the start.
func wholeLoop(e *Engine, s *State, ev *Event) bool {
	if n, counted := e.loopStep[ev.name]; counted && n != 1 {
		return false
	}
	if i := s.heap[mk("loopinit", ev.name)]; i != nil {
		if v, _ := i.intVal(); v != -1 && v != 0 {
			return false
		}
	}
	return true
}

type deltaBall struct {
	c        *Ctx
	old, new *Term // the packages
	first    bool  // collecting
	wanted   map[*Term]bool
	index    map[[2]*Term]bool // a content index and its package
	decide   map[string]bool   // loops that decide what is included
	archive  map[*Term]bool
	falsy    map[*Term]bool // maps that may have entries without a value
}

func isPayloadName(s *State, n *Term) int {
	for k, v := range s.facts.boolv {
		if k.isApp("strings.HasPrefix") && k.args[0] == n {
			if p, _ := k.args[1].strVal(); p == "install.tar" || p == "install.tar.xz" || p == "install.tar." {
				if v {
					return 1
				}
				return 2
			}
		}
	}
	for k, m := range s.facts.mask {
		if k[0] == n || k[1] == n {
			o := k[0]
			if o == n {
				o = k[1]
			}
			if p, _ := o.strVal(); p == "install.tar.xz" {
				switch m {
				case mEQ:
					return 1
				case mNE:
					return 2
				}
			}
		}
	}
	return 3
}

// members: the member list of a package's archive.
func (b *deltaBall) members(l, p *Term) bool {
	return l != nil && l.isFld("File") && l.args[0] != nil && l.contains(p) && l.find(func(x *Term) bool { return x.isFld("zipFile") && x.args[0] == p }) != nil
}

// files: the file list of a package.
func (b *deltaBall) files(l, p *Term) bool {
	return l != nil && l.isFld("File") && stripAddr(l.args[0]).isFld("Files") && stripAddr(stripAddr(l.args[0]).args[0]) == p
}

func elemOf(t *Term) (list *Term) {
	if t = stripAddr(t); t != nil && (t.op == "elem" || t.op == "elemaddr") {
		return t.args[0]
	}
	return nil
}

// trimmedOf: a value without its trailing slash.
func slashless(t *Term) *Term {
	if (t.isApp("strings.TrimSuffix") || t.isApp("strings.TrimRight")) && len(t.args) == 2 {
		if v, _ := t.args[1].strVal(); v == "/" {
			return t.args[0]
		}
	}
	return nil
}

// opened: the member or file a reader reads, from a call result.
func callOf(t *Term, name string) *Term {
	if t != nil && t.op == "call" && strings.HasSuffix(t.aux, ":"+name+".0") {
		return t.args[0]
	}
	return nil
}

// hashOf: the hash of a file of the new package, and the lists it is in.
func (b *deltaBall) hashOf(s *State, f *Term) *Term {
	l := elemOf(f)
	if l == nil {
		return nil
	}
	if b.files(l, b.new) {
		return fld(stripAddr(f), "Hash")
	}
	if l.op == "mapval" && b.hasIndex(s, l.args[0], b.new) {
		return l.args[1]
	}
	return nil
}

// lacking: 1 known lacking in the old package (or without hash), 2 known
// shared, 3 unknown.
func (b *deltaBall) lacking(s *State, h *Term) int {
	in := 3
	for k, v := range s.facts.boolv {
		if k.isApp("maphas") && k.args[1] == h && b.hasIndex(s, k.args[0], b.old) {
			in = 2
			if v && !b.unset(s, k.args[0], h) {
				in = 1
			}
		}
	}
	if in == 2 {
		return 1
	}
	switch s.facts.maskOf(h, tStr("")) {
	case mEQ:
		return 1
	case mNE, mLT, mGT:
		if in == 1 {
			return 2
		}
	}
	return 3
}

func fileName(p *Term) *Term {
	if p != nil && p.isApp("os.File.Name") {
		if q, _ := fileOf(p.args[0]); q != nil {
			return q
		}
	}
	return p
}

func (b *deltaBall) v(e *Engine, s *State, ev *Event, rule, con, msg string) {
	if !b.first {
		e.violate(s, ev, rule, con, msg)
	}
}

func (b *deltaBall) hasIndex(s *State, i, p *Term) bool {
	return b.index[[2]*Term{i, p}] && s.has("index", mk("pair", "", i, p))
}

// unset: the value found in a set is the one its members never have.
func (b *deltaBall) unset(s *State, m, k *Term) bool {
	if b.falsy[m] {
		return false
	}
	v := mk("mapval", "", m, k)
	return s.facts.maskBool(v) == 2 || s.facts.maskOf(v, tInt(0)) == mEQ
}

func (b *deltaBall) wants(s *State, name *Term) int {
	for m := range b.wanted {
		if v, ok := s.facts.boolv[mk("app", "maphas", m, name)]; ok {
			if v && !b.unset(s, m, name) {
				return 1
			}
			return 2
		}
	}
	return 3
}

func (b *deltaBall) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "assume":
		b.assume(s, ev)
	case "mapupdate":
		b.update(e, s, ev)
	case "loop.iter":
		over := ev.args[1]
		if b.files(over, b.old) || b.files(over, b.new) {
			s.set("!upd", nil)
		}
		if b.decide[ev.name] {
			s.set("!incl", nil)
		}
		if over.op == "mapval" {
			s.set("!in", nil)
			s.set("!partial", nil)
		}
	case "loop.back", "loop.break", "loop.done":
		b.loop(e, s, ev)
	case "call":
		b.call(e, s, ev)
	case "return":
		if isEntryRet(ev) {
			b.ret(e, s, ev)
		}
	}
}

// assume: decisions are kept, they would be lost at joins.
func (b *deltaBall) assume(s *State, ev *Event) {
	for m := range b.wanted {
		n := mk("len", "", m)
		switch s.facts.maskOf(n, mk("len", "", fld(fld(b.new, "Files"), "File"))) {
		case mEQ, mEQ | mGT:
			s.set("all", tTrue)
		case mLT, mNE, mGT: // never greater
			s.set("all", tFalse)
		}
		switch s.facts.maskOf(n, tInt(0)) {
		case mEQ:
			s.set("none", tTrue)
		case mGT, mNE:
			s.set("none", tFalse)
		}
	}
	keep := func(h *Term) {
		switch b.lacking(s, h) {
		case 1:
			s.addTo("!lacking", h)
		case 2:
			s.addTo("!shared", h)
		}
	}
	ev.args[0].find(func(t *Term) bool {
		switch {
		case t.op == "mapkey" || t.isFld("Hash"):
			keep(t)
		case t.isFld("Name"):
			if m := stripAddr(t.args[0]); m.isFld("FileHeader") && b.members(elemOf(m.args[0]), b.new) && isPayloadName(s, t) == 1 {
				s.addTo("!payload", stripAddr(m.args[0]))
			}
		}
		return false
	})
	// the decision may rest on a lookup whose answer is a constant
	for k := range s.facts.boolv {
		if k.isApp("maphas") && b.index[[2]*Term{k.args[0], b.old}] {
			keep(k.args[1])
		}
	}
	if h := s.get("cur"); h != nil {
		if s.is("pend") && b.wants(s, slashed(h)) == 2 {
			s.set("pend", nil)
		}
		if s.facts.maskOf(fld(h, "Typeflag"), tInt(48))&mEQ == 0 {
			s.set("body", nil)
		}
	}
	if x := s.get("nexterr"); x != nil && sentinel(s, x, "EOF") {
		s.setB("eof", true)
	}
}

func (b *deltaBall) update(e *Engine, s *State, ev *Event) {
	m, k, v := ev.args[0], ev.args[1], ev.args[2]
	if n, isInt := v.intVal(); v != tTrue && !(isInt && n != 0) && b.first {
		b.falsy[m] = true
	}
	// indexes by content
	if k.isFld("Hash") {
		f := stripAddr(k.args[0])
		for _, p := range []*Term{b.old, b.new} {
			if !b.files(elemOf(f), p) {
				continue
			}
			if b.first {
				b.index[[2]*Term{m, p}] = true
			}
			e.count("files indexed")
			s.addTo("!upd", m)
			if p != b.new || v.op != "list" {
				continue
			}
			here, before := false, ev.had == 2
			for _, x := range v.args {
				here = here || stripAddr(x) == f
				before = before || x.op == "spread" && (x.args[0] == mk("mapval", "", m, k) || x.args[0].contains(mk("mapval", "", m, k)))
			}
			if !here || !before {
				b.v(e, s, ev, "index", "same hash", "files of the new package with the same content are lost from the index: "+short(v))
			}
		}
		return
	}
	// what is included
	path := k.find(func(x *Term) bool { return x.isFld("Path") && elemOf(x.args[0]) != nil })
	if path == nil {
		if b.wanted[m] {
			b.v(e, s, ev, "needless", "entry", "something else than an entry of the new package is included: "+short(k))
		}
		return
	}
	f := stripAddr(path.args[0])
	l := elemOf(f)
	if !b.files(l, b.new) && l.op != "mapval" {
		return
	}
	if b.first {
		b.wanted[m] = true
		loop := f.args[1]
		if l.op == "mapval" && l.args[1].op == "mapkey" {
			loop = l.args[1].args[1]
		}
		loop.find(func(x *Term) bool {
			if x.op == "loop" {
				b.decide[x.aux] = true
			}
			return false
		})
	}
	e.count("entries included")
	if slashless(k) != path {
		b.v(e, s, ev, "form", "entry", "an entry is included as "+short(k)+", which need not be its name in the payload")
	}
	h := b.hashOf(s, f)
	switch {
	case h == nil:
		b.v(e, s, ev, "index", "incomplete", "what is included is chosen from a list that may not have every file of the new package")
	case b.lacking(s, h) != 1 && !s.has("!lacking", h):
		b.v(e, s, ev, "needless", "entry", "an entry is included whose content the old package may have")
	}
	if l.op == "mapval" {
		s.setB("!in", true)
	} else {
		s.setB("!incl", true)
	}
}

func (b *deltaBall) loop(e *Engine, s *State, ev *Event) {
	over, sym := ev.args[1], ev.args[0]
	switch ev.kind {
	case "loop.break":
		s.setB("partial:"+ev.name, true)
		return
	case "loop.done":
		whole := over.op == "alloc" || wholeLoop(e, s, ev)
		ok := whole && !s.is("partial:"+ev.name)
		for ip := range b.index {
			if b.files(over, ip[1]) && ok && !s.has("gap", mk("pair", ip[0].aux, ip[1])) {
				s.addTo("index", mk("pair", "", ip[0], ip[1]))
			}
		}
		if over.op == "mapval" && ok && !s.is("!partial") {
			s.addTo("!allof", over.args[1])
		}
		if b.members(over, b.new) && ok && !s.is("found:"+ev.name) && s.is("copying") {
			s.setB("copied", true)
		}
		if b.decide[ev.name] {
			if b.files(over, b.new) || b.hasIndex(s, over, b.new) {
				if ok {
					s.setB("decided", true)
				}
			} else {
				b.v(e, s, ev, "index", "incomplete", "what is included is chosen from a list that may not have every file of the new package")
			}
		}
		return
	}
	// loop.back
	for ip := range b.index {
		if !b.files(over, ip[1]) || s.has("!upd", ip[0]) {
			continue
		}
		there := false
		for k, v := range s.facts.boolv {
			there = there || v && k.isApp("maphas") && k.args[0] == ip[0] && k.args[1].isFld("Hash") && b.files(elemOf(k.args[1].args[0]), ip[1]) && k.args[1].contains(sym)
		}
		if !there || ip[1] == b.new {
			s.addTo("gap", mk("pair", ip[0].aux, ip[1]))
		}
	}
	if over.op == "mapval" && !s.is("!in") {
		s.setB("!partial", true)
	}
	if b.decide[ev.name] {
		e.count("inclusions decided")
		done := s.is("!incl")
		for _, h := range append(s.all("!allof"), s.all("!shared")...) {
			done = done || h.contains(sym)
		}
		if !done {
			b.v(e, s, ev, "missed", "entry", "an entry of the new package whose content the old one may lack is not included")
		}
	}
	if b.members(over, b.new) && s.is("copying") {
		e.count("members decided")
		done := false
		for _, m := range append(s.all("!copied"), s.all("!payload")...) {
			done = done || m.contains(sym)
		}
		if !done {
			b.v(e, s, ev, "missed", "member", "a member of the new package that may not be its payload is not copied")
		}
	}
}

// slashed: the name payload entries are compared under.
func slashed(h *Term) *Term {
	return pureApp("strings.TrimSuffix", 0, []*Term{fld(h, "Name"), tStr("/")})
}

func (b *deltaBall) call(e *Engine, s *State, ev *Event) {
	a := ev.arg
	for _, o := range fsOps(e, s, ev) {
		if ev.ok == 2 {
			continue
		}
		switch o.op {
		case "write":
			if b.archive[fileName(o.path)] {
				s.set("open", fileName(o.path))
			}
		case "remove", "removeall":
			if s.get("open") == fileName(o.path) {
				s.set("open", nil)
			}
		case "produce":
			if s.has("ball", o.src) {
				s.addTo("ballxz", o.path)
			}
			if s.has("payloadxz", o.src) {
				s.addTo("payload", o.path)
			}
		case "copy":
			if m := callOf(a(1), "archive/zip.File.Open"); m != nil {
				if isPayloadName(s, fld(fld(m, "FileHeader"), "Name")) == 1 && b.members(elemOf(m), b.new) {
					s.addTo("payloadxz", o.path)
				}
			}
		}
	}
	if ev.ok == 2 && (ev.name == "os.Remove" || ev.name == "os.RemoveAll") && s.get("open") == fileName(a(0)) {
		s.set("open", nil) // nothing more can be done
	}
	switch ev.name {
	case "archive/zip.NewWriter":
		p, _ := fileOf(a(0))
		if b.first && p != nil {
			b.archive[p] = true
		}
		s.setB("copying", true)
	case "archive/zip.Writer.CreateHeader", "archive/zip.Writer.Create":
		if ev.ok == 2 {
			break
		}
		n := a(1)
		if ev.name == "archive/zip.Writer.CreateHeader" {
			n = e.field(s, a(1), "Name")
		}
		s.addTo("!named", mk("pair", "", ev.res[0], n))
	case "archive/zip.Writer.Copy":
		if ev.ok != 2 {
			b.member(e, s, ev, a(1))
		}
	case "io.Copy", "io.CopyBuffer":
		if ev.ok == 2 {
			break
		}
		if t := callOf(a(0), "archive/tar.NewWriter"); t != nil {
			h := s.get("cur")
			if h == nil || s.is("pend") || callOf(h, "archive/tar.Reader.Next") != a(1) {
				b.v(e, s, ev, "content", "payload", "what is written into the payload is not the content of the entry just added")
			}
			s.set("body", nil)
			break
		}
		var n *Term
		for _, p := range s.all("!named") {
			if p.args[0] == a(0) {
				n = p.args[1]
			}
		}
		if n == nil {
			break
		}
		if m := callOf(a(1), "archive/zip.File.Open"); m != nil {
			if n != fld(fld(m, "FileHeader"), "Name") {
				b.v(e, s, ev, "content", "member", "the content of "+short(m)+" is copied under the name "+short(n))
			}
			b.member(e, s, ev, m)
			break
		}
		src, _ := fileOf(a(1))
		name, _ := n.strVal()
		switch {
		case src == nil || !s.has("ballxz", src):
			b.v(e, s, ev, "content", "payload", "what is attached, "+short(a(1))+", is not a finished payload")
		case name != "install.tar.xz":
			b.v(e, s, ev, "content", "payload name", "the payload is attached as "+short(n))
		case s.get("none") != tFalse:
			b.v(e, s, ev, "needless", "payload", "a payload is attached although no entry may have to be included")
		}
		e.count("payloads attached")
		s.setB("attached", true)
	case "archive/zip.Writer.Close":
		if ev.ok != 2 {
			s.setB("zclosed", true)
		}
	case "archive/tar.Reader.Next":
		if s.is("pend") {
			b.v(e, s, ev, "missed", "payload entry", "an entry of the payload that may be wanted is left out")
		}
		if s.is("body") {
			b.v(e, s, ev, "missed", "content", "the content of a payload entry may not be copied")
		}
		s.set("body", nil)
		s.set("pend", nil)
		s.set("cur", nil)
		if ev.ok == 2 {
			s.set("nexterr", ev.res[1])
			return
		}
		e.count("payload entries decided")
		s.set("cur", ev.res[0])
		s.setB("pend", true)
	case "archive/tar.NewWriter":
		s.set("eof", nil)
	case "archive/tar.Writer.WriteHeader":
		if ev.ok == 2 {
			break
		}
		h := a(1)
		r := callOf(h, "archive/tar.Reader.Next")
		src := (*Term)(nil)
		if q := callOf(r, "archive/tar.NewReader"); q != nil {
			src, _ = fileOf(q)
		}
		if src == nil || !s.has("payload", src) {
			b.v(e, s, ev, "content", "payload entry", "an entry is written that is not one of the new package's payload: "+short(h))
		}
		if b.wants(s, slashed(h)) != 1 {
			b.v(e, s, ev, "needless", "payload entry", "an entry of the payload is written that may not be wanted")
		}
		e.count("payload entries written")
		if h == s.get("cur") {
			s.set("pend", nil)
			s.setB("body", s.facts.maskOf(fld(h, "Typeflag"), tInt(48))&mEQ != 0)
		}
	case "archive/tar.Writer.Close":
		if ev.ok == 2 {
			if p, _ := fileOf(orNil(callOf(a(0), "archive/tar.NewWriter"))); p != nil && s.has("ball", p) {
				return // already closed
			}
			break
		}
		if p, _ := fileOf(orNil(callOf(a(0), "archive/tar.NewWriter"))); p != nil && s.is("eof") {
			s.addTo("ball", p)
		}
	}
	if ev.ok == 2 && !bestEffort[ev.name] && (strings.HasPrefix(ev.name, "archive/") || strings.HasPrefix(ev.name, "os") || ev.name == "io.Copy") {
		s.set("failed", tStr(ev.name))
	}
}

func (b *deltaBall) member(e *Engine, s *State, ev *Event, m *Term) {
	if !b.members(elemOf(m), b.new) {
		b.v(e, s, ev, "content", "member", short(m)+" is copied, which is not a member of the new package")
		return
	}
	e.count("members copied")
	if isPayloadName(s, fld(fld(m, "FileHeader"), "Name")) != 2 {
		b.v(e, s, ev, "needless", "member", "a member is copied that may be the payload of the new package")
	}
	s.addTo("!copied", m)
}

func (b *deltaBall) ret(e *Engine, s *State, ev *Event) {
	err := ev.args[len(ev.args)-1]
	if !okRet(ev) {
		if globalNamed(err, "ErrDeltaPointless") {
			e.count("pointless deltas")
			if !s.is("decided") || s.get("all") != tTrue {
				b.v(e, s, ev, "pointless", "too often", "a delta is declared pointless although not every entry may have to be included")
			}
		}
		if s.get("open") != nil {
			b.v(e, s, ev, "leftover", "archive", "production fails without removing its archive")
		}
		return
	}
	e.count("deltas produced")
	if f := s.get("failed"); f != nil {
		n, _ := f.strVal()
		b.v(e, s, ev, "swallowed", n, "a delta is produced although "+n+" failed")
	}
	for _, q := range []struct{ k, msg string }{
		{"decided", "not every entry of the new package was decided on"},
		{"copied", "not every member of the new package was copied"},
		{"zclosed", "the archive was not finished"},
	} {
		if !s.is(q.k) {
			b.v(e, s, ev, "incomplete", q.k, "a delta is produced although "+q.msg)
		}
	}
	if s.get("all") != tFalse {
		b.v(e, s, ev, "pointless", "too rarely", "a delta is produced although every entry may have to be included")
	}
	if !s.is("attached") && s.get("none") != tTrue {
		b.v(e, s, ev, "incomplete", "payload", "no payload is attached although some entries may have to be included")
	}
	if s.get("open") == nil || fileName(ev.args[0]) != s.get("open") {
		b.v(e, s, ev, "leftover", "result", "the result "+short(ev.args[0])+" is not the archive that was produced")
	}
}

func checkC23(c *Ctx) {
	ps := strParams(c, "libeopkg.NewDeltaProducer")
	commit := c.P.fn("libeopkg.DeltaProducer.Commit")
	if len(ps) != 3 || commit == nil {
		c.violate("anchor", "", "libeopkg.NewDeltaProducer", "-", "the producer's operations changed: the property cannot be decided")
		return
	}
	// which field holds which package
	var fo, fn string
	c.run("libeopkg.NewDeltaProducer", monFunc(func(e *Engine, s *State, ev *Event) {
		if !isEntryRet(ev) || !okRet(ev) {
			return
		}
		for k, v := range s.heap {
			if k.op == "addr" && k.args[0] == ev.args[0] && v.op == "opq" && len(v.args) > 0 {
				switch v.args[0] {
				case ps[1]:
					fo = k.aux
				case ps[2]:
					fn = k.aux
				}
			}
		}
	}), runOpt{pkgs: []string{"libeopkg"}, ext: opaqueFns("libeopkg.Open")})
	if fo == "" || fn == "" {
		c.violate("anchor", "", "libeopkg.NewDeltaProducer", "-", "the producer does not keep the two packages it opened: the property cannot be decided")
		return
	}
	self := paramOf(commit, 0)
	b := &deltaBall{c: c, old: fld(self, fo), new: fld(self, fn), first: true, wanted: map[*Term]bool{}, index: map[[2]*Term]bool{}, decide: map[string]bool{}, archive: map[*Term]bool{}, falsy: map[*Term]bool{}}
	for _, first := range []bool{true, false} {
		b.first = first
		c.run("libeopkg.DeltaProducer.Commit", b, runOpt{pkgs: []string{"libeopkg"}})
	}
	for _, k := range []string{"files indexed", "entries included", "inclusions decided", "members decided", "members copied", "payload entries decided", "payload entries written", "payloads attached", "deltas produced", "pointless deltas"} {
		c.require(k, 1)
	}
	// what is kept of it
	c.run("core.Manager.CreateDelta", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "call" && strings.HasSuffix(ev.name, "libeopkg.DeltaProducer.Commit") && ev.ok != 2 {
			s.set("made", ev.res[0])
		}
		if ev.kind == "call" && (ev.name == "os.Stat" || ev.name == "os.Lstat") && ev.ok == 1 {
			s.addTo("there", ev.args[0])
		}
		for _, o := range fsOps(e, s, ev) {
			switch o.op {
			case "write":
				if ev.ok == 1 {
					s.addTo("left", o.path)
				}
			case "link", "copy", "rename":
				if ev.ok == 1 {
					s.addTo("left", o.path)
					if o.src == s.get("made") && o.src != nil {
						s.addTo("there", o.path)
					}
				}
			case "remove", "removeall":
				s.remFrom("left", func(t *Term) bool { return t == o.path })
			}
		}
		if !isEntryRet(ev) {
			return
		}
		if !okRet(ev) {
			for _, p := range s.all("left") {
				e.violate(s, ev, "leftover", "staged", "production fails and leaves "+short(p)+" behind")
			}
			return
		}
		e.count("deltas staged")
		if !s.has("there", ev.args[0]) {
			e.violate(s, ev, "incomplete", "staged", "the delta reported, "+short(ev.args[0])+", was not put there")
		}
	}), runOpt{pkgs: []string{"core", "libeopkg"}, ext: opaqueFns("libeopkg.NewDeltaProducer", "libeopkg.DeltaProducer.Commit", "libeopkg.DeltaProducer.Close")})
	c.require("deltas staged", 1)
}
