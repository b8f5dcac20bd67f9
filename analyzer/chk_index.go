package main

import "strings"

// Checks over the index rebuild (C01–C03).

func init() {
	register("C01", "typestate over every path of a repository re-index: the nine published names are never opened for writing, created, linked, truncated, compressed into or removed; a rename onto one of them has a source whose production succeeded on this path and is the last kind of step (nothing is produced after the first rename); a failed step forbids further renames, must be reported, and every temporary whose production was attempted must be removed; success needs all nine renames",
		checkC01)
	register("C02", "dataflow over every path of a repository re-index: at success, the file renamed to X.sha1sum/X.sha256sum was last written with hex(SHA-1/SHA-256(entire content of the file renamed to X)) computed after that file was complete, and X.xz/X.zst was compressed from the file renamed to X",
		checkC02)
}

var publishedIndex = map[string]bool{}

func init() {
	for _, s := range []string{"", ".xz", ".zst"} {
		for _, d := range []string{"", ".sha1sum", ".sha256sum"} {
			publishedIndex["eopkg-index.xml"+s+d] = true
		}
	}
}

const indexEntry = "core.Repository.Index"

func isPublished(p *Term) (string, bool) {
	_, b := baseName(p)
	return b, publishedIndex[b]
}

func checkC01(c *Ctx) {
	mon := monFunc(func(e *Engine, s *State, ev *Event) {
		ops := fsOps(e, s, ev)
		for _, o := range ops {
			b, pub := isPublished(o.path)
			switch o.op {
			case "open", "chmod", "chown", "mkdir":
				continue
			case "rename":
				if !pub {
					if b2, p2 := isPublished(o.src); p2 {
						e.violate(s, ev, "moved-away", b2, "a published index file is renamed away")
					}
					continue
				}
				e.count("renames onto published names")
				s.setB("renaming", true)
				if s.is("failed") {
					e.violate(s, ev, "rename-after-failure", b, "a published index file is replaced although an earlier step failed ("+s.path()+")")
				}
				if !s.has("produced", o.src) {
					e.violate(s, ev, "rename-unproduced", b, "renamed from "+short(o.src)+", which was not produced successfully on this path")
				}
				if len(s.all("unflushed")) > 0 {
					e.violate(s, ev, "rename-unflushed", b, "renamed before the index encoder was flushed")
				}
				if ev.ok == 1 {
					s.addTo("renamed", tStr(b))
					s.addTo("moved", o.src)
					d, _ := baseName(o.path)
					if h := s.get("dir"); h != nil && h != d {
						e.violate(s, ev, "dir", b, "published into a different directory than the other index files")
					}
					s.set("dir", d)
				} else {
					s.setB("failed", true)
					s.note("rename of " + b + " failed")
				}
			case "remove", "removeall":
				if pub && ev.name != "os/exec.Cmd.Run" {
					e.violate(s, ev, "removed", b, "a published index file is removed")
				}
				s.addTo("removed", o.path)
				s.remFrom("produced", func(t *Term) bool { return t == o.path })
			default: // produced by this step
				if pub {
					e.violate(s, ev, "in-place", b, "a published index file is written in place by "+ev.name)
				}
				if s.is("renaming") {
					e.violate(s, ev, "late-production", ev.name, "produces "+short(o.path)+" after the first published file was replaced")
				}
				e.count("production steps")
				s.addTo("attempted", o.path)
				s.remFrom("removed", func(t *Term) bool { return t == o.path })
				if ev.ok == 2 {
					s.setB("failed", true)
					s.note(ev.name + " failed for " + short(o.path))
					s.remFrom("produced", func(t *Term) bool { return t == o.path })
				} else {
					s.addTo("produced", o.path)
				}
			}
		}
		if ev.kind == "call" {
			switch {
			case ev.is("encoding/xml.Encoder.EncodeToken", "encoding/xml.Encoder.EncodeElement", "encoding/xml.Encoder.Encode"):
				e.count("encoder steps")
				s.addTo("unflushed", ev.args[0])
			case ev.is("encoding/xml.Encoder.Flush", "encoding/xml.Encoder.Close") && ev.ok == 1:
				s.remFrom("unflushed", func(t *Term) bool { return t == ev.args[0] })
			}
		}
		if (ev.kind == "call" || ev.kind == "db") && (ev.ok == 2 || ev.ok == 3) && len(ops) == 0 && !bestEffort[ev.name] {
			if !s.is("failed") {
				s.note(ev.name + " failed")
			}
			s.setB("failed", true)
		}
		if isEntryRet(ev) {
			e.count("returns")
			if okRet(ev) {
				if s.is("failed") {
					e.violate(s, ev, "failure-dropped", "return", "success is reported although a step failed ("+s.path()+")")
				}
				for b := range publishedIndex {
					if !s.has("renamed", tStr(b)) {
						e.violate(s, ev, "not-replaced", b, "success is reported without having replaced "+b)
					}
				}
			} else {
				for _, p := range s.all("attempted") {
					if !s.has("removed", p) && !s.has("moved", p) {
						e.violate(s, ev, "temp-left", short(p), "a failed re-index leaves its temporary file "+short(p)+" behind ("+s.path()+")")
					}
				}
			}
		}
	})
	c.run(indexEntry, mon, runOpt{pkgs: []string{"core", "libeopkg"}})
	c.require("renames onto published names", 9)
	c.require("production steps", 9)
	c.require("returns", 2)
}

func checkC02(c *Ctx) {
	// facts kept per path: "dg" holds digest(p, alg, of); "cz" holds comp(p, kind, of)
	mon := monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "call" && ev.is("encoding/xml.Encoder.EncodeToken", "encoding/xml.Encoder.EncodeElement", "encoding/xml.Encoder.Encode", "encoding/xml.Encoder.Flush") {
			s.setB("plain-dirty", true)
			for _, d := range append(s.all("dg"), s.all("cz")...) {
				e.violate(s, ev, "stale", short(d.args[0]), "the index is still being written after "+short(d.args[0])+" was derived from it")
			}
			if ev.is("encoding/xml.Encoder.Flush") {
				s.setB("plain-dirty", false)
			}
		}
		if ev.ok == 2 {
			return
		}
		for _, o := range fsOps(e, s, ev) {
			switch o.op {
			case "rename":
				if _, pub := isPublished(o.path); pub {
					s.addTo("pub", mk("pair", "", o.path, o.src))
				}
			case "write", "append", "copy", "produce", "truncate", "link":
				// whatever was derived from the old content is stale
				stale := func(t *Term) bool { return t.args[0] == o.path || t.args[1] == o.path }
				s.remFrom("dg", stale)
				s.remFrom("cz", stale)
				if o.op == "produce" {
					prog, _ := o.mode.strVal()
					if s.is("plain-dirty") {
						e.violate(s, ev, "compressed-early", prog, "compressed before the index was completely written")
					}
					s.addTo("cz", mk("comp", prog[strings.LastIndexByte(prog, '/')+1:], o.path, o.src))
				} else if o.data != nil && o.op == "write" {
					if alg, of := digestOf(o.data); of != nil {
						if s.is("plain-dirty") {
							e.violate(s, ev, "digest-early", alg, "digest taken before the index was completely written")
						}
						e.count("digest files written")
						s.addTo("dg", mk("digest", alg, o.path, of))
					}
				}
			}
		}
		if isEntryRet(ev) && okRet(ev) {
			e.count("successful returns")
			src := map[string]*Term{}
			for _, p := range s.all("pub") {
				_, b := baseName(p.args[0])
				src[b] = p.args[1]
			}
			for b := range publishedIndex {
				if src[b] == nil {
					e.violate(s, ev, "missing", b, b+" is not published by a successful re-index")
					continue
				}
				e.count("published files justified")
				for suf, alg := range map[string]string{".sha1sum": "sha1", ".sha256sum": "sha256"} {
					if !strings.HasSuffix(b, suf) {
						continue
					}
					of := src[strings.TrimSuffix(b, suf)]
					if of == nil || !s.has("dg", mk("digest", alg, src[b], of)) {
						e.violate(s, ev, "digest", b, b+" is not the hex "+alg+" digest of the whole of the file published as "+strings.TrimSuffix(b, suf)+" (known digests: "+termList(s.all("dg"))+")")
					}
				}
				for suf, prog := range map[string]string{".xz": "xz", ".zst": "zstd"} {
					if !strings.HasSuffix(b, suf) {
						continue
					}
					of := src[strings.TrimSuffix(b, suf)]
					if of == nil || !s.has("cz", mk("comp", prog, src[b], of)) {
						e.violate(s, ev, "compressed", b, b+" is not compressed by "+prog+" from the file published as "+strings.TrimSuffix(b, suf))
					}
				}
			}
		}
	})
	c.run(indexEntry, mon, runOpt{pkgs: []string{"core", "libeopkg"}})
	c.require("published files justified", 9)
	c.require("digest files written", 6)
}

func init() {
	register("C03", "path-sensitive dataflow over a repository re-index: every record visited while collecting either contributes its Published build or is known obsolete, the collected builds are sorted by ID, every collected build is looked up in the pool and encoded once or known to be the companion of an obsolete name, the offered deltas are those of the repository's record whose target release equals the published one with their own pool fields, and the document is opened once, contains distribution/components/groups, is closed and flushed before success; the obsolete set holds every listed name",
		checkC03)
}

// xmlStart: the element name of an xml.StartElement value
func xmlLocal(t *Term) string {
	if x := t.find(func(y *Term) bool {
		return y.op == "struct" && len(y.args) >= 3 && isName(y.args[1], "Local")
	}); x != nil {
		s, _ := x.args[2].strVal()
		return s
	}
	return ""
}

// structField reads a field of a struct term.
func structField(t *Term, f string) *Term {
	if t.op != "struct" {
		return nil
	}
	for i := 1; i+1 < len(t.args); i += 2 {
		if isName(t.args[i], f) {
			return t.args[i+1]
		}
	}
	return structField(t.args[0], f)
}

// pkgRecord: t is the record of key k in the package bucket of repository id.
func pkgRecord(t *Term) (id, k *Term, ok bool) {
	if t.op != "loaded" || len(t.args) < 2 {
		return nil, nil, false
	}
	id, ok = pkgBucket(t.args[0])
	return id, t.args[1], ok
}
func poolRecord(t *Term) (id *Term, ok bool) {
	if t.op != "loaded" || len(t.args) < 2 || !isBucket(t.args[0], "pool") {
		return nil, false
	}
	return t.args[1], true
}

func checkC03(c *Ctx) {
	fn := c.P.fn(indexEntry)
	self := paramOf(fn, 0)
	repoID := fld(self, "ID")
	isPub := func(t *Term) bool {
		if !t.isFld("Published") {
			return false
		}
		id, _, ok := pkgRecord(t.args[0])
		return ok && id == repoID
	}
	hasPub := func(t *Term) bool { return t != nil && t.find(isPub) != nil }
	obs := func(s *State, want bool, p func(name *Term) bool) bool {
		for k, v := range s.facts.boolv {
			if v == want && k.isApp("eopkg.IsObsolete") && p(k.args[1]) {
				return true
			}
		}
		return false
	}
	distTerm := func(t *Term) bool {
		return t.op == "call" && strings.Contains(t.aux, "libeopkg.NewDistribution.0") && func() bool { _, b := baseName(t.args[0]); return b == "distribution.xml" }()
	}
	mon := monFunc(func(e *Engine, s *State, ev *Event) {
		sym := func() *Term { return ev.args[0] }
		switch ev.kind {
		case "assume":
			if s.get("pkgloop") == nil {
				return
			}
			// what the path knows about the name of the package being emitted
			pkgName := func(n *Term) bool {
				_, _, rec := pkgRecord(n)
				return n.isFld("Name") && hasPub(n) && (n.args[0].isFld("Meta") || rec)
			}
			suffixed := 0
			for k, v := range s.facts.boolv {
				if k.isApp("strings.HasSuffix") && isName(k.args[1], "-dbginfo") && k.args[0].find(pkgName) != nil {
					suffixed = 2
					if v {
						suffixed = 1
					}
				}
			}
			trimmed := func(n *Term) bool {
				if n.isApp("strings.TrimSuffix") && pkgName(n.args[0]) && isName(n.args[1], "-dbginfo") {
					return true
				}
				if suffixed == 1 && n.isApp("slice") && pkgName(n.args[0]) {
					if i, ok := n.args[1].intVal(); ok && i == 0 && n.args[2] == bin("+", mk("len", "", n.args[0]), tInt(-8)) {
						return true
					}
				}
				return false
			}
			if obs(s, false, func(n *Term) bool { return trimmed(n) || suffixed == 2 && pkgName(n) }) || suffixed == 2 && !s.is("unfiltered") {
				s.setB("dbgok", true)
			}
			if obs(s, true, func(n *Term) bool { return trimmed(n) || pkgName(n) }) {
				s.setB("skipok", true)
			}
			deltaList := func(k *Term) bool {
				return k.find(func(y *Term) bool { return y.op == "struct" && structField(y, "ReleaseFrom") != nil }) != nil
			}
			for k, r := range s.facts.rng {
				if k.op == "len" && r.hi <= 0 && deltaList(k) {
					s.setB("dempty", true)
				}
			}
			for p, m := range s.facts.mask {
				if m == mEQ && (p[0] == tNil && deltaList(p[1]) || p[1] == tNil && deltaList(p[0])) {
					s.setB("dempty", true)
				}
			}
		case "db":
			if ev.name == "foreach" {
				if id, ok := pkgBucket(ev.args[0]); ok && id == repoID {
					s.setB("collecting", true)
					e.count("collection passes")
				}
			}
		case "loop.iter":
			if id, ok := pkgBucket(ev.args[1]); ok && id == repoID {
				s.set("got", nil)
			} else if hasPub(ev.args[1]) && isListy(ev.args[1]) && s.get("pkgloop") == nil {
				s.set("pkgloop", tStr(ev.name))
				s.set("enc", nil)
				s.set("dbgok", nil)
				s.set("skipok", nil)
				s.set("dempty", nil)
				s.set("dapp", nil)
				s.set("dlt", nil)
				s.setB("sortedloop", s.heap[mk("sorted", "", skel(ev.args[1]))] != nil)
			} else if isName(orNil(s.get("pkgloop")), ev.name) {
				s.set("enc", nil)
				s.set("dbgok", nil)
				s.set("skipok", nil)
				s.set("dempty", nil)
				s.set("dapp", nil)
				s.set("dlt", nil)
			} else if ev.args[1].isFld("Deltas") {
				s.set("dgot", nil)
			} else if ev.args[1].isFld("Components") || ev.args[1].isFld("Groups") {
				s.set("asset", nil)
			}
		case "append":
			el := ev.args[1]
			isDelta := func(y *Term) bool { return y.op == "struct" && structField(y, "ReleaseFrom") != nil }
			if hasPub(el) && el.find(isDelta) == nil {
				if s.is("got") {
					e.violate(s, ev, "twice", "collect", "a package contributes two entries")
				}
				s.setB("got", true)
				e.count("collected builds")
				if s.is("dist") && !obs(s, false, func(n *Term) bool { return hasKey(el, n) }) {
					s.setB("unfiltered", true)
				}
			}
			if d := el.find(isDelta); d != nil {
				e.count("offered deltas")
				s.setB("dgot", true)
				s.setB("dapp", true)
				var rec *Term
				if f := structField(d, "ReleaseFrom"); f.isFld("FromRelease") && f.args[0].isFld("Delta") {
					rec = f.args[0].args[0]
				}
				if rec == nil {
					e.violate(s, ev, "delta-from", "ReleaseFrom", "the offered source release is not the delta's own")
					return
				}
				did, ok := poolRecord(rec)
				if !ok || did.find(func(y *Term) bool {
					if !y.isFld("Deltas") {
						return false
					}
					id, _, ok := pkgRecord(y.args[0])
					return ok && id == repoID
				}) == nil {
					e.violate(s, ev, "delta-origin", "Deltas", "an offered delta does not come from the repository's own list: "+short(rec))
				}
				for _, f := range []string{"PackageURI", "PackageSize", "PackageHash"} {
					if structField(d, f) != fld(fld(rec, "Meta"), f) {
						e.violate(s, ev, "delta-field", f, "the offered "+f+" is not the delta's own")
					}
				}
				ok = false
				for p, m := range s.facts.mask {
					if m == mEQ && leadsTo(p[0], p[1], rec, isPub) {
						ok = true
					}
				}
				if !ok {
					e.violate(s, ev, "delta-target", "ToRelease", "a delta is offered without its target release being the published one")
				}
			}
		case "loop.back":
			if id, ok := pkgBucket(ev.args[1]); ok && id == repoID {
				if !s.is("got") && !obs(s, true, func(n *Term) bool { return n.contains(sym()) }) {
					e.violate(s, ev, "package-dropped", "collect", "a package record is left out of the index although its name is not known to be obsolete")
				}
			} else if isName(orNil(s.get("pkgloop")), ev.name) {
				e.count("package iterations")
				if s.get("enc") == nil && !s.is("skipok") {
					s.addTo("lacking", tStr(ev.name))
				}
			} else if ev.args[1].isFld("Deltas") {
				if _, _, ok := pkgRecord(ev.args[1].args[0]); ok && !s.is("dgot") {
					diff := false
					for p, m := range s.facts.mask {
						if m&mEQ == 0 && (p[0].isFld("ToRelease") || p[1].isFld("ToRelease")) && (hasPub(p[0]) || hasPub(p[1])) {
							diff = true
						}
					}
					if !diff {
						e.violate(s, ev, "delta-dropped", "Deltas", "a listed delta is not offered although its target release is not known to differ from the published one")
					}
				}
			} else if ev.args[1].isFld("Components") || ev.args[1].isFld("Groups") {
				if !s.is("asset") {
					e.violate(s, ev, "asset-dropped", ev.args[1].aux, "an entry of "+ev.args[1].aux+" is not emitted")
				}
			}
		case "loop.done":
			if ev.args[1].isFld("Deltas") {
				if id, _, ok := pkgRecord(ev.args[1].args[0]); ok && id == repoID {
					s.setB("dlt", true)
				}
			}
			if ev.args[1].isFld("Components") || ev.args[1].isFld("Groups") {
				s.setB("done"+ev.args[1].aux, true)
			}
			if isName(orNil(s.get("pkgloop")), ev.name) || hasPub(ev.args[1]) || s.is("collecting") && ev.args[1].op != "fld" && s.get("pkgloop") == nil && s.is("open") {
				s.setB("allpkgs", true)
			}
		case "call":
			switch ev.name {
			case "os.Stat":
				_, b := baseName(ev.args[0])
				if ev.ok == 2 {
					s.addTo("nofile", tStr(b))
				}
			case repoPath + "src/libeopkg.NewDistribution":
				s.setB("dist", ev.ok == 1)
			case repoPath + "src/libeopkg.NewComponents", repoPath + "src/libeopkg.NewGroups":
				if ev.ok == 1 {
					_, b := baseName(ev.args[0])
					s.addTo("loaded", tStr(b))
				}
			case "encoding/xml.Encoder.EncodeToken":
				if ev.ok == 2 {
					return
				}
				end := ev.args[1].find(func(y *Term) bool { return y.op == "zero" && strings.HasSuffix(y.aux, "xml.EndElement") }) != nil
				if xmlLocal(ev.args[1]) != "PISI" {
					e.violate(s, ev, "document", xmlLocal(ev.args[1]), "unexpected token in the index document")
				}
				if end {
					if !s.is("open") || s.is("closed") {
						e.violate(s, ev, "document", "end", "the document is closed without being open")
					}
					s.setB("closed", true)
				} else {
					if s.is("open") {
						e.violate(s, ev, "document", "start", "the document is opened twice")
					}
					s.setB("open", true)
				}
			case "encoding/xml.Encoder.Flush", "encoding/xml.Encoder.Close":
				if ev.ok == 1 {
					s.setB("flushed", true)
				}
			case "encoding/xml.Encoder.EncodeElement":
				if ev.ok == 2 {
					return
				}
				if !s.is("open") || s.is("closed") {
					e.violate(s, ev, "document", "order", "an element is emitted outside the document")
				}
				s.setB("flushed", false)
				what := ev.args[1]
				switch el := xmlLocal(ev.args[2]); el {
				case "Package":
					e.count("emitted packages")
					if s.get("pkgloop") == nil {
						e.violate(s, ev, "stray", "Package", "a package is emitted outside the loop over the collected builds")
					}
					if s.get("enc") != nil {
						e.violate(s, ev, "twice", "emit", "a package is emitted twice")
					}
					s.set("enc", tTrue)
					s.addTo("encloop", orNil(s.get("pkgloop")))
					if !s.is("sortedloop") {
						e.violate(s, ev, "unsorted", "package loop", "the collected builds are emitted without having been sorted")
					} else {
						e.count("sorted package loops")
					}
					rec := what
					if what.op == "alloc" {
						rec = e.content(s, what)
					}
					var id *Term
					ok := false
					if rec.isFld("Meta") {
						id, ok = poolRecord(rec.args[0])
					}
					if !ok || !isPub(id) {
						e.violate(s, ev, "not-published", "Package", "emits something that is not the pool metadata of the published build: "+short(what))
						return
					}
					name := fld(rec, "Name")
					if s.is("dist") {
						if s.is("unfiltered") && !obs(s, false, func(n *Term) bool { return n == name || n.isFld("Name") && hasPub(n) }) {
							e.violate(s, ev, "obsolete", "Package", "a package is emitted whose name is not known to be non-obsolete")
						}
						if !s.is("dbgok") {
							e.violate(s, ev, "dbginfo", "Package", "a -dbginfo package is emitted without its base name being known to be non-obsolete")
						}
					}
					if !s.is("dlt") {
						e.violate(s, ev, "deltas", "Package", "a package is emitted without all of its repository's deltas having been considered")
					}
					dp := e.field(s, rec, "DeltaPackages")
					if dp == fld(rec, "DeltaPackages") && s.is("dapp") {
						if !s.is("dempty") {
							e.violate(s, ev, "deltas-unset", "Package", "the collected deltas are not attached to the emitted package")
						}
					}
				case "Distribution":
					if s.is("distout") {
						e.violate(s, ev, "twice", "Distribution", "the distribution is emitted twice")
					}
					s.setB("distout", true)
					if s.is("dist") && what.find(distTerm) == nil {
						e.violate(s, ev, "distribution", "Distribution", "the emitted distribution is not the one loaded from distribution.xml")
					}
				case "Component", "Group":
					s.setB("asset", true)
					if what.find(func(y *Term) bool { return y.isFld(el + "s") }) == nil {
						e.violate(s, ev, "asset", el, "an emitted "+el+" is not an entry of the loaded asset")
					}
				default:
					e.violate(s, ev, "document", el, "unexpected element "+el+" in the index document")
				}
			}
		}
		if ev.kind == "loop.back" || ev.kind == "loop.done" || ev.kind == "loop.break" {
			if isName(orNil(s.get("pkgloop")), ev.name) {
				for _, k := range []string{"enc", "dapp", "dlt", "dbgok", "skipok", "dempty"} {
					s.set(k, nil)
				}
				if ev.kind == "loop.done" {
					s.set("pkgloop", nil)
					for _, l := range s.all("lacking") {
						if s.has("encloop", l) {
							e.violate(s, ev, "package-skipped", "emit", "a collected build is not emitted although its name is not known to be obsolete")
						}
					}
					if s.get("encloop") != nil {
						s.set("unfiltered", nil)
					}
					s.set("encloop", nil)
					s.set("lacking", nil)
					s.set("sortedloop", nil)
				}
			}
			if _, ok := pkgBucket(ev.args[1]); ok {
				s.set("got", nil)
			}
			switch {
			case ev.args[1].isFld("Deltas"):
				s.set("dgot", nil)
			case ev.args[1].isFld("Components"), ev.args[1].isFld("Groups"):
				s.set("asset", nil)
			}
		}
		if isEntryRet(ev) && okRet(ev) {
			e.count("successful returns")
			for _, k := range []string{"open", "closed", "flushed", "distout"} {
				if !s.is(k) {
					e.violate(s, ev, "document", k, "success is reported although the document is not "+k)
				}
			}
			if !s.is("collecting") || !s.is("allpkgs") {
				e.violate(s, ev, "packages", "loop", "success is reported without having gone through all packages of the repository")
			}
			for f, k := range map[string]string{"components.xml": "Components", "groups.xml": "Groups"} {
				if !s.has("nofile", tStr(f)) && !(s.has("loaded", tStr(f)) && s.is("done"+k)) {
					e.violate(s, ev, "asset-missing", f, "success is reported without the contents of "+f)
				}
			}
			if !s.is("dist") && !s.has("nofile", tStr("distribution.xml")) {
				e.violate(s, ev, "asset-missing", "distribution.xml", "success is reported without distribution.xml having been loaded")
			}
		}
	})
	c.run(indexEntry, mon, runOpt{})
	c.require("emitted packages", 1)
	c.require("offered deltas", 1)
	c.require("sorted package loops", 1)
	// the obsolete set
	c.run("libeopkg.NewDistribution", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "loop.iter" && ev.args[1].isFld("Obsoletes"):
			s.set("put", nil)
		case ev.kind == "mapupdate" && ev.args[1].find(func(y *Term) bool { return y.isFld("Obsoletes") }) != nil:
			s.setB("put", true)
			e.count("obsolete set entries")
			if ev.args[2] != tTrue && ev.args[2].typ == nil && ev.args[2].op != "zero" && ev.args[2].op != "struct" {
				e.violate(s, ev, "obsolete-set", "value", "a listed name is not recorded as obsolete")
			}
		case ev.kind == "loop.back" && ev.args[1].isFld("Obsoletes"):
			if !s.is("put") {
				e.violate(s, ev, "obsolete-set", "dropped", "a listed name is not entered into the obsolete set")
			}
		case ev.kind == "loop.done" && ev.args[1].isFld("Obsoletes"):
			s.setB("done", true)
		case isEntryRet(ev) && okRet(ev):
			if !s.is("done") {
				nilled := false
				for p, m := range s.facts.mask {
					if m == mEQ && (p[0].isFld("Obsoletes") || p[1].isFld("Obsoletes")) {
						nilled = true
					}
				}
				if !nilled {
					e.violate(s, ev, "obsolete-set", "incomplete", "the distribution is returned without all listed names in the obsolete set")
				}
			}
		}
	}), runOpt{pkgs: []string{"libeopkg"}})
	c.require("obsolete set entries", 1)
	c.run("libeopkg.Distribution.IsObsolete", monFunc(func(e *Engine, s *State, ev *Event) {
		if isEntryRet(ev) {
			id := paramOf(c.P.fn("libeopkg.Distribution.IsObsolete"), 1)
			r := ev.args[0]
			e.count("obsolete lookups")
			if r == tFalse {
				for k, v := range s.facts.boolv {
					if v && (k.op == "mapok" || k.op == "maphas" || k.isApp("mapok")) {
						e.violate(s, ev, "obsolete-lookup", "present", "a listed name is reported as not obsolete")
					}
				}
				return
			}
			if r == tTrue {
				for _, v := range s.facts.boolv {
					if v {
						return
					}
				}
			}
			if r.find(func(y *Term) bool { return y == id }) == nil {
				e.violate(s, ev, "obsolete-lookup", "key", "the answer does not depend on the name that was asked for")
			}
		}
	}), runOpt{pkgs: []string{"libeopkg"}})
	c.require("obsolete lookups", 1)
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

// hasKey: the record el comes from is the one named n (its key or its Name).
func hasKey(el, n *Term) bool {
	return el.find(func(y *Term) bool {
		_, k, ok := pkgRecord(y)
		return ok && (k == n || fld(y, "Name") == n || stripStr(n) == k)
	}) != nil
}

// leadsTo: a comparison of the delta's target release with the release of the
// published build.
func leadsTo(a, b, rec *Term, isPub func(*Term) bool) bool {
	is := func(x, y *Term) bool {
		return x == fld(fld(rec, "Delta"), "ToRelease") && (y.isApp("eopkg.GetRelease") || y.isFld("Release")) && y.find(isPub) != nil
	}
	return is(a, b) || is(b, a)
}
