package main

// Checks over the repository and pool records (C04–C10, C14–C21).

func init() {
	register("C04", "typestate over every manager operation: a write to a repository's package records (or a new repository record) makes that repository dirty; success may only be returned when every dirty repository has been re-indexed afterwards; a re-index of anything but a changed repository, a dropped re-index error, and a re-index on the skip-indexing path are violations",
		checkC04)
}

func checkC04(c *Ctx) {
	deltaOnly := map[string]bool{"AddDelta": true, "RefDelta": true} // deltas are indexed by their own jobs
	ixName := corePath + "Repository.Index"
	if c.P.fn("core.Repository.Index") == nil {
		c.violate("anchor", "", "core.Repository.Index", "-", "the re-index operation core.Repository.Index was not found")
		return
	}
	c.runManager(func(entry string) Monitor {
		if deltaOnly[entry] {
			return nil
		}
		var skip *Term
		fn := c.P.fn("core.Manager." + entry)
		if entry == "CopySource" {
			for i, p := range fn.Params {
				if isBool(p.Type()) {
					skip = paramOf(fn, i)
				}
			}
			if skip == nil {
				c.violate("anchor", shortFn(fn), "skip flag", c.P.pos(fn.Pos()), "no flag parameter found that asks to skip indexing")
			}
		}
		return monFunc(func(e *Engine, s *State, ev *Event) {
			switch {
			case ev.kind == "db" && ev.ok == 1 && (ev.name == "put" || ev.name == "delete"):
				if id, ok := pkgBucket(ev.args[0]); ok {
					e.count("package record writes")
					s.addTo("dirty", id)
					s.note("change " + short(id))
				} else if isBucket(ev.args[0], "repo") {
					if ev.name == "put" {
						s.addTo("dirty", ev.args[1])
					} else {
						s.remFrom("dirty", func(t *Term) bool { return t == ev.args[1] })
						s.set("gone", ev.args[1])
					}
				}
			case ev.kind == "call" && ev.name == ixName:
				id := e.field(s, ev.args[0], "ID")
				e.count("re-index calls")
				if skip != nil && s.facts.maskBool(skip) != 2 {
					e.violate(s, ev, "skip-index", "Index", "a copy that asks to skip indexing re-indexes the repository")
				}
				if len(s.all("dirty")) > 0 && !s.has("dirty", id) {
					e.violate(s, ev, "wrong-repo", "Index", "re-indexes "+short(id)+" but the changed repository is "+termList(s.all("dirty")))
				}
				if ev.ok == 1 {
					s.remFrom("dirty", func(t *Term) bool { return t == id })
				} else {
					s.setB("failed", true)
				}
				s.note("index")
			case isEntryRet(ev) && okRet(ev):
				e.count("successful returns")
				if s.is("failed") {
					e.violate(s, ev, "index-error", "return", "success is reported although the re-index failed")
				}
				if skip != nil && s.facts.maskBool(skip) == 1 {
					return
				}
				for _, d := range s.all("dirty") {
					if g := s.get("gone"); g == d {
						continue
					}
					e.violate(s, ev, "not-indexed", "return", "success is reported without re-indexing the changed repository "+short(d))
				}
			}
		})
	}, runOpt{noIndex: true}, nil)
	c.require("re-index calls", 8)
	c.require("package record writes", 6)
}
