package main

// What the repository checks take from libeopkg is checked where it is defined.

// contract runs a function alone and judges its results.
func (c *Ctx) contract(name string, mon Monitor, judge func(o *Outcome) string) bool {
	fn := c.P.fn(name)
	if fn == nil {
		c.violate("contract", "", name, "-", name+" not found")
		return false
	}
	outs, _ := c.run(name, mon, runOpt{pkgs: []string{"libeopkg", "core"}})
	c.count("library contracts", 1)
	for _, o := range outs {
		if msg := judge(o); msg != "" {
			c.violate("contract", shortFn(fn), name, c.P.pos(fn.Pos()), msg)
			return false
		}
	}
	if len(outs) == 0 {
		c.violate("contract", shortFn(fn), name, c.P.pos(fn.Pos()), name+" never returns")
		return false
	}
	return true
}

func noMon() Monitor { return monFunc(func(e *Engine, s *State, ev *Event) {}) }

// checkRelease: what GetRelease and GetID mean.
func checkRelease(c *Ctx) {
	self := mk("param", "self")
	c.contract("libeopkg.MetaPackage.GetRelease", noMon(), func(o *Outcome) string {
		if len(o.rets) != 1 || o.rets[0] != mk("app", "eopkg.GetRelease", self) {
			return "a package's release is not the release of its newest history entry but " + termList(o.rets)
		}
		return ""
	})
	c.contract("libeopkg.MetaPackage.GetID", noMon(), func(o *Outcome) string {
		if len(o.rets) != 1 || o.rets[0] != mk("app", "filepath.Base", fld(self, "PackageURI")) {
			return "a package's identity is not the base name of its URI but " + termList(o.rets)
		}
		return ""
	})
}

// checkReleaseOrder: sorting a PackageSet orders it by ascending release.
func checkReleaseOrder(c *Ctx) {
	checkRelease(c)
	self := mk("param", "self")
	less := c.P.fn("libeopkg.PackageSet.Less")
	if less == nil || len(less.Params) != 3 {
		c.violate("contract", "", "libeopkg.PackageSet.Less", "-", "the ordering of a PackageSet was not found")
		return
	}
	a, b := paramOf(less, 1), paramOf(less, 2)
	rel := func(i *Term) *Term { return mk("app", "eopkg.GetRelease", mk("elem", "", self, i)) }
	c.contract("libeopkg.PackageSet.Less", noMon(), func(o *Outcome) string {
		m := uint8(mAll)
		r := o.rets[0]
		switch {
		case r == tTrue || r == tFalse:
			m = o.st.facts.maskOf(rel(a), rel(b))
			if r == tTrue && m == mLT || r == tFalse && m&mLT == 0 {
				return ""
			}
		case r == mk("cmp", "1", rel(a), rel(b)) || r == mk("cmp", "4", rel(b), rel(a)):
			return ""
		}
		return "a PackageSet is not ordered by ascending release: Less is " + short(r)
	})
	swap := c.P.fn("libeopkg.PackageSet.Swap")
	if swap != nil && len(swap.Params) == 3 {
		a, b := paramOf(swap, 1), paramOf(swap, 2)
		c.contract("libeopkg.PackageSet.Swap", monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "store" && ev.args[0].contains(self) {
				s.addTo("st", mk("pair", "", ev.args[0], ev.args[1]))
			}
		}), func(o *Outcome) string {
			st := o.st.all("st")
			ok := len(st) == 2
			for _, p := range st {
				d, v := p.args[0], p.args[1]
				if !(d.contains(a) && v == mk("elem", "", self, b) || d.contains(b) && v == mk("elem", "", self, a)) {
					ok = false
				}
			}
			if !ok {
				return "Swap does not exchange the two packages"
			}
			return ""
		})
	}
	c.contract("libeopkg.PackageSet.Len", noMon(), func(o *Outcome) string {
		if o.rets[0] != mk("len", "", self) {
			return "Len is not the number of packages"
		}
		return ""
	})

}

// checkObsolete: IsObsolete answers whether the name is listed in the file.
func checkObsolete(c *Ctx) {
	self := mk("param", "self")
	fn := c.P.fn("libeopkg.Distribution.IsObsolete")
	if fn == nil || len(fn.Params) != 2 {
		c.violate("contract", "", "libeopkg.Distribution.IsObsolete", "-", "not found")
		return
	}
	id := paramOf(fn, 1)
	var m *Term
	c.contract("libeopkg.Distribution.IsObsolete", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "maplookup" && ev.args[1] == id && ev.args[0].op == "fld" {
			m = ev.args[0]
		}
	}), func(o *Outcome) string {
		if m == nil || m.args[0] != self {
			return "obsolete names are not looked up by the name asked for"
		}
		r := o.rets[0]
		val, has := mk("mapval", "", m, id), mk("app", "maphas", m, id)
		f := o.st.facts
		switch {
		case r == val || r == has:
			return ""
		case r == tFalse && (f.maskBool(has) == 2 || f.maskBool(val) == 2):
			return ""
		case r == tTrue && (f.maskBool(has) == 1 || f.maskBool(val) == 1):
			return ""
		}
		return "IsObsolete answers " + short(r) + " whatever the file lists"
	})
	if m == nil {
		return
	}
	load := c.P.fn("libeopkg.NewDistribution")
	if load == nil {
		c.violate("contract", "", "libeopkg.NewDistribution", "-", "not found")
		return
	}
	isList := func(t *Term) bool { return t.isFld("Obsoletes") }
	isMap := func(t *Term) bool { return t.isFld(m.aux) }
	c.contract("libeopkg.NewDistribution", monFunc(func(e *Engine, s *State, ev *Event) {
		switch ev.kind {
		case "mapupdate":
			k := ev.args[1]
			if k.op == "elem" && isList(k.args[0]) && ev.args[2] == tTrue {
				s.setB("put", true)
			} else if isMap(ev.args[0]) {
				e.violate(s, ev, "contract", "obsolete names", "a name that the file does not list is recorded as obsolete")
			}
		case "mapdelete":
			if isMap(ev.args[0]) {
				e.violate(s, ev, "contract", "obsolete names", "a listed name is forgotten")
			}
		case "loop.iter":
			if isList(ev.args[1]) {
				s.set("put", nil)
			}
		case "loop.back":
			if isList(ev.args[1]) && !s.is("put") {
				s.setB("unc", true)
			}
		case "loop.break":
			if isList(ev.args[1]) {
				s.setB("unc", true)
			}
		case "loop.done":
			if isList(ev.args[1]) && !s.is("unc") {
				s.setB("all", true)
			}
		}
	}), func(o *Outcome) string {
		if len(o.rets) == 2 && o.rets[1] == tNil && !o.st.is("all") {
			ok := false
			for t := range o.st.facts.terms(isList) {
				if o.st.facts.maskOf(t, tNil) == mEQ || o.st.facts.rangeOf(mk("len", "", t)).hi <= 0 {
					ok = true
				}
			}
			if !ok {
				return "a distribution is returned without all its obsolete names recorded"
			}
		}
		return ""
	})
}
