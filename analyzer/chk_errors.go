package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C47: a failed step is never reported as success.

func init() {
	register("C47", "path-sensitive error propagation over every operation of the manager, the job store, the jobs, the package reader, the delta producer and the client: on each path on which a storage, file-system, decoding or delegated step failed, the operation's result is an error, except for steps listed as best-effort or as tests", checkC47)
}

type errMon struct {
	c     *Ctx
	entry string
}

// optional: failing is an answer, or there is another way, or it is clean-up.
func optionalStep(ev *Event) bool {
	if bestEffort[ev.name] {
		return true
	}
	switch ev.name {
	case "os.FindProcess", "os.Process.Signal", "fmt.Fscanf", "github.com/coreos/go-systemd/v22/daemon.SdNotify":
		// whether another daemon is alive (C41); telling systemd
		return true
	case "os.Link":
		// copied instead (C48)
		return true
	case corePath + "Manager.GetPoolEntry":
		// asks whether a delta is there already: it is produced otherwise
		return true
	}
	// closing what was read; what was written is closed by a Writer
	return strings.HasSuffix(ev.name, ".Close") && !strings.HasSuffix(ev.name, "Writer.Close")
}

// optionalRead: records whose loss is repaired by writing them anew.
func optionalRead(ev *Event) bool {
	ns := bucketNames(ev.arg(0))
	n := len(ns)
	return n > 0 && isName(ns[n-1], "deltaSkip") || n == 2 && isName(ns[1], "Record")
}

// expected: the error a failed step gave is identified as an answer: the end of
// what is read, or one of the program's own errors.
func expected(s *State, step string, t *Term, v bool) bool {
	er := s.get("!err")
	if er == nil {
		return false
	}
	var o *Term
	switch {
	case t.op == "cmp" && (t.aux == "2" && v || t.aux == "5" && !v):
		if t.args[0] == er {
			o = t.args[1]
		} else if t.args[1] == er {
			o = t.args[0]
		}
	case t.isApp("errors.Is") && v && t.args[0] == er:
		o = t.args[1]
	}
	if o == nil {
		return false
	}
	if globalNamed(o, "net/http.ErrServerClosed") {
		return true
	}
	if globalNamed(o, "io.EOF") {
		return strings.Contains(step, ".Next in") || strings.Contains(step, ".Read")
	}
	return o.op == "global" && strings.Contains(o.aux, repoPath)
}

func (m *errMon) failure(ev *Event) string {
	switch ev.kind {
	case "call":
		if ev.ok == 2 && !optionalStep(ev) {
			return ev.name
		}
	case "db":
		if ev.name == "get" && ev.ok == 3 && !optionalRead(ev) || ev.name != "get" && ev.ok == 2 && !(len(ev.res) > 0 && ev.res[len(ev.res)-1].op == "global") {
			return "db " + ev.name
		}
	}
	return ""
}

func (m *errMon) Event(e *Engine, s *State, ev *Event) {
	if isEntryRet(ev) {
		if okRet(ev) {
			e.count("ways to succeed")
			if f := s.get("failed"); f != nil {
				e.violate(s, ev, "swallowed", f.aux, "the operation succeeds although a step of it failed: "+f.String())
			}
		}
		return
	}
	if ev.kind == "assume" && s.get("failed") != nil {
		if f := s.get("failed"); expected(s, f.aux, ev.arg(0), ev.arg(1) == tTrue) {
			s.set("failed", nil)
			s.set("!err", nil)
			e.count("failures recognised as answers")
		}
		return
	}
	if ev.kind == "call" && strings.HasSuffix(ev.name, "Writer.Close") {
		// closing it again does nothing
		if s.has("closed", ev.arg(0)) {
			return
		}
		if ev.ok == 1 {
			s.addTo("closed", ev.arg(0))
		}
	}
	if f := m.failure(ev); f != "" {
		e.count("failures followed")
		if s.get("failed") == nil {
			s.set("failed", tStr(strings.TrimPrefix(f, repoPath)+" in "+shortFn(ev.fn)))
			if n := len(ev.res); n > 0 {
				s.set("!err", ev.res[n-1])
			}
		}
	}
}

// reportsErrors: the operation has an error among its results.
func reportsErrors(c *Ctx, n string) bool {
	fn := c.P.fn(n)
	if fn == nil {
		return true
	}
	r := fn.Signature.Results()
	return r.Len() > 0 && r.At(r.Len()-1).Type().String() == "error"
}

func checkC47(c *Ctx) {
	only := os.Getenv("ONLY")
	run := func(n string, o runOpt) {
		if only != "" && !strings.Contains(n, only) {
			return
		}
		if !reportsErrors(c, n) {
			return
		}
		c.count("operations followed", 1)
		c.run(n, &errMon{c: c, entry: n}, o)
	}
	var names []string
	man := map[string]bool{}
	for _, n := range c.managerEntries() {
		man[n] = true
		names = append(names, n)
	}
	for _, h := range jobHandlers(c.P) {
		names = append(names, h+".Execute")
	}
	// everything else that is offered and reports errors
	for _, pk := range []string{"core", "jobs", "libeopkg", "libferry", "ferryd"} {
		p := c.P.pkgs[pk]
		if p == nil {
			c.violate("anchor", "", pk, "-", "package "+pk+" not found")
			continue
		}
		for n, mb := range p.Members {
			switch x := mb.(type) {
			case *ssa.Function:
				if x.Object() != nil && x.Object().Exported() {
					names = append(names, pk+"."+n)
				}
			case *ssa.Type:
				if _, ok := x.Type().Underlying().(*types.Interface); ok || pk == "core" && n == "Manager" {
					continue
				}
				for _, f := range c.methodsOf(pk + "." + n) {
					if !strings.HasSuffix(f, ".Execute") {
						names = append(names, f)
					}
				}
			}
		}
	}
	k := 0
	for _, n := range names {
		if reportsErrors(c, n) {
			names[k] = n
			k++
		}
	}
	names = names[:k]
	sort.Strings(names)
	c.parEach("operations", names, func(n string) {
		switch {
		case man[n]:
			run(n, runOpt{noIndex: true, readFork: true, pkgs: []string{"core"}})
		case strings.HasSuffix(n, ".Execute"):
			run(n, runOpt{pkgs: []string{"jobs"}, ext: opaqueManager(c.P)})
		default:
			run(n, runOpt{readFork: true, pkgs: []string{n[:strings.IndexByte(n, '.')]}})
		}
	})
	c.require("operations followed", 20)
	c.require("failures followed", 1)
	c.require("ways to succeed", 1)
}
