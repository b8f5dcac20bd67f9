package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40, C41, C42, C52: the daemon's start, its watcher and its shutdown. The
// program's main function is executed symbolically up to the point where it
// serves requests; from each state it can be in there, the goroutines it has
// started are executed, the one that waits for a signal being the shutdown.

func init() {
	register("C40", "typestate over the daemon's main function and its shutdown: databases, sockets and serving only on paths that hold an exclusive, non-blocking lock on a file of the data directory, that have verified it is still the file at that path and recorded the process ID in it in full; the file is not touched before the lock is held; the lock is given up only after workers have been waited for and both databases closed", checkC40)
	register("C41", "typestate over the daemon's main function and its shutdown: a socket made here is given to the daemon's user with mode 0660 on every path that serves on it and is removed at shutdown; an inherited one is the only one, is served as it is, and is neither re-permissioned nor unlinked", checkC41)
	register("C42", "typestate over the daemon's shutdown, executed from every state in which it serves: watcher told to stop and waited for, workers stopped and waited for, then the job store closed, then the package database, before the program can end; a second stop does nothing harmful; the processor tells every worker and waits for as many as it starts; a worker only ends between jobs", checkC42)
	register("C52", "path conditions of the watcher's goroutine: one transit job is queued in exactly those rounds whose event is a completed write with the manifest suffix directly in the watched incoming directory on a regular file; the goroutine ends only after a receive from the channel on which it is told to stop", checkC52)
}

type goRec struct {
	key  string
	fn   *ssa.Function
	free []*Term
	args []*Term
	st   *State
}

type bootMon struct {
	c       *Ctx
	id      string
	phase   string // start, goroutine, close, again
	serves  []*State
	stopped []*State // after a first stop
	gos     map[string]*goRec
	routes  bool
	update  *Term
	suffix  *Term
	rmLock  bool // the lock file is removed at some point
}

func (m *bootMon) bad(id string, e *Engine, s *State, ev *Event, rule, construct, msg string) {
	if id == m.id {
		e.violate(s, ev, rule, construct, msg)
	}
}
func (m *bootMon) seen(id string, e *Engine, k string) {
	if id == m.id {
		e.count(k)
	}
}

// fdOf: the file a descriptor belongs to.
func fdOf(t *Term) *Term {
	t = stripStr(t)
	if t.op == "call" && strings.HasSuffix(t.aux, "os.File.Fd.0") || t.isApp("os.File.Fd") {
		return t.args[0]
	}
	return t
}

func openedAt(f *Term) *Term {
	if f == nil {
		return nil
	}
	if p, _ := fileOf(f); p != nil {
		return p
	}
	for _, n := range []string{"syscall.Open.0", "syscall.Openat.0"} {
		if f.op == "call" && strings.HasSuffix(f.aux, n) {
			return f.args[0]
		}
	}
	return nil
}

// owned: the daemon has exclusive use of the data directory.
func (m *bootMon) owned(e *Engine, s *State, ev *Event, what string, dir *Term) {
	fd := s.get("lockfd")
	if fd == nil {
		m.bad("C40", e, s, ev, "unlocked", what, what+" without holding the lock on the data directory")
		return
	}
	if s.is("released") {
		m.bad("C40", e, s, ev, "unlocked", what, what+" after the lock on the data directory was given up")
	}
	if m.rmLock && !s.is("current") {
		m.bad("C40", e, s, ev, "stale", what, what+" although the file that is locked may have been removed by its last owner")
	}
	if s.get("pid") == nil {
		m.bad("C40", e, s, ev, "pid", what, what+" without the process ID having been recorded in full")
	}
	if dir != nil {
		if p := openedAt(fd); p == nil || dirOf(p) != dir {
			m.bad("C40", e, s, ev, "other-dir", what, what+" in "+short(dir)+" while the lock is on "+short(fd))
		}
	}
	m.seen("C40", e, "uses of the data directory")
}

func isFd(s *State, t *Term) bool { return s.get("lockfd") != nil && t == s.get("lockfd") }

// written: what a write stores in a file.
func written(e *Engine, s *State, ev *Event) (file, data *Term) {
	a := ev.arg
	switch ev.name {
	case "fmt.Fprintf":
		t := sprintf(ev.args[1:])
		if t == nil {
			t = mk("unknown", "")
		}
		return a(0), t
	case "fmt.Fprint", "fmt.Fprintln":
		t := mk("unknown", "")
		if l := a(1); l != nil && l.op == "list" && len(l.args) == 1 {
			t = sprintf([]*Term{tStr("%v"), l})
			if t != nil && ev.name == "fmt.Fprintln" {
				t = cat(t, tStr("\n"))
			}
		}
		return a(0), t
	case "io.WriteString", "os.File.WriteString", "os.File.Write", "syscall.Write":
		return a(0), stripStr(a(1))
	case "os.File.WriteAt":
		if o, ok := a(2).intVal(); ok && o == 0 {
			return a(0), stripStr(a(1))
		}
		return a(0), mk("unknown", "")
	}
	return nil, nil
}

// pidText: the daemon's process ID as decimal text.
func pidText(t *Term) bool {
	if t == nil {
		return false
	}
	if t.isApp("cat") && len(t.args) == 2 {
		if x, ok := t.args[1].strVal(); ok && strings.TrimSpace(x) == "" {
			t = t.args[0]
		}
	}
	return (t.isApp("dec") || t.isApp("fmtv")) && strings.HasSuffix(t.args[0].aux, "os.Getpid") || t.isApp("dec") && strings.HasSuffix(t.args[0].aux, "os.Getpid.0")
}

const corePkg = repoPath + "src/ferryd/core."
const jobsPkg = repoPath + "src/ferryd/jobs."

func (m *bootMon) Event(e *Engine, s *State, ev *Event) {
	switch ev.kind {
	case "call":
		m.lock(e, s, ev)
		m.socket(e, s, ev)
		m.parts(e, s, ev)
	case "go":
		f := ev.args[0]
		if fn := e.funcs[f.aux]; fn != nil {
			key := f.String() + termList(ev.args[1:])
			if m.gos[key] == nil {
				m.gos[key] = &goRec{key: key, fn: fn, free: f.args, args: ev.args[1:], st: s.clone()}
			}
			s.addTo("gos", tStr(key))
		}
	case "assume", "return", "leave":
		m.observe(e, s)
	case "send":
		if m.phase == "again" {
			m.bad("C42", e, s, ev, "again", "send", "stopping a second time sends on "+short(ev.args[0])+": nobody is left to receive it")
		}
		m.told(e, s, ev)
	case "recv":
		if ev.args[0] == s.get("sigchan") && s.get("sigchan") != nil {
			s.setB("shutdown", true)
			m.seen("C42", e, "shutdowns analysed")
			m.seen("C41", e, "shutdowns analysed")
			m.seen("C40", e, "shutdowns analysed")
			m.seen("C52", e, "shutdowns analysed")
		}
	case "deref":
		if m.phase != "start" && ev.args[0] == tNil {
			m.bad("C42", e, s, ev, "nil", short(ev.args[0]), "stopping uses something that is not there (any more)")
		}
	case "panic":
		if m.phase != "start" {
			m.bad("C42", e, s, ev, "panic", "panic", "stopping can panic")
		}
	}
	m.watch(e, s, ev)
	if isEntryRet(ev) {
		m.end(e, s, ev)
	}
}

// observe records decisions before the facts about them are forgotten.
func (m *bootMon) observe(e *Engine, s *State) {
	if fd := s.get("lockfd"); fd != nil && !s.is("current") {
		for t, v := range s.facts.boolv {
			if v && t.isApp("os.SameFile") && len(t.args) == 2 {
				own, path := 0, 0
				for _, x := range t.args {
					switch {
					case x.op == "call" && strings.HasSuffix(x.aux, "os.File.Stat.0") && x.args[0] == fd && s.has("statlocked", x):
						own++
					case x.op == "call" && (strings.HasSuffix(x.aux, "os.Stat.0") || strings.HasSuffix(x.aux, "os.Lstat.0")) && x.args[0] == openedAt(fd) && s.has("statlocked", x):
						path++
					}
				}
				if own == 1 && path == 1 {
					s.setB("current", true)
				}
			}
		}
	}
	if l := s.get("inh"); l != nil && !s.is("single") {
		n := app("len", l)
		for t := range map[*Term]bool{n: true, mk("len", "", l): true} {
			if s.facts.maskOf(t, tInt(1)) == mEQ {
				s.setB("single", true)
			}
		}
	}
	if m.phase == "goroutine" {
		m.decide(e, s)
	}
}

// ---- the lock ----

func (m *bootMon) lock(e *Engine, s *State, ev *Event) {
	a := ev.arg
	held := s.get("lockfd") != nil && !s.is("released")
	lockPath := func(p *Term) bool {
		if fd := s.get("lockfd"); fd != nil {
			return p == openedAt(fd)
		}
		return false
	}
	release := func(how string) {
		m.seen("C40", e, "places that give up the lock")
		if s.get("mgr") != nil && !s.is("mgrclosed") {
			m.bad("C40", e, s, ev, "early", how, "the lock is given up by "+how+" while the package database is open")
		}
		if s.get("store") != nil && !s.is("storeclosed") {
			m.bad("C40", e, s, ev, "early", how, "the lock is given up by "+how+" while the job store is open")
		}
		if s.is("begun") && !s.is("procclosed") {
			m.bad("C40", e, s, ev, "early", how, "the lock is given up by "+how+" while workers may be running")
		}
		s.setB("released", true)
	}
	switch ev.name {
	case "syscall.Flock", "golang.org/x/sys/unix.Flock":
		op, ok := a(1).intVal()
		if !ok {
			m.bad("C40", e, s, ev, "undecided", "flock", "the lock operation is not constant")
			return
		}
		switch {
		case op&8 != 0:
			if ev.ok != 2 && isFd(s, fdOf(a(0))) {
				release("unlocking")
			}
		case op&2 != 0:
			if op&4 == 0 {
				m.bad("C40", e, s, ev, "waits", "flock", "the daemon waits for the lock instead of refusing to start")
			}
			if ev.ok != 2 {
				m.seen("C40", e, "locks taken")
				s.set("lockfd", fdOf(a(0)))
				s.setB("released", false)
			}
		default:
			if isFd(s, fdOf(a(0))) {
				release("downgrading it")
			} else if ev.ok != 2 {
				m.bad("C40", e, s, ev, "shared", "flock", "the lock taken is not exclusive")
			}
		}
		return
	case "os.File.Stat", "os.Stat", "os.Lstat":
		if s.get("lockfd") != nil && ev.ok == 1 {
			s.addTo("statlocked", ev.res[0])
		}
	case "os.File.Close", "syscall.Close":
		if isFd(s, fdOf(a(0))) && !s.is("released") {
			release("closing the file")
		}
	case "os.File.Seek":
		if isFd(s, a(0)) {
			o, ok := a(1).intVal()
			w, ok2 := a(2).intVal()
			s.setB("moved", !(ok && ok2 && o == 0 && w == 0))
		}
	case "os.File.Truncate":
		if isFd(s, a(0)) {
			n, ok := a(1).intVal()
			s.setB("empty", ok && n == 0 && ev.ok != 2)
			s.set("pid", nil)
		}
	case "os.File.Read", "io.ReadAll", "fmt.Fscanf", "fmt.Fscan", "bufio.NewReader", "io.Copy":
		for _, x := range ev.args {
			if isFd(s, x) {
				s.setB("moved", true)
			}
		}
	case "os.WriteFile", "io/ioutil.WriteFile":
		if lockPath(a(0)) {
			s.set("pid", nil)
			if ev.ok != 2 && pidText(stripStr(a(1))) {
				s.set("pid", tTrue)
			}
		}
	}
	if f, data := written(e, s, ev); f != nil && isFd(s, f) {
		good := ev.ok != 2 && s.is("empty") && !s.is("moved") && pidText(data)
		s.set("pid", nil)
		s.setB("empty", false)
		s.setB("moved", true)
		if good {
			m.seen("C40", e, "process IDs recorded")
			s.set("pid", tTrue)
		}
	}
	for _, o := range fsOps(e, s, ev) {
		switch o.op {
		case "remove", "removeall", "rename":
			p := o.path
			if o.op == "rename" {
				p = o.src
			}
			if lockPath(p) && !s.is("released") {
				release("removing the file")
			}
		}
	}
	// before the lock is held, the file belongs to somebody else
	if !held {
		for _, o := range fsOps(e, s, ev) {
			p := o.path
			_, name := baseName(p)
			if !strings.HasSuffix(name, "lock") {
				continue
			}
			switch o.op {
			case "write":
				fl, ok := int64(0), false
				if o.mode != nil && ev.name == "os.OpenFile" {
					fl, ok = o.mode.intVal()
				}
				if !ok || fl&oTRUNC != 0 {
					m.bad("C40", e, s, ev, "touched", o.op, "the lock file is emptied before the lock is held")
				}
			case "truncate", "append", "remove", "removeall", "rename", "copy", "link":
				m.bad("C40", e, s, ev, "touched", o.op, "the lock file is changed ("+o.op+") while the lock is not held")
			}
		}
		if f, _ := written(e, s, ev); f != nil {
			if p := openedAt(f); p != nil {
				if _, n := baseName(p); strings.HasSuffix(n, "lock") {
					m.bad("C40", e, s, ev, "touched", "write", "the lock file is written while the lock is not held")
				}
			}
		}
	}
}

// ---- the socket ----

func isListen(n string) bool {
	return n == "net.Listen" || n == "net.ListenUnix" || n == "net.ListenTCP" || n == "net.FileListener" || n == "net.ListenConfig.Listen" || strings.HasPrefix(n, "github.com/coreos/go-systemd/v22/activation.")
}

func (m *bootMon) socket(e *Engine, s *State, ev *Event) {
	a := ev.arg
	if isListen(ev.name) {
		if ev.ok != 2 {
			m.owned(e, s, ev, "listening", nil)
		}
	}
	// paths outside the data directory
	outside := func(p *Term) bool {
		fd := openedAt(s.get("lockfd"))
		if fd == nil || p == nil {
			return true
		}
		return !(p.isApp("path") && p.args[0] == dirOf(fd)) && p != fd
	}
	switch ev.name {
	case "net.Listen":
		if ev.ok != 2 {
			if n, ok := a(0).strVal(); !ok || n != "unix" {
				m.bad("C41", e, s, ev, "network", "listen", "the daemon listens on something that is not a unix socket")
			}
			s.set("own", ev.res[0])
			s.set("ownpath", a(1))
		}
	case "net.ListenUnix", "net.ListenTCP", "net.FileListener", "net.ListenConfig.Listen":
		if ev.ok != 2 {
			m.bad("C41", e, s, ev, "undecided", "listen", "use of "+ev.name+" is not understood")
		}
	case "github.com/coreos/go-systemd/v22/activation.Listeners":
		if ev.ok != 2 {
			s.set("inh", ev.res[0])
		}
	case "net.UnixListener.SetUnlinkOnClose":
		if a(1) == tFalse {
			s.addTo("keep", a(0))
		} else {
			s.remFrom("keep", func(x *Term) bool { return x == a(0) })
		}
	case "os.Chown", "os.Lchown":
		if ev.ok != 2 && a(0) == s.get("ownpath") {
			uid := strings.TrimSuffix(a(1).aux[strings.LastIndexByte(a(1).aux, ':')+1:], ".0")
			s.setB("chowned", uid == "os.Getuid" || uid == "os.Geteuid")
		}
	case "os.Chmod":
		if ev.ok != 2 && a(0) == s.get("ownpath") {
			s.set("mode", a(1))
		}
	case "net/http.Server.Serve", "net/http.Serve":
		l := a(1)
		if ev.name == "net/http.Serve" {
			l = a(0)
		}
		if ev.ok == 2 && !s.is("serving") {
			// the failing branch of the same call
		}
		m.owned(e, s, ev, "serving", nil)
		m.seen("C41", e, "places that serve")
		m.seen("C42", e, "places that serve")
		own, inh := s.get("own"), s.get("inh")
		switch {
		case own != nil && l == own:
			if !s.is("chowned") {
				m.bad("C41", e, s, ev, "owner", "own socket", "requests are served on a socket that was not successfully given to the daemon's user")
			}
			if md := s.get("mode"); md == nil {
				m.bad("C41", e, s, ev, "mode", "own socket", "requests are served on a socket whose mode was not successfully set")
			} else if v, ok := md.intVal(); !ok || v != 0660 {
				m.bad("C41", e, s, ev, "mode", "own socket", fmt.Sprintf("requests are served on a socket with mode %s, not 0660", short(md)))
			}
			m.seen("C41", e, "own sockets served")
		case inh != nil && l.op == "elem" && l.args[0] == inh:
			if !s.is("single") {
				m.bad("C41", e, s, ev, "single", "inherited socket", "an inherited socket is served although it may not be the only one")
			}
			isU := mk("is", "", l)
			_ = isU
			if !s.has("keep", l) {
				m.bad("C41", e, s, ev, "unlink", "inherited socket", "an inherited socket is served that is deleted when it is closed")
			}
			m.seen("C41", e, "inherited sockets served")
		default:
			m.bad("C41", e, s, ev, "undecided", "socket", "the daemon serves on "+short(l)+", which is neither its own socket nor the one inherited")
		}
		if ev.ok != 2 {
			s.setB("serving", true)
			m.serves = append(m.serves, s.clone())
			for _, n := range []struct{ k, what string }{{"watched", "the incoming directory is not watched"}} {
				if s.get(n.k) == nil {
					m.bad("C52", e, s, ev, "unwatched", "serving", "requests are served although "+n.what)
				}
			}
			if s.get("sigchan") == nil {
				m.bad("C42", e, s, ev, "signals", "serving", "requests are served without anything waiting for the signals that end the daemon")
			}
		}
	case "net/http.Server.ListenAndServe", "net/http.ListenAndServe":
		m.bad("C41", e, s, ev, "undecided", "socket", "the daemon serves on a socket it did not restrict")
	}
	if s.get("inh") != nil {
		for _, o := range fsOps(e, s, ev) {
			switch o.op {
			case "remove", "removeall", "rename", "chmod", "chown", "write", "truncate":
				p := o.path
				if o.op == "rename" {
					p = o.src
				}
				if outside(p) {
					m.bad("C41", e, s, ev, "inherited", o.op, "with an inherited socket, "+ev.name+" is applied to "+short(p))
				}
			}
		}
	}
	if p := s.get("ownpath"); p != nil && m.phase != "start" {
		for _, o := range fsOps(e, s, ev) {
			if o.op == "remove" && o.path == p {
				s.setB("unlinked", true)
				if m.phase == "again" {
					m.bad("C42", e, s, ev, "again", "socket", "stopping a second time removes the socket again, which may be another daemon's by then")
				}
			}
		}
	}
}

// ---- parts of the daemon ----

func (m *bootMon) parts(e *Engine, s *State, ev *Event) {
	a := ev.arg
	ok := ev.ok != 2
	need := func(k, what, msg string) {
		if !s.is(k) {
			m.bad("C42", e, s, ev, "order", what, msg)
		}
	}
	switch ev.name {
	case corePkg + "NewManager":
		m.owned(e, s, ev, "opening the package database", a(0))
		if ok {
			s.set("mgr", ev.res[0])
		}
	case jobsPkg + "NewStore":
		m.owned(e, s, ev, "opening the job store", a(0))
		if ok {
			s.set("store", ev.res[0])
		}
	case jobsPkg + "NewProcessor":
		s.set("proc", ev.res[0])
	case jobsPkg + "Processor.Begin":
		s.setB("begun", true)
		s.setB("procclosed", false)
	case "github.com/radu-munteanu/fsnotify.NewWatcher":
		if ok {
			s.set("watcher", ev.res[0])
		}
	case "github.com/radu-munteanu/fsnotify.Watcher.Add", "github.com/radu-munteanu/fsnotify.Watcher.AddWatch":
		if ok && a(0) == s.get("watcher") {
			s.set("watched", a(1))
		}
	case "os/signal.Notify":
		var got []string
		if l := a(1); l != nil && l.op == "list" {
			for _, x := range l.args {
				got = append(got, x.String())
			}
		}
		all := strings.Join(got, " ")
		hasInt := strings.Contains(all, "Interrupt") || strings.Contains(" "+all+" ", " 2 ")
		hasTerm := strings.Contains(" "+all+" ", " 15 ")
		if !hasInt || !hasTerm {
			m.bad("C42", e, s, ev, "signals", "notify", "the daemon does not stop in an orderly way for both an interrupt and a termination signal")
		}
		s.set("sigchan", a(0))
	case "sync.WaitGroup.Add":
		s.addTo("added", a(0))
	case "sync.WaitGroup.Wait":
		if m.phase == "start" && !s.is("serving") {
			return
		}
		if wg := s.get("watchwg"); wg != nil && a(0) == wg {
			if !s.is("toldwatch") {
				m.bad("C42", e, s, ev, "order", "watcher", "the upload watcher is waited for without being told to stop")
			}
			s.setB("watchdone", true)
		}
	case "builtin.close":
		if m.phase == "again" {
			m.bad("C42", e, s, ev, "again", "close", "stopping a second time closes "+short(a(0))+" again")
		}
		m.told(e, s, ev)
	case jobsPkg + "Processor.Close":
		m.again(e, s, ev)
		if m.phase == "start" && !s.is("begun") {
			return
		}
		if a(0) == s.get("proc") {
			s.setB("procclosed", true)
		}
	case jobsPkg + "JobStore.Close":
		m.again(e, s, ev)
		if a(0) == s.get("store") {
			if s.is("begun") {
				need("procclosed", "job store", "the job store is closed while workers may be running")
			}
			if s.get("watchwg") != nil {
				need("watchdone", "job store", "the job store is closed while the upload watcher may be running")
			}
			s.setB("storeclosed", true)
		}
	case corePkg + "Manager.Close":
		m.again(e, s, ev)
		if a(0) == s.get("mgr") {
			if s.is("begun") {
				need("procclosed", "package database", "the package database is closed while workers may be running")
			}
			if s.get("watchwg") != nil {
				need("watchdone", "package database", "the package database is closed while the upload watcher may be running")
			}
			if s.get("store") != nil {
				need("storeclosed", "package database", "the package database is closed before the job store")
			}
			s.setB("mgrclosed", true)
		}
	case "net/http.Server.Shutdown", "net/http.Server.Close":
		if s.is("serving") {
			m.done(e, s, ev, "serving is ended, and with it the program,")
			s.setB("closedsrv", true)
		}
	case "os.Exit":
		if s.is("shutdown") {
			m.done(e, s, ev, "the program ends")
			m.unlinked(e, s, ev)
		}
	}
}

// again: a second stop may only repeat what is itself harmless.
func (m *bootMon) again(e *Engine, s *State, ev *Event) {
	if m.phase != "again" {
		return
	}
	n := ev.name[strings.LastIndexByte(ev.name[:strings.LastIndexByte(ev.name, '.')], '.')+1:]
	if i := strings.LastIndexByte(ev.name, '/'); i >= 0 {
		n = ev.name[i+1:]
	}
	s.addTo("repeated", tStr(n))
	m.seen("C42", e, "steps repeated by a second stop")
}

// told: the watcher's goroutine is told to stop.
func (m *bootMon) told(e *Engine, s *State, ev *Event) {
	if ch := s.get("stopchan"); ch != nil && ev.args[0] == ch {
		s.setB("toldwatch", true)
		return
	}
	if m.phase == "start" && ev.kind == "send" && s.get("watcher") == nil && !s.is("serving") {
		m.bad("C42", e, s, ev, "early-stop", "send", "a daemon that failed to start waits for a watcher that was never started")
	}
}

// done: all work has stopped and everything is closed.
func (m *bootMon) done(e *Engine, s *State, ev *Event, when string) {
	for _, x := range []struct{ have, need, what string }{
		{"watchwg", "watchdone", "the upload watcher has not been waited for"},
		{"begun", "procclosed", "workers may be running"},
		{"store", "storeclosed", "the job store is open"},
		{"mgr", "mgrclosed", "the package database is open"},
	} {
		if x.have == "watchwg" && s.get(x.have) != nil && !s.is("toldwatch") {
			m.bad("C52", e, s, ev, "ends", "stop", "shutdown does not tell the watcher to stop on the channel on which it waits for that")
		}
		if x.have == "watchwg" && s.get(x.have) != nil && !s.is(x.need) {
			m.bad("C52", e, s, ev, "waited", "stop", "shutdown does not wait for the watcher")
		}
		if s.get(x.have) != nil && !s.is(x.need) {
			m.bad("C42", e, s, ev, "unfinished", x.need, when+" although "+x.what)
		}
	}
}

func (m *bootMon) unlinked(e *Engine, s *State, ev *Event) {
	if s.get("ownpath") != nil && !s.is("unlinked") {
		if s.is("closedsrv") && !s.has("keep", s.get("own")) {
			return // closing the listener removes it
		}
		m.bad("C41", e, s, ev, "left", "own socket", "the socket is still there after shutdown")
	}
}

func (m *bootMon) end(e *Engine, s *State, ev *Event) {
	switch m.phase {
	case "close":
		m.stopped = append(m.stopped, s.clone())
		m.done(e, s, ev, "stopping returns")
		m.unlinked(e, s, ev)
	case "goroutine":
		if s.is("shutdown") {
			m.done(e, s, ev, "shutdown ends")
			m.unlinked(e, s, ev)
		}
		m.watchEnd(e, s, ev)
	}
}

// ---- the watcher ----

func (m *bootMon) watch(e *Engine, s *State, ev *Event) {
	if m.phase != "goroutine" {
		return
	}
	w := s.get("watcher")
	switch {
	case ev.kind == "recv" && w != nil && ev.args[0] == fld(w, "Events"):
		m.seen("C52", e, "events received")
		s.setB("watching", true)
		s.set("!ev", ev.res[0])
		s.set("!pushed", nil)
		s.set("!no", nil)
		for _, k := range []string{"!dir", "!op", "!suffix", "!stat", "!regular"} {
			s.set(k, nil)
		}
		s.set("stopping", nil)
		s.setB("closed", false)
	case ev.kind == "recv":
		s.set("!ev", nil)
		s.setB("closed", false)
		if w != nil && ev.args[0] == fld(w, "Errors") {
			m.seen("C52", e, "watch errors received")
			s.set("stopping", nil)
			return
		}
		s.set("stopping", ev.args[0])
	case ev.kind == "call" && (ev.name == "os.Stat" || ev.name == "os.Lstat") && s.get("!ev") != nil:
		if m.isUpload(s, ev.args[0]) {
			if ev.ok == 2 {
				s.set("!no", tTrue)
			} else {
				s.set("!stat", ev.res[0])
			}
		}
	case ev.kind == "call" && ev.name == jobsPkg+"Processor.PushJob", ev.kind == "call" && (ev.name == jobsPkg+"JobStore.PushSequentialJob" || ev.name == jobsPkg+"JobStore.PushAsyncJob"):
		m.decide(e, s)
		m.seen("C52", e, "submissions")
		if s.get("!ev") == nil {
			m.bad("C52", e, s, ev, "spurious", "push", "a job is submitted without an event")
			return
		}
		j := callOf(ev.args[1], jobsPkg+"NewTransitJob")
		if j == nil {
			m.bad("C52", e, s, ev, "kind", "push", "what is submitted is not a transit job")
			return
		}
		if !m.isUpload(s, j) {
			m.bad("C52", e, s, ev, "path", "push", "the job submitted is for "+short(j)+", not for the manifest of the event")
		}
		for _, x := range []struct{ k, what string }{{"!dir", "a file directly in the incoming directory"}, {"!op", "a completed write"}, {"!suffix", "a file with the manifest suffix"}, {"!regular", "a regular file"}} {
			if s.get(x.k) == nil {
				m.bad("C52", e, s, ev, "unchecked", x.k[1:], "a job is submitted for an event not known to be for "+x.what)
			}
		}
		if s.get("!pushed") != nil {
			m.bad("C52", e, s, ev, "twice", "push", "two jobs are submitted for one event")
		}
		s.set("!pushed", tTrue)
	case ev.kind == "loop.back" && s.get("!ev") != nil && m.outer(s, ev):
		m.decide(e, s)
		if s.get("!pushed") == nil && s.get("!no") == nil {
			m.bad("C52", e, s, ev, "missed", "push", "an event that may be for a completed manifest is passed over without a job being submitted")
		}
	case ev.kind == "panic" && s.is("watching"):
		m.bad("C52", e, s, ev, "panic", "watcher", "the watcher can panic")
	}
}

// outer: the loop over events, not one inside it.
func (m *bootMon) outer(s *State, ev *Event) bool {
	x := s.get("!ev")
	sym := ev.args[0]
	return len(x.args) > 1 && termUses(x, sym) || len(x.args) == 1
}

func termUses(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if termUses(a, x) {
			return true
		}
	}
	return false
}

// isUpload: the path of the file the event is about.
func (m *bootMon) isUpload(s *State, p *Term) bool {
	n := fld(s.get("!ev"), "Name")
	w := s.get("watched")
	return p == n || w != nil && p == path(w, baseOf(n))
}

// decide records which of the conditions on the event are settled.
func (m *bootMon) decide(e *Engine, s *State) {
	for t, v := range s.facts.boolv {
		if (t.op == "selok" || t.op == "recvok") && !v {
			s.setB("closed", true) // a channel of the watcher was closed
			s.set("!no", tTrue)
		}
	}
	x := s.get("!ev")
	if x == nil {
		return
	}
	w := s.get("watched")
	name := fld(x, "Name")
	set := func(k string, v int) {
		if v == 1 {
			s.set(k, tTrue)
		} else if v == 2 {
			s.set("!no", tTrue)
		}
	}
	if w != nil {
		switch s.facts.maskOf(dirOf(name), w) {
		case mEQ:
			set("!dir", 1)
		case mNE, mLT, mGT:
			set("!dir", 2)
		}
	}
	if m.update != nil {
		op := fld(x, "Op")
		for _, t := range []*Term{mk("bin", "&", op, m.update), mk("bin", "&", m.update, op)} {
			switch {
			case s.facts.maskOf(t, m.update) == mEQ, s.facts.maskOf(t, tInt(0)) == mNE, s.facts.maskOf(t, tInt(0)) == mGT:
				set("!op", 1)
			case s.facts.maskOf(t, m.update)&mEQ == 0, s.facts.maskOf(t, tInt(0)) == mEQ:
				set("!op", 2)
			}
		}
	}
	for t, v := range s.facts.boolv {
		switch {
		case t.isApp("strings.HasSuffix") && len(t.args) == 2 && t.args[1] == m.suffix:
			a := t.args[0]
			if a == baseOf(name) || m.isUpload(s, a) {
				if v {
					set("!suffix", 1)
				} else {
					set("!suffix", 2)
				}
			}
		case t.op == "app" && strings.HasSuffix(t.aux, "FileMode.IsRegular"):
			if st := s.get("!stat"); st != nil && termUses(t, st) {
				if v {
					set("!regular", 1)
				} else {
					set("!regular", 2)
				}
			}
		}
	}
	if m.suffix != nil {
		for _, n := range []*Term{name, baseOf(name)} {
			switch s.facts.maskOf(app("path/filepath.Ext", n), m.suffix) {
			case mEQ:
				set("!suffix", 1)
			case mNE, mLT, mGT:
				set("!suffix", 2)
			}
		}
	}
}

func (m *bootMon) watchEnd(e *Engine, s *State, ev *Event) {
	if !s.is("watching") && s.get("stopping") == nil {
		return
	}
	if s.is("shutdown") {
		return
	}
	m.seen("C52", e, "ends of the watcher")
	ch := s.get("stopping")
	if ch == nil && s.is("closed") {
		return
	}
	if ch == nil {
		m.bad("C52", e, s, ev, "ends", "watcher", "the watcher ends although it was not told to stop")
		return
	}
}

// ---- running it ----

func constOf(P *Program, pkg, name string) *Term {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() != pkg {
			continue
		}
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			switch k.Val().Kind() {
			case constant.String:
				return tStr(constant.StringVal(k.Val()))
			case constant.Int:
				if v, ok := constant.Int64Val(k.Val()); ok {
					return tInt(v)
				}
			}
		}
	}
	return nil
}

// globalsAtStart gives a package's simple variables the values they have when
// the program starts.
func globalsAtStart(pkg string) func(e *Engine, s *State, args []*Term) {
	return func(e *Engine, s *State, args []*Term) {
		p := e.P.pkgs[pkg]
		if p == nil {
			return
		}
		for _, mb := range p.Members {
			g, ok := mb.(*ssa.Global)
			if !ok {
				continue
			}
			n := g.Pkg.Pkg.Path() + "." + g.Name()
			t := g.Type().(*types.Pointer).Elem()
			if _, ok := t.Underlying().(*types.Basic); !ok || e.P.globalShared[n] {
				continue
			}
			v := zeroTerm(t)
			if iv, ok := e.P.globalInit[n]; ok {
				if v = constExpr(iv); v == nil {
					continue
				}
			}
			s.heap[mk("global", n)] = v
		}
	}
}

// boot runs the daemon.
func boot(c *Ctx) *bootMon {
	m := &bootMon{c: c, id: c.id, phase: "start", gos: map[string]*goRec{}}
	m.update = constOf(c.P, "github.com/radu-munteanu/fsnotify", "Update")
	m.suffix = constOf(c.P, strings.TrimSuffix(corePkg, "."), "TransitManifestSuffix")
	m.rmLock = true
	_, e := c.run("ferryd.mainLoop", m, runOpt{pkgs: []string{"ferryd"}, setup: globalsAtStart("ferryd")})
	if e == nil {
		return nil
	}
	if len(m.serves) == 0 {
		c.violate("anchor", "ferryd.mainLoop", "serve", "-", "no path of the daemon's main function serves requests: the property cannot be decided")
		return nil
	}
	c.counts["states in which the daemon serves"] += len(m.serves)
	funcs := e.funcs
	m.phase = "goroutine"
	var keys []string
	for k := range m.gos {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	serves := m.serves
	// the watcher first: what it waits for and what it gives back
	for i, st := range serves {
		for _, k := range keys {
			g := m.gos[k]
			if !st.has("gos", tStr(k)) {
				continue
			}
			w := &goWatch{bootMon: m}
			s0 := g.from(st)
			c.runFn("goroutine "+shortFn(g.fn), g.fn, w, runOpt{pkgs: []string{"ferryd"}, state: s0, free: g.free, argv: g.args, funcs: funcs})
			if w.events {
				c.counts["watchers"]++
				if w.wg != nil && !w.noDone {
					st.set("watchwg", w.wg)
				} else {
					st.set("watchwg", mk("unknown", ""))
				}
				if w.stop != nil {
					st.set("stopchan", w.stop)
				}
				if w.wg != nil && !st.has("added", w.wg) && c.id == "C42" {
					c.violate("added", shortFn(g.fn), "watcher", c.P.pos(g.fn.Pos()), "the watcher is not counted before it is waited for")
				}
			}
			_ = i
		}
	}
	return m
}

func (g *goRec) from(st *State) *State {
	s := st.clone()
	for k, v := range g.st.heap {
		if _, ok := s.heap[k]; !ok {
			s.heap[k] = v
		}
	}
	return s
}

// goWatch learns how a goroutine that handles upload events is stopped.
type goWatch struct {
	*bootMon
	events bool
	noDone bool
	stop   *Term
	wg     *Term
}

func (w *goWatch) Event(e *Engine, s *State, ev *Event) {
	if ev.kind == "recv" && s.get("watcher") != nil && ev.args[0] == fld(s.get("watcher"), "Events") {
		w.events = true
	}
	if ev.kind == "call" && ev.name == "sync.WaitGroup.Done" {
		s.set("gave", ev.args[0])
	}
	w.bootMon.Event(e, s, ev)
	if isEntryRet(ev) && w.events && !s.is("shutdown") {
		if g := s.get("gave"); g != nil {
			w.wg = g
		} else {
			w.noDone = true
		}
		if x := s.get("stopping"); x != nil {
			if w.stop != nil && w.stop != x {
				w.bad("C52", e, s, ev, "ends", "channels", "the watcher ends on receives from different channels")
			}
			w.stop = x
		}
	}
}

// shutdowns runs every goroutine that ends the daemon, from every state in
// which it serves.
func (m *bootMon) shutdowns(funcs map[string]*ssa.Function) {
	c := m.c
	m.phase = "goroutine"
	n := c.counts["shutdowns analysed"]
	for _, st := range m.serves {
		for k, g := range m.gos {
			if !st.has("gos", tStr(k)) {
				continue
			}
			quiet := &bootMon{c: c, id: "-", phase: "goroutine", gos: map[string]*goRec{}, update: m.update, suffix: m.suffix}
			hit := false
			probe := monFunc(func(e *Engine, s *State, ev *Event) {
				quiet.Event(e, s, ev)
				if s.is("shutdown") {
					hit = true
				}
			})
			sub := &Ctx{P: c.P, id: "probe", viols: map[string]*Violation{}, counts: map[string]int{}, need: map[string]int{}, fns: map[*ssaFn]bool{}, calls: map[ssaInstr]bool{}}
			sub.runFn("probe", g.fn, probe, runOpt{pkgs: []string{"ferryd"}, state: g.from(st), free: g.free, argv: g.args, funcs: funcs})
			if hit {
				c.runFn("shutdown "+shortFn(g.fn), g.fn, m, runOpt{pkgs: []string{"ferryd"}, state: g.from(st), free: g.free, argv: g.args, funcs: funcs})
			}
		}
	}
	_ = n
	c.require("shutdowns analysed", 1)
}

func checkC40(c *Ctx) {
	m := boot(c)
	if m == nil {
		return
	}
	m.shutdowns(nil)
	c.require("locks taken", 1)
	c.require("uses of the data directory", 3)
	c.require("process IDs recorded", 1)
}

func checkC41(c *Ctx) {
	m := boot(c)
	if m == nil {
		return
	}
	m.shutdowns(nil)
	c.require("own sockets served", 1)
	c.require("inherited sockets served", 1)
}

func checkC52(c *Ctx) {
	m := boot(c)
	if m == nil {
		return
	}
	m.shutdowns(nil)
	c.require("watchers", 1)
	c.require("events received", 1)
	c.require("watch errors received", 1)
	c.require("submissions", 1)
	c.require("ends of the watcher", 1)
}

func checkC42(c *Ctx) {
	m := boot(c)
	if m == nil {
		return
	}
	m.shutdowns(nil)
	c.require("watchers", 1)
	m.stops()
	checkProcessor(c)
	// a worker ends only between jobs
	st := c.P.fn("jobs.Worker.Start")
	if st == nil {
		c.violate("anchor", "", "jobs.Worker.Start", "-", "the worker's loop was not found")
		return
	}
	self := paramOf(st, 0)
	wm := &workerMon{c: c, self: self}
	c.run("jobs.Worker.Start", monFunc(func(e *Engine, s *State, ev *Event) {
		wm.Event(e, s, ev)
		switch {
		case ev.kind == "call" && ev.name == "sync.WaitGroup.Done":
			if ev.args[0] != fld(self, "wg") && ev.args[0] != fld(fld(self, "processor"), "wg") {
				return
			}
			if s.is("gave") {
				e.violate(s, ev, "count", "Done", "a worker reports its end twice")
			}
			s.setB("gave", true)
		case ev.kind == "go":
			e.violate(s, ev, "detached", "go", "a worker starts something that is not waited for")
		case isEntryRet(ev):
			if !s.is("gave") {
				e.violate(s, ev, "count", "Done", "a worker ends without reporting it: whoever waits for it waits for ever")
			}
		case s.is("gave") && (ev.kind == "call" || ev.kind == "recv"):
			e.violate(s, ev, "count", "Done", "a worker goes on after it has reported its end")
		}
	}), runOpt{pkgs: []string{"jobs"}, ext: opaqueFns("jobs.NewJobHandler", "jobs.NewJobHandler")})
	c.require("worker exits", 1)
}

// stops runs the stop operation twice from every state in which the daemon serves.
func (m *bootMon) stops() {
	c := m.c
	fn := c.P.fn("ferryd.Server.Close")
	if fn == nil {
		c.violate("anchor", "", "ferryd.Server.Close", "-", "the server's stop operation was not found")
		return
	}
	repeated := map[string]bool{}
	for _, st := range m.serves {
		var srv *Term
		for a := range st.heap {
			if a.op == "addr" && a.args[0].op == "alloc" && a.args[0].typ != nil && typeName(a.args[0].typ) == "main.Server" {
				srv = a.args[0]
			}
		}
		if srv == nil {
			c.violate("undecided", "ferryd.Server.Close", "server", "-", "the server that was started could not be identified")
			return
		}
		m.phase = "close"
		m.stopped = nil
		c.runFn("first stop", fn, m, runOpt{pkgs: []string{"ferryd"}, state: st, argv: []*Term{srv}})
		m.phase = "again"
		for _, st2 := range m.stopped {
			st2.setB("begun", false)
			outs2, _ := c.runFn("second stop", fn, m, runOpt{pkgs: []string{"ferryd"}, state: st2, argv: []*Term{srv}})
			c.counts["second stops analysed"]++
			for _, o2 := range outs2 {
				for _, t := range o2.st.all("repeated") {
					n, _ := t.strVal()
					repeated[n] = true
				}
			}
		}
	}
	c.require("second stops analysed", 1)
	for n := range repeated {
		f := c.P.fn(n)
		if f == nil {
			c.violate("undecided", "ferryd.Server.Close", n, "-", "a second stop repeats "+n+", which was not found")
			continue
		}
		m.idempotent(n, f)
	}
}

// idempotent: doing it again does nothing.
func (m *bootMon) idempotent(n string, f *ssa.Function) {
	c := m.c
	o := runOpt{pkgs: []string{"core", "jobs"}}
	outs, _ := c.runFn("first "+n, f, monFunc(func(*Engine, *State, *Event) {}), o)
	for _, x := range outs {
		o.state = x.st
		c.runFn("second "+n, f, monFunc(func(e *Engine, s *State, ev *Event) {
			switch {
			case ev.kind == "send", ev.kind == "panic", ev.kind == "db" && ev.name == "close", ev.kind == "call" && (ev.name == "builtin.close" || ev.name == "sync.WaitGroup.Done"), ev.kind == "deref" && ev.args[0] == tNil:
				e.violate(s, ev, "again", n, "stopping a second time repeats "+n+", which then does "+ev.kind+" "+ev.name)
			}
		}), o)
	}
}

// checkProcessor: as many workers are counted as are started, every one is
// told to stop and all of them are waited for.
func checkProcessor(c *Ctx) {
	start := c.P.fn("jobs.Worker.Start")
	np, bg, cl := c.P.fn("jobs.NewProcessor"), c.P.fn("jobs.Processor.Begin"), c.P.fn("jobs.Processor.Close")
	if np == nil || bg == nil || cl == nil || start == nil {
		c.violate("anchor", "", "processor", "-", "NewProcessor, Begin, Close or Start not found: the property cannot be decided")
		return
	}
	// construction: what the list of workers is made of
	adds := map[string]bool{} // loops that add a worker in every round
	mk1 := monFunc(func(e *Engine, s *State, ev *Event) {
		switch ev.kind {
		case "loop.iter":
			s.set("!loop", tStr(ev.name))
			s.set("!one", nil)
		case "append":
			if len(ev.args) < 2 || ev.args[1].op != "list" {
				return
			}
			for _, w := range ev.args[1].args {
				if w.op != "alloc" || w.typ == nil || typeName(w.typ) != "jobs.Worker" {
					return
				}
			}
			n := len(ev.args[1].args)
			if l := s.get("!loop"); l != nil {
				if s.get("!one") != nil || n != 1 {
					e.violate(s, ev, "count", "NewProcessor", "a round of construction adds more than one worker")
				}
				s.set("!one", tTrue)
				k, _ := l.strVal()
				adds[k] = true
				s.setB("rounds", true)
				return
			}
			if v := s.get("n"); v != nil {
				if x, ok := v.intVal(); ok {
					n += int(x)
				}
			}
			s.set("n", tInt(int64(n)))
		case "loop.back":
			if adds[ev.name] && s.get("!one") == nil {
				e.violate(s, ev, "count", "NewProcessor", "not every round of construction adds a worker")
			}
		case "loop.done", "loop.break":
			s.set("!loop", nil)
			if adds[ev.name] {
				if ev.kind == "loop.break" {
					e.violate(s, ev, "count", "NewProcessor", "the construction of workers may end early")
				}
				s.set("per", ev.args[1])
			}
		}
	})
	c.runFn("jobs.NewProcessor", np, mk1, runOpt{pkgs: []string{"jobs"}})
	outs, _ := c.runFn("jobs.NewProcessor", np, mk1, runOpt{pkgs: []string{"jobs"}})
	for _, o := range outs {
		p := o.rets[0]
		if p.op != "alloc" {
			continue
		}
		c.counts["constructions followed"]++
		base, _ := int64(0), 0
		if n := o.st.get("n"); n != nil {
			base, _ = n.intVal()
		}
		per := o.st.get("per")
		c.runFn("jobs.Processor.Begin", bg, monFunc(func(e *Engine, s *State, ev *Event) {
			switch {
			case ev.kind == "call" && ev.name == "sync.WaitGroup.Add":
				if s.is("started") && s.get("!sym") == nil {
					e.violate(s, ev, "count", "Begin", "workers are counted after they were started")
				}
				if s.get("!sym") != nil {
					s.set("!add", ev.args[1])
					return
				}
				s.set("total", ev.args[1])
				s.set("wg", ev.args[0])
			case ev.kind == "loop.iter":
				s.set("!sym", ev.args[0])
				s.set("!go", nil)
				s.set("over", ev.args[1])
			case ev.kind == "go":
				s.setB("started", true)
				fn := e.funcs[ev.args[0].aux]
				if fn == nil || !c.P.reaches(fn, start) {
					e.violate(s, ev, "count", "Begin", "something is started that is not a worker")
				}
				if s.get("!sym") == nil || s.get("!go") != nil {
					e.violate(s, ev, "count", "Begin", "not exactly one start per worker")
				}
				s.set("!go", tTrue)
				e.count("worker starts")
			case ev.kind == "loop.back":
				if s.get("!go") == nil {
					e.violate(s, ev, "count", "Begin", "a worker is counted but not started")
				}
				if a := s.get("!add"); a != nil {
					if n, ok := a.intVal(); !ok || n != 1 {
						e.violate(s, ev, "count", "Begin", "a round counts "+short(a)+" workers")
					}
					s.setB("perround", true)
				}
			case isEntryRet(ev):
				if !s.is("started") && s.get("over") == nil {
					return
				}
				t := s.get("total")
				switch {
				case t == nil && s.is("perround"):
				case t == nil:
					e.violate(s, ev, "count", "Begin", "workers are started without being counted")
				default:
					if x := s.get("over"); x != nil && (t == app("len", x) || t == mk("len", "", x)) {
						return
					}
					want := tInt(base)
					if per != nil {
						want = plus(per, tInt(base))
					}
					if t != want && !(t == tInt(base) && !o.st.is("rounds")) {
						e.violate(s, ev, "count", "Begin", "the processor counts "+short(t)+" workers while it has "+short(want))
					}
				}
			}
		}), runOpt{pkgs: []string{"jobs"}, ext: opaqueFns("jobs.Worker.Start"), state: o.st, argv: []*Term{p}})
	}
	c.require("constructions followed", 1)
	c.require("worker starts", 1)
	// stopping
	self := paramOf(cl, 0)
	c.run("jobs.Processor.Close", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "loop.iter":
			s.set("!told", nil)
			s.set("!over", ev.args[1])
		case ev.kind == "send" || ev.kind == "call" && ev.name == "builtin.close":
			ch := ev.args[0]
			if ch.op == "fld" && ch.aux == "exit" && ch.args[0].op == "elem" && ch.args[0].args[0] == fld(self, "workers") {
				s.set("!told", tTrue)
				e.count("workers told to stop")
			}
		case ev.kind == "loop.back":
			if s.get("!told") == nil {
				e.violate(s, ev, "told", "Close", "a worker is not told to stop")
			}
		case ev.kind == "loop.done":
			if len(ev.args) > 1 && ev.args[1] == fld(self, "workers") {
				s.setB("all", true)
			}
		case ev.kind == "loop.break":
			e.violate(s, ev, "told", "Close", "not every worker is told to stop")
		case ev.kind == "call" && ev.name == "sync.WaitGroup.Wait":
			if ev.args[0] != fld(self, "wg") {
				return
			}
			if !s.is("all") {
				e.violate(s, ev, "told", "Close", "workers are waited for before all of them were told to stop")
			}
			s.setB("waited", true)
			e.count("waits for workers")
		case ev.kind == "go":
			e.violate(s, ev, "told", "Close", "the processor does not wait for what stopping does")
		case isEntryRet(ev):
			if !s.is("waited") && s.facts.maskBool(fld(self, "closed")) != 1 {
				e.violate(s, ev, "waits", "Close", "the processor stops without waiting for its workers")
			}
		}
	}), runOpt{pkgs: []string{"jobs"}})
	c.require("workers told to stop", 1)
	c.require("waits for workers", 1)
	// the worker listens on the channel on which it is told
	ch := c.P.fn("jobs.newWorker")
	if ch == nil {
		return
	}
	c.run("jobs.newWorker", monFunc(func(e *Engine, s *State, ev *Event) {
		if isEntryRet(ev) && ev.args[0].op == "alloc" {
			w := ev.args[0]
			if wg := e.field(s, w, "wg"); wg != fld(mk("param", "processor"), "wg") {
				e.violate(s, ev, "group", "newWorker", "a worker reports its end to "+short(wg)+", which is not what the processor waits for")
			}
			e.count("workers constructed")
		}
	}), runOpt{pkgs: []string{"jobs"}})
}
