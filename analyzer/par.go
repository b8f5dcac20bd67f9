package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// part is what a worker process found for one entry point.
type part struct {
	Viols   []map[string]string
	Counts  map[string]int
	Fns     map[string]string // function -> file
	Calls   []string
	Entries []string
	Events  int
	Paths   int
	Steps   int
	Notes   []string
	Samples []string
}

// parEach runs f for every entry, each in a process of its own: the same check
// is started again and leaves through here when its part is done. f may only
// report through the Ctx.
func (c *Ctx) parEach(group string, entries []string, f func(entry string)) {
	if p := os.Getenv("AN_PART"); p != "" {
		g, e, _ := strings.Cut(p, ":")
		if g != group {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.violate("internal", "", "worker "+e, "-", fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack()))
				}
			}()
			f(e)
		}()
		c.dump()
		os.Exit(0)
	}
	if os.Getenv("NOPAR") != "" || len(entries) < 2 {
		for _, e := range entries {
			f(e)
		}
		return
	}
	self, err := os.Executable()
	if err != nil {
		c.violate("internal", "", "worker", "-", err.Error())
		return
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	sem := make(chan bool, n)
	res := make([]*part, len(entries))
	errs := make([]string, len(entries))
	var wg sync.WaitGroup
	for i, e := range entries {
		wg.Add(1)
		go func(i int, e string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "-repo", c.P.dir, "-verif", os.DevNull, c.id)
			cmd.Env = append(os.Environ(), "AN_PART="+group+":"+e, "GOMAXPROCS=2")
			var eb strings.Builder
			cmd.Stderr = &eb
			cmd.Stdin = nil
			out, err := cmd.Output()
			p := &part{}
			if i := strings.Index(string(out), "\x01PART"); i >= 0 {
				err = json.Unmarshal(out[i+5:], p)
			} else if err == nil {
				err = fmt.Errorf("no result: %s", tail(string(out)))
			}
			if err != nil {
				errs[i] = fmt.Sprintf("worker for %s failed: %v %s", e, err, tail(eb.String()))
				return
			}
			res[i] = p
		}(i, e)
	}
	wg.Wait()
	for i, p := range res {
		if errs[i] != "" {
			c.violate("internal", "", "worker "+entries[i], "-", errs[i])
			continue
		}
		c.merge(p)
	}
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

func (c *Ctx) dump() {
	p := &part{Counts: c.counts, Entries: c.entries, Events: c.events, Paths: c.paths, Steps: c.steps, Notes: c.notes, Samples: c.samples, Fns: map[string]string{}}
	for _, v := range c.viols {
		p.Viols = append(p.Viols, map[string]string{"rule": v.rule, "fn": v.fn, "construct": v.construct, "pos": v.pos, "msg": v.msg, "entry": v.entry, "path": v.path})
	}
	for f := range c.fns {
		p.Fns[shortFn(f)] = c.P.fset.Position(f.Pos()).Filename
	}
	for in := range c.calls {
		p.Calls = append(p.Calls, c.P.fset.Position(in.Pos()).String())
	}
	b, err := json.Marshal(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.WriteString("\x01PART")
	os.Stdout.Write(b)
}

func (c *Ctx) merge(p *part) {
	for _, m := range p.Viols {
		v := &Violation{rule: m["rule"], fn: m["fn"], construct: m["construct"], pos: m["pos"], msg: m["msg"], entry: m["entry"], path: m["path"]}
		if _, ok := c.viols[v.key()]; !ok {
			c.viols[v.key()] = v
		}
	}
	for k, n := range p.Counts {
		c.counts[k] += n
	}
	if c.fnNames == nil {
		c.fnNames, c.callNames = map[string]string{}, map[string]bool{}
	}
	for f, file := range p.Fns {
		c.fnNames[f] = file
	}
	for _, k := range p.Calls {
		c.callNames[k] = true
	}
	c.entries = append(c.entries, p.Entries...)
	c.events += p.Events
	c.paths += p.Paths
	c.steps += p.Steps
	c.notes = append(c.notes, p.Notes...)
	for _, s := range p.Samples {
		c.sample("%s", s)
	}
}
