package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	repo, verif, tier := "/repo", "/verif", "quick"
	if s := os.Getenv("VERIF_TIER"); s != "" {
		tier = s
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	args := os.Args[1:]
	var ids []string
	trace := ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "-trace":
			i++
			trace = args[i]
		case "-list":
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		case "-rules":
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id + "\t" + checks[id].rule)
			}
			return
		case "all":
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		default:
			ids = append(ids, args[i])
		}
	}
	P, err := loadProgram(repo)
	if trace != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		doTrace(P, trace)
		return
	}
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	code := 0
	for _, id := range ids {
		if runCheck(P, err, id, verif, tier) != 0 {
			code = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(P *Program, loadErr error, id, verif, tier string) (code int) {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("no such check:", id)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return 1
	}
	if loadErr != nil {
		fmt.Println("cannot load the program:", loadErr)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return 1
	}
	c := &Ctx{P: P, id: id, viols: map[string]*Violation{}, counts: map[string]int{}, need: map[string]int{}, fns: map[*ssaFn]bool{}, calls: map[ssaInstr]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.violate("internal", "", "panic", "-", fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack()))
			}
		}()
		ck.run(c)
	}()
	return c.finish(ck.rule, verif, tier, start)
}

func doTrace(P *Program, name string) {
	c := &Ctx{P: P, id: "trace", viols: map[string]*Violation{}, counts: map[string]int{}, need: map[string]int{}, fns: map[*ssaFn]bool{}, calls: map[ssaInstr]bool{}}
	mon := monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "db" || ev.kind == "call" {
			s.note(fmt.Sprintf("%s[%d]", ev.name, ev.ok))
		}
		if os.Getenv("EV") != "" {
			fmt.Printf("%-10s %-30s ok=%d %s => %s\n", ev.kind, ev.name, ev.ok, termList(ev.args), termList(ev.res))
		}
	})
	t := time.Now()
	o := runOpt{noIndex: os.Getenv("NOINDEX") != ""}
	if os.Getenv("PRIM") != "" {
		o.ext = primExt(P)
	}
	if os.Getenv("PKGS") != "" {
		o.pkgs = []string{"core", "jobs", "libeopkg", "ferryd", "libferry", "libdb", "cmd"}
	}
	if os.Getenv("NODB") != "" {
		o.noDb = true
	}
	outs, e := c.run(name, mon, o)
	for _, o := range outs {
		fmt.Println("OUT", termList(o.rets))
		if os.Getenv("TR") != "" {
			fmt.Println("   ", o.st.path())
		}
		if os.Getenv("HEAP") != "" {
			for k, v := range o.st.heap {
				fmt.Println("      ", k, "=", v)
			}
		}
	}
	fmt.Println(len(outs), "outcomes", e.steps, "steps", len(e.covFn), "funcs", e.covEvent, "events", time.Since(t), e.problems)
}
