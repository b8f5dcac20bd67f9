package main

import (
	"fmt"
	"os"
	"sort"
)

func dumpState(s *State, ev *Event) {
	w := os.Stderr
	fmt.Fprintln(w, "=== ", ev.kind, ev.name)
	for i, a := range ev.args {
		fmt.Fprintln(w, " arg", i, a.String())
	}
	if ev.prev != nil {
		fmt.Fprintln(w, " prev", ev.prev.String())
	}
	var o []string
	for k, v := range s.facts.boolv {
		o = append(o, fmt.Sprint("  bool ", v, " ", k.String()))
	}
	for k, v := range s.facts.rng {
		o = append(o, fmt.Sprint("  rng ", v, " ", k.String()))
	}
	for k, v := range s.facts.mask {
		o = append(o, fmt.Sprint("  mask ", v, " ", k[0].String(), " ~ ", k[1].String()))
	}
	for k, v := range s.mon {
		o = append(o, fmt.Sprint("  mon ", k, " ", v.String()))
	}
	for k, v := range s.heap {
		o = append(o, fmt.Sprint("  heap ", k.String(), " = ", v.String()))
	}
	sort.Strings(o)
	for _, x := range o {
		if len(x) > 600 {
			x = x[:600]
		}
		fmt.Fprintln(w, x)
	}
	fmt.Fprintln(w, " path", s.path())
}

var VD = os.Getenv("VD") != ""
