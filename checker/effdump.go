package main

import (
	"fmt"
	"sort"
	"strings"
)

func dumpEffects(p *Prog, name string) {
	e := p.Effects()
	fmt.Println("rounds", e.rounds, "functions", len(e.order))
	for _, f := range e.order {
		if !strings.Contains(p.FName(f), name) {
			continue
		}
		s := e.Sum(f)
		if s == nil {
			continue
		}
		fmt.Println("==", p.FName(f))
		var ls []string
		for l, m := range s.mods {
			ls = append(ls, fmt.Sprintf("  mod %s  (%s in %s %s)", l, m.how, p.FName(m.fn), p.Pos(m.pos)))
		}
		for i, r := range s.rets {
			for l := range r {
				ls = append(ls, fmt.Sprintf("  ret%d %s", i, l))
			}
		}
		for l, r := range s.cells {
			for x := range r {
				ls = append(ls, fmt.Sprintf("  %s <- %s", l, x))
			}
		}
		for l, r := range s.cops {
			for x := range r {
				ls = append(ls, fmt.Sprintf("  %s <=copy %s", l, x))
			}
		}
		sort.Strings(ls)
		for _, x := range ls {
			fmt.Println(x)
		}
	}
}
