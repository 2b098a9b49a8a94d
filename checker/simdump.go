package main

import (
	"fmt"
	"go/token"
	"sort"
)

func dumpSim(p *Prog, name string, inl bool, peel int) {
	f := p.Fn(name)
	if f == nil {
		fmt.Println("no function", name)
		return
	}
	s := p.newSim()
	s.peel = peel
	if !inl {
		s.maxDepth = 0
	}
	n := 0
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		if n > 40 {
			return
		}
		fmt.Println("PATH", n, "ret", rets, p.Pos(pos))
		fmt.Println("   trace", st.Trace())
		var ks []*Term
		for k := range st.mem {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			r, _ := deepPath(k)
			if r.op == "param" || r.op == "alloc" {
				fmt.Println("     ", k, "=", st.mem[k])
			}
		}
		for _, h := range st.havocs {
			fmt.Println("      havoc", h.root, h.path, h.id)
		}
	}
	s.hooks.panicked = func(st *State, pos token.Pos) {
		n++
		fmt.Println("PATH", n, "panic", p.Pos(pos))
	}
	s.Run(f, nil, nil)
	fmt.Println("paths", n, "steps", s.steps, "over", s.over)
}
