package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C01: on no path is the consumer called again after one of its calls may have returned false.
// Loops run from an arbitrary state for three consecutive iterations, so a stop in one
// iteration that is forgotten in a later one is seen.
func init() { checks["C01"] = checkIter }

func checkIter(p *Prog, r *Report) {
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isSeqType(res.At(i).Type()) {
				fs = append(fs, f)
				break
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return p.FName(fs[i]) < p.FName(fs[j]) })
	r.floor("stop", 5)
	for _, f := range fs {
		name := p.FName(f)
		type start struct {
			st *State
			cl *Term
		}
		var starts []start
		s := p.newSim()
		s.tail = 2
		bodies, yields, bad := 0, 0, ""
		var badPos token.Pos
		s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
			for _, t := range rets {
				if t.op == "conv" || t.op == "chgtype" {
					t = t.a[0]
				}
				if t.op == "closure" || t.op == "func" {
					if fn, ok := t.x.(*ssa.Function); ok && isSeqType(fn.Signature) {
						starts = append(starts, start{st.fork(), t})
					}
				}
			}
		}
		s.Run(f, s.paramTerms(f), nil)
		yielded := func(st *State, c *Call) {
			if pend, ok := st.user["stop"].(*Term); ok && bad == "" {
				if v, known := st.F.decide(pend); !known || !v {
					bad = "the consumer is called again although an earlier call may have returned false [" + st.Trace() + "]"
					badPos = c.Pos
				}
			}
		}
		s.hooks.model = func(st *State, c *Call) (*Term, bool) {
			y, _ := st.user["yield"].(*Term)
			if y == nil {
				return nil, false
			}
			if c.Recv == y && c.Fn == nil {
				t := fresh("more", tBool)
				if st.dry == nil {
					yields++
					yielded(st, c)
					st.set("stop", t)
				}
				return t, true
			}
			if !c.Inline {
				for _, a := range c.Args {
					if a == y && st.dry == nil {
						// handed to another iterator: it may have been stopped there
						yields++
						yielded(st, c)
						st.set("stop", fresh("more", tBool))
					}
				}
			}
			return nil, false
		}
		s.hooks.ret = nil
		s.hooks.inline = func(st *State, f *ssa.Function, args []*Term) bool {
			for _, a := range args {
				if a.op == "closure" || a.op == "func" || a == st.user["yield"] {
					return true
				}
			}
			return f.Parent() != nil || len(f.Blocks) <= 4
		}
		for _, b := range starts {
			fn := norm(b.cl.x.(*ssa.Function))
			if len(fn.Blocks) == 0 {
				continue
			}
			bodies++
			y := fresh("yield", fn.Params[0].Type())
			st := b.st
			st.frames = nil
			st.set("yield", y)
			var free []*Term
			if b.cl.op == "closure" {
				free = b.cl.a
			}
			st.push(fn, []*Term{y}, free, nil, nil)
			s.explore(st)
		}
		switch {
		case bad != "":
			r.bad("stop", name, p.Pos(badPos), bad)
		case s.over:
			r.undecided("stop", name, p.Pos(f.Pos()), "too many paths")
		case bodies == 0:
			r.ok("delegates", name, p.Pos(f.Pos()))
		case yields == 0:
			r.undecided("stop", name, p.Pos(f.Pos()), "the iterator never calls its consumer")
		default:
			r.ok("stop", name, p.Pos(f.Pos()))
		}
	}
}
