package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = chkC14 }

// Query argument regions that must be answered with an error. Parameter 0 is the receiver.
// state: "" any, "empty" after IsEmpty() returned true, "est" after IsEstimationMode() returned true.
type badQuery struct {
	fn, opt, conds, state string
}

var queryBad []badQuery

func init() {
	q := func(fn, conds string) { queryBad = append(queryBad, badQuery{fn, "", conds, ""}) }
	empty := func(fn, conds string) { queryBad = append(queryBad, badQuery{fn, "", conds, "empty"}) }
	rank := func(fn string) {
		for _, c := range []string{"1<0", "1>1", "1 nan"} {
			q(fn, c)
		}
	}
	ranks := func(fn string) {
		for _, c := range []string{"1 len==1;1[0]<0", "1 len==1;1[0]>1", "1 len==1;1[0] nan", "1 len==2;1[1] nan", "1 len==2;1[1]>1"} {
			q(fn, c)
		}
	}
	splits := func(fn string) {
		for _, c := range []string{"1 len==1;1[0] nan", "1 len==2;1[0] nan", "1 len==2;1[1] nan", "1 len==2;1 falls", "1 len==3;1 falls"} {
			q(fn, c)
		}
	}
	// KLL
	rank("kll.(ItemsSketch).GetQuantile")
	ranks("kll.(ItemsSketch).GetQuantiles")
	rank("kll.(ItemsSketchSortedView).GetQuantile")
	for _, m := range []string{"GetPMF", "GetCDF"} {
		for _, c := range []string{"1 len==2;1 desc", "1 len==2;1 equal", "1 len==3;1 desc"} {
			q("kll.(ItemsSketch)."+m, c)
			q("kll.(ItemsSketchSortedView)."+m, c)
		}
	}
	q("kll.(ItemsSketch).GetPartitionBoundaries", "1<1")
	for _, m := range []string{"GetQuantile", "GetRank", "GetPMF", "GetCDF", "GetQuantiles", "GetRanks", "GetPartitionBoundaries", "GetMinItem", "GetMaxItem"} {
		empty("kll.(ItemsSketch)."+m, "")
	}
	// REQ and the shared sorted view
	rank("req.(Sketch).Quantile")
	ranks("req.(Sketch).Quantiles")
	q("req.(Sketch).Rank", "1 nan")
	q("req.(Sketch).Ranks", "1 len==1;1[0] nan")
	q("req.(Sketch).Ranks", "1 len==2;1[1] nan")
	splits("req.(Sketch).CDF")
	splits("req.(Sketch).PMF")
	for _, m := range []string{"RankLowerBound", "RankUpperBound", "QuantileLowerBound", "QuantileUpperBound"} {
		rank("req.(Sketch)." + m)
		for _, c := range []string{"0<1", "0>3"} {
			queryBad = append(queryBad, badQuery{"req.(Sketch)." + m, "req.WithNumStdDev", c, ""})
		}
	}
	for _, m := range []string{"Quantile", "Quantiles", "Rank", "Ranks", "CDF", "PMF", "QuantileLowerBound", "QuantileUpperBound"} {
		empty("req.(Sketch)."+m, "")
	}
	rank("common/quantiles.(NumericSortedView).Quantile")
	splits("common/quantiles.(NumericSortedView).CDF")
	splits("common/quantiles.(NumericSortedView).PMF")
	for _, m := range []string{"Quantile", "Rank", "MinItem", "MaxItem"} {
		empty("common/quantiles.(NumericSortedView)."+m, "")
	}
	empty("common/quantiles.(NumericSortedView).CDF", "1 len==1")
	empty("common/quantiles.(NumericSortedView).PMF", "1 len==1")
	// t-Digest
	rank("tdigest.(Double).Quantile")
	q("tdigest.(Double).Rank", "1 nan")
	splits("tdigest.(Double).CDF")
	splits("tdigest.(Double).PMF")
	for _, m := range []string{"Quantile", "Rank"} {
		empty("tdigest.(Double)."+m, "")
	}
	empty("tdigest.(Double).CDF", "1 len==1")
	empty("tdigest.(Double).PMF", "1 len==1")
	empty("tdigest.(Double).MinValue", "")
	empty("tdigest.(Double).MaxValue", "")
	// theta and tuple bounds depend on the number of standard deviations in estimation mode
	for _, t := range []string{"theta.(QuickSelectUpdateSketch)", "theta.(CompactSketch)", "theta.(WrappedCompactSketch)",
		"tuple.(UpdateSketch)", "tuple.(CompactSketch)", "tuple.(ArrayOfNumbersUpdateSketch)", "tuple.(ArrayOfNumbersCompactSketch)"} {
		ms := []string{"LowerBound", "UpperBound"}
		if strings.HasPrefix(t, "tuple") {
			ms = append(ms, "LowerBoundFromSubset", "UpperBoundFromSubset")
		}
		for _, m := range ms {
			for _, c := range []string{"1<1", "1>3"} {
				queryBad = append(queryBad, badQuery{t + "." + m, "", c, "est"})
			}
		}
	}
	// HLL
	for _, t := range []string{"hll.(hllSketchState)", "hll.(unionImpl)", "hll.(couponListImpl)", "hll.(couponHashSetImpl)", "hll.(hllArrayImpl)"} {
		for _, m := range []string{"GetLowerBound", "GetUpperBound"} {
			for _, c := range []string{"1<1", "1>3"} {
				q(t+"."+m, c)
			}
		}
	}
}

func chkC14(p *Prog, r *Report) {
	r.Explain = "Path-sensitive abstract interpretation of every query method started inside each region of arguments that must be refused (ranks below 0, above 1 and NaN; NaN or non-increasing split points at each position of short lists; 0 or more than 3 standard deviations; any argument on an empty sketch); every returning path must carry a non-nil error."
	r.Assume = append(r.Assume, "slices of query arguments are judged at lengths 1 to 3; the loops over them treat every position alike", "bound queries without an error result (CPC) are outside the property", "theta and tuple bounds are judged in estimation mode, where the number of deviations matters")
	r.floor("reject", 100)
	for _, b := range queryBad {
		key := b.fn + "|" + b.opt + "|" + b.conds + "|" + b.state
		f := p.Fn(b.fn)
		if f == nil {
			r.undecided("reject", key, "", "query not found")
			continue
		}
		mustRejectQuery(p, r, key, f, b)
	}
}

func mustRejectQuery(p *Prog, r *Report, key string, f *ssa.Function, b badQuery) {
	ei := errIndex(f)
	if ei < 0 {
		r.undecided("reject", key, p.Pos(f.Pos()), "no error result")
		return
	}
	s := p.newSim()
	s.peel = 3
	s.budget = 1500000
	var bad []string
	n := 0
	var e0, e1 *Term
	mode := ""
	recv := paramTerm(0, f.Params[0].Type())
	s.hooks.inline = func(st *State, g *ssa.Function, args []*Term) bool {
		if len(g.Blocks) <= 12 && len(s.loopsOf(g).body) == 0 {
			return true
		}
		// anything that can see the arguments of the query
		for _, a := range args {
			if a != nil && a.contains(func(t *Term) bool { return t != recv && (t.op == "param" || t.op == "closure") }) {
				return true
			}
		}
		return len(g.FreeVars) > 0
	}
	s.hooks.model = func(st *State, c *Call) (*Term, bool) {
		// the user's comparison of the two misplaced elements
		if mode != "" && c.Fn == nil && c.Method == "" && len(c.Args) == 2 {
			x, y := c.Args[0], c.Args[1]
			if x == e0 && y == e1 {
				return mkBool(false), true
			}
			if x == e1 && y == e0 {
				return mkBool(mode == "desc"), true
			}
		}
		return nil, false
	}
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		isNil, known := st.F.nilness(rets[ei])
		if known && !isNil {
			return
		}
		if delegated(rets[ei], f.Name(), st.frames[0], f) {
			return
		}
		if len(bad) < 3 {
			bad = append(bad, fmt.Sprintf("path returning at %s without a definite error (%v) [%s]", p.Pos(pos), rets[ei], st.Trace()))
		}
	}
	s.hooks.panicked = func(st *State, pos token.Pos) {
		bad = append(bad, "path ends in a panic at "+p.Pos(pos))
	}
	feasible := true
	s.Run(f, nil, func(st *State) {
		args := make([]*Term, len(f.Params))
		for i, pa := range f.Params {
			args[i] = st.frames[0].env[pa]
		}
		conds := b.conds
		if i := strings.Index(conds, ";1 desc"); i >= 0 {
			mode, conds = "desc", conds[:i]
		} else if i := strings.Index(conds, ";1 equal"); i >= 0 {
			mode, conds = "equal", conds[:i]
		}
		if b.opt != "" {
			of := p.Fn(b.opt)
			if of == nil {
				feasible = false
				return
			}
			oargs := p.optArgs(of)
			feasible = assumeConds(st, oargs, conds)
			withOption(s, st, of, oargs)
		} else {
			feasible = assumeConds(st, args, conds)
		}
		if mode != "" {
			et := args[1].t.Underlying().(*types.Slice).Elem()
			e0, e1 = st.load(st.elemAddr(args[1], mkInt(0), et), et), st.load(st.elemAddr(args[1], mkInt(1), et), et)
			st.F.assume(mkBin(token.EQL, e0, e1, tBool), mode == "equal")
		}
		if b.state != "" {
			name := map[string]string{"empty": "IsEmpty", "est": "IsEstimationMode"}[b.state]
			g := p.Fn(strings.TrimSuffix(b.fn, "."+f.Name()) + "." + name)
			if g == nil {
				feasible = false
				return
			}
			prev := s.hooks.leave
			s.hooks.leave = func(st *State, h *ssa.Function, rets []*Term) {
				if h == g && len(st.frames) == 2 && st.user["pre"] == nil {
					st.set("pre", true)
					if !st.F.assume(rets[0], true) {
						st.dead = true
					}
					return
				}
				if prev != nil {
					prev(st, h, rets)
				}
			}
			st.push(g, args[:1], nil, nil, nil)
		}
	})
	switch {
	case !feasible:
		r.undecided("reject", key, p.Pos(f.Pos()), "the region could not be set up")
	case s.over:
		r.undecided("reject", key, p.Pos(f.Pos()), "too many paths")
	case n == 0 && len(bad) == 0:
		r.undecided("reject", key, p.Pos(f.Pos()), "no path returns")
	case len(bad) > 0:
		r.bad("reject", key, p.Pos(f.Pos()), strings.Join(bad, "; "))
	default:
		r.ok("reject", key, p.Pos(f.Pos()))
	}
}

// delegated: the error is that of an interface method of the same name called with the
// same arguments; its implementations are judged on their own.
func delegated(err *Term, name string, root *frame, f *ssa.Function) bool {
	t := err
	for t.op == "tuple" || t.op == "res" || t.op == "extract" {
		t = t.a[0]
	}
	if t.op != "ret" || retName(t) != "iface."+name {
		return false
	}
	for _, pa := range f.Params[1:] {
		ok := false
		for _, a := range t.a {
			if a == root.env[pa] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
