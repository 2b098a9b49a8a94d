package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = chkC13 }

// A bad region of the parameter space: every path of the constructor that starts inside it must end in an error.
// Conditions are conjunctions over positional parameters ("0<5", "1>=2.5", "1 nan", "2 nil", "0 odd");
// opt names a functional option whose parameter 0 the conditions describe instead.
type badRegion struct {
	fn, opt, conds string
}

var ctorBad = []badRegion{
	{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchLgK", "0<5"},
	{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchLgK", "0>26"},
	{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchP", "0<=0"},
	{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchP", "0>1"},
	{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchP", "0 nan"},
	{"theta.NewUnion", "theta.WithUnionLgK", "0<5"},
	{"theta.NewUnion", "theta.WithUnionLgK", "0>26"},
	{"theta.NewUnion", "theta.WithUnionSketchP", "0<=0"},
	{"theta.NewUnion", "theta.WithUnionSketchP", "0>1"},
	{"theta.NewUnion", "theta.WithUnionSketchP", "0 nan"},

	{"count.NewCountMinSketch", "", "1<3"},
	{"count.NewCountMinSketch", "", "0<1"},
	{"count.NewCountMinSketch", "", "0>=2;1>=536870912"},
	{"count.NewCountMinSketch", "", "0>=64;1>=16777216"},
	{"count.NewCountMinSketch", "", "0>=4;1>=268435456"},
	{"count.SuggestNumBuckets", "", "0<=0"},
	{"count.SuggestNumBuckets", "", "0 nan"},
	{"count.SuggestNumHashes", "", "0<0"},
	{"count.SuggestNumHashes", "", "0>1"},
	{"count.SuggestNumHashes", "", "0 nan"},

	{"filters.NewBloomFilterBySize", "", "0==0"},
	{"filters.NewBloomFilterBySize", "", "1==0"},
	{"filters.NewBloomFilterBySize", "", "0>137438953216"},
	{"filters.NewBloomFilterByAccuracy", "", "0==0"},
	{"filters.NewBloomFilterByAccuracy", "", "1<=0"},
	{"filters.NewBloomFilterByAccuracy", "", "1>=1"},
	{"filters.NewBloomFilterByAccuracy", "", "1 nan"},

	{"hll.NewHllSketch", "", "0<4"},
	{"hll.NewHllSketch", "", "0>21"},
	{"hll.NewHllSketch", "", "1<0"},
	{"hll.NewHllSketch", "", "1>2"},
	{"hll.NewUnion", "", "0<4"},
	{"hll.NewUnion", "", "0>21"},

	{"cpc.NewCpcSketch", "", "0<4"},
	{"cpc.NewCpcSketch", "", "0>26"},
	{"cpc.NewCpcSketchWithDefault", "", "0<4"},
	{"cpc.NewCpcSketchWithDefault", "", "0>26"},
	{"cpc.NewCpcUnionSketch", "", "0<4"},
	{"cpc.NewCpcUnionSketch", "", "0>26"},
	{"cpc.NewCpcUnionSketchWithDefault", "", "0<4"},
	{"cpc.NewCpcUnionSketchWithDefault", "", "0>26"},

	{"kll.NewKllItemsSketch", "", "0<8"},
	{"kll.NewKllItemsSketch", "", "1<2"},
	{"kll.NewKllItemsSketch", "", "1>8"},
	{"kll.NewKllItemsSketch", "", "1 odd"},
	{"kll.NewKllItemsSketch", "", "2 nil"},
	{"kll.NewKllItemsSketchWithDefault", "", "0 nil"},

	{"req.NewSketch", "req.WithK", "0<4"},
	{"req.NewSketch", "req.WithK", "0>1024"},
	{"req.NewSketch", "req.WithK", "0 odd"},

	{"tdigest.NewDouble", "", "0<10"},

	{"sampling.NewReservoirItemsSketch", "", "0<2"},
	{"sampling.NewReservoirItemsUnion", "", "0<2"},
	{"sampling.NewVarOptItemsSketch", "", "0<1"},
	{"sampling.NewVarOptItemsSketch", "", "0>2147483646"},
	{"sampling.NewVarOptItemsUnion", "", "0<1"},
	{"sampling.NewVarOptItemsUnion", "", "0>2147483646"},

	{"frequencies.NewFrequencyItemsSketchWithMaxMapSize", "", "0<=0"},
	{"frequencies.NewFrequencyItemsSketchWithMaxMapSize", "", "0 notpow2"},
	{"frequencies.NewLongsSketchWithMaxMapSize", "", "0<=0"},
	{"frequencies.NewLongsSketchWithMaxMapSize", "", "0 notpow2"},
}

func init() {
	for _, c := range []string{"tuple.NewUpdateSketch", "tuple.NewUpdateSketchWithSummaryUpdateFunc", "tuple.NewArrayOfNumbersUpdateSketch"} {
		for _, k := range []string{"0<5", "0>26"} {
			ctorBad = append(ctorBad, badRegion{c, "tuple.WithUpdateSketchLgK", k})
		}
		for _, k := range []string{"0<=0", "0>1", "0 nan"} {
			ctorBad = append(ctorBad, badRegion{c, "tuple.WithUpdateSketchP", k})
		}
	}
	for _, c := range []string{"tuple.NewUnion", "tuple.NewUnionWithSummaryMergeFunc", "tuple.NewArrayOfNumbersSketchUnion"} {
		for _, k := range []string{"0<5", "0>26"} {
			ctorBad = append(ctorBad, badRegion{c, "tuple.WithUnionLgK", k})
		}
		for _, k := range []string{"0<=0", "0>1", "0 nan"} {
			ctorBad = append(ctorBad, badRegion{c, "tuple.WithUnionSketchP", k})
		}
	}
}

// assumeConds adds the conditions over the given parameter terms; false if they cannot hold at all.
func assumeConds(st *State, args []*Term, conds string) bool {
	if conds == "" {
		return true
	}
	for _, c := range strings.Split(conds, ";") {
		var i int
		var rest string
		n, _ := fmt.Sscanf(c, "%d", &i)
		if n != 1 || i >= len(args) {
			panic("bad condition " + c)
		}
		rest = strings.TrimSpace(c[len(fmt.Sprint(i)):])
		a := args[i]
		if strings.HasPrefix(rest, "[") { // element of a slice argument
			j := strings.Index(rest, "]")
			var k int64
			fmt.Sscanf(rest[1:j], "%d", &k)
			et := a.t.Underlying().(*types.Slice).Elem()
			a = st.load(st.elemAddr(a, mkInt(k), et), et)
			rest = strings.TrimSpace(rest[j+1:])
		}
		ok := true
		switch {
		case strings.HasPrefix(rest, "len=="):
			var k int64
			fmt.Sscanf(rest[5:], "%d", &k)
			ok = st.F.assume(mkBin(token.EQL, st.lenOf(a), mkInt(k), tBool), true)
		case rest == "falls": // the elements 0 and 1 of a float or integer slice do not increase
			et := a.t.Underlying().(*types.Slice).Elem()
			e0, e1 := st.load(st.elemAddr(a, mkInt(0), et), et), st.load(st.elemAddr(a, mkInt(1), et), et)
			ok = st.F.assume(mkCond(token.GEQ, e0, e1), true)
		case rest == "nan":
			ok = st.F.assume(mk("isnan", "", tBool, stripFloatConv(a)), true)
		case rest == "nil":
			ok = st.F.assume(mkBin(token.EQL, a, mkConst(nil, a.t), tBool), true)
		case rest == "notnil":
			ok = st.F.assume(mkBin(token.EQL, a, mkConst(nil, a.t), tBool), false)
		case rest == "true", rest == "false":
			ok = st.F.assume(a, rest == "true")
		case rest == "odd":
			ok = st.F.assume(mkBin(token.EQL, mkBin(token.AND, a, wrapConst(constant.MakeInt64(1), a.t), a.t), wrapConst(constant.MakeInt64(0), a.t), tBool), false)
			ok = ok && st.F.assume(mkBin(token.EQL, mkBin(token.REM, a, wrapConst(constant.MakeInt64(2), a.t), a.t), wrapConst(constant.MakeInt64(0), a.t), tBool), false)
		case rest == "notpow2":
			one := wrapConst(constant.MakeInt64(1), a.t)
			ok = st.F.assume(mkBin(token.EQL, mkBin(token.AND, a, mkBin(token.SUB, a, one, a.t), a.t), wrapConst(constant.MakeInt64(0), a.t), tBool), false)
		default:
			var op token.Token
			var k string
			for _, o := range []struct {
				s string
				t token.Token
			}{{"<=", token.LEQ}, {">=", token.GEQ}, {"==", token.EQL}, {"!=", token.NEQ}, {"<", token.LSS}, {">", token.GTR}} {
				if strings.HasPrefix(rest, o.s) {
					op, k = o.t, strings.TrimSpace(rest[len(o.s):])
					break
				}
			}
			var b *Term
			x := a
			switch {
			case strings.HasPrefix(k, "len(") || strings.HasPrefix(k, "$"):
				panic("unsupported " + c)
			default:
				if isFloatT(a.t) {
					x = stripFloatConv(a)
					b = wrapConst(constant.ToFloat(constant.MakeFromLiteral(strings.TrimPrefix(k, "-"), token.FLOAT, 0)), x.t)
					if strings.HasPrefix(k, "-") {
						b = wrapConst(constant.UnaryOp(token.SUB, constant.MakeFromLiteral(k[1:], token.FLOAT, 0), 0), x.t)
					}
				} else {
					v := constant.MakeFromLiteral(strings.TrimPrefix(k, "-"), token.INT, 0)
					if strings.HasPrefix(k, "-") {
						v = constant.UnaryOp(token.SUB, v, 0)
					}
					b = wrapConst(v, a.t)
				}
			}
			if isFloatT(a.t) {
				// an ordinary number: the NaN region is separate
				ok = st.F.assume(mk("isnan", "", tBool, stripFloatConv(a)), false)
			}
			ok = ok && st.F.assume(mkCond(op, x, b), true)
		}
		if !ok {
			return false
		}
	}
	return true
}

// mkCond builds a comparison in the canonical form used by branches.
func mkCond(op token.Token, a, b *Term) *Term {
	switch op {
	case token.GTR:
		return mkBin(token.LSS, b, a, tBool)
	case token.GEQ:
		return mkBin(token.LEQ, b, a, tBool)
	case token.NEQ:
		return mkNot(mkBin(token.EQL, a, b, tBool))
	}
	return mkBin(op, a, b, tBool)
}

// withOption makes the variadic option parameter of the root frame hold exactly one
// option, the result of calling the option constructor opt.
func withOption(s *Sim, st *State, opt *ssa.Function, oargs []*Term) {
	root := st.frames[0]
	pa := root.fn.Params[len(root.fn.Params)-1]
	prev := s.hooks.leave
	s.hooks.leave = func(st *State, f *ssa.Function, rets []*Term) {
		if f == opt && len(st.frames) == 2 {
			et := pa.Type().Underlying().(*types.Slice).Elem()
			sl := st.newAlloc("opts", pa.Type())
			st.setLen(sl, mkInt(1))
			st.store(st.elemAddr(sl, mkInt(0), et), rets[0], et, token.NoPos)
			st.frames[0].env[pa] = sl
			return
		}
		if prev != nil {
			prev(st, f, rets)
		}
	}
	st.push(opt, oargs, nil, nil, nil)
}

// errIndex: index of the error result, -1 if none.
func errIndex(f *ssa.Function) int {
	r := f.Signature.Results()
	if r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
		return r.Len() - 1
	}
	return -1
}

func chkC13(p *Prog, r *Report) {
	r.Explain = "Path-sensitive abstract interpretation (intervals, NaN-ness, nilness, linear facts) of every constructor, started inside each region of parameter values its documentation or its family's limits exclude; every path that returns from there must return a non-nil error."
	r.Assume = append(r.Assume, "documented parameter limits are those listed in checker/chk_ctor.go", "functional options are applied by the constructor in its options loop")
	r.floor("reject", 40)
	fns := map[string]bool{}
	for _, b := range ctorBad {
		key := b.fn + "|" + b.opt + "|" + b.conds
		f := p.Fn(b.fn)
		if f == nil {
			r.undecided("reject", key, "", "constructor not found")
			continue
		}
		fns[b.fn] = true
		mustReject(p, r, "reject", key, f, b.opt, b.conds, nil)
	}
	r.Counts["constructors"] = len(fns)
}

// mustReject: every path from the region ends in an error.
func mustReject(p *Prog, r *Report, rule, key string, f *ssa.Function, opt, conds string, pre func(st *State) bool) {
	ei := errIndex(f)
	if ei < 0 {
		r.undecided(rule, key, p.Pos(f.Pos()), "no error result")
		return
	}
	s := p.newSim()
	s.peel = 2
	var bad []string
	n := 0
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		isNil, known := st.F.nilness(rets[ei])
		if known && !isNil {
			return
		}
		if len(bad) < 3 {
			bad = append(bad, fmt.Sprintf("path returning at %s without a definite error (%v) [%s]", p.Pos(pos), rets[ei], st.Trace()))
		}
	}
	s.hooks.panicked = func(st *State, pos token.Pos) {
		bad = append(bad, "path ends in a panic at "+p.Pos(pos))
	}
	feasible := true
	s.Run(f, nil, func(st *State) {
		args := make([]*Term, len(f.Params))
		for i, pa := range f.Params {
			args[i] = st.frames[0].env[pa]
		}
		if opt != "" {
			of := p.Fn(opt)
			if of == nil {
				feasible = false
				return
			}
			oargs := p.optArgs(of)
			feasible = assumeConds(st, oargs, conds)
			withOption(s, st, of, oargs)
		} else {
			feasible = assumeConds(st, args, conds)
		}
		if feasible && pre != nil {
			feasible = pre(st)
		}
	})
	switch {
	case !feasible:
		r.undecided(rule, key, p.Pos(f.Pos()), "the region could not be set up")
	case s.over:
		r.undecided(rule, key, p.Pos(f.Pos()), "too many paths")
	case n == 0 && len(bad) == 0:
		r.undecided(rule, key, p.Pos(f.Pos()), "no path returns")
	case len(bad) > 0:
		r.bad(rule, key, p.Pos(f.Pos()), strings.Join(bad, "; "))
	default:
		r.ok(rule, key, p.Pos(f.Pos()))
	}
}

func (p *Prog) optArgs(of *ssa.Function) []*Term {
	var out []*Term
	for i, pa := range of.Params {
		out = append(out, mk("param", fmt.Sprintf("opt%d:%s", i, typStr(pa.Type())), pa.Type()))
	}
	return out
}
