package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = chkC17 }

type tabUse struct {
	lo, hi int
	n      int
}

// chkC17 interprets the functions that turn state into numbers, for every configuration, with the observed
// state as an exact symbolic quantity: every table access has to stay inside its table, and the resulting
// piecewise polynomial has to be continuous and growing.
func chkC17(p *Prog, r *Report) {
	r.Explain = "Every table access of an estimator or bound is in range for every legal configuration; interpolated estimates are continuous, strictly growing piecewise polynomials of the observed state (derivative bounded away from zero by exact Bernstein coefficients); error tables fall with size and rise with the number of standard deviations; tables with closed forms hold them."
	c17Harmonic(p, r)
	c17Composite(p, r)
	c17Coupon(p, r)
	c17RelErr(p, r)
	c17Icon(p, r)
	c17CpcBounds(p, r)
	c17Binomial(p, r)
	c17Powers(p, r)
	c17Sizes(p, r)
	r.floor("defined", 400)
	r.floor("growing", 40)
	r.floor("exact", 100)
	r.floor("errors", 200)
}

func (r *Report) need(p *Prog, name string) *ssa.Function {
	f := p.Fn(name)
	if f == nil {
		r.undecided("defined", name, "", "the function was not found")
	}
	return f
}

func ci(n int) *bv { return bconst(uint64(n), 64) }

// num of a result: the number (first result of a tuple) and whether the error result, when there is one, is nil.
func resNum(v bval) (poly, bool) {
	if t, ok := v.(btuple); ok {
		if len(t) == 2 {
			if _, isNil := t[1].(bnil); !isNil {
				return nil, false
			}
		}
		v = t[0]
	}
	f, ok := v.(bflt)
	if !ok {
		return nil, false
	}
	return f.p, true
}

func konstRes(v bval) (float64, bool) {
	q, ok := resNum(v)
	if !ok {
		return 0, false
	}
	k, ok := q.konst()
	if !ok {
		return 0, false
	}
	return fltOf(k), true
}

func closeTo(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

func (s *bitsim) ptr(o *bObj) bptr { return bptr{&bObj{cells: []bval{o}}, 0} }

// piece is one part of a piecewise polynomial.
type piece struct {
	iv    ival
	co    []*big.Rat
	p     poly
	trail []fcond
}

// pieces collects the results that depend on nothing but the atom.
func pieces(ends []pathEnd, atom string) (ps []piece, failed string, other int) {
	for _, e := range ends {
		iv := e.ivs[atom]
		if iv.lo != nil && iv.hi != nil {
			c := iv.lo.Cmp(iv.hi)
			if c > 0 || c == 0 && (iv.loOpen || iv.hiOpen) {
				continue // no value takes this path
			}
		}
		rng := fmt.Sprintf("on [%s, %s]", ratStr(iv.lo), ratStr(iv.hi))
		if e.st != nil {
			return nil, e.st.msg + " " + rng, 0
		}
		q, ok := resNum(e.res)
		if !ok {
			return nil, "no number is computed " + rng, 0
		}
		a, co, ok := q.uni()
		if !ok || a != "" && a != atom {
			other++
			continue
		}
		ps = append(ps, piece{iv, co, q, e.trail})
	}
	sort.SliceStable(ps, func(i, j int) bool {
		a, b := ps[i].iv.lo, ps[j].iv.lo
		if a == nil || b == nil {
			return a == nil && b != nil
		}
		if c := a.Cmp(b); c != 0 {
			return c < 0
		}
		return ps[i].iv.hi != nil && (ps[j].iv.hi == nil || ps[i].iv.hi.Cmp(ps[j].iv.hi) < 0)
	})
	return ps, "", other
}

func ratStr(r *big.Rat) string {
	if r == nil {
		return "inf"
	}
	return fmt.Sprintf("%g", fltOf(r))
}

// growing checks that the pieces join up to a strictly growing function on [lo, hi] (hi nil: without end).
// Where two pieces overlap they have to be the greater or the smaller of the two. slack bounds the relative jump at joints.
func growing(ps []piece, lo, hi *big.Rat, slack float64) string {
	if len(ps) == 0 {
		return "no estimate depends on the observed state alone"
	}
	for _, q := range ps {
		if q.iv.lo == nil {
			return "unbounded range"
		}
		if q.iv.hi != nil && q.iv.lo.Cmp(q.iv.hi) == 0 {
			continue
		}
		if len(q.co) < 2 {
			return fmt.Sprintf("the estimate does not grow between %s and %s", ratStr(q.iv.lo), ratStr(q.iv.hi))
		}
		h := q.iv.hi
		if h == nil {
			if len(q.co) != 2 || q.co[1].Sign() <= 0 {
				return "the estimate does not keep growing"
			}
			continue
		}
		if ok, at := bernPos(deriv(q.co), q.iv.lo, h, 40); !ok {
			return fmt.Sprintf("the estimate falls near %s", ratStr(at))
		}
	}
	near := func(a, b *big.Rat) bool {
		d := new(big.Rat).Sub(a, b)
		return math.Abs(fltOf(d)) <= slack*math.Max(1, math.Abs(fltOf(b)))
	}
	at := lo
	var prev []piece
	for i := 0; i < len(ps); {
		// pieces that start at the same place
		j := i
		for j < len(ps) && ps[j].iv.lo.Cmp(ps[i].iv.lo) == 0 && ps[j].iv.hi != nil == (ps[i].iv.hi != nil) && (ps[j].iv.hi == nil || ps[j].iv.hi.Cmp(ps[i].iv.hi) == 0) {
			j++
		}
		grp := ps[i:j]
		for a := range grp {
			for b := range grp {
				if a == b || grp[a].p.String() == grp[b].p.String() {
					continue
				}
				d := grp[a].p.add(grp[b].p, -1).String()
				e := grp[b].p.add(grp[a].p, -1).String()
				ok := false
				for _, c := range grp[a].trail {
					if x := c.d.String(); x == d || x == e {
						ok = true
					}
				}
				if !ok {
					return fmt.Sprintf("two estimates compete from %s on", ratStr(grp[0].iv.lo))
				}
			}
		}
		l := grp[0].iv.lo
		if l.Cmp(at) < 0 {
			return fmt.Sprintf("two estimates overlap at %s", ratStr(l))
		}
		if l.Cmp(at) > 0 {
			gap := new(big.Rat).Sub(l, at)
			if !near(l, at) && gap.Cmp(big.NewRat(1, 1)) > 0 {
				return fmt.Sprintf("no estimate between %s and %s", ratStr(at), ratStr(l))
			}
		}
		for _, a := range prev {
			for _, b := range grp {
				x, y := evalUni(a.co, at), evalUni(b.co, l)
				if !near(y, x) && y.Cmp(x) < 0 || slack < 1e-6 && !near(y, x) {
					// either side may be the one that is not taken at the joint
					if len(prev) == 1 && len(grp) == 1 {
						return fmt.Sprintf("the estimate jumps from %s to %s at %s", ratStr(x), ratStr(y), ratStr(l))
					}
				}
			}
		}
		prev, at = grp, grp[0].iv.hi
		i = j
		if at == nil {
			if i < len(ps) {
				return "two estimates overlap"
			}
			break
		}
	}
	if hi == nil && at != nil || hi != nil && at != nil && at.Cmp(hi) < 0 {
		return fmt.Sprintf("no estimate above %s", ratStr(at))
	}
	return ""
}

func c17Harmonic(p *Prog, r *Report) {
	f := r.need(p, "hll.harmonicNumber")
	if f == nil {
		return
	}
	h := new(big.Rat)
	for n := 0; n <= 40; n++ {
		if n > 0 {
			h.Add(h, big.NewRat(1, int64(n)))
		}
		s := newBitsim(p)
		s.fork = &forkState{}
		res, st := s.run(f, []bval{ci(n)})
		v, ok := konstRes(res)
		r.check(st == nil && ok && closeTo(v, fltOf(h), 1e-13), "exact", fmt.Sprintf("harmonic number %d", n), p.Pos(f.Pos()),
			fmt.Sprintf("the value is %v, not %v", v, fltOf(h)))
	}
}

// structOf makes a zero value of the pointer parameter's struct.
func (s *bitsim) structOf(t types.Type) (*bObj, types.Type) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return s.zero(pt.Elem()).(*bObj), pt.Elem()
}

func c17Composite(p *Prog, r *Report) {
	f, g := r.need(p, "hll.hllCompositeEstimate"), r.need(p, "hll.usingXArrAndYStride")
	if f == nil || g == nil {
		return
	}
	for lgK := 4; lgK <= 21; lgK++ {
		k := float64(uint64(1) << uint(lgK))
		kr := big.NewRat(int64(1)<<uint(lgK), 1)
		var sl bslice
		var lo, hi, yk, scale *big.Rat
		for curMin := 0; curMin < 2; curMin++ {
			key := fmt.Sprintf("composite estimate, lgK %d, curMin %d", lgK, curMin)
			s := newBitsim(p)
			bad, raw := "", ""
			fail := func(m string) {
				if bad == "" {
					bad = m
				}
			}
			s.model = func(fn *ssa.Function, in []bval) (bval, bool) {
				switch fn {
				case g:
					row, ok := in[0].(bslice)
					fl, ok2 := in[1].(bflt)
					x, ok3 := in[2].(bflt)
					if !ok || !ok2 || !ok3 || row.len < 2 {
						fail("the interpolation rows are not constant")
						return nil, false
					}
					first, ok := row.o.cells[row.off].(bflt)
					last, ok2 := row.o.cells[row.off+row.len-1].(bflt)
					if !ok || !ok2 {
						fail("the interpolation rows are not constant")
						return nil, false
					}
					var k1, k2, k3 bool
					sl = row
					lo, k1 = first.p.konst()
					hi, k2 = last.p.konst()
					yk, k3 = fl.p.konst()
					for a := range x.p.atoms() {
						raw, scale = a, x.p[a+"^1"]
					}
					if !k1 || !k2 || !k3 || s.decide(x.p.add(first.p, -1), token.GEQ) != 1 || s.decide(x.p.add(last.p, -1), token.LEQ) != 1 {
						fail("the raw estimate may lie outside the interpolation table")
						return nil, false
					}
					return btuple{s.fsource("adjusted", ival{lo: new(big.Rat)}), bnil{}}, true
				}
				return nil, false
			}
			ends, all := s.paths(f, 500, func() []bval {
				o, t := s.structOf(f.Params[0].Type())
				n := s.source("slots at the minimum", 64, lgK+1)
				s.ivs[s.isrc(len(s.srcs)-1)] = ival{lo: big.NewRat(int64(curMin), 1), hi: kr}
				kx := s.fsource("sum of inverse powers", ival{lo: new(big.Rat), loOpen: true})
				if !s.setField(o, t, "float64", "kxq0", kx) || !s.setField(o, t, "int", "lgconfigk", ci(lgK)) || !s.setField(o, t, "int", "curmin", ci(curMin)) || !s.setField(o, t, "int", "numatcurmin", n) {
					fail("the sketch has no such fields")
				}
				return []bval{s.ptr(o)}
			})
			for _, e := range ends {
				q, ok := resNum(e.res)
				switch {
				case e.st != nil:
					fail(e.st.msg)
				case !ok:
					fail("no estimate is computed")
				}
				if !ok || e.st != nil || lo == nil {
					continue
				}
				// below and beyond the table
				iv := e.ivs[raw]
				if _, isK := q.konst(); isK && raw != "" && len(q) > 0 {
					fail("the estimate is constant")
				}
				if _, isK := q.konst(); isK && scale != nil && iv.hi != nil && !closeTo(fltOf(new(big.Rat).Mul(scale, iv.hi)), fltOf(lo), 1e-9) {
					fail("the estimate is zero inside the interpolation table")
				}
				if q.atoms()[raw] {
					_, co, ok := q.uni()
					if !ok || len(co) != 2 || co[0].Sign() != 0 || co[1].Sign() <= 0 || iv.lo == nil || scale == nil {
						fail("the estimate beyond the table does not keep growing")
						continue
					}
					at := new(big.Rat).Mul(scale, iv.lo)
					y := fltOf(yk) * float64(sl.len-1)
					if end := fltOf(evalUni(co, iv.lo)); !closeTo(end, y, 1e-9) || !closeTo(fltOf(at), fltOf(hi), 1e-9) {
						fail(fmt.Sprintf("the estimate jumps from %g to %g at the end of the table", y, end))
					}
				}
			}
			r.check(bad == "" && all && lo != nil, "defined", key, p.Pos(f.Pos()), bad)
		}
		key := fmt.Sprintf("composite interpolation, lgK %d", lgK)
		if lo == nil || hi == nil || yk == nil {
			r.undecided("growing", key, p.Pos(f.Pos()), "the interpolation rows were not found")
			continue
		}
		s := newBitsim(p)
		ends, all := s.paths(g, 4000, func() []bval {
			return []bval{sl, bflt{pconst(yk)}, s.fsource("x", ival{lo: lo, hi: hi})}
		})
		ps, fail, other := pieces(ends, "x")
		msg := fail
		if msg == "" {
			if !all || other > 0 {
				msg = "the estimate does not follow from the observed state alone"
			} else {
				msg = growing(ps, lo, hi, 1e-9)
			}
		}
		r.Counts["pieces of piecewise polynomials"] += len(ps)
		if msg == "" { // from zero to the last node
			v0, v1 := evalUni(ps[0].co, lo), evalUni(ps[len(ps)-1].co, hi)
			want := new(big.Rat).Mul(yk, big.NewRat(int64(sl.len-1), 1))
			if math.Abs(fltOf(v0)) > 1e-6 || !closeTo(fltOf(v1), fltOf(want), 1e-9) {
				msg = fmt.Sprintf("the estimate runs from %s to %s", ratStr(v0), ratStr(v1))
			}
			// the table reaches far enough for the raw estimate to be used beyond it
			if msg == "" && fltOf(want) < 3*k {
				msg = "the table ends before the raw estimate may be used"
			}
			if msg == "" && (!closeTo(fltOf(hi), fltOf(want), 0.06) || fltOf(lo) < 0.6*k || fltOf(lo) > 0.8*k) {
				msg = fmt.Sprintf("the table runs from %s to %s, where the estimate is %s", ratStr(lo), ratStr(hi), ratStr(want))
			}
		}
		r.check(msg == "", "growing", key, p.Pos(g.Pos()), msg)
		var xs []float64
		for i := 0; i < sl.len; i++ {
			c, _ := sl.o.cells[sl.off+i].(bflt).p.konst()
			xs = append(xs, fltOf(c)/fltOf(yk))
		}
		r.Counts["entries of interpolation tables"] += sl.len
		m := smooth(xs)
		r.check(m == "", "smooth", key, p.Pos(g.Pos()), m)
	}
}

// smooth checks that each entry lies where its neighbours put it: the deviation from the cubic through the two
// entries on either side must not stand out.
func smooth(x []float64) string {
	n := len(x)
	var dev []float64
	for i := 2; i < n-2; i++ {
		dev = append(dev, math.Abs(x[i]-(-x[i-2]+4*x[i-1]+4*x[i+1]-x[i+2])/6))
	}
	for i := range dev {
		var near []float64
		for j := max(0, i-9); j <= min(len(dev)-1, i+9); j++ {
			if j < i-2 || j > i+2 {
				near = append(near, dev[j])
			}
		}
		sort.Float64s(near)
		if len(near) < 5 {
			continue
		}
		lim := 12*near[len(near)*3/4] + 1e-9
		if dev[i] > lim {
			return fmt.Sprintf("entry %d does not fit its neighbours (%g away)", i+2, dev[i])
		}
	}
	return ""
}

func c17Coupon(p *Prog, r *Report) {
	for _, name := range []string{"hll.getEstimate", "hll.getUpperBound", "hll.getLowerBound"} {
		f := r.need(p, name)
		if f == nil {
			continue
		}
		for sd := 1; sd <= 3; sd++ {
			if len(f.Params) < 2 && sd > 1 {
				continue
			}
			key := fmt.Sprintf("%s, %d standard deviations", name, sd)
			s := newBitsim(p)
			top := big.NewRat(3<<16+1, 1) // the largest coupon set before it becomes an HLL array (lgK 21)
			atom := ""
			ends, all := s.paths(f, 4000, func() []bval {
				n := s.source("coupons", 64, 18)
				atom = s.isrc(len(s.srcs) - 1)
				s.ivs[atom] = ival{lo: new(big.Rat), hi: top}
				c := biface{hook: func(string, []bval) (bval, bool) { return n, true }}
				if len(f.Params) < 2 {
					return []bval{c}
				}
				return []bval{c, ci(sd)}
			})
			ps, fail, other := pieces(ends, atom)
			msg := fail
			if msg == "" && (!all || other > 0) {
				msg = "the estimate does not follow from the number of coupons alone"
			}
			r.check(msg == "", "defined", key, p.Pos(f.Pos()), msg)
			if msg != "" {
				continue
			}
			r.Counts["pieces of piecewise polynomials"] += len(ps)
			msg = growing(ps, new(big.Rat), top, 1e-3)
			if len(f.Params) < 2 && msg == "" {
				for _, q := range ps { // the number of items at which that many coupons are expected
					for _, x := range []*big.Rat{q.iv.lo, q.iv.hi} {
						c := fltOf(x)
						v := fltOf(evalUni(q.co, x))
						e := 0.0
						for b := 1; b <= 40; b++ {
							pr := math.Exp2(-26 - float64(b))
							e += math.Exp2(26) * -math.Expm1(v*math.Log1p(-pr))
						}
						if v != c && c > 1 && !closeTo(e, c, 3e-5) {
							msg = fmt.Sprintf("%.9g items are estimated from %.9g coupons, though %.9g are expected then", v, c, e)
						}
					}
				}
			}
			r.check(msg == "", "growing", key, p.Pos(f.Pos()), msg)
		}
	}
}

func c17RelErr(p *Prog, r *Report) {
	f := r.need(p, "hll.getRelErrAllK")
	if f == nil {
		return
	}
	for v := 0; v < 4; v++ {
		var prev, prev2 [4]float64
		for lgK := 4; lgK <= 21; lgK++ {
			last := 0.0
			for sd := 1; sd <= 3; sd++ {
				key := fmt.Sprintf("upper %v, out of order %v, lgK %d, %d standard deviations", v&1 == 1, v&2 == 2, lgK, sd)
				s := newBitsim(p)
				s.fork = &forkState{}
				initGlobals(p, s, f)
				res, st := s.run(f, []bval{bconst(uint64(v&1), 1), bconst(uint64(v>>1), 1), ci(lgK), ci(sd)})
				x, ok := konstRes(res)
				if st != nil || !ok {
					m := "no error is given"
					if st != nil {
						m = st.msg
					}
					r.bad("errors", key, p.Pos(f.Pos()), m)
					continue
				}
				rse := 0.8326 // HIP
				if v&2 == 2 {
					rse = 1.03896
				}
				z := x * math.Sqrt(float64(uint64(1)<<uint(lgK))) / (rse * float64(sd))
				msg := ""
				switch {
				case x <= last:
					msg = fmt.Sprintf("the error %g does not grow with the number of standard deviations", x)
				case lgK > 4 && x >= prev[sd]:
					msg = fmt.Sprintf("the error %g does not fall with the size", x)
				case lgK > 4 && (prev[sd]/x < 1.25 || prev[sd]/x > 1.7):
					msg = fmt.Sprintf("the error falls from %g to %g between sizes", prev[sd], x)
				case z < 0.6 || z > 1.75 || lgK >= 9 && (z < 0.88 || z > 1.15):
					msg = fmt.Sprintf("the error %g is %.3f times the theoretical one", x, z)
				case x >= 1 && v&1 == 1:
					msg = "the upper bound is not defined"
				}
				if msg == "" && lgK > 5 {
					d, lim := math.Abs(math.Log(prev[sd])-(math.Log(prev2[sd])+math.Log(x))/2), 0.05
					if lgK >= 10 && lgK <= 12 {
						lim = 0.015
					}
					if d > lim {
						msg = fmt.Sprintf("the errors %g, %g and %g are not in line", prev2[sd], prev[sd], x)
					}
				}
				r.check(msg == "", "errors", key, p.Pos(f.Pos()), msg)
				last, prev[sd], prev2[sd] = x, x, prev[sd]
			}
		}
	}
}

// initGlobals folds the initializer of the function's package, for variables computed from functions.
func initGlobals(p *Prog, s *bitsim, f *ssa.Function) {
	f = norm(f)
	if g, ok := p.folded[f.Pkg]; ok {
		for k, v := range g {
			s.glob[k] = v
		}
		return
	}
	t := newBitsim(p)
	if st := t.initPkg(f.Pkg); st != nil {
		return
	}
	if p.folded == nil {
		p.folded = map[*ssa.Package]map[*ssa.Global]*bObj{}
	}
	p.folded[f.Pkg] = t.glob
	for k, v := range t.glob {
		s.glob[k] = v
	}
}

func c17Icon(p *Prog, r *Report) {
	f := r.need(p, "cpc.iconEstimate")
	if f == nil {
		return
	}
	for lgK := 4; lgK <= 26; lgK++ {
		key := fmt.Sprintf("ICON estimate, lgK %d", lgK)
		s := newBitsim(p)
		k := int64(1) << uint(lgK)
		atom := ""
		top := big.NewRat(k*64, 1)
		ends, all := s.paths(f, 200, func() []bval {
			c := s.source("coupons", 64, lgK+7)
			atom = s.isrc(len(s.srcs) - 1)
			s.ivs[atom] = ival{lo: new(big.Rat), hi: top}
			return []bval{ci(lgK), c}
		})
		var ps []piece
		msg := ""
		var exps []pathEnd
		for _, e := range ends {
			if e.st != nil {
				msg = e.st.msg
				break
			}
			q, ok := resNum(e.res)
			if !ok {
				msg = "no estimate is computed"
				break
			}
			if _, _, ok := q.uni(); ok && !hasOpaque(s, q) {
				continue
			}
			exps = append(exps, e)
		}
		r.check(msg == "" && all, "defined", key, p.Pos(f.Pos()), msg)
		if msg != "" {
			continue
		}
		var rest []pathEnd
		for _, e := range ends {
			q, _ := resNum(e.res)
			if !hasOpaque(s, q) {
				rest = append(rest, e)
			}
		}
		ps, msg, _ = pieces(rest, atom)
		if msg == "" {
			// constants for the first counts
			var poly []piece
			last := -1.0
			lastAt := -1.0
			for _, q := range ps {
				if q.iv.hi != nil && q.iv.lo.Cmp(q.iv.hi) == 0 {
					v := fltOf(evalUni(q.co, q.iv.lo))
					if v < fltOf(q.iv.lo) || v <= last && fltOf(q.iv.lo) > lastAt {
						msg = fmt.Sprintf("the estimate for %s coupons is %g", ratStr(q.iv.lo), v)
					}
					last, lastAt = v, fltOf(q.iv.lo)
					continue
				}
				poly = append(poly, q)
			}
			if msg == "" && len(poly) > 0 {
				msg = growing(poly, poly[0].iv.lo, poly[0].iv.hi, 1e-9)
				var at *big.Rat
				lo := 0.0
				for _, q := range poly {
					v := fltOf(evalUni(q.co, q.iv.hi))
					if v > lo {
						lo, at = v, q.iv.hi
					}
					if w := fltOf(evalUni(q.co, q.iv.lo)); msg == "" && (w < last || w > 1.01*fltOf(q.iv.lo)+1) {
						msg = fmt.Sprintf("the estimate starts with %g at %s", w, ratStr(q.iv.lo))
					}
					if msg == "" {
						msg = iconExact(q, lgK)
					}
				}
				if msg == "" && len(exps) != 1 {
					msg = "the estimate for many coupons was not found"
				}
				if msg == "" {
					// beyond the polynomial: a growing exponential that starts no lower
					msg = c17Exp(s, exps[0], atom, at, lo)
				}
			} else if msg == "" {
				msg = "no estimate depends on the number of coupons"
			}
		}
		r.check(msg == "", "growing", key, p.Pos(f.Pos()), msg)
		r.Counts["pieces of piecewise polynomials"] += len(ps)
	}
}

// iconExact compares the polynomial with the estimator it approximates: the number of items at which the
// expected number of coupons is c.
func iconExact(q piece, lgK int) string {
	if len(q.co) == 2 {
		return ""
	}
	k := float64(uint64(1) << uint(lgK))
	for _, ratio := range []float64{0.05, 0.3, 0.9, 1.7, 2.6, 3.5, 4.4, 5.3} {
		c := ratio * k
		if c < fltOf(q.iv.lo)+1 || c > fltOf(q.iv.hi) {
			continue
		}
		cr, _ := ratOf(c)
		est := fltOf(evalUni(q.co, cr))
		// expected number of coupons after est items
		e := 0.0
		for col := 1; col <= 64; col++ {
			pr := math.Exp2(-float64(col)) / k
			if col == 64 {
				pr = math.Exp2(-63) / k
			}
			e += k * -math.Expm1(est*math.Log1p(-pr))
		}
		if !closeTo(e, c, 2e-4) {
			return fmt.Sprintf("%.6g items are estimated from %.6g coupons, though %.6g are expected then", est, c, e)
		}
	}
	return ""
}

func hasOpaque(s *bitsim, q poly) bool {
	for a := range q.atoms() {
		if _, ok := s.opqArg[a]; ok {
			return true
		}
	}
	return false
}

// c17Exp checks that a result A*f(B*x) with growing f and positive A, B starts at or above lo where x = at.
func c17Exp(s *bitsim, e pathEnd, atom string, at *big.Rat, lo float64) string {
	q, _ := resNum(e.res)
	if len(q) != 1 {
		return "the estimate for many coupons has an unknown form"
	}
	for m, c := range q {
		parts := monoParts(m)
		if len(parts) != 1 {
			return "the estimate for many coupons has an unknown form"
		}
		for a, n := range parts {
			args := s.opqArg[a]
			var base float64
			if k, _ := fmt.Sscanf(a, "pow%g#", &base); k == 0 && len(a) > 3 && a[:3] == "Exp" {
				base = math.E
			}
			if n != 1 || c.Sign() <= 0 || base <= 1 || len(args) != 1 {
				return "the estimate for many coupons does not grow"
			}
			b, co, ok := args[0].uni()
			if !ok || b != atom || len(co) != 2 || co[1].Sign() <= 0 {
				return "the estimate for many coupons does not grow"
			}
			v := fltOf(c) * math.Pow(base, fltOf(evalUni(co, at)))
			if v < lo*(1-1e-9) || v > lo*1.001 {
				return fmt.Sprintf("the estimate changes from %g to %g at %s", lo, v, ratStr(at))
			}
			iv := e.ivs[atom]
			if iv.lo == nil || new(big.Rat).Sub(iv.lo, at).Cmp(big.NewRat(1, 1)) > 0 {
				return "some numbers of coupons have no estimate"
			}
		}
	}
	return ""
}

func c17CpcBounds(p *Prog, r *Report) {
	type one struct {
		name  string
		upper bool
		hip   bool
	}
	for _, b := range []one{{"cpc.iconConfidenceLB", false, false}, {"cpc.iconConfidenceUB", true, false}, {"cpc.hipConfidenceLB", false, true}, {"cpc.hipConfidenceUB", true, true}} {
		f := r.need(p, b.name)
		if f == nil {
			continue
		}
		est := p.Fn("cpc.iconEstimate")
		var prev [4]float64
		for lgK := 4; lgK <= 26; lgK++ {
			last := 0.0
			for sd := 1; sd <= 3; sd++ {
				key := fmt.Sprintf("%s, lgK %d, %d standard deviations", b.name, lgK, sd)
				s := newBitsim(p)
				initGlobals(p, s, f)
				s.model = func(fn *ssa.Function, in []bval) (bval, bool) {
					if fn == est && est != nil {
						return bflt{patom("estimate")}, true
					}
					return nil, false
				}
				ends, all := s.paths(f, 50, func() []bval {
					c := s.source("coupons", 64, lgK+6)
					e := s.fsource("estimate", ival{lo: new(big.Rat)})
					if b.hip {
						return []bval{ci(lgK), c, e, ci(sd)}
					}
					return []bval{ci(lgK), c, ci(sd)}
				})
				msg := ""
				if !all {
					msg = "too many paths"
				}
				eps, found := 0.0, false
				for _, e := range ends {
					if e.st != nil {
						msg = e.st.msg
						break
					}
					q, ok := resNum(e.res)
					if !ok {
						msg = "no bound is computed"
						break
					}
					for a, args := range s.opqArg {
						if q.atoms()[a] && len(args) == 1 {
							q = args[0] // rounded up
							break
						}
					}
					if len(q) == 1 && q["estimate^1"] != nil {
						k := fltOf(q["estimate^1"])
						x := k - 1
						if !b.upper {
							x = 1/k - 1
						} else {
							x = 1 - 1/k
						}
						if k <= 0 {
							msg = "the bound is not defined"
						}
						eps, found = x, true
					}
				}
				if msg == "" && !found {
					msg = "the bound does not follow the estimate"
				}
				rse := 0.693147
				if b.hip {
					rse = 0.588705
				}
				if msg == "" {
					z := eps * math.Sqrt(float64(uint64(1)<<uint(lgK))) / (rse * float64(sd))
					switch {
					case eps <= last:
						msg = fmt.Sprintf("the error %g does not grow with the number of standard deviations", eps)
					case lgK > 4 && (prev[sd] <= eps || prev[sd]/eps < 1.2 || prev[sd]/eps > 1.7):
						msg = fmt.Sprintf("the error goes from %g to %g between sizes", prev[sd], eps)
					case z < 0.9 || z > 1.4 || lgK >= 10 && (z < 0.98 || z > 1.05):
						msg = fmt.Sprintf("the error %g is %.3f times the theoretical one", eps, z)
					}
				}
				r.check(msg == "", "errors", key, p.Pos(f.Pos()), msg)
				last, prev[sd] = eps, eps
			}
		}
	}
}

func c17Binomial(p *Prog, r *Report) {
	tail := func(sd int) float64 { return math.Erfc(float64(sd)/math.Sqrt2) / 2 }
	for _, name := range []string{"LowerBound", "UpperBound"} {
		f := r.need(p, "internal/binomialbounds."+name)
		if f == nil {
			continue
		}
		used := map[*bObj]map[int]string{}
		vals := map[*bObj]map[[2]int]float64{}
		for n := 0; n <= 125; n++ {
			for sd := 1; sd <= 3; sd++ {
				key := fmt.Sprintf("%s, %d samples, %d standard deviations", name, n, sd)
				s := newBitsim(p)
				initGlobals(p, s, f)
				s.model = func(fn *ssa.Function, in []bval) (bval, bool) {
					if fn.Pkg == f.Pkg && !readsTables(fn) && loopsFloat(fn) {
						return btuple{bflt{patom("search")}, bnil{}}, true
					}
					return nil, false
				}
				msg := ""
				s.load = func(o *bObj, i int, in ssa.Instruction) {
					k, ok := o.cells[i].(bflt)
					if !ok || o.name == "varargs" || len(o.cells) < 4 {
						return
					}
					c, ok := k.p.konst()
					if !ok {
						return
					}
					v := fltOf(c)
					if len(o.cells) <= 8 { // error probabilities
						if math.Abs(v-tail(sd)) > 2e-4*tail(sd) && msg == "" {
							msg = fmt.Sprintf("the probability %g is used, not %g", v, tail(sd))
						}
						return
					}
					if used[o] == nil {
						used[o], vals[o] = map[int]string{}, map[[2]int]float64{}
					}
					id := fmt.Sprintf("%d/%d", n, sd)
					if old, ok := used[o][i]; ok && old != id && msg == "" {
						msg = fmt.Sprintf("entry %d is used for several numbers of samples", i)
					}
					used[o][i] = id
					vals[o][[2]int{n, sd}] = v
				}
				ends, all := s.paths(f, 300, func() []bval {
					th := s.fsource("theta", ival{lo: new(big.Rat), hi: big.NewRat(1, 1), loOpen: true})
					return []bval{ci(n), th, ci(sd)}
				})
				for _, e := range ends {
					if e.st != nil && msg == "" {
						msg = e.st.msg
					}
				}
				if !all {
					msg = "too many paths"
				}
				r.check(msg == "", "defined", key, p.Pos(f.Pos()), msg)
			}
		}
		for o, u := range used {
			n := len(o.cells)
			msg := ""
			for i := n - 3; i < n; i++ {
				if u[i] == "" {
					msg = fmt.Sprintf("entry %d is never used", i)
				}
			}
			r.check(msg == "", "defined", name+" table coverage", p.Pos(f.Pos()), msg)
			for sd := 1; sd <= 3; sd++ {
				var ks []int
				for k := range vals[o] {
					if k[1] == sd {
						ks = append(ks, k[0])
					}
				}
				sort.Ints(ks)
				var xs []float64
				bad := ""
				sign := 0.0
				for j, k := range ks {
					v := vals[o][[2]int{k, sd}]
					d := math.Abs(v - float64(sd))
					if j > 0 && bad == "" && (d >= xs[j-1] || (v-float64(sd))*sign < 0) {
						bad = fmt.Sprintf("the entry %g for %d samples is no nearer to %d than the one before", v, k, sd)
					}
					if j == len(ks)-1 && bad == "" && d > 0.15 {
						bad = fmt.Sprintf("the entry %g for %d samples is not near %d", v, k, sd)
					}
					sign = v - float64(sd)
					xs = append(xs, d)
				}
				if bad == "" && len(ks) < 119 {
					bad = fmt.Sprintf("only %d numbers of samples have an entry", len(ks))
				}
				if bad == "" && len(xs) > 20 {
					var ys []float64
					for _, x := range xs[6:] {
						ys = append(ys, math.Log(x))
					}
					bad = smooth(ys)
				}
				r.check(bad == "", "smooth", fmt.Sprintf("%s table, %d standard deviations", name, sd), p.Pos(f.Pos()), bad)
			}
		}
		r.check(len(used) == 1, "defined", name+" table", p.Pos(f.Pos()), fmt.Sprintf("%d tables are used", len(used)))
	}
}

func readsTables(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if _, ok := (*o).(*ssa.Global); ok {
					return true
				}
			}
		}
	}
	return false
}

// loopsFloat: the function loops until a floating-point comparison says so.
func loopsFloat(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		n := len(b.Instrs)
		if n == 0 {
			continue
		}
		x, ok := b.Instrs[n-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := x.Cond.(*ssa.BinOp)
		if !ok || !isFloat(c.X.Type()) {
			continue
		}
		if reaches(b, b) {
			return true
		}
	}
	return false
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), from.Succs...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if b == to {
			return true
		}
		if !seen[b] {
			seen[b] = true
			st = append(st, b.Succs...)
		}
	}
	return false
}

func c17Powers(p *Prog, r *Report) {
	if f := r.need(p, "internal.InvPow2"); f != nil {
		for e := 0; e <= 1023; e += 1 {
			if e > 70 && e%50 != 0 && e < 1015 {
				continue
			}
			s := newBitsim(p)
			s.fork = &forkState{}
			res, st := s.run(f, []bval{ci(e)})
			v, ok := konstRes(res)
			r.check(st == nil && ok && (v == math.Exp2(-float64(e)) || e == 1023), "exact", fmt.Sprintf("2^-%d", e), p.Pos(f.Pos()), fmt.Sprintf("the value is %g", v))
		}
	}
	// the byte table of inverse powers used when a CPC sketch is rebuilt
	pk := p.SPkgs["cpc"]
	if g := globalOf(p, "cpc", "kxpByteLookup"); g != nil {
		s := newBitsim(p)
		initGlobals(p, s, pk.Func("init"))
		o := s.global(g)
		es := elemsOf(o.cells[0])
		r.check(len(es) == 256, "exact", "kxpByteLookup", p.Pos(g.Pos()), fmt.Sprintf("the table has %d entries", len(es)))
		for b, e := range es {
			want := 0.0
			for c := 0; c < 8; c++ {
				if b>>c&1 == 0 {
					want += math.Exp2(-float64(c + 1))
				}
			}
			f, ok := e.(bflt)
			var k *big.Rat
			if ok {
				k, ok = f.p.konst()
			}
			r.check(ok && fltOf(k) == want, "exact", fmt.Sprintf("kxpByteLookup[%d]", b), p.Pos(g.Pos()), "the entry is not the sum over the clear bits")
		}
	} else {
		r.undecided("exact", "kxpByteLookup", "", "the table was not found")
	}
	if f := r.need(p, "kll.intCapAuxAux"); f != nil {
		for _, k := range []int{8, 9, 200, 1000, 32767, 32768, 65535} {
			prev := uint64(math.MaxUint64)
			for d := 0; d <= 30; d++ {
				s := newBitsim(p)
				s.fork = &forkState{}
				res, st := s.run(f, []bval{bconst(uint64(k), 16), bconst(uint64(d), 8)})
				v, ok := retConst(res, 0)
				x := new(big.Rat).SetFrac(new(big.Int).Lsh(big.NewInt(int64(k)), uint(d)), new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(d)), nil))
				good := st == nil && ok && v <= prev && math.Abs(fltOf(x)-float64(v)) <= 1
				r.check(good, "exact", fmt.Sprintf("level capacity, k %d, depth %d", k, d), p.Pos(f.Pos()), fmt.Sprintf("the capacity is %d", v))
				prev = v
			}
		}
	}
}

func c17Sizes(p *Prog, r *Report) {
	if f := r.need(p, "cpc.getMaxSerializedBytes"); f != nil {
		prev := 0.0
		for lgK := 4; lgK <= 26; lgK++ {
			s := newBitsim(p)
			s.fork = &forkState{}
			initGlobals(p, s, f)
			res, st := s.run(f, []bval{ci(lgK)})
			v, ok := retConst(res, 0)
			x := float64(v) - 40
			good := st == nil && ok && x > 0 && (lgK == 4 || x/prev > 1.45 && x/prev < 2.05)
			r.check(good, "defined", fmt.Sprintf("maximum size, lgK %d", lgK), p.Pos(f.Pos()), fmt.Sprintf("%d bytes after %v", v, prev+40))
			prev = x
		}
	}
	g := globalOf(p, "hll", "lgAuxArrInts")
	if g == nil {
		r.undecided("defined", "lgAuxArrInts", "", "the table was not found")
		return
	}
	s := newBitsim(p)
	t, ok := tableOf(s.global(g).cells[0])
	msg := ""
	if !ok || len(t) < 22 {
		msg = fmt.Sprintf("the table covers %d sizes", len(t))
	}
	for i := 4; msg == "" && i < len(t); i++ {
		if t[i] < 2 || t[i] < t[i-1] || int(t[i]) >= i {
			msg = fmt.Sprintf("entry %d is %d", i, t[i])
		}
	}
	r.check(msg == "", "defined", "exception table sizes", p.Pos(g.Pos()), msg)
	_ = token.NoPos
}
