package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Floating-point values of bitsim are exact: Laurent polynomials with rational coefficients over named
// atoms (unknown inputs, and applications of functions such as a logarithm to unknown arguments).
// Constant operands are folded in float64, as the compiler folds them.

type poly map[string]*big.Rat // monomial -> coefficient; monomial "a^1*b^-2", "" is the constant

type bflt struct{ p poly }

type ival struct {
	lo, hi         *big.Rat // nil: unbounded
	loOpen, hiOpen bool
}

func pconst(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func patom(a string) poly { return poly{a + "^1": big.NewRat(1, 1)} }

func (p poly) konst() (*big.Rat, bool) {
	switch len(p) {
	case 0:
		return new(big.Rat), true
	case 1:
		if c, ok := p[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func (p poly) keys() []string {
	var k []string
	for m := range p {
		k = append(k, m)
	}
	sort.Strings(k)
	return k
}

func (p poly) String() string {
	var b strings.Builder
	for _, m := range p.keys() {
		fmt.Fprintf(&b, "+%s·%s", p[m].RatString(), m)
	}
	return b.String()
}

func (p poly) add(q poly, sign int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		d := new(big.Rat).Mul(c, big.NewRat(sign, 1))
		if o := r[m]; o != nil {
			d.Add(d, o)
		}
		if d.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = d
		}
	}
	return r
}

func monoParts(m string) map[string]int {
	e := map[string]int{}
	if m == "" {
		return e
	}
	for _, f := range strings.Split(m, "*") {
		i := strings.LastIndexByte(f, '^')
		n := 0
		fmt.Sscanf(f[i+1:], "%d", &n)
		e[f[:i]] += n
	}
	return e
}

func monoJoin(e map[string]int) string {
	var f []string
	for a, n := range e {
		if n != 0 {
			f = append(f, fmt.Sprintf("%s^%d", a, n))
		}
	}
	sort.Strings(f)
	return strings.Join(f, "*")
}

func monoMul(a, b string, sign int) string {
	if b == "" {
		return a
	}
	e := monoParts(a)
	for k, n := range monoParts(b) {
		e[k] += sign * n
	}
	return monoJoin(e)
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			k := monoMul(m, n, 1)
			v := new(big.Rat).Mul(c, d)
			if o := r[k]; o != nil {
				v.Add(v, o)
			}
			if v.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = v
			}
		}
	}
	return r
}

func (p poly) divMono(q poly) (poly, bool) {
	if len(q) != 1 {
		return nil, false
	}
	r := poly{}
	for n, d := range q {
		for m, c := range p {
			r[monoMul(m, n, -1)] = new(big.Rat).Quo(c, d)
		}
	}
	return r, true
}

// uni gives the coefficients when p is a polynomial in one atom (or a constant).
func (p poly) uni() (string, []*big.Rat, bool) {
	atom := ""
	var co []*big.Rat
	for m, c := range p {
		e := monoParts(m)
		if len(e) > 1 {
			return "", nil, false
		}
		d := 0
		for a, n := range e {
			if atom != "" && atom != a || n < 0 {
				return "", nil, false
			}
			atom, d = a, n
		}
		for len(co) <= d {
			co = append(co, new(big.Rat))
		}
		co[d] = c
	}
	if co == nil {
		co = []*big.Rat{new(big.Rat)}
	}
	return atom, co, true
}

func (p poly) atoms() map[string]bool {
	r := map[string]bool{}
	for m := range p {
		for a := range monoParts(m) {
			r[a] = true
		}
	}
	return r
}

func ratOf(f float64) (*big.Rat, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	return new(big.Rat).SetFloat64(f), true
}

func fltOf(r *big.Rat) float64 { f, _ := r.Float64(); return f }

func fconst(f float64) bval {
	r, ok := ratOf(f)
	if !ok && f != f {
		return bunk{"NaN"}
	}
	if !ok {
		return bunk{"infinite or not a number"}
	}
	return bflt{pconst(r)}
}

func isFloat(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsFloat != 0
}

func floatConst(v constant.Value, t types.Type) (bval, bool) {
	if !isFloat(t) || v.Kind() != constant.Float && v.Kind() != constant.Int {
		return nil, false
	}
	f, _ := constant.Float64Val(v)
	if t.Underlying().(*types.Basic).Kind() == types.Float32 {
		g, _ := constant.Float32Val(v)
		f = float64(g)
	}
	return fconst(f), true
}

// forkState drives the enumeration of paths over branches the constants do not decide.
type forkState struct {
	choice []bool
	pos    int
	trail  []fcond // conditions taken that could not be turned into an interval
	flips  []bool
	nodes  int
}

type fcond struct {
	d  poly // compared with zero
	op token.Token
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	}
	return token.EQL
}

// fsource is an unknown number with the given range.
func (s *bitsim) fsource(name string, iv ival) bflt {
	s.ivs[name] = iv
	return bflt{patom(name)}
}

// ipoly expresses an integer vector over atoms.
func (s *bitsim) ipoly(v *bv, uns bool) (poly, bool) {
	if k, ok := v.konst(); ok {
		if uns {
			return pconst(new(big.Rat).SetInt(new(big.Int).SetUint64(k))), true
		}
		n, _ := v.sval()
		return pconst(big.NewRat(n, 1)), true
	}
	l, ok := s.lin(v)
	if !ok {
		return nil, false
	}
	r := poly{}
	for id, c := range l {
		k := big.NewRat(int64(c), 1)
		if id == 0 {
			r = r.add(pconst(k), 1)
			continue
		}
		r = r.add(poly{s.isrc(id) + "^1": k}, 1)
	}
	if uns {
		if iv := s.bound(r); iv.lo == nil || iv.lo.Sign() < 0 {
			return nil, false // may have wrapped around
		}
	}
	return r, true
}

func (s *bitsim) isrc(id int) string {
	n := fmt.Sprintf("i:%s.%d", s.srcs[id].name, id)
	if _, ok := s.ivs[n]; !ok {
		lo, hi := s.srcs[id].v.bounds()
		s.ivs[n] = ival{lo: new(big.Rat).SetInt(new(big.Int).SetUint64(lo)), hi: new(big.Rat).SetInt(new(big.Int).SetUint64(hi))}
	}
	return n
}

// bound gives the range of a linear expression from the ranges of its atoms.
func (s *bitsim) bound(p poly) ival {
	lo, hi := new(big.Rat), new(big.Rat)
	var r ival
	for m, c := range p {
		if m == "" {
			if lo != nil {
				lo.Add(lo, c)
			}
			if hi != nil {
				hi.Add(hi, c)
			}
			continue
		}
		e := monoParts(m)
		var iv ival
		if len(e) == 1 {
			for a, n := range e {
				v, ok := s.ivs[a]
				switch {
				case ok && n == 1:
					iv = v
				case ok && v.lo != nil && v.lo.Sign() >= 0 && n > 0:
					iv = v
					iv.lo = ratPow(v.lo, n)
					if v.hi != nil {
						iv.hi = ratPow(v.hi, n)
					}
				}
			}
		}
		if c.Sign() < 0 {
			iv.lo, iv.hi, iv.loOpen, iv.hiOpen = iv.hi, iv.lo, iv.hiOpen, iv.loOpen
		}
		if iv.lo == nil {
			lo = nil
		}
		if iv.hi == nil {
			hi = nil
		}
		if lo != nil {
			lo.Add(lo, new(big.Rat).Mul(c, iv.lo))
		}
		if hi != nil {
			hi.Add(hi, new(big.Rat).Mul(c, iv.hi))
		}
		r.loOpen = r.loOpen || iv.loOpen
		r.hiOpen = r.hiOpen || iv.hiOpen
		if lo == nil && hi == nil {
			return ival{}
		}
	}
	r.lo, r.hi = lo, hi
	return r
}

func ratPow(r *big.Rat, n int) *big.Rat {
	x := big.NewRat(1, 1)
	for i := 0; i < n; i++ {
		x.Mul(x, r)
	}
	return x
}

// decide answers whether d op 0 follows from the ranges: 1 yes, 0 no, -1 unknown.
func (s *bitsim) decide(d poly, op token.Token) int {
	iv := s.bound(d)
	z := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case token.GTR, token.GEQ, token.LSS, token.LEQ:
		if op == token.LSS || op == token.LEQ {
			iv = ival{lo: neg(iv.hi), hi: neg(iv.lo), loOpen: iv.hiOpen, hiOpen: iv.loOpen}
		}
		strict := op == token.GTR || op == token.LSS
		if iv.lo != nil && (iv.lo.Sign() > 0 || iv.lo.Sign() == 0 && (!strict || iv.loOpen)) {
			return 1
		}
		if iv.hi != nil && (iv.hi.Sign() < 0 || iv.hi.Sign() == 0 && (strict || iv.hiOpen)) {
			return 0
		}
	case token.EQL, token.NEQ:
		if c, ok := d.konst(); ok {
			return z((c.Sign() == 0) == (op == token.EQL))
		}
		out := iv.lo != nil && (iv.lo.Sign() > 0 || iv.lo.Sign() == 0 && iv.loOpen) || iv.hi != nil && (iv.hi.Sign() < 0 || iv.hi.Sign() == 0 && iv.hiOpen)
		if out {
			return z(op == token.NEQ)
		}
	}
	return -1
}

func neg(r *big.Rat) *big.Rat {
	if r == nil {
		return nil
	}
	return new(big.Rat).Neg(r)
}

// assume narrows the range of the atom of a one-atom linear condition; other conditions are kept on the trail.
func (s *bitsim) assume(d poly, op token.Token) {
	atom, co, ok := d.uni()
	if !ok || len(co) != 2 || atom == "" || op == token.NEQ {
		if ok && len(co) == 2 && op == token.NEQ {
			root := new(big.Rat).Quo(neg(co[0]), co[1])
			iv := s.ivs[atom]
			switch {
			case iv.lo != nil && iv.lo.Cmp(root) == 0:
				iv.loOpen = true
			case iv.hi != nil && iv.hi.Cmp(root) == 0:
				iv.hiOpen = true
			default:
				s.fork.trail = append(s.fork.trail, fcond{d, op})
				return
			}
			s.ivs[atom] = s.tighten(atom, iv)
			return
		}
		s.fork.trail = append(s.fork.trail, fcond{d, op})
		return
	}
	root := new(big.Rat).Quo(neg(co[0]), co[1])
	if co[1].Sign() < 0 {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	iv := s.ivs[atom]
	open := op == token.LSS || op == token.GTR
	if op == token.GTR || op == token.GEQ || op == token.EQL {
		if iv.lo == nil || iv.lo.Cmp(root) < 0 || iv.lo.Cmp(root) == 0 && open {
			iv.lo, iv.loOpen = root, open
		}
	}
	if op == token.LSS || op == token.LEQ || op == token.EQL {
		if iv.hi == nil || iv.hi.Cmp(root) > 0 || iv.hi.Cmp(root) == 0 && open {
			iv.hi, iv.hiOpen = root, open
		}
	}
	s.ivs[atom] = s.tighten(atom, iv)
}

// tighten rounds the range of an integer inwards.
func (s *bitsim) tighten(atom string, iv ival) ival {
	if !strings.HasPrefix(atom, "i:") {
		return iv
	}
	if iv.lo != nil {
		n := new(big.Int).Div(iv.lo.Num(), iv.lo.Denom())
		if !iv.lo.IsInt() || iv.loOpen {
			n.Add(n, big.NewInt(1))
		}
		iv.lo, iv.loOpen = new(big.Rat).SetInt(n), false
	}
	if iv.hi != nil {
		n := new(big.Int).Div(iv.hi.Num(), iv.hi.Denom())
		if iv.hi.IsInt() && iv.hiOpen {
			n.Sub(n, big.NewInt(1))
		}
		iv.hi, iv.hiOpen = new(big.Rat).SetInt(n), false
	}
	return iv
}

type pathEnd struct {
	res   bval
	st    *bstop
	ivs   map[string]ival
	trail []fcond
}

// paths follows fn along every combination of the branches that the constants leave open.
// setup prepares the arguments afresh for every path.
func (s *bitsim) paths(fn *ssa.Function, limit int, setup func() []bval) ([]pathEnd, bool) {
	var ends []pathEnd
	var choice []bool
	base := len(s.srcs)
	for {
		s.srcs = s.srcs[:base]
		s.byLin = map[string]int{}
		if s.vn != nil {
			s.numbering()
		}
		s.ivs = map[string]ival{}
		s.fork = &forkState{choice: choice}
		s.pin, s.neg, s.eqs = nil, nil, map[*bv]bitEq{}
		s.fbits, s.fback = nil, nil
		in := setup()
		res, st := s.run(fn, in)
		ends = append(ends, pathEnd{res, st, s.ivs, s.fork.trail})
		taken := s.fork.choice[:s.fork.pos]
		for len(taken) > 0 && !taken[len(taken)-1] {
			taken = taken[:len(taken)-1]
		}
		if len(taken) == 0 {
			s.fork = nil
			return ends, true
		}
		choice = append([]bool(nil), taken...)
		choice[len(choice)-1] = false
		if len(ends) >= limit {
			s.fork = nil
			return ends, false
		}
	}
}

// explore runs body along every combination of the branches that the constants leave open.
func (s *bitsim) explore(limit int, body func(), stopped func(*bstop)) bool {
	var choice []bool
	base := len(s.srcs)
	for n := 1; ; n++ {
		s.srcs = s.srcs[:base]
		s.byLin = map[string]int{}
		if s.vn != nil {
			s.numbering()
		}
		s.ivs = map[string]ival{}
		s.fork = &forkState{choice: choice}
		s.pin, s.neg, s.eqs = nil, nil, map[*bv]bitEq{}
		s.fbits, s.fback = nil, nil
		s.steps, s.depth, s.trail = 0, 0, nil
		func() {
			defer func() {
				if e := recover(); e != nil {
					b, ok := e.(bstop)
					if !ok {
						panic(e)
					}
					stopped(&b)
				}
			}()
			body()
		}()
		taken := s.fork.choice[:s.fork.pos]
		for len(taken) > 0 && !taken[len(taken)-1] {
			taken = taken[:len(taken)-1]
		}
		if len(taken) == 0 {
			s.fork = nil
			return true
		}
		choice = append([]bool(nil), taken...)
		choice[len(choice)-1] = false
		if n >= limit {
			s.fork = nil
			return false
		}
	}
}

// branch picks the next direction at an undecided condition.
func (s *bitsim) branch() bool {
	f := s.fork
	if f.pos == len(f.choice) {
		f.choice = append(f.choice, true)
	}
	c := f.choice[f.pos]
	f.pos++
	return c
}

// fcompare answers a comparison of numbers; an undecided one is returned as an unknown truth value that remembers its condition.
func (s *bitsim) fcompare(op token.Token, d poly) bval {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil
	}
	switch s.decide(d, op) {
	case 1:
		return bbool(true)
	case 0:
		return bbool(false)
	}
	r := &bv{w: 1}
	r.b[0] = bTop
	if s.fork != nil {
		s.conds[r] = fcond{d, op}
	}
	return r
}

func (s *bitsim) fbin(op token.Token, a, b poly) bval {
	if r := s.fcompare(op, a.add(b, -1)); r != nil {
		return r
	}
	ka, ok1 := a.konst()
	kb, ok2 := b.konst()
	if ok1 && ok2 {
		x, y := fltOf(ka), fltOf(kb)
		if s.special {
			switch op {
			case token.ADD:
				return fspVal(x + y)
			case token.SUB:
				return fspVal(x - y)
			case token.MUL:
				return fspVal(x * y)
			case token.QUO:
				return fspVal(x / y)
			}
		}
		switch op {
		case token.ADD:
			return fconst(x + y)
		case token.SUB:
			return fconst(x - y)
		case token.MUL:
			return fconst(x * y)
		case token.QUO:
			return fconst(x / y)
		}
	}
	switch op {
	case token.ADD:
		return bflt{a.add(b, 1)}
	case token.SUB:
		return bflt{a.add(b, -1)}
	case token.MUL:
		return bflt{a.mul(b)}
	case token.QUO:
		if ok2 && kb.Sign() == 0 {
			return bunk{"division by zero"}
		}
		if ok2 {
			if r, ok := a.divMono(b); ok {
				return bflt{r}
			}
		}
		if iv := s.bound(b); iv.lo != nil && (iv.lo.Sign() > 0 || iv.lo.Sign() == 0 && iv.loOpen) {
			v := s.opaqueF("inv", false, func(x float64) float64 { return 1 / x }, b)
			return bflt{a.mul(v.(bflt).p)}
		}
		n := s.opaque("inv", b)
		return bflt{a.mul(patom(n))}
	}
	return bunk{"operator"}
}

// opaque is the atom for a function applied to an expression.
func (s *bitsim) opaque(name string, args ...poly) string {
	k := name
	for _, a := range args {
		k += "|" + a.String()
	}
	if n, ok := s.opq[k]; ok {
		return n
	}
	n := fmt.Sprintf("%s#%d", name, len(s.opq))
	s.opq[k] = n
	s.opqArg[n] = args
	return n
}

// opaqueF gives the value of a function of unknown arguments, with its range where the function is monotone.
func (s *bitsim) opaqueF(name string, inc bool, f func(float64) float64, a poly) bval {
	n := s.opaque(name, a)
	iv := s.bound(a)
	var r ival
	lo, hi := iv.lo, iv.hi
	if !inc {
		lo, hi = hi, lo
	}
	slack := func(v float64, up bool) *big.Rat {
		if up {
			v = math.Nextafter(v, math.Inf(1))
		} else {
			v = math.Nextafter(v, math.Inf(-1))
		}
		x, ok := ratOf(v)
		if !ok {
			return nil
		}
		return x
	}
	if lo != nil {
		r.lo = slack(f(fltOf(lo)), false)
	}
	if hi != nil {
		r.hi = slack(f(fltOf(hi)), true)
	}
	s.ivs[n] = r
	return bflt{patom(n)}
}

// toBits gives the representation of a number as a source of its own, the same for the same number.
func (s *bitsim) toBits(p poly, w int) bval {
	if v, ok := s.fsrc[p.String()]; ok && v.w == w {
		return s.pinned(v)
	}
	key := fmt.Sprintf("%d:%s", w, p.String())
	if id, ok := s.fbits[key]; ok {
		c := s.srcs[id].v
		return &c
	}
	if s.fbits == nil {
		s.fbits, s.fback = map[string]int{}, map[int]poly{}
	}
	id := len(s.srcs)
	r := s.source("bits of "+p.String(), w, w)
	s.fbits[key], s.fback[id] = id, p
	return r
}

// fromBits is the number with the given representation.
func (s *bitsim) fromBits(v *bv) bval {
	if id := int(v.b[0]-bBase) / 64; v.b[0] >= bBase {
		if p, ok := s.fback[id]; ok && s.srcs[id].v.w == v.w && s.srcs[id].v.b == v.b {
			return bflt{p}
		}
	}
	var k []string
	for i := 0; i < v.w; i++ {
		if v.b[i] == bTop {
			return bunk{"frombits"}
		}
		k = append(k, fmt.Sprint(v.b[i]))
	}
	n := fmt.Sprintf("number%d[%s]", v.w, strings.Join(k, ","))
	if s.fsrc == nil {
		s.fsrc = map[string]*bv{}
	}
	s.fsrc[patom(n).String()] = v
	return bflt{patom(n)}
}

func mathFrom(k uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func (s *bitsim) mathCall(name string, in []bval) (bval, bool) {
	var a []poly
	kk := true
	var k []float64
	inf := false
	for _, v := range in {
		switch x := v.(type) {
		case fspecial:
			k = append(k, float64(x))
			a = append(a, poly{})
			inf = true
		case bflt:
			a = append(a, x.p)
			c, ok := x.p.konst()
			kk = kk && ok
			if ok {
				k = append(k, fltOf(c))
			}
		case *bv:
			c, ok := x.konst()
			kk = kk && ok
			if ok && s.huge && name == "Float64frombits" {
				return fspVal(math.Float64frombits(c)), true
			}
			if ok && s.huge && name == "Float32frombits" {
				return fspVal(float64(math.Float32frombits(uint32(c)))), true
			}
			if ok && name == "Float64frombits" {
				return fconst(math.Float64frombits(c)), true
			}
			if ok && name == "Float32frombits" {
				return fconst(float64(math.Float32frombits(uint32(c)))), true
			}
			if !ok && (name == "Float64frombits" || name == "Float32frombits") {
				return s.fromBits(x), true
			}
			if !ok {
				return bunk{name}, true
			}
			k = append(k, float64(c))
			a = append(a, pconst(new(big.Rat).SetInt(new(big.Int).SetUint64(c))))
		default:
			return bunk{name}, true
		}
	}
	if inf && !kk {
		return bunk{name}, true
	}
	one := map[string]func(float64) float64{"Log": math.Log, "Sqrt": math.Sqrt, "Exp": math.Exp, "Floor": math.Floor, "Ceil": math.Ceil, "Abs": math.Abs, "Log2": math.Log2, "Exp2": math.Exp2, "Log1p": math.Log1p, "Expm1": math.Expm1, "Trunc": math.Trunc, "Round": math.Round}
	if f := one[name]; f != nil && len(a) == 1 {
		if kk {
			if s.special {
				return fspVal(f(k[0])), true
			}
			return fconst(f(k[0])), true
		}
		if name == "Abs" {
			switch {
			case s.decide(a[0], token.GEQ) == 1:
				return in[0], true
			case s.decide(a[0], token.LEQ) == 1:
				return bflt{poly{}.add(a[0], -1)}, true
			}
			return bflt{patom(s.opaque(name, a[0]))}, true
		}
		return s.opaqueF(name, true, f, a[0]), true
	}
	switch name {
	case "Pow":
		if kk {
			return fconst(math.Pow(k[0], k[1])), true
		}
		if b, ok := a[0].konst(); ok && b.Sign() > 0 {
			base := fltOf(b)
			return s.opaqueF(fmt.Sprintf("pow%g", base), base >= 1, func(x float64) float64 { return math.Pow(base, x) }, a[1]), true
		}
		return bflt{patom(s.opaque(name, a...))}, true
	case "Max", "Min":
		return s.fmax(name == "Max", a[0], a[1]), true
	case "Float64bits":
		if kk {
			return bconst(math.Float64bits(k[0]), 64), true
		}
		return s.toBits(a[0], 64), true
	case "Float32bits":
		if kk {
			return bconst(uint64(math.Float32bits(float32(k[0]))), 32), true
		}
		return s.toBits(a[0], 32), true
	case "IsNaN", "IsInf":
		return bbool(false), true
	}
	return bunk{name}, true
}

func (s *bitsim) fmax(max bool, a, b poly) bval {
	op := token.GEQ
	if !max {
		op = token.LEQ
	}
	d := a.add(b, -1)
	switch s.decide(d, op) {
	case 1:
		return bflt{a}
	case 0:
		return bflt{b}
	}
	if s.fork == nil {
		return bflt{patom(s.opaque("max", a, b))}
	}
	if s.branch() {
		s.assume(d, op)
		return bflt{a}
	}
	s.assume(d, negOp(op))
	return bflt{b}
}

// bernPos decides whether the polynomial with coefficients co is positive on all of [lo, hi], exactly,
// by its Bernstein coefficients on ever smaller parts.
func bernPos(co []*big.Rat, lo, hi *big.Rat, depth int) (bool, *big.Rat) {
	n := len(co) - 1
	w := new(big.Rat).Sub(hi, lo)
	// q(t) = p(lo + w t)
	q := make([]*big.Rat, n+1)
	for i := range q {
		q[i] = new(big.Rat).Set(co[i])
	}
	for i := 0; i < n; i++ { // Taylor shift by lo
		for j := n - 1; j >= i; j-- {
			q[j].Add(q[j], new(big.Rat).Mul(lo, q[j+1]))
		}
	}
	pw := big.NewRat(1, 1)
	for i := 0; i <= n; i++ {
		q[i].Mul(q[i], pw)
		pw = new(big.Rat).Mul(pw, w)
	}
	b := make([]*big.Rat, n+1)
	for i := 0; i <= n; i++ {
		b[i] = new(big.Rat)
		for j := 0; j <= i; j++ {
			c := new(big.Rat).SetFrac(new(big.Int).Binomial(int64(i), int64(j)), new(big.Int).Binomial(int64(n), int64(j)))
			b[i].Add(b[i], c.Mul(c, q[j]))
		}
	}
	return bernSplit(b, lo, hi, depth)
}

func bernSplit(b []*big.Rat, lo, hi *big.Rat, depth int) (bool, *big.Rat) {
	if b[0].Sign() <= 0 {
		return false, lo
	}
	if b[len(b)-1].Sign() <= 0 {
		return false, hi
	}
	ok := true
	for _, c := range b {
		if c.Sign() <= 0 {
			ok = false
		}
	}
	if ok {
		return true, nil
	}
	mid := new(big.Rat).Add(lo, hi)
	mid.Quo(mid, big.NewRat(2, 1))
	if depth == 0 {
		return false, mid
	}
	n := len(b)
	l, r := make([]*big.Rat, n), make([]*big.Rat, n)
	t := append([]*big.Rat(nil), b...)
	half := big.NewRat(1, 2)
	for k := 0; k < n; k++ {
		l[k], r[n-1-k] = t[0], t[n-1-k]
		for i := 0; i < n-1-k; i++ {
			x := new(big.Rat).Add(t[i], t[i+1])
			t[i] = x.Mul(x, half)
		}
	}
	if ok, w := bernSplit(l, lo, mid, depth-1); !ok {
		return false, w
	}
	return bernSplit(r, mid, hi, depth-1)
}

func deriv(co []*big.Rat) []*big.Rat {
	if len(co) <= 1 {
		return []*big.Rat{new(big.Rat)}
	}
	var r []*big.Rat
	for i := 1; i < len(co); i++ {
		r = append(r, new(big.Rat).Mul(co[i], big.NewRat(int64(i), 1)))
	}
	return r
}

func evalUni(co []*big.Rat, x *big.Rat) *big.Rat {
	r := new(big.Rat)
	for i := len(co) - 1; i >= 0; i-- {
		r.Mul(r, x)
		r.Add(r, co[i])
	}
	return r
}
