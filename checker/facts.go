package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// Facts is the path condition: assumed boolean terms, linear inequalities over integer
// terms (lin <= 0), interval facts on floats with a possible-NaN flag, and nilness.
type Facts struct {
	cond map[*Term]bool
	ineq []*lin
	iv   map[*Term]itv
	fl   map[*Term]fitv
	nilf map[*Term]bool
	eqc  map[*Term]*Term // term known equal to a constant or other term (non-integer)
}

type fitv struct {
	lo, hi         float64
	loOpen, hiOpen bool
	none           bool // no non-NaN value possible
	nan            bool // may be NaN
}

var fTop = fitv{lo: math.Inf(-1), hi: math.Inf(1), nan: true}

func newFacts() *Facts {
	return &Facts{map[*Term]bool{}, nil, map[*Term]itv{}, map[*Term]fitv{}, map[*Term]bool{}, map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{make(map[*Term]bool, len(f.cond)+2), append([]*lin(nil), f.ineq...), make(map[*Term]itv, len(f.iv)+2), make(map[*Term]fitv, len(f.fl)), make(map[*Term]bool, len(f.nilf)+2), make(map[*Term]*Term, len(f.eqc))}
	for k, v := range f.cond {
		n.cond[k] = v
	}
	for k, v := range f.iv {
		n.iv[k] = v
	}
	for k, v := range f.fl {
		n.fl[k] = v
	}
	for k, v := range f.nilf {
		n.nilf[k] = v
	}
	for k, v := range f.eqc {
		n.eqc[k] = v
	}
	return n
}

// intv: interval of an integer term under the facts.
func (f *Facts) intv(t *Term) itv { return f.intvD(t, 0) }

func (f *Facts) intvD(t *Term, d int) itv {
	if b, ok := t.intVal(); ok {
		return itv{b, b}
	}
	r := typeItv(t.t)
	if v, ok := f.iv[t]; ok {
		r = r.meet(v)
	}
	if d > 8 {
		return r
	}
	switch t.op {
	case "len", "cap":
		r = r.meet(itv{bi(0), bi(1 << 48)})
	case "conv":
		if isIntT(t.a[0].t) {
			x := f.intvD(t.a[0], d+1)
			if x.within(typeItv(t.t)) {
				r = r.meet(x)
			}
		}
	case "ret":
		switch t.s {
		case "math/bits.Len64", "math/bits.LeadingZeros64", "math/bits.TrailingZeros64", "math/bits.OnesCount64", "math/bits.Len", "math/bits.LeadingZeros", "math/bits.TrailingZeros", "math/bits.OnesCount":
			r = r.meet(itv{bi(0), bi(64)})
		case "math/bits.Len32", "math/bits.LeadingZeros32", "math/bits.TrailingZeros32", "math/bits.OnesCount32":
			r = r.meet(itv{bi(0), bi(32)})
		case "math/bits.Len8", "math/bits.LeadingZeros8", "math/bits.TrailingZeros8", "math/bits.OnesCount8":
			r = r.meet(itv{bi(0), bi(8)})
		}
	case "min", "max":
		x, y := f.intvD(t.a[0], d+1), f.intvD(t.a[1], d+1)
		if t.op == "min" {
			r = r.meet(itv{lowerOf(x.lo, y.lo), minHi(x.hi, y.hi)})
		} else {
			r = r.meet(itv{maxLo(x.lo, y.lo), upperOf(x.hi, y.hi)})
		}
	case "bin":
		x, y := f.intvD(t.a[0], d+1), f.intvD(t.a[1], d+1)
		switch t.binOp() {
		case token.ADD, token.SUB, token.MUL:
			if v := itvArith(t.binOp(), x, y); v.within(typeItv(t.t)) || !isUnsignedT(t.t) && intBits(t.t) == 64 && v.lo != nil && v.hi != nil && bothSmall(x, y) {
				r = r.meet(v)
			}
		case token.AND:
			if y.lo != nil && y.lo.Sign() >= 0 && y.hi != nil {
				r = r.meet(itv{bi(0), y.hi})
			}
			if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
				r = r.meet(itv{bi(0), x.hi})
			}
		case token.AND_NOT:
			if x.lo != nil && x.lo.Sign() >= 0 {
				r = r.meet(itv{bi(0), x.hi})
			}
		case token.OR, token.XOR:
			if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 && x.hi != nil && y.hi != nil {
				n := uint(x.hi.BitLen())
				if m := uint(y.hi.BitLen()); m > n {
					n = m
				}
				lo := bi(0)
				if t.binOp() == token.OR {
					lo = maxLo(x.lo, y.lo)
				}
				r = r.meet(itv{lo, new(big.Int).Sub(new(big.Int).Lsh(bi(1), n), bi(1))})
			}
		case token.SHR:
			if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
				hi := x.hi
				if y.lo != nil && y.lo.IsInt64() && y.lo.Int64() >= 0 && y.lo.Int64() < 256 {
					hi = new(big.Int).Rsh(x.hi, uint(y.lo.Int64()))
				}
				lo := bi(0)
				if y.hi != nil && y.hi.IsInt64() && y.hi.Int64() >= 0 && y.hi.Int64() < 256 {
					lo = new(big.Int).Rsh(x.lo, uint(y.hi.Int64()))
				}
				r = r.meet(itv{lo, hi})
			}
		case token.SHL:
			if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && y.hi != nil && y.hi.IsInt64() && y.hi.Int64() < 200 && y.lo != nil && y.lo.Sign() >= 0 {
				v := itv{new(big.Int).Lsh(x.lo, uint(y.lo.Int64())), new(big.Int).Lsh(x.hi, uint(y.hi.Int64()))}
				if v.within(typeItv(t.t)) {
					r = r.meet(v)
				}
			}
		case token.REM:
			if y.lo != nil && y.hi != nil && y.lo.Sign() > 0 {
				h := new(big.Int).Sub(y.hi, bi(1))
				if x.lo != nil && x.lo.Sign() >= 0 {
					if x.hi != nil && x.hi.Cmp(h) < 0 {
						h = x.hi
					}
					r = r.meet(itv{bi(0), h})
				} else {
					r = r.meet(itv{mkNeg(h), h})
				}
			}
		case token.QUO:
			if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0 && x.hi != nil {
				lo := bi(0)
				if y.hi != nil {
					lo = new(big.Int).Quo(x.lo, y.hi)
				}
				r = r.meet(itv{lo, new(big.Int).Quo(x.hi, y.lo)})
			}
		}
	}
	return r
}

func bothSmall(a, b itv) bool {
	lim := typeItv(types.Typ[types.Int])
	return a.within(lim) && b.within(lim)
}

func minHi(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxLo(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) > 0 {
		return a
	}
	return b
}
func lowerOf(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func upperOf(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func itvArith(op token.Token, x, y itv) itv {
	var r itv
	switch op {
	case token.ADD:
		if x.lo != nil && y.lo != nil {
			r.lo = new(big.Int).Add(x.lo, y.lo)
		}
		if x.hi != nil && y.hi != nil {
			r.hi = new(big.Int).Add(x.hi, y.hi)
		}
	case token.SUB:
		if x.lo != nil && y.hi != nil {
			r.lo = new(big.Int).Sub(x.lo, y.hi)
		}
		if x.hi != nil && y.lo != nil {
			r.hi = new(big.Int).Sub(x.hi, y.lo)
		}
	case token.MUL:
		if x.lo == nil || x.hi == nil || y.lo == nil || y.hi == nil {
			return r
		}
		for _, a := range []*big.Int{x.lo, x.hi} {
			for _, b := range []*big.Int{y.lo, y.hi} {
				p := new(big.Int).Mul(a, b)
				if r.lo == nil || p.Cmp(r.lo) < 0 {
					r.lo = p
				}
				if r.hi == nil || p.Cmp(r.hi) > 0 {
					r.hi = p
				}
			}
		}
	}
	return r
}

// strictOverflow makes + and - on int and int64 linear only when the interval shows no wrap.
var strictOverflow = false

// linOf: linear form of an integer term; operators that may wrap stay atoms.
func (f *Facts) linOf(t *Term) *lin { return f.linD(t, 0) }

func (f *Facts) linD(t *Term, d int) *lin {
	if b, ok := t.intVal(); ok {
		return linConst(b)
	}
	if d > 12 {
		return linAtom(t)
	}
	switch t.op {
	case "conv":
		if isIntT(t.a[0].t) && f.intv(t.a[0]).within(typeItv(t.t)) {
			return f.linD(t.a[0], d+1)
		}
	case "bin":
		switch t.binOp() {
		case token.ADD, token.SUB:
			if f.noWrap(t) {
				c := int64(1)
				if t.binOp() == token.SUB {
					c = -1
				}
				return f.linD(t.a[0], d+1).addScaled(f.linD(t.a[1], d+1), c)
			}
		case token.MUL:
			for i := 0; i < 2; i++ {
				if k, ok := t.a[i].intVal(); ok && k.IsInt64() && f.noWrap(t) {
					return linConst(bi(0)).addScaled(f.linD(t.a[1-i], d+1), k.Int64())
				}
			}
		case token.SHL:
			if k, ok := t.a[1].intVal(); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() < 40 {
				v := f.intv(t.a[0])
				if v.lo != nil && v.hi != nil {
					w := itv{new(big.Int).Lsh(v.lo, uint(k.Int64())), new(big.Int).Lsh(v.hi, uint(k.Int64()))}
					if w.within(typeItv(t.t)) || (!isUnsignedT(t.t) && intBits(t.t) == 64 && !strictOverflow) {
						return linConst(bi(0)).addScaled(f.linD(t.a[0], d+1), 1<<uint(k.Int64()))
					}
				}
			}
		}
	}
	return linAtom(t)
}

// noWrap: the operation cannot wrap. int arithmetic is taken not to overflow unless strictOverflow.
func (f *Facts) noWrap(t *Term) bool {
	x, y := f.intv(t.a[0]), f.intv(t.a[1])
	if itvArith(t.binOp(), x, y).within(typeItv(t.t)) {
		return true
	}
	if !strictOverflow && !isUnsignedT(t.t) && intBits(t.t) == 64 {
		return true
	}
	if t.binOp() == token.SUB && isUnsignedT(t.t) {
		// a - b with b <= a known
		return f.proveLE(f.linOf(t.a[1]).addScaled(f.linOf(t.a[0]), -1))
	}
	return false
}

func (f *Facts) ub(l *lin) *big.Int {
	s := new(big.Int).Set(l.k)
	for t, c := range l.m {
		v := f.intv(t)
		b := v.hi
		if c < 0 {
			b = v.lo
		}
		if b == nil {
			return nil
		}
		s.Add(s, new(big.Int).Mul(b, bi(c)))
	}
	return s
}

// proveLE: l <= 0 follows from the facts.
func (f *Facts) proveLE(l *lin) bool { return f.prove(l, 2) }

func (f *Facts) prove(l *lin, depth int) bool {
	if u := f.ub(l); u != nil && u.Sign() <= 0 {
		return true
	}
	if depth == 0 || len(l.m) == 0 {
		return false
	}
	for i := len(f.ineq) - 1; i >= 0; i-- {
		q := f.ineq[i]
		for t, c := range l.m {
			cq, ok := q.m[t]
			if !ok || (cq > 0) != (c > 0) || c%cq != 0 {
				continue
			}
			if f.prove(l.addScaled(q, -(c/cq)), depth-1) {
				return true
			}
		}
	}
	return false
}

func ltLin(f *Facts, a, b *Term) *lin { // a < b  ==  a - b + 1 <= 0
	l := f.linOf(a).addScaled(f.linOf(b), -1)
	l.k.Add(l.k, bi(1))
	return l
}
func leLin(f *Facts, a, b *Term) *lin { return f.linOf(a).addScaled(f.linOf(b), -1) }

// decide: the truth of a boolean term under the facts.
func (f *Facts) decide(c *Term) (val, known bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if v, ok := f.cond[c]; ok {
		return v, true
	}
	switch c.op {
	case "not":
		v, ok := f.decide(c.a[0])
		return !v, ok
	case "isnan":
		v := f.flt(c.a[0])
		if !v.nan {
			return false, true
		}
		if v.none {
			return true, true
		}
		return false, false
	case "isinf":
		v := f.flt(c.a[0])
		if v.none || !math.IsInf(v.lo, -1) && !math.IsInf(v.hi, 1) {
			return false, true
		}
		return false, false
	case "bin":
		a, b := c.a[0], c.a[1]
		switch c.binOp() {
		case token.LSS, token.LEQ:
			if isIntT(a.t) || isIntT(b.t) {
				l := leLin(f, a, b)
				if c.binOp() == token.LSS {
					l.k.Add(l.k, bi(1))
				}
				if f.proveLE(l) {
					return true, true
				}
				// not(l<=0): -l+1 <= 0
				n := linConst(bi(1)).addScaled(l, -1)
				if f.proveLE(n) {
					return false, true
				}
				return false, false
			}
			// what is known of the reverse comparison
			if v, ok := f.cond[mkBin(token.LSS, b, a, tBool)]; ok && v {
				return false, true
			}
			if v, ok := f.cond[mkBin(token.LEQ, b, a, tBool)]; ok && v && c.binOp() == token.LSS {
				return false, true
			}
			if v, ok := f.cond[mkBin(token.LSS, a, b, tBool)]; ok && v {
				return true, true
			}
			if f.floaty(a) || f.floaty(b) {
				return f.decideFlt(c.binOp(), a, b)
			}
		case token.EQL:
			if isIntT(a.t) || isIntT(b.t) {
				l := leLin(f, a, b)
				if len(l.m) == 0 {
					return l.k.Sign() == 0, true
				}
				n := linConst(bi(0)).addScaled(l, -1)
				if f.proveLE(l) && f.proveLE(n) {
					return true, true
				}
				l1 := linConst(bi(1)).addScaled(l, 1)
				n1 := linConst(bi(1)).addScaled(n, 1)
				if f.proveLE(l1) || f.proveLE(n1) {
					return false, true
				}
				return false, false
			}
			if f.floaty(a) || f.floaty(b) {
				return f.decideFlt(token.EQL, a, b)
			}
			if b.isNil() {
				if v, ok := f.nilness(a); ok {
					return v, true
				}
			}
			if a.isNil() {
				if v, ok := f.nilness(b); ok {
					return v, true
				}
			}
			if a == b {
				return true, true
			}
			if x, ok := f.eqc[a]; ok && x.op == "cst" && b.op == "cst" {
				return x == b, true
			}
			if x, ok := f.eqc[b]; ok && x.op == "cst" && a.op == "cst" {
				return x == a, true
			}
		}
	}
	return false, false
}

// floaty: a float, or a value of a type parameter known to hold one.
func (f *Facts) floaty(t *Term) bool {
	if isFloatT(t.t) {
		return true
	}
	if t.t != nil && isTypeParam(t.t) {
		_, ok := f.fl[t]
		return ok
	}
	return false
}

// nilness: whether a reference-valued term is nil.
func (f *Facts) nilness(t *Term) (isNil, known bool) {
	if t.isNil() {
		return true, true
	}
	switch t.op {
	case "alloc", "iface", "closure", "func", "err", "fld", "elem", "global", "cobj":
		return false, true
	case "slc":
		if t.a[0].op == "alloc" {
			return false, true
		}
	}
	v, ok := f.nilf[t]
	return v, ok
}

func (f *Facts) flt(t *Term) fitv { return f.fltD(t, 0) }

func (f *Facts) fltD(t *Term, d int) fitv {
	if v, ok := t.fltVal(); ok {
		return fitv{lo: v, hi: v}
	}
	if t.op == "nan" {
		return fitv{none: true, nan: true}
	}
	r := fTop
	if d < 8 {
		switch t.op {
		case "conv":
			x := t.a[0]
			if isIntT(x.t) {
				v := f.intv(x)
				r = fitv{lo: math.Inf(-1), hi: math.Inf(1)}
				if v.lo != nil {
					r.lo, _ = new(big.Float).SetInt(v.lo).Float64()
				}
				if v.hi != nil {
					r.hi, _ = new(big.Float).SetInt(v.hi).Float64()
				}
			} else if isFloatT(x.t) {
				v := f.fltD(x, d+1)
				if v.none {
					r = v
				} else {
					r.nan = v.nan
				}
			}
		case "bin":
			x, y := f.fltD(t.a[0], d+1), f.fltD(t.a[1], d+1)
			if x.none || y.none {
				return fitv{none: true, nan: true}
			}
		case "neg":
			x := f.fltD(t.a[0], d+1)
			if x.none {
				return x
			}
			r = fitv{lo: -x.hi, hi: -x.lo, loOpen: x.hiOpen, hiOpen: x.loOpen, nan: x.nan}
		case "ret":
			switch t.s {
			case "math.Floor", "math.Ceil", "math.Abs", "math.Sqrt", "math.Log", "math.Log2", "math.Exp", "math.Round", "math.Trunc", "math.Pow", "math.Max", "math.Min":
				for _, x := range t.a {
					if isFloatT(x.t) && f.fltD(x, d+1).none {
						return fitv{none: true, nan: true}
					}
				}
			}
		}
	}
	if v, ok := f.fl[t]; ok {
		r = r.meet(v)
	}
	return r
}

func (a fitv) meet(b fitv) fitv {
	r := a
	r.nan = a.nan && b.nan
	r.none = a.none || b.none
	if b.lo > r.lo || b.lo == r.lo && b.loOpen {
		r.lo, r.loOpen = b.lo, b.loOpen
	}
	if b.hi < r.hi || b.hi == r.hi && b.hiOpen {
		r.hi, r.hiOpen = b.hi, b.hiOpen
	}
	if r.lo > r.hi || r.lo == r.hi && (r.loOpen || r.hiOpen) {
		r.none = true
	}
	return r
}

func (f *Facts) decideFlt(op token.Token, a, b *Term) (bool, bool) {
	x, y := f.flt(a), f.flt(b)
	if x.none || y.none {
		if x.none && x.nan || y.none && y.nan {
			return false, true // comparison with NaN
		}
		return false, false
	}
	mayNaN := x.nan || y.nan
	switch op {
	case token.LSS:
		if !mayNaN && (x.hi < y.lo || x.hi == y.lo && (x.hiOpen || y.loOpen)) {
			return true, true
		}
		if x.lo >= y.hi {
			return false, true
		}
	case token.LEQ:
		if !mayNaN && x.hi <= y.lo {
			return true, true
		}
		if x.lo > y.hi || x.lo == y.hi && (x.loOpen || y.hiOpen) {
			return false, true
		}
		// a <= b follows from a < b
		if v, ok := f.cond[mkBin(token.LSS, a, b, tBool)]; ok && v {
			return true, true
		}
	case token.EQL:
		if a == b {
			if !mayNaN {
				return true, true
			}
			return false, false
		}
		if x.hi < y.lo || y.hi < x.lo || x.hi == y.lo && (x.hiOpen || y.loOpen) || y.hi == x.lo && (y.hiOpen || x.loOpen) {
			return false, true
		}
		if !mayNaN && x.lo == x.hi && y.lo == y.hi && x.lo == y.lo {
			return true, true
		}
	}
	return false, false
}

// assume adds c == val; false when that contradicts the facts.
func (f *Facts) assume(c *Term, val bool) bool {
	if v, ok := f.decide(c); ok {
		return v == val
	}
	switch c.op {
	case "not":
		return f.assume(c.a[0], !val)
	case "isnan":
		v := f.flt(c.a[0])
		if val {
			f.fl[c.a[0]] = fitv{none: true, nan: true}
		} else {
			v.nan = false
			f.fl[c.a[0]] = v
			if v.none {
				return false
			}
		}
		f.cond[c] = val
		return true
	case "bin":
		a, b := c.a[0], c.a[1]
		switch c.binOp() {
		case token.LSS, token.LEQ:
			if isIntT(a.t) || isIntT(b.t) {
				l := leLin(f, a, b)
				if c.binOp() == token.LSS {
					l.k.Add(l.k, bi(1))
				}
				if !val {
					l = linConst(bi(1)).addScaled(l, -1)
				}
				f.cond[c] = val
				return f.addIneq(l)
			}
			if isFloatT(a.t) || isFloatT(b.t) {
				f.cond[c] = val
				f.assumeFlt(c.binOp(), a, b, val)
				return true
			}
		case token.EQL:
			if isIntT(a.t) || isIntT(b.t) {
				f.cond[c] = val
				l := leLin(f, a, b)
				if val {
					return f.addIneq(l) && f.addIneq(linConst(bi(0)).addScaled(l, -1))
				}
				// trim interval ends
				f.trimNE(a, b)
				f.trimNE(b, a)
				if f.intv(a).empty() || f.intv(b).empty() {
					return false
				}
				return true
			}
			if isFloatT(a.t) || isFloatT(b.t) {
				f.cond[c] = val
				f.assumeFlt(token.EQL, a, b, val)
				return true
			}
			f.cond[c] = val
			if b.isNil() {
				f.nilf[a] = val
			} else if a.isNil() {
				f.nilf[b] = val
			} else if val {
				if b.op == "cst" {
					f.eqc[a] = b
				} else if a.op == "cst" {
					f.eqc[b] = a
				}
			}
			return true
		}
	}
	f.cond[c] = val
	return true
}

func (f *Facts) trimNE(a, b *Term) {
	k, ok := b.intVal()
	if !ok {
		return
	}
	v := f.intv(a)
	if v.lo != nil && v.lo.Cmp(k) == 0 {
		f.iv[a] = f.iv[a].meet(itv{new(big.Int).Add(k, bi(1)), nil})
	}
	if v.hi != nil && v.hi.Cmp(k) == 0 {
		f.iv[a] = f.iv[a].meet(itv{nil, new(big.Int).Sub(k, bi(1))})
	}
	// a == conv(x): push down
	if a.op == "conv" && isIntT(a.a[0].t) && f.intv(a.a[0]).within(typeItv(a.t)) {
		f.trimNE(a.a[0], b)
	}
}

// addIneq records l <= 0 and derives intervals; false when infeasible.
func (f *Facts) addIneq(l *lin) bool {
	if len(l.m) == 0 {
		return l.k.Sign() <= 0
	}
	n := linConst(bi(1)).addScaled(l, -1)
	if f.proveLE(n) {
		return false
	}
	if len(l.m) > 1 {
		f.ineq = append(f.ineq, l)
	}
	// bound each atom using the others' intervals
	for t, c := range l.m {
		rest := l.addScaled(linAtom(t), -c)
		// c*t <= -rest  ; need lower bound of rest
		neg := linConst(bi(0)).addScaled(rest, -1)
		u := f.ub(neg) // max of -rest
		if u == nil {
			continue
		}
		var b itv
		if c > 0 {
			b.hi = floorDiv(u, bi(c))
		} else {
			b.lo = ceilDiv(mkNeg(u), bi(-c))
		}
		f.iv[t] = f.iv[t].meet(b)
		if f.intv(t).empty() {
			return false
		}
	}
	return true
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	return mkNeg(floorDiv(mkNeg(a), b))
}

func (f *Facts) assumeFlt(op token.Token, a, b *Term, val bool) {
	x, y := f.flt(a), f.flt(b)
	set := func(t *Term, v fitv) {
		if _, c := t.fltVal(); !c {
			f.fl[t] = f.flt(t).meet(v)
		}
	}
	inf := math.Inf(1)
	full := fitv{lo: -inf, hi: inf}
	switch op {
	case token.LSS, token.LEQ:
		open := op == token.LSS
		if val {
			v := full
			v.hi, v.hiOpen = y.hi, y.hiOpen || open
			set(a, v)
			w := full
			w.lo, w.loOpen = x.lo, x.loOpen || open
			set(b, w)
		} else {
			// NaN or a >= b (a > b)
			v := full
			v.nan = true
			if !y.nan {
				v.lo, v.loOpen = y.lo, y.loOpen || !open
			}
			set(a, v)
			w := full
			w.nan = true
			if !x.nan {
				w.hi, w.hiOpen = x.hi, x.hiOpen || !open
			}
			set(b, w)
		}
	case token.EQL:
		if a == b {
			if val {
				v := full
				set(a, v)
			} else {
				f.fl[a] = fitv{none: true, nan: true}
			}
			return
		}
		if val {
			x.nan, y.nan = false, false
			set(a, y)
			set(b, x)
		} else if v, ok := b.fltVal(); ok {
			f.trimFltNE(a, v)
		} else if v, ok := a.fltVal(); ok {
			f.trimFltNE(b, v)
		}
	}
}

func (f *Facts) trimFltNE(t *Term, v float64) {
	x := f.flt(t)
	if x.lo == v {
		x.loOpen = true
	}
	if x.hi == v {
		x.hiOpen = true
	}
	f.fl[t] = f.flt(t).meet(x)
}
