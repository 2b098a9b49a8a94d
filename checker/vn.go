package main

import (
	"fmt"
	"go/token"
	"math"
	"strings"
)

// Value numbering for bitsim: the result of an operation that the bit domain cannot follow is a named
// unknown that depends on the operation and its operands only, so that two computations of the same
// thing from the same inputs are recognised as equal. The remainder of an unknown number by a small
// constant is split into its possible values, one path each.

type vnum struct {
	id  map[string]int
	rem map[string]uint64
	box map[string]int
	xx  map[*bObj]*xxState
}

// bfv is a floating-point number known by its representation and its kind only.
type bfv struct {
	b    *bv
	kind string // "nan" or "finite" (and not zero)
}

type xxState struct {
	seed *bv
	data []*bv
}

func (s *bitsim) numbering() {
	s.vn = &vnum{map[string]int{}, map[string]uint64{}, map[string]int{}, map[*bObj]*xxState{}}
}

func bkey(b *bv) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", b.w)
	for i := 0; i < b.w; {
		j := i
		for j+1 < b.w && b.b[i] >= bBase && b.b[j+1] == b.b[j]+1 || j+1 < b.w && b.b[i] <= bOne && b.b[j+1] == b.b[i] {
			j++
		}
		fmt.Fprintf(&sb, ",%d", b.b[i])
		if j > i {
			fmt.Fprintf(&sb, ":%d", j-i)
		}
		i = j + 1
	}
	return sb.String()
}

// named makes the value numbered by key.
func (s *bitsim) numbered(key string, w int) *bv {
	id, ok := s.vn.id[key]
	if !ok {
		id = len(s.srcs)
		s.source("value", w, w)
		s.vn.id[key] = id
	}
	c := s.srcs[id].v
	return &c
}

func hasTop(b *bv) bool {
	for i := 0; i < b.w; i++ {
		if b.b[i] == bTop {
			return true
		}
	}
	return false
}

// boxed names a number put together from bits of several, so that sums of it have one form.
func (s *bitsim) boxed(a *bv) *bv {
	if _, ok := s.lin(a); ok || hasTop(a) {
		return a
	}
	if id, ok := s.vn.box[bkey(a)]; ok {
		c := s.srcs[id].v
		return &c
	}
	b := s.numbered("number|"+bkey(a), a.w)
	s.vn.box[bkey(a)] = int(b.b[0]-bBase) / 64
	return b
}

// vnPre is called before the bit domain; nil leaves the operation to it.
func (s *bitsim) vnPre(op token.Token, a, b *bv, uns bool) *bv {
	switch op {
	case token.MUL:
		if _, ok := a.konst(); ok {
			a, b = b, a
		}
		if k, ok := b.konst(); ok && a.w == 64 && (k&(k-1) != 0 || a.b[40] > bOne && a.b[63] > bOne) {
			a = s.boxed(a)
		}
		if _, ok := a.konst(); ok {
			return nil
		}
		k, ok := b.konst()
		if !ok || a.w != 64 {
			return nil
		}
		if l, ok := s.lin(a); ok {
			m := map[int]uint64{}
			for i, c := range l {
				if c*k != 0 {
					m[i] = c * k
				}
			}
			return s.ofLin(m)
		}
	case token.REM:
		n, ok := b.konst()
		if _, ka := a.konst(); ka || !ok || n == 0 || n > 256 {
			return nil
		}
		if !uns && a.b[a.w-1] != bZero {
			return nil
		}
		key := fmt.Sprint(bkey(a), "%", n)
		v, ok := s.vn.rem[key]
		if !ok {
			for v < n-1 && !s.branch() {
				v++
			}
			s.vn.rem[key] = v
		}
		return bconst(v, a.w)
	case token.SHL, token.SHR:
		if _, ok := b.konst(); !ok {
			return s.numbered(fmt.Sprint(op, uns, "|", bkey(a), "|", bkey(b)), a.w)
		}
	}
	return nil
}

// vnPost replaces the bits lost by an operation.
func (s *bitsim) vnPost(op token.Token, a, b, r *bv, uns bool) *bv {
	if !hasTop(r) || hasTop(a) || hasTop(b) {
		return r
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return r
	}
	if (op == token.ADD || op == token.SUB) && a.w == 64 {
		sign := uint64(1)
		if op == token.SUB {
			sign = ^uint64(0)
		}
		if n := s.addsub(s.boxed(a), s.boxed(b), sign); !hasTop(n) {
			return n
		}
	}
	x, y := bkey(a), bkey(b)
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if x > y {
			x, y = y, x
		}
	}
	n := s.numbered(fmt.Sprint(op, uns, "|", x, "|", y), r.w)
	c := *r
	for i := 0; i < r.w; i++ {
		if c.b[i] == bTop {
			c.b[i] = n.b[i]
		}
	}
	return &c
}

// fvCompare compares a number known by its kind with a constant or with itself.
func (s *bitsim) fvBin(op token.Token, x, y bval) (bval, bool) {
	fx, ok1 := x.(bfv)
	fy, ok2 := y.(bfv)
	if !ok1 && !ok2 {
		return nil, false
	}
	if ok1 && fx.kind == "nan" || ok2 && fy.kind == "nan" {
		switch op {
		case token.EQL, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return bbool(false), true
		case token.NEQ:
			return bbool(true), true
		}
		return bunk{"NaN"}, true
	}
	if ok1 && ok2 {
		same := fx.b.w == fy.b.w && fx.b.b == fy.b.b
		switch op {
		case token.EQL, token.LEQ, token.GEQ:
			if same {
				return bbool(true), true
			}
		case token.NEQ, token.LSS, token.GTR:
			if same {
				return bbool(false), true
			}
		}
		return bunk{"numbers"}, true
	}
	v := y
	if ok2 {
		v = x
	}
	k, isK := v.(bflt)
	if !isK {
		return bunk{"numbers"}, true
	}
	r, isK := k.p.konst()
	if !isK {
		return bunk{"numbers"}, true
	}
	n := fx
	if ok2 {
		n = fy
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	switch op {
	case token.ADD:
		if r.Sign() == 0 {
			return n, true
		}
		return bunk{"numbers"}, true
	case token.SUB:
		if r.Sign() == 0 && ok1 {
			return n, true
		}
		return bunk{"numbers"}, true
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return bunk{"numbers"}, true
	}
	if r.Sign() == 0 {
		switch op {
		case token.EQL:
			return bbool(false), true
		case token.NEQ:
			return bbool(true), true
		}
		c := &bv{w: 1}
		c.b[0] = n.b.b[n.b.w-1]
		if op == token.GTR || op == token.GEQ {
			if c.b[0] <= bOne {
				c.b[0] = 1 - c.b[0]
			} else {
				c.b[0] = s.negated(c.b[0])
			}
		}
		return c, true
	}
	switch f := fltOf(r); {
	case f >= math.MaxFloat64 && op == token.GTR, f <= -math.MaxFloat64 && op == token.LSS:
		return bbool(false), true
	case f >= math.MaxFloat64 && op == token.LEQ, f <= -math.MaxFloat64 && op == token.GEQ:
		return bbool(true), true
	}
	neg := false
	switch op { // one name for a comparison and its opposite
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GEQ:
		op, neg = token.LSS, true
	case token.GTR:
		op, neg = token.LEQ, true
	}
	c := s.numbered(fmt.Sprint("compare ", op, " ", r.RatString(), " ", bkey(n.b)), 1)
	if neg {
		c.b[0] = s.negated(c.b[0])
	}
	return c, true
}

// fvMath answers the functions of package math about such numbers.
func (s *bitsim) fvMath(name string, in []bval) (bval, bool) {
	if len(in) == 0 {
		return nil, false
	}
	switch f := in[0].(type) {
	case bfv:
		switch name {
		case "Float64bits", "Float32bits":
			c := *f.b
			return &c, true
		case "IsNaN":
			return bbool(f.kind == "nan"), true
		case "IsInf":
			return bbool(false), true
		case "Signbit":
			c := &bv{w: 1}
			c.b[0] = f.b.b[f.b.w-1]
			return c, true
		}
		return bunk{name}, true
	case fspecial:
		switch name {
		case "Float64bits":
			return bconst(math.Float64bits(float64(f)), 64), true
		case "IsNaN":
			return bbool(math.IsNaN(float64(f))), true
		case "Signbit":
			return bbool(math.Signbit(float64(f))), true
		case "IsInf":
			k, ok := in[1].(*bv)
			if !ok {
				return bunk{name}, true
			}
			d, ok := k.sval()
			if !ok {
				return bunk{name}, true
			}
			return bbool(math.IsInf(float64(f), int(d))), true
		}
		return bunk{name}, true
	}
	return nil, false
}

// fspecial is a constant that rational arithmetic does not have: an infinity, NaN or the negative zero.
type fspecial float64

func fspOf(v bval) (float64, bool) {
	switch f := v.(type) {
	case fspecial:
		return float64(f), true
	case bflt:
		if k, ok := f.p.konst(); ok {
			return fltOf(k), true
		}
	}
	return 0, false
}

func fspVal(f float64) bval {
	if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && math.Signbit(f) {
		return fspecial(f)
	}
	return fconst(f)
}

// fspMax is the built-in min or max where a special number takes part.
func fspMax(big bool, x, y bval) (bval, bool) {
	_, s1 := x.(fspecial)
	_, s2 := y.(fspecial)
	if !s1 && !s2 {
		return nil, false
	}
	a, ok1 := fspOf(x)
	b, ok2 := fspOf(y)
	switch {
	case !ok1 || !ok2:
		return bunk{"numbers"}, true
	case big:
		return fspVal(max(a, b)), true
	}
	return fspVal(min(a, b)), true
}

// fspMath is what package math does with and about special numbers.
func fspMath(name string, in []bval) (bval, bool) {
	switch name {
	case "NaN":
		return fspecial(math.NaN()), true
	case "Inf":
		if b, ok := in[0].(*bv); ok {
			if k, ok := b.konst(); ok {
				return fspecial(math.Inf(int(int64(k)))), true
			}
		}
		return nil, false
	case "IsNaN", "IsInf":
		if _, ok := in[0].(bflt); ok {
			return bbool(false), true
		}
		f, ok := in[0].(fspecial)
		if !ok {
			return nil, false
		}
		if name == "IsNaN" {
			return bbool(math.IsNaN(float64(f))), true
		}
		if b, ok := in[1].(*bv); ok {
			if k, ok := b.konst(); ok {
				return bbool(math.IsInf(float64(f), int(int64(k)))), true
			}
		}
		return nil, false
	case "Min", "Max":
		return fspMax(name == "Max", in[0], in[1])
	}
	return nil, false
}

func (s *bitsim) fspBin(op token.Token, x, y bval) (bval, bool) {
	_, s1 := x.(fspecial)
	_, s2 := y.(fspecial)
	if !s1 && !s2 {
		return nil, false
	}
	a, ok1 := fspOf(x)
	b, ok2 := fspOf(y)
	if ok1 && math.IsNaN(a) || ok2 && math.IsNaN(b) {
		switch op {
		case token.EQL, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return bbool(false), true
		case token.NEQ:
			return bbool(true), true
		}
	}
	if !ok1 || !ok2 {
		return bunk{"numbers"}, true
	}
	switch op {
	case token.EQL:
		return bbool(a == b), true
	case token.NEQ:
		return bbool(a != b), true
	case token.LSS:
		return bbool(a < b), true
	case token.LEQ:
		return bbool(a <= b), true
	case token.GTR:
		return bbool(a > b), true
	case token.GEQ:
		return bbool(a >= b), true
	case token.ADD:
		return fspVal(a + b), true
	case token.SUB:
		return fspVal(a - b), true
	case token.MUL:
		return fspVal(a * b), true
	case token.QUO:
		return fspVal(a / b), true
	}
	return bunk{"numbers"}, true
}

// xxModel stands for the external hash: a fixed unknown function of seed and bytes.
func (s *bitsim) xxModel(name string, in []bval) (bval, bool) {
	bytes := func(v bval) ([]*bv, bool) {
		var r []*bv
		switch d := v.(type) {
		case bslice:
			for i := 0; i < d.len; i++ {
				x, ok := d.o.cells[d.off+i].(*bv)
				if !ok {
					return nil, false
				}
				r = append(r, s.pinned(x))
			}
		case bstr:
			for i := 0; i < d.len(); i++ {
				r = append(r, d.at(i))
			}
		case bnil:
		default:
			return nil, false
		}
		return r, true
	}
	sum := func(seed *bv, data []*bv) bval {
		k := "xx|" + bkey(seed)
		for _, b := range data {
			k += "|" + bkey(b)
		}
		return s.numbered(k, 64)
	}
	state := func(v bval) *xxState {
		p, ok := v.(bptr)
		if !ok {
			return nil
		}
		o, _ := p.o.cells[p.i].(*bObj)
		if o == nil {
			return nil
		}
		st := s.vn.xx[o]
		if st == nil {
			st = &xxState{seed: bconst(0, 64)}
			s.vn.xx[o] = st
		}
		return st
	}
	switch name {
	case "New", "NewWithSeed":
		o := &bObj{name: "digest"}
		st := &xxState{seed: bconst(0, 64)}
		if name == "NewWithSeed" {
			st.seed = in[0].(*bv)
		}
		s.vn.xx[o] = st
		return bptr{&bObj{cells: []bval{o}}, 0}, true
	case "Sum64", "Sum64String":
		if p, ok := in[0].(bptr); ok {
			if st := state(p); st != nil {
				return sum(st.seed, st.data), true
			}
			return nil, false
		}
		if d, ok := bytes(in[0]); ok {
			return sum(bconst(0, 64), d), true
		}
	case "Write", "WriteString":
		st := state(in[0])
		d, ok := bytes(in[1])
		if st == nil || !ok {
			return nil, false
		}
		st.data = append(st.data, d...)
		return btuple{bconst(uint64(len(d)), 64), bnil{}}, true
	case "Reset", "ResetWithSeed":
		st := state(in[0])
		if st == nil {
			return nil, false
		}
		*st = xxState{seed: bconst(0, 64)}
		if name == "ResetWithSeed" {
			st.seed = in[1].(*bv)
		}
		return btuple{}, true
	}
	return nil, false
}
