package main

import "go/token"

// ordDom is a domain of strict and weak order facts between unknown numbers (hashes and thresholds).
// A comparison that the facts leave open is answered both ways, on separate paths, and the answer
// becomes a fact. Transitive consequences are kept closed.
type ordDom struct {
	s    *bitsim
	id   map[int32]int // by the source of the top unknown bit
	val  []*bv
	name []string
	le   [][]bool
	lt   [][]bool
	ne   [][]bool
	zero int
	max  int
}

const ordTop = 62 // the bit that identifies a symbol

func newOrd(s *bitsim) *ordDom {
	o := &ordDom{s: s, id: map[int32]int{}}
	o.zero = o.add("0", bconst(0, 64))
	o.max = o.add("the maximum", bconst(1<<63-1, 64))
	o.fact(o.zero, o.max, true)
	return o
}

func (o *ordDom) add(name string, v *bv) int {
	n := len(o.val)
	o.val = append(o.val, v)
	o.name = append(o.name, name)
	for i := range o.le {
		o.le[i] = append(o.le[i], false)
		o.lt[i] = append(o.lt[i], false)
		o.ne[i] = append(o.ne[i], false)
	}
	o.le = append(o.le, make([]bool, n+1))
	o.lt = append(o.lt, make([]bool, n+1))
	o.ne = append(o.ne, make([]bool, n+1))
	o.le[n][n] = true
	if b := v.b[ordTop]; b >= bBase {
		o.id[b] = n
	}
	return n
}

// sym makes an unknown number below 2^63 whose low bits are known.
func (o *ordDom) sym(name string, low uint64, lowBits int) int {
	v := *o.s.source(name, 64, 64)
	v.b[63] = bZero
	for i := 0; i < lowBits; i++ {
		v.b[i] = int32(low >> uint(i) & 1)
	}
	n := o.add(name, &v)
	o.fact(o.zero, n, false)
	o.fact(n, o.max, false)
	return n
}

// of recognises a symbol.
func (o *ordDom) of(v bval) (int, bool) {
	b, ok := v.(*bv)
	if !ok || b.w != 64 {
		return 0, false
	}
	if k, ok := b.konst(); ok {
		switch k {
		case 0:
			return o.zero, true
		case 1<<63 - 1:
			return o.max, true
		}
		return 0, false
	}
	n, ok := o.id[b.b[ordTop]]
	if !ok || b.b != o.val[n].b {
		return 0, false
	}
	return n, true
}

// fact adds a <= b, or a < b.
func (o *ordDom) fact(a, b int, strict bool) {
	n := len(o.val)
	o.le[a][b] = true
	o.lt[a][b] = o.lt[a][b] || strict
	for again := true; again; {
		again = false
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if !o.le[i][k] {
					continue
				}
				for j := 0; j < n; j++ {
					if !o.le[k][j] {
						continue
					}
					st := o.lt[i][k] || o.lt[k][j] || o.ne[i][j]
					if !o.le[i][j] || st && !o.lt[i][j] {
						o.le[i][j] = true
						o.lt[i][j] = o.lt[i][j] || st
						again = true
					}
				}
			}
		}
	}
}

func (o *ordDom) differ(a, b int) {
	o.ne[a][b], o.ne[b][a] = true, true
	if o.le[a][b] {
		o.fact(a, b, true)
	}
	if o.le[b][a] {
		o.fact(b, a, true)
	}
}

func (o *ordDom) less(a, b int) bool {
	switch {
	case o.lt[a][b]:
		return true
	case o.le[b][a]:
		return false
	}
	if o.s.branch() {
		o.fact(a, b, true)
		return true
	}
	o.fact(b, a, false)
	return false
}

func (o *ordDom) equal(a, b int) bool {
	switch {
	case a == b || o.le[a][b] && o.le[b][a]:
		return true
	case o.lt[a][b] || o.lt[b][a] || o.ne[a][b]:
		return false
	}
	if o.s.branch() {
		o.fact(a, b, false)
		o.fact(b, a, false)
		return true
	}
	o.differ(a, b)
	return false
}

// compare answers a comparison of two symbols.
func (o *ordDom) compare(op token.Token, x, y bval) (bool, bool) {
	if o.s.fork == nil {
		return false, false
	}
	a, ok := o.of(x)
	b, ok2 := o.of(y)
	if !ok || !ok2 {
		return false, false
	}
	switch op {
	case token.EQL:
		return o.equal(a, b), true
	case token.NEQ:
		return !o.equal(a, b), true
	case token.LSS:
		return o.less(a, b), true
	case token.GEQ:
		return !o.less(a, b), true
	case token.GTR:
		return o.less(b, a), true
	case token.LEQ:
		return !o.less(b, a), true
	}
	return false, false
}

// bmap is a map whose keys are symbols or constants.
type bmap struct {
	m *bmapObj
}

type bmapObj struct {
	k []bval
	v []bval
}

func (s *bitsim) mapAt(m bmap, k bval) int {
	for i, x := range m.m.k {
		if s.ord != nil {
			if eq, ok := s.ord.compare(token.EQL, x, k); ok {
				if eq {
					return i
				}
				continue
			}
		}
		a, ok := x.(*bv)
		b, ok2 := k.(*bv)
		if ok && ok2 {
			ka, ok := a.konst()
			kb, ok2 := b.konst()
			if ok && ok2 {
				if ka == kb {
					return i
				}
				continue
			}
		}
		s.stop("undecided", "a map key is unknown", nil)
	}
	return -1
}
