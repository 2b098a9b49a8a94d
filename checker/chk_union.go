package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: a union is built by merging two sketches, given by images whose registers and coupons are known
// only as far as their order requires; every combination of mode, register width and size is
// interpreted, and the image of the result must hold, for every slot, the largest of the values that
// belong there (with the provenance of each bit), or the merge must return an error and leave the
// union as it was.

func init() { checks["C25"] = chkC25 }

func chkC25(p *Prog, r *Report) {
	r.Explain = "rule hll: for every pair of sketches (mode, register width, size) merged into unions of several maximal sizes, the result holds for every slot the largest contribution, bit by bit from the values merged, with the size, mode and out-of-order mark that follow from the inputs; or an error is returned, which is allowed only where downsampling registers would be needed, and leaves the union as it was"
	only := os.Getenv("LAYOUT")
	run := func(name string, f func(q *probeRun)) {
		if only != "" && !strings.Contains(name, only) {
			return
		}
		f(newProbe(p, r))
	}
	run("hll", (*probeRun).unionHll)
	run("cpc", (*probeRun).unionCpc)
	r.floor("hll", 1220)
	r.floor("cpc", 500)
}

// hsrc is a sketch to be merged: coupons or registers by position.
type hsrc struct {
	name string
	mode int // 0 list, 1 set, 2 registers, -1 no sketch
	typ  int // 0, 1, 2: 4, 6 or 8 bits
	lgK  int
	n    int // coupons
	min  int // curMin of 4-bit registers
	seed int
	ooo  bool
}

// coupon i of a source: its place is known, its value up to some low bits.
type hcoupon struct {
	at  uint64
	val *bv // 6 bits
}

// value chooses what a sketch has in a place: the values of two sketches come from different classes,
// so that it is known which of two that compete for a slot is the larger. One bit may be unknown, and
// the lowest is set so that 4-bit registers above 1 keep the others.
func (q *probeRun) value(h hsrc, what string, i int, high bool) *bv {
	k := uint64(5)
	if h.seed == 2 {
		k = 9
	}
	fixed := i%3 == 0
	if fixed {
		k = []uint64{13, 3}[h.seed-1]
	}
	if high {
		k += 16 * uint64(1+i%2)
		fixed = false
	}
	v := *bconst(k, 6)
	if !fixed {
		v.b[1] = q.s.source(fmt.Sprintf("%s %s %d", h.name, what, i), 1, 1).b[0]
	}
	return &v
}

func (q *probeRun) hcoupons(h hsrc) (l []hcoupon) {
	for i := 0; i < h.n; i++ {
		at := uint64(1+(i+4*h.seed)%15|i*5%16<<4) | uint64(i*7%64)<<12 | uint64(h.seed)<<20
		l = append(l, hcoupon{at, q.value(h, "coupon", i, i == 8 || i >= 15)})
	}
	return
}

// hregs lists the registers of a source in register mode, as 6-bit values.
func (q *probeRun) hregs(h hsrc) (l []*bv) {
	for i := 0; i < 1<<h.lgK; i++ {
		if (i+h.seed)%5 == 0 || i%16 == 0 {
			l = append(l, bconst(uint64(h.min), 6))
			continue
		}
		l = append(l, q.value(h, "register", i, i == 3))
	}
	return
}

func (h hsrc) lgArr() int {
	lg := 5
	for 1<<lg*3 < h.n*4 {
		lg++
	}
	return lg
}

// himage lays a source out as a compact image.
func (q *probeRun) himage(h hsrc) (bslice, []hcoupon, []*bv) {
	o := &bObj{name: h.name}
	put := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			o.cells = append(o.cells, bconst(v>>uint(8*i)&255, 8))
		}
	}
	bits := func(b []int32) {
		for i := 0; i < len(b); i += 8 {
			c := *bconst(0, 8)
			copy(c.b[:8], b[i:i+8])
			o.cells = append(o.cells, &c)
		}
	}
	coupon := func(at uint64, v *bv) {
		var b []int32
		for i := 0; i < 26; i++ {
			b = append(b, int32(at>>uint(i)&1))
		}
		bits(append(b, v.b[:6]...))
	}
	flags := uint64(8)
	if h.ooo {
		flags |= 16
	}
	var cs []hcoupon
	var rs []*bv
	switch h.mode {
	case 0, 1:
		cs = q.hcoupons(h)
		if h.mode == 0 {
			put(2, 1)
		} else {
			put(3, 1)
		}
		put(1, 1)
		put(7, 1)
		put(uint64(h.lgK), 1)
		if h.mode == 0 {
			put(3, 1)
			put(flags, 1)
			put(uint64(h.n), 1)
		} else {
			put(uint64(h.lgArr()), 1)
			put(flags, 1)
			put(0, 1)
		}
		put(uint64(h.typ<<2|h.mode), 1)
		if h.mode == 1 {
			put(uint64(h.n), 4)
		}
		for _, c := range cs {
			coupon(c.at, c.val)
		}
	case 2:
		rs = q.hregs(h)
		low, aux := 0, 0
		for _, v := range rs {
			if k, ok := v.konst(); ok && k == uint64(h.min) {
				low++
			}
			if h.typ == 0 && (v.b[4] == bOne || v.b[5] == bOne) {
				aux++
			}
		}
		lgAux := uint64(0)
		if aux > 0 {
			for lgAux = 2; 1<<lgAux*3 < aux*4; lgAux++ {
			}
		}
		put(10, 1)
		put(1, 1)
		put(7, 1)
		put(uint64(h.lgK), 1)
		put(lgAux, 1)
		put(flags, 1)
		put(uint64(h.min), 1)
		put(uint64(h.typ<<2|2), 1)
		for i := 0; i < 3; i++ {
			put(0x3ff0000000000000+uint64(i)<<52, 8)
		}
		put(uint64(low), 4)
		put(uint64(aux), 4)
		var b []int32
		for _, v := range rs {
			switch h.typ {
			case 0:
				w := *v
				if v.b[4] == bOne || v.b[5] == bOne {
					w = *bconst(15, 6)
				} else if h.min > 0 {
					for i := 0; i < 6; i++ {
						if h.min>>uint(i)&1 == 1 {
							w.b[i] = bZero
						}
					}
				}
				b = append(b, w.b[:4]...)
			case 1:
				b = append(b, v.b[:6]...)
			case 2:
				b = append(append(b, v.b[:6]...), bZero, bZero)
			}
		}
		if h.typ == 1 {
			b = append(b, make([]int32, 8)...)
			for i := len(b) - 8; i < len(b); i++ {
				b[i] = bZero
			}
		}
		bits(b)
		for i, v := range rs {
			if h.typ == 0 && (v.b[4] == bOne || v.b[5] == bOne) {
				coupon(uint64(i), v)
			}
		}
	}
	return bslice{o, 0, len(o.cells), len(o.cells)}, cs, rs
}

// larger6 tells which of two 6-bit values is certainly the larger; 0 when that is open.
func larger6(a, b *bv) int {
	lo := func(v *bv) (m, x int) {
		for i := 0; i < 6; i++ {
			if v.b[i] == bOne {
				m |= 1 << i
			}
			if v.b[i] != bZero {
				x |= 1 << i
			}
		}
		return
	}
	am, ax := lo(a)
	bm, bx := lo(b)
	switch {
	case am >= bx:
		return 1
	case bm >= ax:
		return 2
	}
	return 0
}

// hread takes the content of a result from its updatable image.
type hcontent struct {
	mode, lgK, typ int
	ooo            bool
	coupons        map[string]bool
	regs           []*bv
	min, atMin     int64
}

func (q *probeRun) hread(v bval, want int) (*hcontent, string) {
	sl, ok := v.(bslice)
	if !ok || sl.len < 8 {
		return nil, "undecided: the image of the result is unknown"
	}
	bad := ""
	at := func(i int) *bv {
		if i < 0 || i >= sl.len {
			bad = "the image of the result is too short"
			return bconst(0, 8)
		}
		b, ok := sl.o.cells[sl.off+i].(*bv)
		if !ok {
			bad = "undecided: a byte of the result is unknown"
			return bconst(0, 8)
		}
		return q.s.pinned(b)
	}
	num := func(i, n int) (r int64) {
		for j := 0; j < n; j++ {
			k, ok := at(i + j).konst()
			if !ok {
				bad = "undecided: a count of the result is unknown"
			}
			r |= int64(k) << uint(8*j)
		}
		return
	}
	h := &hcontent{mode: int(num(7, 1) & 3), typ: int(num(7, 1) >> 2), lgK: int(num(3, 1)), ooo: num(5, 1)&16 != 0, coupons: map[string]bool{}}
	if h.typ != want {
		return nil, fmt.Sprintf("the result has width code %d, not %d", h.typ, want)
	}
	word := func(i int) *bv {
		r := *bconst(0, 32)
		for j := 0; j < 4; j++ {
			copy(r.b[8*j:8*j+8], at(i + j).b[:8])
		}
		return &r
	}
	if h.mode < 2 {
		from, n := 8, num(6, 1)
		if h.mode == 1 {
			from, n = 12, num(8, 4)
		}
		for i := from; i+4 <= sl.len; i += 4 {
			w := word(i)
			if k, ok := w.konst(); ok && k == 0 {
				continue
			}
			key := bkey(w)
			if h.coupons[key] {
				return nil, "a coupon appears twice in the result"
			}
			h.coupons[key] = true
		}
		if bad == "" && int64(len(h.coupons)) != n {
			return nil, fmt.Sprintf("the result says it holds %d coupons, and holds %d", n, len(h.coupons))
		}
		return h, bad
	}
	h.min, h.atMin = num(6, 1), num(32, 4)
	bit := func(i int) int32 { return at(40 + i/8).b[i%8] }
	k, w := 1<<h.lgK, 4+2*h.typ
	exc := map[uint64]*bv{}
	if h.typ == 0 {
		for i := 40 + k/2; i+4 <= sl.len; i += 4 {
			c := word(i)
			slot, known := uint64(0), true
			for b := 0; b < 26; b++ {
				switch c.b[b] {
				case bOne:
					slot |= 1 << uint(b)
				case bZero:
				default:
					known = false
				}
			}
			v := *bconst(0, 6)
			copy(v.b[:6], c.b[26:32])
			if kk, ok := c.konst(); ok && kk == 0 {
				continue
			}
			if !known {
				return nil, "undecided: the place of an exception is unknown"
			}
			exc[slot&uint64(k-1)] = &v
		}
	}
	for i := 0; i < k && bad == ""; i++ {
		v := *bconst(0, 6)
		for b := 0; b < w; b++ {
			x := bit(i*w + b)
			if b < 6 {
				v.b[b] = x
			} else if x != bZero {
				return nil, fmt.Sprintf("register %d exceeds its range", i)
			}
		}
		r := &v
		if h.typ == 0 {
			if kk, ok := v.konst(); ok && kk == 15 {
				e := exc[uint64(i)]
				if e == nil {
					return nil, fmt.Sprintf("register %d is marked as an exception but has none", i)
				}
				r = e
			} else if h.min != 0 {
				r = q.s.addsub(r, bconst(uint64(h.min), 6), 1)
			}
		}
		h.regs = append(h.regs, r)
	}
	return h, bad
}

func (q *probeRun) unionHll() {
	up, pos := q.fnOf("hll.(unionImpl).UpdateSketch")
	mk, _ := q.fnOf("hll.NewUnion")
	dec, _ := q.fnOf("hll.NewHllSketchFromSlice")
	if up == nil || mk == nil || dec == nil {
		q.r.undecided("hll", "HLL union", pos, "the union or its operations no longer exist")
		return
	}
	var kinds []hsrc
	for _, lgK := range []int{4, 5, 8} {
		kinds = append(kinds, hsrc{name: "list", mode: 0, typ: 2, lgK: lgK, n: 6})
	}
	kinds = append(kinds, hsrc{name: "list", mode: 0, typ: 0, lgK: 9, n: 7},
		hsrc{name: "set", mode: 1, typ: 2, lgK: 8, n: 14}, hsrc{name: "set", mode: 1, typ: 1, lgK: 9, n: 16})
	for t := 0; t < 3; t++ {
		for _, lgK := range []int{4, 5, 6} {
			kinds = append(kinds, hsrc{name: "registers", mode: 2, typ: t, lgK: lgK})
		}
	}
	kinds = append(kinds, hsrc{name: "registers", mode: 2, typ: 0, lgK: 5, min: 1}, hsrc{name: "out-of-order registers", mode: 2, typ: 2, lgK: 5, ooo: true})
	first := append([]hsrc{{name: "nothing", mode: -1}}, kinds...)
	full := func(h hsrc) string {
		if h.mode < 0 {
			return h.name
		}
		s := fmt.Sprintf("%s (HLL_%d, lgK=%d)", h.name, 4+2*h.typ, h.lgK)
		if h.min > 0 {
			s += " above 1"
		}
		return s
	}
	for _, a := range first {
		for _, b := range kinds {
			for _, m := range []int{4, 5, 8, 12} {
				a, b := a, b
				a.name, a.seed = "first "+a.name, 1
				b.name, b.seed = "second "+b.name, 2
				q.decide("hll", fmt.Sprintf("%s, then %s, into at most lgK=%d", full(a), full(b), m), pos, func() string {
					return q.hllPair(a, b, m)
				})
			}
		}
	}
}

func (q *probeRun) hllPair(a, b hsrc, m int) string {
	ut := q.c.retType("hll.NewUnion", 0)
	u := q.c.ok(q.c.fn("hll.NewUnion", bconst(uint64(m), 64)), "NewUnion")
	var srcs []hsrc
	var cs []hcoupon
	regs := map[int][]*bv{}
	lgK, reg := m, 0
	ooo := false
	for _, h := range []hsrc{a, b} {
		if h.mode < 0 {
			continue
		}
		q.s.steps = 0
		img, c, r := q.himage(h)
		sk := q.c.ok(q.c.fn("hll.NewHllSketchFromSlice", img, bconst(1, 1)), "decoding "+h.name)
		before, msg := q.hllResult(u, ut, 2)
		if msg != "" {
			return msg
		}
		err := q.c.method(u, ut, "UpdateSketch", sk)
		e := errOf(err)
		if e < 0 {
			return "undecided: whether the merge fails is unknown"
		}
		if e == 1 {
			need := h.mode == 2 && (h.lgK > m || before.mode == 2 && h.lgK != before.lgK)
			if !need {
				return "merging " + h.name + " fails" + q.errName(err)
			}
			after, msg := q.hllResult(u, ut, 2)
			if msg != "" {
				return msg
			}
			if d := before.differs(after); d != "" {
				return "a merge that fails changes the union: " + d
			}
			continue
		}
		srcs = append(srcs, h)
		cs = append(cs, c...)
		if h.mode == 2 {
			ooo = before.mode == 2 || h.ooo
			reg++
			if h.lgK < lgK {
				lgK = h.lgK
			}
			regs[len(srcs)] = r
		}
	}
	for t := 2; t >= 0; t-- {
		q.s.steps = 0
		h, msg := q.hllResult(u, ut, t)
		if msg != "" {
			return msg
		}
		if msg := q.hllExpect(h, lgK, reg, ooo, cs, regs); msg != "" {
			return fmt.Sprintf("as HLL_%d: %s", 4+2*t, msg)
		}
	}
	return ""
}

func (h *hcontent) differs(o *hcontent) string {
	if h.mode != o.mode || h.lgK != o.lgK || len(h.coupons) != len(o.coupons) || len(h.regs) != len(o.regs) {
		return "its mode or size differs"
	}
	for k := range h.coupons {
		if !o.coupons[k] {
			return "a coupon is lost"
		}
	}
	for i := range h.regs {
		if bkey(h.regs[i]) != bkey(o.regs[i]) {
			return fmt.Sprintf("register %d differs", i)
		}
	}
	return ""
}

func (q *probeRun) hllResult(u bval, ut types.Type, t int) (*hcontent, string) {
	got := q.c.method(u, ut, "GetResult", bconst(uint64(t), 64))
	if errOf(got) == 1 {
		return nil, fmt.Sprintf("GetResult(HLL_%d) fails%s", 4+2*t, q.errName(got))
	}
	res := q.c.ok(got, "GetResult")
	img := q.c.ok(q.c.method(res, q.c.retType("hll.NewHllSketch", 0), "ToUpdatableSlice"), "ToUpdatableSlice")
	if len(q.c.errs) > 0 {
		return nil, q.c.errs[0]
	}
	return q.hread(img, t)
}

func (q *probeRun) hllExpect(h *hcontent, lgK, reg int, ooo bool, cs []hcoupon, regs map[int][]*bv) string {
	if h.lgK != lgK {
		return fmt.Sprintf("the result has lgK=%d, not %d", h.lgK, lgK)
	}
	word := func(c hcoupon) *bv {
		w := *bconst(c.at, 32)
		copy(w.b[26:32], c.val.b[:6])
		return &w
	}
	if h.mode < 2 {
		if reg > 0 {
			return "registers were merged but the result has none"
		}
		if len(h.coupons) != len(cs) {
			return fmt.Sprintf("the result holds %d coupons, not %d", len(h.coupons), len(cs))
		}
		for _, c := range cs {
			if !h.coupons[bkey(q.s.pinned(word(c)))] {
				return fmt.Sprintf("the coupon of slot %d is missing", c.at)
			}
		}
		return ""
	}
	k := 1 << lgK
	best := make([]*bv, k)
	add := func(i int, v *bv) string {
		v = q.s.pinned(v)
		if best[i] == nil {
			best[i] = v
			return ""
		}
		switch larger6(best[i], v) {
		case 1:
		case 2:
			best[i] = v
		default:
			return fmt.Sprintf("undecided: which value is the largest in slot %d", i)
		}
		return ""
	}
	var ids []int
	for id := range regs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		for i, v := range regs[id] {
			if m := add(i&(k-1), v); m != "" {
				return m
			}
		}
	}
	for _, c := range cs {
		if m := add(int(c.at)&(k-1), c.val); m != "" {
			return m
		}
	}
	low, n := int64(64), int64(0)
	for i := range best {
		if best[i] == nil {
			best[i] = bconst(0, 6)
		}
		if bkey(best[i]) != bkey(q.s.pinned(h.regs[i])) {
			return fmt.Sprintf("register %d is not the largest of the values merged into it", i)
		}
		v, ok := best[i].konst()
		if ok && int64(v) < low {
			low, n = int64(v), 0
		}
		if ok && int64(v) == low {
			n++
		}
	}
	if h.min == low && h.atMin != n {
		return fmt.Sprintf("%d registers hold the least value, the result says %d", n, h.atMin)
	}
	if h.ooo != ooo {
		return fmt.Sprintf("the out-of-order mark is %v", h.ooo)
	}
	return ""
}

// errName is the message of an error, where it is known.
func (q *probeRun) errName(v bval) string {
	if t, ok := v.(btuple); ok && len(t) > 0 {
		v = t[len(t)-1]
	}
	if i, ok := v.(biface); ok {
		if p, ok := i.v.(bptr); ok && p.o != nil {
			return " (" + p.o.name + ")"
		}
	}
	return ""
}

// ccoupon is a row and a column.
type ccoupon struct{ row, col int }

// csrc is a CPC sketch to be merged.
type csrc struct {
	name   string
	lgK, n int
	shift  int
}

// coupons fills the columns from the low ones, with some far ahead and some left out.
func (h csrc) coupons() (l []ccoupon) {
	k := 1 << h.lgK
	for j := 0; len(l) < h.n; j++ {
		row, col := (j*7+h.shift)%k, j/k
		switch {
		case j%11 == 5:
			col += 9 + 3*(j%5)
		case j%13 == 6:
			continue
		case (row+h.shift)%4 == 1:
			col++
		}
		c := ccoupon{row, col}
		for i := 0; i < len(l); i++ {
			if l[i] == c {
				c.col, i = c.col+1, -1
			}
		}
		l = append(l, c)
	}
	return
}

func (q *probeRun) unionCpc() {
	up, pos := q.fnOf("cpc.(CpcUnion).Update")
	if up == nil || q.p.Fn("cpc.NewCpcUnionSketch") == nil || q.p.Fn("cpc.NewCpcSketch") == nil {
		q.r.undecided("cpc", "CPC union", pos, "the union or its operations no longer exist")
		return
	}
	var kinds []csrc
	for _, lgK := range []int{4, 5, 6} {
		k := 1 << lgK
		kinds = append(kinds,
			csrc{name: "sparse", lgK: lgK, n: (3*k - 1) / 32},
			csrc{name: "hybrid", lgK: lgK, n: k/2 - 2},
			csrc{name: "pinned", lgK: lgK, n: 2 * k},
			csrc{name: "sliding", lgK: lgK, n: 5 * k})
	}
	full := func(h csrc) string { return fmt.Sprintf("%s (lgK=%d, %d coupons)", h.name, h.lgK, h.n) }
	for _, a := range append([]csrc{{name: "empty", lgK: 5}}, kinds...) {
		for _, b := range append([]csrc{{name: "empty", lgK: 4}}, kinds...) {
			for _, m := range []int{4, 5, 6} {
				b.shift = 3
				q.decide("cpc", fmt.Sprintf("%s, then %s, into lgK=%d", full(a), full(b), m), pos, func() string {
					return q.cpcPair(a, b, m)
				})
			}
		}
	}
}

func (q *probeRun) cpcPair(a, b csrc, m int) string {
	var next ccoupon
	other := q.s.model
	q.s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		if (strings.Contains(f.Name(), "Murmur") || f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "murmur")) && f.Signature.Results().Len() == 2 {
			// the hash is unknown but for the bits that say the row and the column
			lo, hi := *q.s.source("hash", 64, 64), *q.s.source("hash", 64, 64)
			for i := 0; i < 6; i++ {
				lo.b[i] = int32(next.row >> uint(i) & 1)
			}
			for i := 0; i <= next.col && i < 64; i++ {
				hi.b[63-i] = bZero
			}
			if next.col < 64 {
				hi.b[63-next.col] = bOne
			}
			return btuple{&lo, &hi}, true
		}
		return other(f, in)
	}
	defer func() { q.s.model = other }()
	seed := bconst(9001, 64)
	st := q.c.retType("cpc.NewCpcSketch", 0)
	uv := q.c.ok(q.c.fn("cpc.NewCpcUnionSketch", bconst(uint64(m), 64), seed), "NewCpcUnionSketch")
	ut := q.c.retType("cpc.NewCpcUnionSketch", 0)
	u := uv
	if _, ok := ut.Underlying().(*types.Pointer); !ok {
		u = bptr{&bObj{name: "union", cells: []bval{bmem(uv)}}, 0}
		ut = types.NewPointer(ut)
	}
	lgK := m
	type pos struct{ row, col int }
	want := map[pos]bool{}
	for _, h := range []csrc{a, b} {
		sk := q.c.ok(q.c.fn("cpc.NewCpcSketch", bconst(uint64(h.lgK), 64), seed), "NewCpcSketch")
		for _, c := range h.coupons() {
			q.s.steps = 0
			next = c
			if errOf(q.c.method(sk, st, "UpdateUint64", bconst(7, 64))) != 0 {
				return "an update fails"
			}
			want[pos(c)] = true
		}
		if h.n > 0 && h.lgK < lgK {
			lgK = h.lgK
		}
		q.s.steps = 0
		if err := q.c.method(u, ut, "Update", sk); errOf(err) != 0 {
			return "merging the " + h.name + " sketch fails" + q.errName(err)
		}
	}
	fold := map[pos]bool{}
	for p := range want {
		fold[pos{p.row & (1<<lgK - 1), p.col}] = true
	}
	res := q.c.ok(q.c.method(u, ut, "GetResult"), "GetResult")
	if len(q.c.errs) > 0 {
		return q.c.errs[0]
	}
	num := func(f string) int { return int(q.c.num(q.c.getf(res, st, f), f)) }
	if n := num("lgK"); n != lgK {
		return fmt.Sprintf("the result has lgK=%d, not %d", n, lgK)
	}
	if n := num("numCoupons"); n != len(fold) {
		return fmt.Sprintf("the result counts %d coupons, not %d", n, len(fold))
	}
	if b, ok := q.c.getf(res, st, "mergeFlag").(*bv); !ok || b.b[0] != bOne {
		return "the result is not marked as merged"
	}
	// the content: the window, and the pairs that differ from what is taken for granted
	got := map[pos]bool{}
	off, first := num("windowOffset"), 64
	k := 1 << lgK
	if n := 8*len(fold) - 19*k; n < 0 && off != 0 || n >= 0 && off != n>>uint(lgK+3) {
		return fmt.Sprintf("the window of %d coupons starts at column %d", len(fold), off)
	}
	if w, ok := q.c.getf(res, st, "slidingWindow").(bslice); ok && w.len > 0 {
		if w.len != k {
			return fmt.Sprintf("the window has %d rows, not %d", w.len, k)
		}
		for i := 0; i < k; i++ {
			for c := 0; c < off; c++ {
				got[pos{i, c}] = true
			}
			x := q.c.num(w.o.cells[w.off+i], "the window")
			for c := 0; c < 8; c++ {
				if x>>uint(c)&1 == 1 {
					got[pos{i, c + off}] = true
				}
			}
		}
	} else if 32*len(fold) >= 3*k {
		return "the result has no window"
	}
	if t, ok := q.c.getf(res, st, "pairTable").(bptr); ok && t.o != nil {
		pt := q.c.retType("cpc.NewPairTable", 0)
		sl, _ := q.c.getf(t, pt, "slotsArr").(bslice)
		for i := 0; i < sl.len; i++ {
			x := q.c.num(sl.o.cells[sl.off+i], "a pair")
			if x == -1 {
				continue
			}
			p := pos{int(x >> 6), int(x & 63)}
			got[p] = !got[p]
			first = min(first, p.col)
		}
	}
	for p := range fold {
		if !got[p] {
			return fmt.Sprintf("row %d, column %d is lost", p.row, p.col)
		}
	}
	for p, in := range got {
		if in && !fold[p] {
			return fmt.Sprintf("row %d, column %d was in no source", p.row, p.col)
		}
	}
	if f := num("fiCol"); f > min(first, off) && len(fold)*32 >= 3*k {
		return fmt.Sprintf("the first interesting column is %d although column %d is", f, min(first, off))
	}
	m2 := q.c.ok(q.c.method(u, ut, "GetBitMatrix"), "GetBitMatrix")
	if sl, ok := m2.(bslice); ok && len(q.c.errs) == 0 {
		if sl.len != k {
			return fmt.Sprintf("the bit matrix has %d rows, not %d", sl.len, k)
		}
		for i := 0; i < k; i++ {
			var w uint64
			for c := 0; c < 64; c++ {
				if fold[pos{i, c}] {
					w |= 1 << uint(c)
				}
			}
			if uint64(q.c.num(sl.o.cells[sl.off+i], "the bit matrix")) != w {
				return fmt.Sprintf("row %d of the bit matrix differs from the content merged", i)
			}
		}
	} else if len(q.c.errs) == 0 {
		return "undecided: the bit matrix is unknown"
	}
	return ""
}
