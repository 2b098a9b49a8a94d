package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C22: the search loops of the open-addressing tables are interpreted over tables whose slots hold
// unknown values that are certainly neither free nor the key, for every start position and stride;
// the slots read must be distinct, cover the table and end in the failure result (or, in tables
// that rely on free slots, end at the free slot wherever it is). Insertions are interpreted with
// entries that are unknown except for the bits that choose their slots, and must leave a free slot.

func init() { checks["C22"] = chkC22 }

type probeRun struct {
	p     *Prog
	r     *Report
	s     *bitsim
	c     *lctx
	tab   map[*bObj]bool
	seen  []int
	max   int
	limit int
}

// ref finds a field by name in a struct object, also inside embedded structs and through pointers.
func (c *lctx) ref(v bval, t types.Type, name string) (*bval, types.Type) {
	if t == nil {
		return nil, nil
	}
	t = c.s.tm.of(t)
	if i, ok := v.(biface); ok {
		return c.ref(i.v, i.t, name)
	}
	if x, ok := v.(bptr); ok {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if x.o == nil || x.i >= len(x.o.cells) {
				return nil, nil
			}
			return c.ref(x.o.cells[x.i], pt.Elem(), name)
		}
	}
	o, ok := v.(*bObj)
	st, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(t, i) == name {
			return &o.cells[i], c.s.tm.of(st.Field(i).Type())
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r, ft := c.ref(o.cells[i], st.Field(i).Type(), name); r != nil {
				return r, ft
			}
		}
	}
	return nil, nil
}

func (c *lctx) getf(v bval, t types.Type, name string) bval {
	r, _ := c.ref(v, t, name)
	if r == nil {
		c.s.stop("undecided", "there is no field "+name, nil)
	}
	return *r
}

func (c *lctx) setf(v bval, t types.Type, name string, x bval) {
	r, _ := c.ref(v, t, name)
	if r == nil {
		c.s.stop("undecided", "there is no field "+name, nil)
	}
	*r = x
}

func (c *lctx) num(v bval, what string) int64 {
	if b, ok := v.(*bv); ok {
		if k, ok := c.s.pinned(b).sval(); ok {
			return k
		}
	}
	c.s.stop("undecided", what+" is unknown", nil)
	return 0
}

// filled makes a slice of n slots, all holding v.
func filled(n int, v bval) bslice {
	o := &bObj{name: "table", cells: make([]bval, n)}
	for i := range o.cells {
		if x, ok := v.(*bObj); ok {
			o.cells[i] = bmem(bcopy(x))
		} else {
			o.cells[i] = v
		}
	}
	return bslice{o, 0, n, n}
}

func (q *probeRun) watch(v bval) {
	q.tab = map[*bObj]bool{}
	q.seen = nil
	if sl, ok := v.(bslice); ok {
		q.tab[sl.o] = true
	}
}

// distinct reports a slot that is read twice.
func (q *probeRun) distinct() string {
	m := map[int]bool{}
	for _, i := range q.seen {
		if m[i] {
			return fmt.Sprintf("slot %d is read twice in one search", i)
		}
		m[i] = true
	}
	return ""
}

func newProbe(p *Prog, r *Report) *probeRun {
	q := &probeRun{p: p, r: r}
	q.reset(nil)
	return q
}

func (q *probeRun) reset(fn *ssa.Function) {
	s := newBitsim(q.p)
	q.s = s
	if fn != nil {
		s.tm = entryTypes(fn)
	}
	q.c = &lctx{p: q.p, s: s, l: &layout{}}
	s.maxSteps = 40_000_000
	s.load = func(o *bObj, i int, in ssa.Instruction) {
		if !q.tab[o] {
			return
		}
		if n := len(q.seen); n > 0 && q.seen[n-1] == i {
			return
		}
		q.seen = append(q.seen, i)
		if q.max > 0 && len(q.seen) > q.max {
			s.stop("enough", "", in)
		}
	}
	s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		n := q.p.FName(norm(f))
		if strings.HasPrefix(n, "internal.QuickSelect") { // a permutation of what is unknown
			if f.Signature.Results().Len() == 0 {
				return btuple{}, true
			}
			if sl, ok := in[0].(bslice); ok {
				k := q.c.num(in[3], "the position selected")
				if k >= 0 && k < int64(sl.len) {
					if b, ok := sl.o.cells[sl.off+int(k)].(*bv); ok {
						if _, ok := b.konst(); !ok { // else it is interpreted
							return b, true
						}
					}
					if o, ok := sl.o.cells[sl.off+int(k)].(*bObj); ok {
						return bcopy(o), true
					}
				}
			}
		}
		if n == "internal.IsNil" { // keys are numbers here
			return bconst(0, 1), true
		}
		if n == "internal.ComputeSeedHash" {
			return btuple{bconst(0x93cc, 16), bnil{}}, true
		}
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "math/rand") && f.Signature.Results().Len() == 1 {
			if w := intWidth(f.Signature.Results().At(0).Type()); w > 0 {
				return bconst(0, w), true
			}
		}
		return nil, false
	}
}

// try runs body on one path and returns why it is not satisfied.
func (q *probeRun) try(body func() string) string {
	msg := ""
	s := q.s
	n := 0
	lim := q.limit
	if lim == 0 {
		lim = 20
	}
	full := s.explore(lim, func() {
		n++
		q.c.errs = nil
		if m := body(); m != "" && msg == "" {
			msg = m
		}
		if len(q.c.errs) > 0 && msg == "" {
			msg = q.c.errs[0]
		}
	}, func(st *bstop) {
		if st.kind == "enough" {
			if m := q.distinct(); m != "" {
				msg = m
			}
			return
		}
		m := st.kind + ": " + st.msg
		if strings.Contains(st.msg, "steps") {
			m = "the search does not end"
			if d := q.distinct(); d != "" {
				m += ": " + d
			}
		}
		if p := q.p.Pos(st.pos); p != "" {
			m += " at " + p
		}
		if msg == "" {
			msg = m
		}
	})
	q.r.Counts["paths"] += n
	if msg == "" && !full {
		msg = "undecided: too many paths"
	}
	return msg
}

func (q *probeRun) decide(rule, name, pos string, body func() string) bool {
	if os.Getenv("CHECK_DEBUG") != "" {
		t0 := time.Now()
		defer func() { fmt.Println(name, time.Since(t0)) }()
	}
	if m := q.try(body); m != "" {
		if strings.HasPrefix(m, "undecided") {
			q.r.undecided(rule, name, pos, m)
		} else {
			q.r.bad(rule, name, pos, m)
		}
		return false
	}
	q.r.ok(rule, name, pos)
	return true
}

// errOf tells whether the last result is a certain error (1), certainly none (0) or unknown (-1).
func errOf(v bval) int {
	if t, ok := v.(btuple); ok && len(t) > 0 {
		v = t[len(t)-1]
	}
	switch v.(type) {
	case bnil:
		return 0
	case biface:
		return 1
	}
	return -1
}

// marked is a 64-bit (or narrower) value with some bits fixed and the others unknown.
func (q *probeRun) marked(name string, w int, fixed, val uint64) *bv {
	v := q.s.source(name, w, w)
	r := *v
	for i := 0; i < w; i++ {
		if fixed>>uint(i)&1 == 1 {
			r.b[i] = int32(val >> uint(i) & 1)
		}
	}
	return &r
}

func chkC22(p *Prog, r *Report) {
	r.Explain = "rule probe: over a table of unknown occupied slots every search reads distinct slots, all of them, and ends with the failure result (with one free slot: ends there), for every start position and stride of small tables and samples of large ones. rule load: after every insertion a slot is free and the count of entries equals the occupied slots. rule sizing: tables sized from a count take that many entries below their rebuild threshold"
	only := os.Getenv("LAYOUT")
	run := func(name string, f func(q *probeRun)) {
		if only != "" && !strings.Contains(name, only) {
			return
		}
		f(newProbe(p, r))
	}
	run("theta", func(q *probeRun) { q.thetaLike("theta", "theta.NewHashtable", "theta.(Hashtable).Find") })
	run("tuple", func(q *probeRun) { q.thetaLike("tuple", "tuple.newHashtable", "tuple.(hashtable).Find") })
	run("hll", (*probeRun).hll)
	run("cpc", (*probeRun).cpc)
	run("frequencies", (*probeRun).freq)
	run("sizing", (*probeRun).sizing)
	r.floor("probe", 90)
	r.floor("load", 105)
	r.floor("sizing", 8)
}

func (q *probeRun) fnOf(name string) (*ssa.Function, string) {
	f := q.p.Fn(name)
	if f == nil {
		return nil, ""
	}
	return norm(f), q.p.Pos(norm(f).Pos())
}

// thetaLike: theta and tuple tables.
func (q *probeRun) thetaLike(pkg, ctor, find string) {
	ctorF, _ := q.fnOf(ctor)
	findF, pos := q.fnOf(find)
	if ctorF == nil || findF == nil {
		q.r.undecided("probe", pkg+" hash table", "", "the table or its search no longer exists")
		return
	}
	q.reset(ctorF)
	table := func(lgCur, lgNom, rf int) (bval, types.Type) {
		in := []bval{bconst(uint64(lgCur), 8), bconst(uint64(lgNom), 8), bconst(uint64(rf), 8), fconst(1), bconst(1<<63-1, 64), bconst(9001, 64), bconst(1, 1)}
		return q.s.call(ctorF, in, nil, q.s.tm), q.s.tm.of(ctorF.Signature.Results().At(0).Type())
	}
	// occupied slots: the top bit is set, keys have it clear
	occupy := func(t types.Type, n int) bslice {
		e := t.Underlying().(*types.Slice).Elem()
		h := q.marked("slot", 64, 1<<63, 1<<63)
		if intWidth(e) == 64 {
			return filled(n, h)
		}
		z := q.s.zero(e)
		if r, _ := q.c.ref(z, e, "Hash"); r != nil {
			*r = h
		}
		return filled(n, z)
	}
	search := func(lg int, key uint64, free int) string {
		v, t := table(lg, lg, 0)
		rp, ft := q.c.ref(v, t, "entries")
		if rp == nil {
			return "undecided: the table has no field entries"
		}
		sl := occupy(ft, 1<<lg)
		if free >= 0 {
			sl.o.cells[free] = q.s.zero(q.s.tm.of(ft.Underlying().(*types.Slice).Elem()))
		}
		*rp = sl
		q.watch(sl)
		k := q.marked("key", 64, 1<<63|(1<<uint(lg+7)-1), key&(1<<63-1))
		res := q.s.call(findF, []bval{v, k}, nil, q.s.tm)
		if m := q.distinct(); m != "" {
			return m
		}
		if errOf(res) != 1 {
			return "a search that finds neither the key nor a free slot reports success"
		}
		if free < 0 && len(q.seen) != 1<<lg {
			return fmt.Sprintf("a search in a full table gives up after %d of %d slots", len(q.seen), 1<<lg)
		}
		if free >= 0 && q.seen[len(q.seen)-1] != free {
			return "the search passes by a free slot"
		}
		return ""
	}
	for lg := 1; lg <= 5; lg++ {
		q.decide("probe", fmt.Sprintf("%s hash table of 2^%d slots, every start and stride", pkg, lg), pos, func() string {
			n := 1 << lg
			for start := 0; start < n; start++ {
				for st := 0; st < 128; st++ {
					if lg == 5 && st%5 != start%5 {
						continue
					}
					q.s.steps = 0
					if m := search(lg, uint64(start|st<<lg), -1); m != "" {
						return fmt.Sprintf("start %d, stride bits %d: %s", start, st, m)
					}
				}
			}
			return ""
		})
	}
	for lg := 6; lg <= 12; lg++ {
		q.decide("probe", fmt.Sprintf("%s hash table of 2^%d slots", pkg, lg), pos, func() string {
			for _, st := range []int{0, 1, 63, 127} {
				q.s.steps = 0
				if m := search(lg, uint64(1<<lg-2|st<<lg), -1); m != "" {
					return m
				}
			}
			return ""
		})
	}
	for lg := 13; lg <= 20; lg++ {
		q.decide("probe", fmt.Sprintf("%s hash table of 2^%d slots, first reads", pkg, lg), pos, func() string {
			q.max = 2000
			defer func() { q.max = 0 }()
			return search(lg, uint64(1<<lg-2|101<<lg), -1)
		})
		q.max = 0
	}
	q.decide("probe", pkg+" hash table, one free slot", pos, func() string {
		for free := 0; free < 16; free++ {
			for start := 0; start < 16; start++ {
				q.s.steps = 0
				if m := search(4, uint64(start|(start*7+free)<<4), free); m != "" {
					return m
				}
			}
		}
		return ""
	})
	// insertion
	insF, ipos := q.fnOf(strings.Replace(find, ".Find", ".Insert", 1))
	if insF == nil {
		q.r.undecided("load", pkg+" hash table", "", "the insertion no longer exists")
		return
	}
	for lg := 7; lg <= 18; lg++ {
		q.grows(pkg+" hash table", ipos, lg, func(count int) string {
			v, t := table(lg, 26, 1)
			q.c.setf(v, t, "numEntries", bconst(uint64(count), 32))
			k := bconst(1<<41|uint64(lg*77), 64)
			_, ft := q.c.ref(v, t, "entries")
			var e bval = k
			et := ft.Underlying().(*types.Slice).Elem()
			if intWidth(et) != 64 {
				z := q.s.zero(et)
				if r, _ := q.c.ref(z, et, "Hash"); r != nil {
					*r = k
				}
				e = bcopy(z)
			}
			f := q.s.call(findF, []bval{v, k}, nil, q.s.tm)
			q.s.call(insF, []bval{v, f.(btuple)[0], e}, nil, q.s.tm)
			return q.larger(v, t, "entries", 1<<lg)
		})
	}
	for lgNom := 5; lgNom <= 6; lgNom++ {
		for rf := 0; rf < 4; rf++ {
			start := lgNom + 1
			if rf > 0 {
				for start > 5 {
					start -= rf
				}
				if start < 5 {
					start = 5
				}
			}
			q.decide("load", fmt.Sprintf("%s hash table lgNom=%d resize factor %d", pkg, lgNom, rf), ipos, func() string {
				v, t := table(start, lgNom, rf)
				for i := 0; i < 3<<lgNom; i++ {
					q.watch(bnil{})
					q.s.steps = 0
					bits := uint64(i)*0x9e3779b1&(1<<40-1) | 1<<41
					k := q.marked(fmt.Sprintf("hash %d", i), 64, 1<<63|1<<42-1, bits)
					f := q.s.call(findF, []bval{v, k}, nil, q.s.tm)
					if errOf(f) != 1 {
						return "a new key is found"
					}
					idx := f.(btuple)[0]
					_, ft := q.c.ref(v, t, "entries")
					var e bval = k
					et := ft.Underlying().(*types.Slice).Elem()
					if intWidth(et) != 64 {
						z := q.s.zero(et)
						if r, _ := q.c.ref(z, et, "Hash"); r != nil {
							*r = k
						}
						e = bcopy(z)
					}
					q.s.call(insF, []bval{v, idx, e}, nil, q.s.tm)
					if m := q.occupied(v, t, "entries", "numEntries", "Hash", 0); m != "" {
						return fmt.Sprintf("after %d insertions %s", i+1, m)
					}
				}
				return ""
			})
		}
	}
}

// occupied compares the occupied slots with the count and demands a free one.
func (q *probeRun) occupied(v bval, t types.Type, slots, count, part string, free uint64) string {
	sl, ok := q.c.getf(v, t, slots).(bslice)
	if !ok {
		return "undecided: the slots are unknown"
	}
	_, ft := q.c.ref(v, t, slots)
	et := q.s.tm.of(ft.Underlying().(*types.Slice).Elem())
	n := 0
	for i := 0; i < sl.len; i++ {
		x := sl.o.cells[sl.off+i]
		if o, ok := x.(*bObj); ok {
			x = q.c.getf(o, et, part)
		}
		b, ok := x.(*bv)
		if !ok {
			return "undecided: a slot is unknown"
		}
		is := true // certainly free
		for j := 0; j < b.w; j++ {
			if b.b[j] > bOne || uint64(b.b[j]) != free>>uint(j)&1 {
				is = false
			}
		}
		if !is {
			n++
		}
	}
	if c := q.c.num(q.c.getf(v, t, count), "the count"); int(c) != n {
		return fmt.Sprintf("%d slots are occupied but %d are counted", n, c)
	}
	if n >= sl.len {
		return fmt.Sprintf("all %d slots are occupied", n)
	}
	return ""
}

// grows: a table of 2^lg slots (in a mode where it may grow) must have been enlarged or left by
// the time its count says it is full; the slots themselves stay free, only the count is set.
func (q *probeRun) grows(name, pos string, lg int, run func(count int) string) {
	q.decide("load", fmt.Sprintf("%s grows beyond 2^%d slots", name, lg), pos, func() string {
		q.watch(bnil{})
		n := 1 << lg
		for _, count := range []int{n / 2, n * 3 / 4, n*3/4 + 1, n * 15 / 16, n*15/16 + 1, n - 2, n - 1} {
			q.s.steps = 0
			switch m := run(count); m {
			case "same":
			case "":
				return ""
			default:
				return m
			}
		}
		return fmt.Sprintf("no growth when the count reaches all %d slots", n)
	})
}

// larger says "" when the slots of a table became more than n.
func (q *probeRun) larger(v bval, t types.Type, slots string, n int) string {
	sl, ok := q.c.getf(v, t, slots).(bslice)
	if !ok {
		return "undecided: the slots are unknown"
	}
	if sl.len <= n {
		return "same"
	}
	return ""
}

func (q *probeRun) hll() {
	find, pos := q.fnOf("hll.(auxHashMap).mustFindValueFor")
	mk, _ := q.fnOf("hll.newAuxHashMap")
	add, apos := q.fnOf("hll.(auxHashMap).mustAdd")
	if find == nil || mk == nil || add == nil {
		q.r.undecided("probe", "hll exception table", "", "the table or its search no longer exists")
	} else {
		mt := mk.Signature.Results().At(0).Type()
		search := func(lg, lgK, slot, free int) string {
			v := q.s.call(mk, []bval{bconst(uint64(lg), 64), bconst(uint64(lgK), 64)}, nil, nil)
			sl := filled(1<<lg, q.marked("slot", 64, 1<<63-1|1<<63-1<<31, uint64(slot^1)|3<<26))
			if free >= 0 {
				sl.o.cells[free] = bconst(0, 64)
			}
			q.c.setf(v, mt, "auxIntArr", sl)
			q.watch(sl)
			res := q.s.call(find, []bval{v, bconst(uint64(slot), 64)}, nil, nil)
			if m := q.distinct(); m != "" {
				return m
			}
			if errOf(res) != 1 {
				return "a search that finds neither the key nor a free slot reports success"
			}
			if free < 0 && len(q.seen) != 1<<lg {
				return fmt.Sprintf("a search in a full table gives up after %d of %d slots", len(q.seen), 1<<lg)
			}
			if free >= 0 && q.seen[len(q.seen)-1] != free {
				return "the search passes by a free slot"
			}
			return ""
		}
		for lg := 1; lg <= 6; lg++ {
			q.decide("probe", fmt.Sprintf("hll exception table of 2^%d slots", lg), pos, func() string {
				lgK := 11
				for slot := 0; slot < 1<<lgK; slot++ {
					q.s.steps = 0
					if m := search(lg, lgK, slot, -1); m != "" {
						return fmt.Sprintf("register %d: %s", slot, m)
					}
				}
				return ""
			})
		}
		for lg := 7; lg <= 14; lg++ {
			q.decide("probe", fmt.Sprintf("hll exception table of 2^%d slots", lg), pos, func() string {
				for _, slot := range []int{0, 1<<20 - 1, 0x5a5a5} {
					q.s.steps = 0
					if m := search(lg, 21, slot, -1); m != "" {
						return m
					}
				}
				return ""
			})
		}
		q.decide("probe", "hll exception table, one free slot", pos, func() string {
			for free := 0; free < 16; free++ {
				for slot := 0; slot < 256; slot++ {
					q.s.steps = 0
					if m := search(4, 8, slot, free); m != "" {
						return m
					}
				}
			}
			return ""
		})
		for lg := 3; lg <= 15; lg += 2 {
			q.grows("hll exception table", apos, lg, func(count int) string {
				v := q.s.call(mk, []bval{bconst(uint64(lg), 64), bconst(21, 64)}, nil, nil)
				q.c.setf(v, mt, "auxCount", bconst(uint64(count), 64))
				if errOf(q.s.call(add, []bval{v, bconst(77, 64), bconst(20, 64)}, nil, nil)) != 0 {
					return "it fails"
				}
				return q.larger(v, mt, "auxIntArr", 1<<lg)
			})
		}
		for lgK := 8; lgK <= 20; lgK += 4 {
			q.decide("load", fmt.Sprintf("hll exception table lgK=%d", lgK), apos, func() string {
				v := q.s.call(mk, []bval{bconst(2, 64), bconst(uint64(lgK), 64)}, nil, nil)
				q.watch(bnil{})
				for i := 0; i < 90; i++ {
					q.s.steps = 0
					slot := i * 37 & (1<<lgK - 1)
					res := q.s.call(add, []bval{v, bconst(uint64(slot), 64), q.marked("value", 64, ^uint64(63)|16, 16)}, nil, nil)
					if errOf(res) != 0 {
						return fmt.Sprintf("insertion %d fails", i+1)
					}
					if m := q.occupied(v, mt, "auxIntArr", "auxCount", "", 0); m != "" {
						return fmt.Sprintf("after %d insertions %s", i+1, m)
					}
				}
				return ""
			})
		}
	}
	// coupon sets
	upd, upos := q.fnOf("hll.(couponHashSetImpl).couponUpdate")
	ns, _ := q.fnOf("hll.newCouponHashSet")
	if upd == nil || ns == nil {
		q.r.undecided("probe", "hll coupon set", "", "the table or its update no longer exists")
		return
	}
	st := types.NewPointer(ns.Signature.Results().At(0).Type())
	mkSet := func(lgK int) bval {
		v := q.c.ok(q.s.call(ns, []bval{bconst(uint64(lgK), 64), bconst(0, 64)}, nil, nil), "newCouponHashSet")
		return bptr{&bObj{cells: []bval{bmem(v)}}, 0}
	}
	search := func(lg int, coupon uint64, free int) string {
		v := mkSet(21)
		sl := filled(1<<lg, q.marked("slot", 64, 1<<63-1<<32|1<<31|1, 1<<31|coupon&1^1))
		if free >= 0 {
			sl.o.cells[free] = bconst(0, 64)
		}
		q.c.setf(v, st, "couponIntArr", sl)
		q.c.setf(v, st, "lgCouponArrInts", bconst(uint64(lg), 64))
		q.c.setf(v, st, "couponCount", bconst(0, 64))
		q.watch(sl)
		res := q.s.call(upd, []bval{v, bconst(coupon, 64)}, nil, nil)
		if m := q.distinct(); m != "" {
			return m
		}
		if free < 0 {
			if errOf(res) != 1 {
				return "a search that finds neither the coupon nor a free slot reports success"
			}
			if len(q.seen) != 1<<lg {
				return fmt.Sprintf("a search in a full table gives up after %d of %d slots", len(q.seen), 1<<lg)
			}
		} else if q.seen[len(q.seen)-1] != free {
			return "the search passes by a free slot"
		}
		return ""
	}
	for lg := 3; lg <= 6; lg++ {
		q.decide("probe", fmt.Sprintf("hll coupon set of 2^%d slots", lg), upos, func() string {
			for low := 0; low < 1<<11; low++ {
				q.s.steps = 0
				if m := search(lg, uint64(low)|1<<26, -1); m != "" {
					return fmt.Sprintf("coupon %d: %s", low, m)
				}
			}
			return ""
		})
	}
	for lg := 7; lg <= 17; lg += 2 {
		q.decide("probe", fmt.Sprintf("hll coupon set of 2^%d slots", lg), upos, func() string {
			for _, low := range []uint64{0, 1<<26 - 1, 0x2a5a5a4} {
				q.s.steps = 0
				if m := search(lg, low|1<<26, -1); m != "" {
					return m
				}
			}
			return ""
		})
	}
	q.decide("probe", "hll coupon set, one free slot", upos, func() string {
		for free := 0; free < 32; free++ {
			for low := 0; low < 64; low++ {
				q.s.steps = 0
				if m := search(5, uint64(low*33)|1<<26, free); m != "" {
					return m
				}
			}
		}
		return ""
	})
	for lg := 5; lg <= 17; lg += 2 {
		q.grows("hll coupon set", upos, lg, func(count int) string {
			v := mkSet(21)
			q.c.setf(v, st, "couponIntArr", filled(1<<lg, bconst(0, 64)))
			q.c.setf(v, st, "lgCouponArrInts", bconst(uint64(lg), 64))
			q.c.setf(v, st, "couponCount", bconst(uint64(count), 64))
			res := q.s.call(upd, []bval{v, bconst(3<<26|12345, 64)}, nil, nil)
			if errOf(res) != 0 {
				return "it fails"
			}
			next, ok := res.(btuple)[0].(biface)
			if !ok {
				return "undecided: the new state is unknown"
			}
			if !strings.Contains(fmt.Sprint(next.t), "couponHashSet") {
				return ""
			}
			return q.larger(next.v, next.t, "couponIntArr", 1<<lg)
		})
	}
	for lgK := 8; lgK <= 11; lgK++ {
		q.decide("load", fmt.Sprintf("hll coupon set lgK=%d", lgK), upos, func() string {
			v := mkSet(lgK)
			q.watch(bnil{})
			for i := 0; i < 1<<lgK; i++ {
				q.s.steps = 0
				c := bconst(uint64(i*2654435761&(1<<26-1))|1<<26, 64)
				res := q.s.call(upd, []bval{v, c}, nil, nil)
				if errOf(res) != 0 {
					return fmt.Sprintf("insertion %d fails", i+1)
				}
				next, ok := res.(btuple)[0].(biface)
				if !ok {
					return "undecided: the new state is unknown"
				}
				if !strings.Contains(fmt.Sprint(next.t), "couponHashSet") {
					if i < 1<<(lgK-3)/2 {
						return "the set is promoted early"
					}
					return ""
				}
				if m := q.occupied(v, st, "couponIntArr", "couponCount", "", 0); m != "" {
					return fmt.Sprintf("after %d insertions %s", i+1, m)
				}
			}
			return "the set is never promoted"
		})
	}
}

func (q *probeRun) cpc() {
	mk, _ := q.fnOf("cpc.NewPairTable")
	ins, ipos := q.fnOf("cpc.(pairTable).maybeInsert")
	del, dpos := q.fnOf("cpc.(pairTable).maybeDelete")
	if mk == nil || ins == nil || del == nil {
		q.r.undecided("probe", "cpc pair table", "", "the table or its search no longer exists")
		return
	}
	pt := mk.Signature.Results().At(0).Type()
	table := func(lg, valid int) bval {
		return q.c.ok(q.s.call(mk, []bval{bconst(uint64(lg), 64), bconst(uint64(valid), 64)}, nil, nil), "NewPairTable")
	}
	all := ^uint64(0)
	for _, x := range []struct {
		name string
		fn   *ssa.Function
		pos  string
	}{{"insertion", ins, ipos}, {"deletion", del, dpos}} {
		for lg := 2; lg <= 6; lg++ {
			q.decide("probe", fmt.Sprintf("cpc pair table of 2^%d slots, %s with one free slot", lg, x.name), x.pos, func() string {
				valid := lg + 6
				n := 1 << lg
				for start := 0; start < n; start++ {
					for free := 0; free < n; free++ {
						q.s.steps = 0
						v := table(lg, valid)
						sl := filled(n, q.marked("slot", 64, ^uint64(1<<valid-1)|1, 1))
						sl.o.cells[free] = bconst(all, 64)
						q.c.setf(v, pt, "slotsArr", sl)
						q.c.setf(v, pt, "numPairs", bconst(0, 64))
						q.watch(sl)
						res := q.s.call(x.fn, []bval{v, bconst(uint64(start<<6|10), 64)}, nil, nil)
						if m := q.distinct(); m != "" {
							return m
						}
						if len(q.seen) != (free-start+n)%n+1 || q.seen[len(q.seen)-1] != free {
							return fmt.Sprintf("from slot %d the search does not end at the free slot %d", start, free)
						}
						if errOf(res) != 0 {
							return "it fails"
						}
					}
				}
				return ""
			})
		}
	}
	for lg := 7; lg <= 19; lg++ {
		q.grows("cpc pair table", ipos, lg, func(count int) string {
			v := table(lg, 32)
			q.c.setf(v, pt, "numPairs", bconst(uint64(count), 64))
			if errOf(q.s.call(ins, []bval{v, bconst(uint64(lg)<<9|5, 64)}, nil, nil)) != 0 {
				return "it fails"
			}
			return q.larger(v, pt, "slotsArr", 1<<lg)
		})
	}
	for _, lgK := range []int{4, 11} {
		q.decide("load", fmt.Sprintf("cpc pair table, insertions then deletions, lgK=%d", lgK), ipos, func() string {
			v := table(2, lgK+6)
			q.watch(bnil{})
			n := 120
			item := func(i int) *bv { return bconst(uint64(i*397)&(1<<(lgK+6)-1), 64) }
			for i := 0; i < n; i++ {
				q.s.steps = 0
				res := q.s.call(ins, []bval{v, item(i)}, nil, nil)
				if errOf(res) != 0 {
					return fmt.Sprintf("insertion %d fails", i+1)
				}
				if m := q.occupied(v, pt, "slotsArr", "numPairs", "", all); m != "" {
					return fmt.Sprintf("after %d insertions %s", i+1, m)
				}
			}
			for i := n - 1; i >= 0; i-- {
				q.s.steps = 0
				res := q.s.call(del, []bval{v, item(i)}, nil, nil)
				if errOf(res) != 0 {
					return fmt.Sprintf("deletion %d fails", n-i)
				}
				if m := q.occupied(v, pt, "slotsArr", "numPairs", "", all); m != "" {
					return fmt.Sprintf("after %d deletions %s", n-i, m)
				}
				if c := q.c.num(q.c.getf(v, pt, "numPairs"), "the count"); int(c) != i {
					return fmt.Sprintf("after %d deletions %d of %d pairs are left", n-i, c, n)
				}
			}
			return ""
		})
	}
}

func (q *probeRun) freq() {
	for _, kind := range []string{"Long", "Item"} {
		lower := "frequencies.(reversePurge" + kind + "HashMap)."
		mk, _ := q.fnOf("frequencies.newReversePurge" + kind + "HashMap")
		get, gpos := q.fnOf(lower + "get")
		adj, apos := q.fnOf(lower + "adjustOrPutValue")
		if mk == nil || get == nil || adj == nil {
			q.r.undecided("probe", "frequencies "+kind+" table", "", "the table or its search no longer exists")
			continue
		}
		q.reset(mk)
		for k := range q.s.tm {
			q.s.tm[k] = types.Typ[types.Int64]
		}
		mt := q.s.tm.of(mk.Signature.Results().At(0).Type())
		hasher := biface{hook: func(name string, in []bval) (bval, bool) { // the key is its own hash
			if name == "Hash" {
				return in[len(in)-1], true
			}
			return bunk{name}, true
		}}
		table := func(n int) bval {
			in := []bval{bconst(uint64(n), 64)}
			for len(in) < len(mk.Params) {
				in = append(in, hasher)
			}
			return q.c.ok(q.s.call(mk, in, nil, q.s.tm), "the table")
		}
		for _, x := range []struct {
			name string
			fn   *ssa.Function
			pos  string
		}{{"lookup", get, gpos}, {"update", adj, apos}} {
			for lg := 3; lg <= 6; lg++ {
				q.decide("probe", fmt.Sprintf("frequencies %s table of 2^%d slots, %s with one free slot", kind, lg, x.name), x.pos, func() string {
					n := 1 << lg
					starts := map[int]bool{}
					for key := 0; len(starts) < n && key < 40*n; key++ {
						fresh := true
						for free := 0; free < n && fresh; free++ {
							q.s.steps = 0
							v := table(n)
							states := filled(n, q.marked("state", 16, 0xff01, 1))
							states.o.cells[free] = bconst(0, 16)
							keys := filled(n, q.marked("key", 64, 1<<63-1<<32, 1<<40))
							q.c.setf(v, mt, "states", states)
							q.c.setf(v, mt, "keys", keys)
							q.watch(states)
							in := []bval{v, bconst(uint64(key), 64)}
							for len(in) < len(x.fn.Params) {
								in = append(in, bconst(1, 64))
							}
							res := q.s.call(x.fn, in, nil, q.s.tm)
							if m := q.distinct(); m != "" {
								return m
							}
							if len(q.seen) == 0 || q.seen[len(q.seen)-1] != free {
								return "the search does not end at the free slot"
							}
							if errOf(res) != 0 {
								return "it fails although a slot is free"
							}
							if free == 0 && starts[q.seen[0]] {
								fresh = false
							}
							starts[q.seen[0]] = true
						}
					}
					if len(starts) < n {
						return fmt.Sprintf("only %d of %d start positions occur", len(starts), n)
					}
					return ""
				})
			}
		}
		// the whole sketch
		ctor, upd := "frequencies.NewLongsSketch", "frequencies.(LongsSketch).UpdateMany"
		if kind == "Item" {
			ctor, upd = "frequencies.NewFrequencyItemsSketch", "frequencies.(ItemsSketch).UpdateMany"
		}
		cf, _ := q.fnOf(ctor)
		uf, upos := q.fnOf(upd)
		if cf == nil || uf == nil {
			q.r.undecided("load", "frequencies "+kind+" sketch", "", "the sketch or its update no longer exists")
			continue
		}
		for lg := 7; lg <= 16; lg++ {
			q.grows("frequencies "+kind+" sketch", upos, lg, func(count int) string {
				tm := entryTypes(cf)
				for k := range tm {
					tm[k] = types.Typ[types.Int64]
				}
				for k := range q.s.tm {
					tm[k] = types.Typ[types.Int64]
				}
				q.s.tm = tm
				in := []bval{bconst(uint64(lg+1), 64), bconst(uint64(lg), 64)}
				for len(in) < len(cf.Params) {
					in = append(in, hasher)
				}
				sk := q.c.ok(q.s.call(cf, in, nil, tm), "the constructor")
				skT := tm.of(cf.Signature.Results().At(0).Type())
				m, t := q.c.ref(sk, skT, "hashMap")
				if m == nil {
					return "undecided: the sketch has no field hashMap"
				}
				q.c.setf(*m, t, "numActive", bconst(uint64(count), 64))
				if errOf(q.s.call(uf, []bval{sk, bconst(uint64(lg*11+1), 64), bconst(3, 64)}, nil, tm)) != 0 {
					return "it fails"
				}
				m, t = q.c.ref(sk, skT, "hashMap")
				return q.larger(*m, t, "states", 1<<lg)
			})
		}
		for lgMax := 3; lgMax <= 6; lgMax++ {
			q.decide("load", fmt.Sprintf("frequencies %s sketch lgMax=%d", kind, lgMax), upos, func() string {
				tm := entryTypes(cf)
				for k := range tm {
					tm[k] = types.Typ[types.Int64]
				}
				for k := range q.s.tm {
					tm[k] = types.Typ[types.Int64]
				}
				q.s.tm = tm
				in := []bval{bconst(uint64(lgMax), 64), bconst(3, 64)}
				for len(in) < len(cf.Params) {
					in = append(in, hasher)
				}
				sk := q.c.ok(q.s.call(cf, in, nil, tm), "the constructor")
				skT := tm.of(cf.Signature.Results().At(0).Type())
				q.watch(bnil{})
				for i := 0; i < 3<<lgMax; i++ {
					q.s.steps = 0
					res := q.s.call(uf, []bval{sk, bconst(uint64(i*11+1), 64), bconst(uint64(1+i%5), 64)}, nil, tm)
					if errOf(res) != 0 {
						return fmt.Sprintf("update %d fails", i+1)
					}
					m, t := q.c.ref(sk, skT, "hashMap")
					if m == nil {
						return "undecided: the sketch has no field hashMap"
					}
					if e := q.occupied(*m, t, "states", "numActive", "", 0); e != "" {
						return fmt.Sprintf("after %d updates %s", i+1, e)
					}
				}
				return ""
			})
		}
	}
}

// sizing: tables sized from a count.
func (q *probeRun) sizing() {
	f, pos := q.fnOf("internal.LgSizeFromCount")
	if f == nil {
		q.r.undecided("sizing", "LgSizeFromCount", "", "the function no longer exists")
		return
	}
	counts := func() (out []uint64) {
		for n := uint64(1); n <= 300; n++ {
			out = append(out, n)
		}
		for lg := uint(9); lg <= 26; lg++ {
			t := uint64(1) << lg * 15 / 16
			h := uint64(1) << lg / 2
			for d := uint64(0); d < 4; d++ {
				out = append(out, t-2+d, 1<<lg-2+d, h-2+d)
			}
		}
		return
	}()
	seen := map[string]bool{}
	n := 0
	for _, fn := range q.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || norm(call.Call.StaticCallee()) != f || len(call.Call.Args) != 2 {
					continue
				}
				k, ok := call.Call.Args[1].(*ssa.Const)
				name := q.p.FName(norm(fn))
				if seen[name] {
					name += " (again)"
				}
				seen[name] = true
				n++
				q.decide("sizing", name, q.p.Pos(in.Pos()), func() string {
					if !ok {
						return "undecided: the load factor is not constant"
					}
					for _, c := range counts {
						q.s.steps = 0
						lg := q.c.num(q.s.call(f, []bval{bconst(c, 32), q.s.konstVal(k, k.Type())}, nil, nil), "the size")
						if lg < 0 || lg > 31 || c > uint64(1)<<uint(lg)*15/16 || c >= uint64(1)<<uint(lg) {
							return fmt.Sprintf("a table for %d entries is given 2^%d slots", c, lg)
						}
					}
					return ""
				})
			}
		}
	}
	_ = pos
}
