package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: updates and merges of every sketch that reports a stream length or a total weight are interpreted
// in sequences that reach every way of making room; after each step the length is the one before plus
// what was accepted, the weights of what is retained add up to it, and the extremes are those of the
// items accepted.

func init() { checks["C12"] = chkC12 }

func chkC12(p *Prog, r *Report) {
	r.Explain = "rule count: after each update and merge of a sequence that passes through growth, compaction, sampling and purging, the reported length or total weight grows by exactly the weight accepted, retained items come from the stream and their weights add up to the length, and minimum and maximum are those of the items accepted; ignored and rejected items change nothing"
	only := os.Getenv("LAYOUT")
	run := func(name string, f func(q *probeRun)) {
		if only != "" && !strings.Contains(name, only) {
			return
		}
		f(newProbe(p, r))
	}
	run("kll", (*probeRun).countKll)
	run("req", (*probeRun).countReq)
	run("tdigest", (*probeRun).countDigest)
	run("count-min", (*probeRun).countMin)
	run("frequencies", (*probeRun).countFreq)
	run("reservoir", (*probeRun).countReservoir)
	run("varopt", (*probeRun).countVarOpt)
	r.floor("count", 3000)
}

// orders are ways of giving n items their ranks.
func orders(n int) map[string][]int {
	up, down, mix, half := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i := range up {
		up[i], down[i] = i, n-1-i
		mix[i] = i
		if i%2 == 0 {
			half[i] = n/2 + i/2
		} else {
			half[i] = n/2 - 1 - i/2
		}
	}
	x := uint32(12345)
	for i := n - 1; i > 0; i-- {
		x = x*1664525 + 1013904223
		j := int(x>>8) % (i + 1)
		mix[i], mix[j] = mix[j], mix[i]
	}
	return map[string][]int{"ascending": up, "descending": down, "mixed": mix, "alternating": half}
}

var orderNames = []string{"ascending", "descending", "mixed", "alternating"}

// ranked are unknown items of which only the order is known.
type ranked struct {
	item []bval
	rank map[string]int
}

func (q *probeRun) ranked(order []int, what string) *ranked {
	w := &ranked{rank: map[string]int{}}
	for i, k := range order {
		v := q.marked(fmt.Sprintf("%s %d", what, i), 64, 1<<16-1, uint64(i)) // different from the others
		w.item = append(w.item, v)
		w.rank[bkey(v)] = k
	}
	return w
}

func (w *ranked) of(v bval) int {
	if b, ok := v.(*bv); ok {
		if k, ok := w.rank[bkey(b)]; ok {
			return k
		}
	}
	return -1
}

// less is a comparison of ranked items.
func (q *probeRun) less(ws ...*ranked) bfunc {
	rank := func(v bval) int {
		for _, w := range ws {
			if k := w.of(v); k >= 0 {
				return k
			}
		}
		q.s.stop("violated", "something that is not an item of the stream is compared", nil)
		return 0
	}
	return bfunc{hook: func(in []bval) bval { return bbool(rank(in[0]) < rank(in[1])) }}
}

// chance makes random choices come out in turn: 0 always low, 1 always high, 2 alternating.
func (q *probeRun) chance(how int) func() {
	other := q.s.model
	n := 0
	q.s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "math/rand") && f.Signature.Results().Len() == 1 {
			t := f.Signature.Results().At(0).Type()
			n++
			high := how == 1 || how == 2 && n%2 == 0
			if w := intWidth(t); w > 1 {
				k := uint64(0)
				if high {
					k = 1<<uint(w-1) - 1 // also the largest of the signed
					if len(in) > 0 {
						if b, ok := in[len(in)-1].(*bv); ok {
							if x, ok := b.konst(); ok && x > 0 {
								k = x - 1
							}
						}
					}
				}
				return bconst(k, w), true
			}
			if isFloat(t) {
				if high {
					return fconst(1 - 1.0/1024), true
				}
				return fconst(1.0 / 1024), true
			}
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" && strings.HasPrefix(f.Name(), "Slice") && len(in) == 2 {
			if q.byExchange(in) {
				return btuple{}, true
			}
		}
		return other(f, in)
	}
	return func() { q.s.model = other }
}

// byExchange is sort.Slice, as an insertion sort.
func (q *probeRun) byExchange(in []bval) bool {
	sl, ok := in[0].(biface)
	less, ok2 := in[1].(bfunc)
	if !ok || !ok2 {
		return false
	}
	x, ok := sl.v.(bslice)
	if !ok {
		return sl.v == bval(bnil{})
	}
	c := x.o.cells[x.off : x.off+x.len]
	for i := 1; i < len(c); i++ {
		for j := i; j > 0; j-- {
			k, ok := q.s.call(less.fn, []bval{bconst(uint64(j), 64), bconst(uint64(j-1), 64)}, less.free, less.tm).(*bv)
			if !ok {
				q.s.stop("undecided", "the order of a sort is unknown", nil)
			}
			k = q.s.pinned(k)
			if k.b[0] != bOne && k.b[0] != bZero {
				q.s.stop("undecided", "the order of a sort is unknown", nil)
			}
			if k.b[0] == bZero {
				break
			}
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	return true
}

func (q *probeRun) countKll() {
	mk, pos := q.fnOf("kll.NewKllItemsSketch")
	if mk == nil {
		q.r.undecided("count", "KLL sketch", "", "the sketch no longer exists")
		return
	}
	q.s.tm = entryTypes(mk)
	st := q.c.retType("kll.NewKllItemsSketch", 0)
	sketch := func(k, m int, less bfunc) bval {
		return q.c.ok(q.c.fn("kll.NewKllItemsSketch", bconst(uint64(k), 16), bconst(uint64(m), 8), less, biface{hook: func(string, []bval) (bval, bool) { return bunk{}, true }}), "NewKllItemsSketch")
	}
	type cfg struct{ k, m int }
	state := func(v bval, n int, lo, hi int, w *ranked, full bool) string {
		if g := q.c.num(q.c.method(v, st, "GetN"), "the length"); g != int64(n) {
			return fmt.Sprintf("the length is %d after %d items", g, n)
		}
		for _, x := range []struct {
			name string
			want int
		}{{"GetMinItem", lo}, {"GetMaxItem", hi}} {
			if n == 0 {
				break
			}
			if g := w.of(q.c.ok(q.c.method(v, st, x.name), x.name)); g != x.want {
				return fmt.Sprintf("%s has rank %d, not %d, after %d items", x.name, g, x.want, n)
			}
		}
		if !full {
			return ""
		}
		sum, kept := int64(0), int64(0)
		it := q.c.method(v, st, "GetIterator")
		itT := q.p.lookup(st, "GetIterator").Signature.Results().At(0).Type()
		for q.yes(q.c.method(it, itT, "Next"), "Next") == "" {
			sum += q.c.num(q.c.method(it, itT, "GetWeight"), "a weight")
			kept++
			if w.of(q.c.method(it, itT, "GetQuantile")) < 0 {
				return fmt.Sprintf("after %d items something retained is not an item of the stream", n)
			}
		}
		if sum != int64(n) {
			return fmt.Sprintf("the weights of the items retained add up to %d after %d items", sum, n)
		}
		// the sorted view holds the same weight, in order
		if n > 0 {
			view := q.c.ok(q.c.method(v, st, "GetSortedView"), "GetSortedView")
			vt := q.p.lookup(st, "GetSortedView").Signature.Results().At(0).Type()
			it := q.c.method(view, vt, "Iterator")
			itT := q.p.lookup(vt, "Iterator").Signature.Results().At(0).Type()
			last := -1
			for q.yes(q.c.method(it, itT, "Next"), "Next") == "" {
				sum -= q.c.num(q.c.method(it, itT, "GetWeight"), "a weight")
				r := w.of(q.c.method(it, itT, "GetQuantile"))
				if r < last {
					return fmt.Sprintf("after %d items the sorted view is out of order", n)
				}
				last = r
			}
			if sum != 0 {
				return fmt.Sprintf("after %d items the weights of the sorted view add up to %d", n, int64(n)-sum)
			}
		}
		if g := q.c.num(q.c.method(v, st, "GetNumRetained"), "the number retained"); g != kept {
			return fmt.Sprintf("%d items are retained, reported are %d", kept, g)
		}
		return ""
	}
	for _, c := range []cfg{{8, 8}, {8, 2}, {21, 4}} {
		for _, name := range orderNames {
			for how := 0; how < 3; how++ {
				q.decide("count", fmt.Sprintf("KLL sketch k=%d m=%d, %s items, choice %d", c.k, c.m, name, how), pos, func() string {
					defer q.chance(how)()
					n := 300
					w := q.ranked(orders(n)[name], "item")
					v := sketch(c.k, c.m, q.less(w))
					lo, hi := n, -1
					for i, x := range w.item {
						q.s.steps = 0
						q.c.method(v, st, "Update", x)
						lo, hi = min(lo, w.of(x)), max(hi, w.of(x))
						if m := state(v, i+1, lo, hi, w, i%10 == 9 || i < 40); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	_, mpos := q.fnOf("kll.(ItemsSketch).Merge")
	for _, c := range [][2]cfg{{{8, 8}, {8, 8}}, {{8, 2}, {21, 4}}, {{21, 4}, {8, 2}}, {{8, 4}, {200, 8}}, {{200, 8}, {8, 4}}} {
		for _, n := range [][2]int{{0, 7}, {7, 0}, {1, 1}, {5, 3}, {40, 2}, {2, 40}, {9, 130}, {130, 9}, {90, 90}, {60, 250}} {
			for how := 0; how < 3; how++ {
				name := fmt.Sprintf("KLL sketch k=%d m=%d of %d items merged into one with k=%d m=%d of %d, choice %d", c[1].k, c[1].m, n[1], c[0].k, c[0].m, n[0], how)
				q.decide("count", name, mpos, func() string {
					defer q.chance(how)()
					w := q.ranked(orders(n[0] + n[1])["mixed"], "item")
					var v [2]bval
					i := 0
					for s := 0; s < 2; s++ {
						v[s] = sketch(c[s].k, c[s].m, q.less(w))
						for j := 0; j < n[s]; j++ {
							q.s.steps = 0
							q.c.method(v[s], st, "Update", w.item[i])
							i++
						}
					}
					ext := func(from, to int) (lo, hi int) {
						lo, hi = len(w.item), -1
						for _, x := range w.item[from:to] {
							lo, hi = min(lo, w.of(x)), max(hi, w.of(x))
						}
						return
					}
					q.s.steps = 0
					q.c.method(v[0], st, "Merge", v[1])
					lo, hi := ext(0, i)
					if m := state(v[0], i, lo, hi, w, true); m != "" {
						return "the merged sketch: " + m
					}
					lo, hi = ext(n[0], i)
					if m := state(v[1], n[1], lo, hi, w, true); m != "" {
						return "the source: " + m
					}
					// the result takes further items
					for j := 0; j < n[0] && j < 20; j++ {
						q.s.steps = 0
						q.c.method(v[0], st, "Update", w.item[j])
					}
					lo, hi = ext(0, i)
					return state(v[0], i+min(20, n[0]), lo, hi, w, true)
				})
			}
		}
	}
}

// flt is a constant as a value of a sketch's item type.
func flt(f float64) bval { return fspVal(f) }

// fnum is a number a method returns.
func (q *probeRun) fnum(v bval, what string) float64 {
	f, ok := fspOf(v)
	if !ok {
		q.s.stop("undecided", what+" is not known", nil)
	}
	return f
}

func (q *probeRun) countReq() {
	mk, pos := q.fnOf("req.NewSketch")
	if mk == nil {
		q.r.undecided("count", "REQ sketch", "", "the sketch no longer exists")
		return
	}
	q.s.special = true
	st := q.c.retType("req.NewSketch", 0)
	sketch := func(k int, high bool) bval {
		o := &bObj{name: "options", cells: []bval{q.c.fn("req.WithK", bconst(uint64(k), 64)), q.c.fn("req.WithHighRankAccuracyMode", bbool(high))}}
		return q.c.ok(q.c.fn("req.NewSketch", bslice{o, 0, 2, 2}), "NewSketch")
	}
	update := func(v bval, x float64) string {
		q.s.steps = 0
		if errOf(q.c.method(v, st, "Update", flt(x))) != 0 {
			return fmt.Sprintf("the update with %g fails", x)
		}
		return ""
	}
	// state compares with what was given: n items from lo to hi.
	state := func(v bval, n int, lo, hi float64, given func(float64) bool, full bool) string {
		if g := q.c.num(q.c.method(v, st, "N"), "the length"); g != int64(n) {
			return fmt.Sprintf("the length is %d after %d items", g, n)
		}
		for _, x := range []struct {
			name string
			want float64
		}{{"MinItem", lo}, {"MaxItem", hi}} {
			r := q.c.method(v, st, x.name)
			if n == 0 {
				if errOf(r) != 1 {
					return x.name + " of an empty sketch is not refused"
				}
				continue
			}
			if g := q.fnum(q.c.ok(r, x.name), x.name); g != x.want {
				return fmt.Sprintf("%s is %g, not %g, after %d items", x.name, g, x.want, n)
			}
		}
		if !full || n == 0 {
			return ""
		}
		sum, kept := int64(0), int64(0)
		for _, it := range q.elems(q.c.method(v, st, "All")) {
			sum += q.c.num(q.field(it, 1), "a weight")
			kept++
			if x := q.fnum(q.field(it, 0), "an item"); !given(x) {
				return fmt.Sprintf("after %d items something retained, %g, is not an item of the stream", n, x)
			}
		}
		if sum != int64(n) {
			return fmt.Sprintf("the weights of the items retained add up to %d after %d items", sum, n)
		}
		if g := q.c.num(q.c.method(v, st, "NumRetained"), "the number retained"); g != kept {
			return fmt.Sprintf("%d items are retained, reported are %d", kept, g)
		}
		view := q.c.ok(q.c.method(v, st, "SortedView"), "SortedView")
		vt := q.p.lookup(st, "SortedView").Signature.Results().At(0).Type()
		it := q.c.method(view, vt, "Iterator")
		itT := q.p.lookup(vt, "Iterator").Signature.Results().At(0).Type()
		last := math.Inf(-1)
		for q.yes(q.c.method(it, itT, "Next"), "Next") == "" {
			sum -= q.c.num(q.c.ok(q.c.method(it, itT, "Weight"), "Weight"), "a weight")
			x := q.fnum(q.c.ok(q.c.method(it, itT, "Quantile"), "Quantile"), "an item")
			if x < last {
				return fmt.Sprintf("after %d items the sorted view is out of order", n)
			}
			if last = x; !given(x) {
				return fmt.Sprintf("after %d items something in the sorted view, %g, is not an item of the stream", n, x)
			}
		}
		if sum != 0 {
			return fmt.Sprintf("after %d items the weights of the sorted view add up to %d", n, int64(n)-sum)
		}
		return ""
	}
	within := func(n int) func(float64) bool {
		return func(x float64) bool { return x == math.Trunc(x) && 1 <= x && x <= float64(n) }
	}
	for _, k := range []int{4, 12} {
		for _, high := range []bool{false, true} {
			for _, name := range orderNames {
				for how := 0; how < 3; how++ {
					q.decide("count", fmt.Sprintf("REQ sketch k=%d high=%v, %s items, choice %d", k, high, name, how), pos, func() string {
						defer q.chance(how)()
						n := 60 * k
						v := sketch(k, high)
						lo, hi := math.Inf(1), math.Inf(-1)
						for i, x := range orders(n)[name] {
							f := float64(x + 1)
							lo, hi = min(lo, f), max(hi, f)
							if m := update(v, f); m != "" {
								return m
							}
							if i%50 == 7 || i == 0 {
								if m := update(v, math.NaN()); m != "" {
									return m
								}
							}
							if m := state(v, i+1, lo, hi, within(n), i%20 == 19 || i < 30 || i == n-1); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		}
	}
	_, mpos := q.fnOf("req.(Sketch).Merge")
	for _, k := range [][2]int{{4, 4}, {4, 12}, {12, 4}} {
		for _, high := range []bool{false, true} {
			for _, n := range [][2]int{{0, 7}, {7, 0}, {1, 1}, {5, 3}, {40, 2}, {2, 40}, {9, 130}, {130, 9}, {90, 90}, {60, 250}} {
				for how := 0; how < 3; how++ {
					name := fmt.Sprintf("REQ sketch k=%d of %d items merged into one with k=%d of %d, high=%v, choice %d", k[1], n[1], k[0], n[0], high, how)
					q.decide("count", name, mpos, func() string {
						defer q.chance(how)()
						all := orders(n[0] + n[1])["mixed"]
						var v [2]bval
						var lo, hi [2]float64
						i := 0
						for s := 0; s < 2; s++ {
							v[s] = sketch(k[s], high)
							lo[s], hi[s] = math.Inf(1), math.Inf(-1)
							for j := 0; j < n[s]; j++ {
								f := float64(all[i] + 1)
								lo[s], hi[s] = min(lo[s], f), max(hi[s], f)
								if m := update(v[s], f); m != "" {
									return m
								}
								i++
							}
						}
						q.s.steps = 0
						if errOf(q.c.method(v[0], st, "Merge", v[1])) != 0 {
							return "the merge fails"
						}
						l, h := min(lo[0], lo[1]), max(hi[0], hi[1])
						if m := state(v[0], i, l, h, within(i), true); m != "" {
							return "the merged sketch: " + m
						}
						if m := state(v[1], n[1], lo[1], hi[1], within(i), true); m != "" {
							return "the source: " + m
						}
						for j := 0; j < n[0] && j < 20; j++ {
							if m := update(v[0], float64(all[j]+1)); m != "" {
								return m
							}
						}
						return state(v[0], i+min(20, n[0]), l, h, within(i), true)
					})
				}
			}
		}
	}
}

// elems are the elements of a slice value.
func (q *probeRun) elems(v bval) []bval {
	switch sl := v.(type) {
	case bslice:
		return sl.o.cells[sl.off : sl.off+sl.len]
	case bnil:
		return nil
	}
	q.s.stop("undecided", "a slice is not known", nil)
	return nil
}

// field is a field of a structure value.
func (q *probeRun) field(v bval, i int) bval {
	switch a := v.(type) {
	case *bObj:
		return a.cells[i]
	case bagg:
		return a.f[i]
	case bptr:
		return q.field(a.o.cells[a.i], i)
	}
	q.s.stop("undecided", "a structure is not known", nil)
	return nil
}

// image are the bytes of a slice, all known.
func (q *probeRun) image(v bval) []byte {
	var out []byte
	for _, x := range q.elems(v) {
		out = append(out, byte(q.c.num(x, "a byte of an image")))
	}
	return out
}

func bytesVal(b []byte) bval {
	o := &bObj{name: "image"}
	for _, x := range b {
		o.cells = append(o.cells, bconst(uint64(x), 8))
	}
	return bslice{o, 0, len(b), len(b)}
}

func (q *probeRun) countDigest() {
	mk, pos := q.fnOf("tdigest.NewDouble")
	if mk == nil {
		q.r.undecided("count", "t-digest", "", "the sketch no longer exists")
		return
	}
	q.s.special = true
	st := q.c.retType("tdigest.NewDouble", 0)
	le := binary.LittleEndian
	flt64 := func(b []byte) float64 { return math.Float64frombits(le.Uint64(b)) }
	state := func(v bval, n uint64, lo, hi float64, full bool) string {
		if g := uint64(q.c.num(q.c.method(v, st, "TotalWeight"), "the weight")); g != n {
			return fmt.Sprintf("the total weight is %d after %d were given", g, n)
		}
		if n == 0 {
			return ""
		}
		for _, x := range []struct {
			name string
			want float64
		}{{"MinValue", lo}, {"MaxValue", hi}} {
			if g := q.fnum(q.c.ok(q.c.method(v, st, x.name), x.name), x.name); g != x.want {
				return fmt.Sprintf("%s is %g, not %g, after a weight of %d", x.name, g, x.want, n)
			}
		}
		if !full {
			return ""
		}
		b := q.image(q.c.ok(q.c.fn("tdigest.EncodeDouble", v, bconst(1, 1)), "EncodeDouble"))
		if n == 1 {
			if len(b) != 16 || flt64(b[8:]) != lo {
				return "the image of a single value is not that value"
			}
			return ""
		}
		if len(b) < 32 {
			return "the image is too short"
		}
		nc, nb := int(le.Uint32(b[8:])), int(le.Uint32(b[12:]))
		if len(b) != 32+16*nc+8*nb {
			return "the image does not have the size of its contents"
		}
		sum, last := uint64(nb), math.Inf(-1)
		for i := 0; i < nc; i++ {
			m := flt64(b[32+16*i:])
			if m < last || m < lo || m > hi {
				return fmt.Sprintf("after a weight of %d the centroids are out of order or outside the range of the values", n)
			}
			last = m
			sum += le.Uint64(b[40+16*i:])
		}
		for i := 0; i < nb; i++ {
			if m := flt64(b[32+16*nc+8*i:]); m < lo || m > hi || m != math.Trunc(m) {
				return fmt.Sprintf("after a weight of %d something retained is not a value given", n)
			}
		}
		if sum != n {
			return fmt.Sprintf("the weights retained add up to %d after %d were given", sum, n)
		}
		return ""
	}
	digest := func(k int) bval { return q.c.ok(q.c.fn("tdigest.NewDouble", bconst(uint64(k), 16)), "NewDouble") }
	update := func(v bval, x float64) string {
		q.s.steps = 0
		if errOf(q.c.method(v, st, "Update", flt(x))) != 0 {
			return fmt.Sprintf("the update with %g fails", x)
		}
		return ""
	}
	for _, k := range []int{10, 30} {
		for _, name := range append(orderNames, "equal") {
			q.decide("count", fmt.Sprintf("t-digest k=%d, %s values", k, name), pos, func() string {
				n := 600
				l := make([]int, n)
				if o := orders(n)[name]; o != nil {
					l = o
				}
				v := digest(k)
				lo, hi := math.Inf(1), math.Inf(-1)
				for i, x := range l {
					f := float64(x - n/2)
					lo, hi = min(lo, f), max(hi, f)
					if m := update(v, f); m != "" {
						return m
					}
					if i%97 == 7 || i == 0 {
						for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
							if errOf(q.c.method(v, st, "Update", flt(bad))) != 1 {
								return fmt.Sprintf("the update with %g is not refused", bad)
							}
						}
					}
					if m := state(v, uint64(i+1), lo, hi, i < 3 || i%40 == 0 || i == n-1); m != "" {
						return m
					}
				}
				// questions make room in place
				q.c.ok(q.c.method(v, st, "Quantile", flt(0.5)), "Quantile")
				if m := state(v, uint64(n), lo, hi, true); m != "" {
					return "after a question " + m
				}
				return ""
			})
		}
	}
	type src struct {
		name   string
		values []float64
		image  []float64 // mean, weight, ...
		w      uint64
		lo, hi float64
	}
	span := func(n, from int) src {
		s := src{name: fmt.Sprintf("%d values", n), w: uint64(n), lo: math.Inf(1), hi: math.Inf(-1)}
		for _, x := range orders(n)["mixed"] {
			s.values = append(s.values, float64(x+from))
		}
		for _, f := range s.values {
			s.lo, s.hi = min(s.lo, f), max(s.hi, f)
		}
		return s
	}
	srcs := []src{span(0, 0), span(1, 5), span(7, -3), span(150, 0), span(400, 10), span(420, -1000),
		{name: "an image with heavy centroids", image: []float64{-7, 1<<52 + 1, 3, 1 << 40, 8, 5}, w: 1<<52 + 1 + 1<<40 + 5, lo: -50, hi: 60},
		{name: "an image with light centroids", image: []float64{1, 1, 2, 2, 3, 1}, w: 4, lo: 1, hi: 3}}
	build := func(k int, s src) bval {
		if s.image == nil {
			v := digest(k)
			for _, f := range s.values {
				if m := update(v, f); m != "" {
					q.c.fail("%s", m)
				}
			}
			return v
		}
		b := q.image(q.c.ok(q.c.fn("tdigest.EncodeDouble", build2(q, digest(k), st), bconst(0, 1)), "EncodeDouble"))[:8]
		b = le.AppendUint32(b, uint32(len(s.image)/2))
		b = le.AppendUint32(b, 0)
		b = le.AppendUint64(b, math.Float64bits(s.lo))
		b = le.AppendUint64(b, math.Float64bits(s.hi))
		for i := 0; i < len(s.image); i += 2 {
			b = le.AppendUint64(b, math.Float64bits(s.image[i]))
			b = le.AppendUint64(b, uint64(s.image[i+1]))
		}
		return q.c.ok(q.c.fn("tdigest.DecodeDouble", bytesVal(b)), "DecodeDouble")
	}
	_, mpos := q.fnOf("tdigest.(Double).Merge")
	for _, k := range [][2]int{{10, 10}, {10, 100}, {100, 10}} {
		for _, a := range srcs {
			for _, b := range srcs {
				q.decide("count", fmt.Sprintf("t-digest k=%d of %s merged into one with k=%d of %s", k[1], b.name, k[0], a.name), mpos, func() string {
					x, y := build(k[0], a), build(k[1], b)
					q.s.steps = 0
					e := errOf(q.c.method(x, st, "Merge", y))
					if e != 0 && b.w > 0 {
						return "the merge fails"
					}
					q.s.steps = 0
					lo, hi := min(a.lo, b.lo), max(a.hi, b.hi)
					if m := state(x, a.w+b.w, lo, hi, true); m != "" {
						return "the merged digest: " + m
					}
					if m := state(y, b.w, b.lo, b.hi, true); m != "" {
						return "the source: " + m
					}
					for i := 0; i < 30; i++ {
						if m := update(x, lo0(lo)); m != "" {
							return m
						}
					}
					return state(x, a.w+b.w+30, lo0(lo), max(hi, lo0(lo)), true)
				})
			}
		}
	}
}

func lo0(lo float64) float64 {
	if math.IsInf(lo, 0) {
		return 0
	}
	return lo
}

// build2 adds two values.
func build2(q *probeRun, v bval, t types.Type) bval {
	for i := 0; i < 2; i++ {
		q.c.method(v, t, "Update", flt(float64(i)))
	}
	return v
}

func (q *probeRun) countMin() {
	mk, pos := q.fnOf("count.NewCountMinSketch")
	if mk == nil {
		q.r.undecided("count", "count-min sketch", "", "the sketch no longer exists")
		return
	}
	st := q.c.retType("count.NewCountMinSketch", 0)
	abs := func(w int64) int64 { return max(w, -w) }
	sketch := func() bval {
		return q.c.ok(q.c.fn("count.NewCountMinSketch", bconst(3, 8), bconst(5, 32), bconst(1234, 64)), "NewCountMinSketch")
	}
	total := func(v bval, want int64, when string) string {
		if g := q.c.num(q.c.method(v, st, "GetTotalWeight"), "the total weight"); g != want {
			return fmt.Sprintf("the total weight is %d instead of %d %s", g, want, when)
		}
		return ""
	}
	ws := []int64{1, 0, 3, 1<<40 + 1, -5, 1<<31 - 1, -(1 << 33), 7}
	for suf, m := range q.forms(st, "Update", "GetEstimate") {
		u, est := m["Update"], m["GetEstimate"]
		if u == nil || est == nil {
			continue
		}
		name := "count-min sketch Update" + suf
		item := func(i int) bval {
			switch t := u.Signature.Params().At(0).Type().Underlying().(type) {
			case *types.Slice:
				return bytesVal([]byte{byte(i), 2, 3, byte(i >> 8)})
			case *types.Basic:
				if w := intWidth(t); w > 0 {
					return bconst(uint64(i), w)
				}
			}
			return bstr{s: fmt.Sprint("item ", i)}
		}
		q.decide("count", name, q.p.Pos(norm(u).Pos()), func() string {
			v := sketch()
			sum := int64(0)
			for i, w := range append(ws, ws...) {
				q.s.steps = 0
				if errOf(q.s.call(u, []bval{v, item(i % 11), bconst(uint64(w), 64)}, nil, nil)) != 0 {
					return "an update fails"
				}
				sum += abs(w)
				if m := total(v, sum, fmt.Sprintf("after an update with %d", w)); m != "" {
					return m
				}
			}
			if suf == "" || suf == "String" { // the empty item is ignored
				var none bval = bslice{&bObj{}, 0, 0, 0}
				if suf != "" {
					none = bstr{}
				}
				q.s.call(u, []bval{v, none, bconst(9, 64)}, nil, nil)
				if m := total(v, sum, "after an update with the empty item"); m != "" {
					return m
				}
				if g := q.c.num(q.s.call(est, []bval{v, none}, nil, nil), "the estimate"); g > sum {
					return "the empty item has an estimate beyond the total weight"
				}
			}
			one := sketch()
			q.s.call(u, []bval{one, item(1), bconst(1<<40+1, 64)}, nil, nil)
			q.s.call(u, []bval{one, item(1), bconst(6, 64)}, nil, nil)
			if g := q.c.num(q.s.call(est, []bval{one, item(1)}, nil, nil), "the estimate"); g != 1<<40+7 {
				return fmt.Sprintf("the only item's estimate is %d after weights of %d and 6", g, 1<<40+1)
			}
			return ""
		})
		q.decide("count", name+", merged", pos, func() string {
			var v [2]bval
			var sum [2]int64
			for s := range v {
				v[s] = sketch()
				for i, w := range ws[:4+s] {
					q.s.call(u, []bval{v[s], item(3*i + s), bconst(uint64(w), 64)}, nil, nil)
					sum[s] += abs(w)
				}
			}
			if errOf(q.c.method(v[0], st, "Merge", v[1])) != 0 {
				return "the merge fails"
			}
			if m := total(v[0], sum[0]+sum[1], "after a merge"); m != "" {
				return m
			}
			if m := total(v[1], sum[1], "in the source after a merge"); m != "" {
				return m
			}
			if errOf(q.c.method(v[0], st, "Merge", v[0])) != 1 {
				return "a merge with itself is not refused"
			}
			return total(v[0], sum[0]+sum[1], "after a refused merge")
		})
	}
}

func (q *probeRun) countFreq() {
	for _, kind := range []string{"Longs", "Items"} {
		ctor := "frequencies.NewLongsSketch"
		if kind == "Items" {
			ctor = "frequencies.NewFrequencyItemsSketch"
		}
		mk, pos := q.fnOf(ctor)
		if mk == nil {
			q.r.undecided("count", "frequencies "+kind, "", "the sketch no longer exists")
			continue
		}
		q.reset(mk)
		st := q.c.retType(ctor, 0)
		hasher := biface{hook: func(name string, in []bval) (bval, bool) {
			if name == "Hash" {
				b, ok := in[len(in)-1].(*bv)
				if !ok {
					return bunk{name}, true
				}
				k, ok := b.konst()
				if !ok {
					return bunk{name}, true
				}
				return bconst(k*0x9e3779b97f4a7c15^k>>7, 64), true
			}
			return bunk{name}, true
		}}
		sketch := func(lgMax, lgCur int) bval {
			in := []bval{bconst(uint64(lgMax), 64), bconst(uint64(lgCur), 64)}
			for len(in) < len(mk.Params) {
				in = append(in, hasher)
			}
			return q.c.ok(q.c.fn(ctor, in...), ctor)
		}
		type freqs struct {
			sum int64
			by  map[int]int64
		}
		update := func(v bval, f *freqs, item int, w int64) string {
			q.s.steps = 0
			var e bval
			if w == 1 {
				e = q.c.method(v, st, "Update", bconst(uint64(item), 64))
			} else {
				e = q.c.method(v, st, "UpdateMany", bconst(uint64(item), 64), bconst(uint64(w), 64))
			}
			switch errOf(e) {
			case 1:
				if w >= 0 {
					return fmt.Sprintf("an update with %d fails", w)
				}
			case 0:
				if w < 0 {
					return fmt.Sprintf("an update with %d is not refused", w)
				}
				f.sum += w
				f.by[item] += w
			default:
				return "undecided: whether an update fails is unknown"
			}
			return ""
		}
		state := func(v bval, f *freqs, full bool) string {
			if g := q.c.num(q.c.method(v, st, "GetStreamLength"), "the length"); g != f.sum {
				return fmt.Sprintf("the length is %d after a weight of %d", g, f.sum)
			}
			if !full {
				return ""
			}
			err := q.c.num(q.c.method(v, st, "GetMaximumError"), "the maximum error")
			held, active := int64(0), int64(0)
			for item := range f.by {
				q.s.steps = 0
				lo := q.c.num(q.c.ok(q.c.method(v, st, "GetLowerBound", bconst(uint64(item), 64)), "GetLowerBound"), "a lower bound")
				hi := q.c.num(q.c.ok(q.c.method(v, st, "GetUpperBound", bconst(uint64(item), 64)), "GetUpperBound"), "an upper bound")
				if w := f.by[item]; w < lo || w > hi || hi-lo != err && lo > 0 {
					return fmt.Sprintf("an item of weight %d has bounds %d and %d, the maximum error is %d, after a weight of %d", w, lo, hi, err, f.sum)
				}
				held += lo
				if lo > 0 {
					active++
				}
			}
			if held > f.sum {
				return fmt.Sprintf("the lower bounds add up to %d after a weight of %d", held, f.sum)
			}
			if err == 0 && held != f.sum {
				return fmt.Sprintf("the items' weights add up to %d after a weight of %d without any error", held, f.sum)
			}
			if g := q.c.num(q.c.method(v, st, "GetNumActiveItems"), "the number of active items"); g != active {
				return fmt.Sprintf("%d items are active, reported are %d", active, g)
			}
			return ""
		}
		streams := map[string]func(i int) (int, int64){
			"distinct items":       func(i int) (int, int64) { return i, 1 },
			"repeated items":       func(i int) (int, int64) { return i * i % 7, int64(i%3) + 1 },
			"a few heavy items":    func(i int) (int, int64) { return i * (i % 2), 1 + int64(1-i%2)<<40 },
			"growing weights":      func(i int) (int, int64) { return i % 29, int64(i * i) },
			"zero and negative":    func(i int) (int, int64) { return i % 13, int64(i%5 - 2) },
			"the same heavy items": func(i int) (int, int64) { return i % 9, 1 << 33 },
		}
		for _, name := range keysOf(streams) {
			for _, lg := range [][2]int{{3, 3}, {5, 3}, {4, 4}} {
				q.decide("count", fmt.Sprintf("frequencies %s sketch of at most 2^%d from 2^%d, %s", kind, lg[0], lg[1], name), pos, func() string {
					v := sketch(lg[0], lg[1])
					f := &freqs{by: map[int]int64{}}
					for i := 0; i < 120; i++ {
						item, w := streams[name](i)
						if m := update(v, f, item, w); m != "" {
							return m
						}
						if m := state(v, f, i < 14 || i%9 == 0); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
		_, mpos := q.fnOf("frequencies.(" + kind + "Sketch).Merge")
		for _, a := range keysOf(streams) {
			for _, b := range keysOf(streams) {
				for _, n := range [][2]int{{0, 5}, {5, 0}, {4, 3}, {60, 50}} {
					if n[0]*n[1] == 0 && a != b {
						continue
					}
					q.decide("count", fmt.Sprintf("frequencies %s sketch, %d of %s merged into %d of %s", kind, n[1], b, n[0], a), mpos, func() string {
						var v [2]bval
						var f [2]*freqs
						for s := 0; s < 2; s++ {
							v[s] = sketch(3+s, 3)
							f[s] = &freqs{by: map[int]int64{}}
							for i := 0; i < n[s]; i++ {
								item, w := streams[[]string{a, b}[s]](i)
								if m := update(v[s], f[s], item+5*s, w); m != "" {
									return m
								}
							}
						}
						r := q.c.method(v[0], st, "Merge", v[1])
						if errOf(r) != 0 {
							return "the merge fails"
						}
						both := &freqs{sum: f[0].sum + f[1].sum, by: map[int]int64{}}
						for _, g := range f {
							for k, w := range g.by {
								both.by[k] += w
							}
						}
						if m := state(v[0], both, true); m != "" {
							return "the merged sketch: " + m
						}
						if m := state(v[1], f[1], true); m != "" {
							return "the source: " + m
						}
						if m := update(v[0], both, 3, 4); m != "" {
							return m
						}
						return state(v[0], both, true)
					})
				}
			}
		}
	}
}

func keysOf[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// sample checks the items a sample holds: items of the stream, each once.
func (q *probeRun) sample(items []bval, w *ranked, used func(i int) bool) string {
	seen := map[int]bool{}
	for _, x := range items {
		k := w.of(x)
		if k < 0 || !used(k) {
			return "something in the sample is not an item of the stream"
		}
		if seen[k] {
			return "an item is in the sample twice"
		}
		seen[k] = true
	}
	return ""
}

func upTo(n int) func(i int) bool { return func(i int) bool { return i < n } }

func (q *probeRun) countReservoir() {
	mk, pos := q.fnOf("sampling.NewReservoirItemsSketch")
	if mk == nil {
		q.r.undecided("count", "reservoir sketch", "", "the sketch no longer exists")
		return
	}
	q.reset(mk)
	st := q.c.retType("sampling.NewReservoirItemsSketch", 0)
	sketch := func(k, rf int) bval {
		o := &bObj{cells: []bval{q.c.fn("sampling.WithReservoirItemsSketchResizeFactor", bconst(uint64(rf), 8))}}
		return q.c.ok(q.c.fn("sampling.NewReservoirItemsSketch", bconst(uint64(k), 64), bslice{o, 0, 1, 1}), "NewReservoirItemsSketch")
	}
	state := func(v bval, n int64, w *ranked, used func(i int) bool) string {
		if g := q.c.num(q.c.method(v, st, "N"), "the length"); g != n {
			return fmt.Sprintf("the length is %d after %d items", g, n)
		}
		k := q.c.num(q.c.method(v, st, "K"), "the size")
		s := q.elems(q.c.method(v, st, "Samples"))
		if g := q.c.num(q.c.method(v, st, "NumSamples"), "the number of samples"); g != int64(len(s)) || g != min(n, k) {
			return fmt.Sprintf("%d samples, reported are %d, after %d items in a reservoir of %d", len(s), g, n, k)
		}
		return q.sample(s, w, used)
	}
	order := func(n int) []int { return orders(n)["ascending"] }
	for _, k := range []int{2, 5, 16, 40} {
		for rf := 0; rf < 4; rf++ {
			for how := 0; how < 3; how++ {
				q.decide("count", fmt.Sprintf("reservoir sketch k=%d resize factor %d, choice %d", k, rf, how), pos, func() string {
					defer q.chance(how)()
					w := q.ranked(order(100), "item")
					v := sketch(k, rf)
					for i, x := range w.item {
						q.s.steps = 0
						if errOf(q.c.method(v, st, "Update", x)) != 0 {
							return "an update fails"
						}
						if m := state(v, int64(i+1), w, upTo(i+1)); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	um, upos := q.fnOf("sampling.NewReservoirItemsUnion")
	if um == nil {
		q.r.undecided("count", "reservoir union", "", "the union no longer exists")
		return
	}
	ut := q.c.retType("sampling.NewReservoirItemsUnion", 0)
	union := func(k int) bval {
		return q.c.ok(q.c.fn("sampling.NewReservoirItemsUnion", bconst(uint64(k), 64)), "NewReservoirItemsUnion")
	}
	result := func(u bval) bval { return q.c.ok(q.c.method(u, ut, "Result"), "Result") }
	for _, maxK := range []int{3, 8} {
		for _, k := range [][2]int{{3, 3}, {8, 8}, {5, 8}, {8, 5}, {20, 4}, {4, 20}} {
			for _, n := range [][2]int{{0, 4}, {2, 2}, {3, 30}, {30, 3}, {30, 30}, {9, 90}, {90, 9}} {
				for how := 0; how < 3; how++ {
					name := fmt.Sprintf("reservoir union of at most %d, %d items in %d then %d in %d, choice %d", maxK, n[0], k[0], n[1], k[1], how)
					q.decide("count", name, upos, func() string {
						defer q.chance(how)()
						w := q.ranked(order(n[0]+n[1]+12), "item")
						u := union(maxK)
						i := 0
						for s := 0; s < 2; s++ {
							v := sketch(k[s], 3)
							from := i
							for j := 0; j < n[s]; j++ {
								q.c.method(v, st, "Update", w.item[i])
								i++
							}
							q.s.steps = 0
							if errOf(q.c.method(u, ut, "UpdateSketch", v)) != 0 {
								return "the union with a sketch fails"
							}
							if m := state(v, int64(n[s]), w, func(k int) bool { return from <= k && k < i }); m != "" {
								return "the source: " + m
							}
							if m := state(result(u), int64(i), w, upTo(i)); m != "" {
								return "the union: " + m
							}
						}
						for j := 0; j < 12; j++ {
							q.c.method(u, ut, "Update", w.item[i])
							i++
							if m := state(result(u), int64(i), w, upTo(i)); m != "" {
								return "the union with further items: " + m
							}
						}
						return ""
					})
				}
			}
		}
	}
	// from raw parts, up to the largest number of items
	const most = 1<<48 - 1
	type raw struct {
		n    int64
		k, s int
	}
	raws := []raw{{0, 4, 0}, {3, 4, 3}, {9, 4, 4}, {9, 8, 8}, {1 << 40, 4, 4}, {1<<40 + 7, 6, 6}, {most - 1, 4, 4}, {most - 12, 5, 5}}
	for _, a := range raws {
		for _, b := range raws {
			for how := 0; how < 3; how++ {
				q.decide("count", fmt.Sprintf("reservoir union from raw parts, %d items in %d then %d in %d, choice %d", a.n, a.k, b.n, b.k, how), upos, func() string {
					defer q.chance(how)()
					w := q.ranked(order(30), "item")
					u := union(5)
					n, i := int64(0), 0
					before := []bval(nil)
					for _, r := range []raw{a, b} {
						o := &bObj{name: "items"}
						for j := 0; j < r.s; j++ {
							o.cells = append(o.cells, w.item[i])
							i++
						}
						q.s.steps = 0
						e := errOf(q.c.method(u, ut, "UpdateFromRaw", bconst(uint64(r.n), 64), bconst(uint64(r.k), 64), bslice{o, 0, r.s, r.s}))
						res := result(u)
						switch {
						case e == 0 && n+r.n > most:
							return fmt.Sprintf("a union of %d and %d items, more than a reservoir counts, is not refused", n, r.n)
						case e == 0:
							n += r.n
						case e < 0:
							return "undecided: whether the union fails is unknown"
						case n+r.n <= most:
							return "the union fails"
						default:
							if g := q.c.num(q.c.method(res, st, "N"), "the length"); g != n {
								return fmt.Sprintf("the refused union changes the length from %d to %d", n, g)
							}
							s := q.elems(q.c.method(res, st, "Samples"))
							same := len(s) == len(before)
							for j := range before {
								same = same && w.of(s[j]) == w.of(before[j])
							}
							if !same {
								return "the refused union changes the sample"
							}
						}
						if n > 0 {
							if m := state(res, n, w, upTo(i)); m != "" {
								return "the union: " + m
							}
							before = q.elems(q.c.method(res, st, "Samples"))
						}
					}
					return ""
				})
			}
		}
	}
}

func (q *probeRun) countVarOpt() {
	mk, pos := q.fnOf("sampling.NewVarOptItemsSketch")
	if mk == nil {
		q.r.undecided("count", "VarOpt sketch", "", "the sketch no longer exists")
		return
	}
	q.reset(mk)
	q.s.special = true
	st := q.c.retType("sampling.NewVarOptItemsSketch", 0)
	sketch := func(k, rf int) bval {
		o := &bObj{cells: []bval{q.c.fn("sampling.WithResizeFactor", bconst(uint64(rf), 8))}}
		return q.c.ok(q.c.fn("sampling.NewVarOptItemsSketch", bconst(uint64(k), 64), bslice{o, 0, 1, 1}), "NewVarOptItemsSketch")
	}
	state := func(v bval, n int64, total float64, w *ranked, used func(i int) bool) string {
		if g := q.c.num(q.c.method(v, st, "N"), "the length"); g != n {
			return fmt.Sprintf("the length is %d after %d items", g, n)
		}
		k := q.c.num(q.c.method(v, st, "K"), "the size")
		var s []bval
		sum := 0.0
		bad := ""
		seq, ok := q.c.method(v, st, "All").(bfunc)
		if !ok {
			return "undecided: the samples are unknown"
		}
		q.s.call(seq.fn, []bval{bfunc{hook: func(in []bval) bval {
			s = append(s, q.field(in[0], 0))
			f := q.fnum(q.field(in[0], 1), "the weight of a sample")
			if !(f > 0) {
				bad = fmt.Sprintf("a sample has the weight %g after %d items", f, n)
			}
			sum += f
			return bbool(true)
		}}}, seq.free, seq.tm)
		if bad != "" {
			return bad
		}
		if g := q.c.num(q.c.method(v, st, "NumSamples"), "the number of samples"); g != int64(len(s)) || g > min(n, k) || g < 1 && n > 0 {
			return fmt.Sprintf("%d samples, reported are %d, after %d items in a sketch of %d", len(s), g, n, k)
		}
		if math.Abs(sum-total) > 1e-9*total {
			return fmt.Sprintf("the weights of the samples add up to %g after a weight of %g", sum, total)
		}
		return q.sample(s, w, used)
	}
	update := func(v, x bval, f float64) string {
		q.s.steps = 0
		if errOf(q.c.method(v, st, "Update", x, flt(f))) != 0 {
			return fmt.Sprintf("an update with weight %g fails", f)
		}
		return ""
	}
	streams := map[string]func(i int) float64{
		"equal weights":      func(i int) float64 { return 1 },
		"growing weights":    func(i int) float64 { return float64(i + 1) },
		"falling weights":    func(i int) float64 { return float64(200 - i) },
		"doubling weights":   func(i int) float64 { return math.Pow(2, float64(i%40)) },
		"a few heavy items":  func(i int) float64 { return []float64{1, 1, 1000, 2, 0.5}[i%5] },
		"one very heavy one": func(i int) float64 { return []float64{1, 1e9}[(i+70)%71/70] },
	}
	order := func(n int) []int { return orders(n)["ascending"] }
	for _, k := range []int{1, 2, 3, 8, 20} {
		for _, name := range keysOf(streams) {
			for how := 0; how < 3; how++ {
				q.decide("count", fmt.Sprintf("VarOpt sketch k=%d, %s, choice %d", k, name, how), pos, func() string {
					defer q.chance(how)()
					w := q.ranked(order(80), "item")
					v := sketch(k, (k+how)%4)
					total := 0.0
					for i, x := range w.item {
						f := streams[name](i)
						if m := update(v, x, f); m != "" {
							return m
						}
						total += f
						if i%11 == 0 {
							for _, bad := range []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1)} {
								if errOf(q.c.method(v, st, "Update", x, flt(bad))) != 1 {
									return fmt.Sprintf("an update with weight %g is not refused", bad)
								}
							}
						}
						if m := state(v, int64(i+1), total, w, upTo(i+1)); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	um, upos := q.fnOf("sampling.NewVarOptItemsUnion")
	if um == nil {
		q.r.undecided("count", "VarOpt union", "", "the union no longer exists")
		return
	}
	ut := q.c.retType("sampling.NewVarOptItemsUnion", 0)
	rmk, _ := q.fnOf("sampling.NewReservoirItemsSketch")
	for _, maxK := range []int{2, 6, 30} {
		for _, k := range [][2]int{{4, 4}, {4, 12}, {12, 4}} {
			for _, n := range [][2]int{{0, 4}, {3, 3}, {3, 30}, {30, 3}, {30, 30}, {60, 61}} {
				for _, name := range keysOf(streams) {
					for _, res := range []int{0, 1, 2, 3} { // which sources are reservoirs
						if res > 0 && (name != "equal weights" && name != "growing weights" || rmk == nil) {
							continue
						}
						for how := 0; how < 3; how++ {
							what := fmt.Sprintf("VarOpt union of at most %d, %d items in %d then %d in %d, %s, reservoirs %d, choice %d", maxK, n[0], k[0], n[1], k[1], name, res, how)
							q.decide("count", what, upos, func() string {
								defer q.chance(how)()
								w := q.ranked(order(n[0]+n[1]), "item")
								u := q.c.ok(q.c.fn("sampling.NewVarOptItemsUnion", bconst(uint64(maxK), 64)), "NewVarOptItemsUnion")
								i, total := 0, 0.0
								for s := 0; s < 2; s++ {
									from, sum := i, 0.0
									isRes := res>>s&1 == 1
									var v bval
									if isRes {
										v = q.c.ok(q.c.fn("sampling.NewReservoirItemsSketch", bconst(uint64(k[s]), 64), bslice{&bObj{}, 0, 0, 0}), "NewReservoirItemsSketch")
									} else {
										v = sketch(k[s], 3)
									}
									for j := 0; j < n[s]; j++ {
										f := streams[name](i)
										q.s.steps = 0
										if isRes {
											f = 1
											q.c.method(v, q.c.retType("sampling.NewReservoirItemsSketch", 0), "Update", w.item[i])
										} else if m := update(v, w.item[i], f); m != "" {
											return m
										}
										sum += f
										i++
									}
									total += sum
									q.s.steps = 0
									add := "Update"
									if isRes {
										add = "UpdateReservoirItemsSketch"
									}
									if errOf(q.c.method(u, ut, add, v)) != 0 {
										return "the union with a sketch fails"
									}
									if !isRes {
										if m := state(v, int64(n[s]), sum, w, func(k int) bool { return from <= k && k < i }); m != "" {
											return "the source: " + m
										}
									}
									for range 2 { // asking twice gives the same
										q.s.steps = 0
										r := q.c.method(u, ut, "Result")
										if errOf(r) == 1 {
											return "Result fails"
										}
										if m := state(q.c.ok(r, "Result"), int64(i), total, w, upTo(i)); m != "" {
											return "the union: " + m
										}
									}
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
}
