package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// locFreq: the hash tables of the frequency sketches, and the sketches' bounds.
func (q *probeRun) locFreq() {
	for _, kind := range []string{"Long", "Item"} {
		typ := "reversePurge" + kind + "HashMap"
		lower := "frequencies.(" + typ + ")."
		mk, _ := q.fnOf("frequencies.newReversePurge" + kind + "HashMap")
		get, gpos := q.fnOf(lower + "get")
		adj, apos := q.fnOf(lower + "adjustOrPutValue")
		keep, kpos := q.fnOf(lower + "keepOnlyPositiveCounts")
		grow, rpos := q.fnOf(lower + "resize")
		if mk == nil || get == nil || adj == nil {
			q.r.undecided("table", "frequencies "+kind+" table", "", "the table or its search no longer exists")
			continue
		}
		i64 := func(f *ssa.Function) tmap {
			m := tmap{}
			for k := range entryTypes(f) {
				m[k] = types.Typ[types.Int64]
			}
			return m
		}
		q.locReset()
		q.s.tm = i64(mk)
		mt := q.s.tm.of(mk.Signature.Results().At(0).Type())
		hasher := biface{hook: func(name string, in []bval) (bval, bool) {
			if name == "Hash" {
				return in[len(in)-1], true
			}
			return bunk{name}, true
		}}
		call := func(f *ssa.Function, in ...bval) bval {
			for len(in) < len(f.Params) {
				in = append(in, hasher)
			}
			return q.s.call(f, in, nil, i64(f))
		}
		table := func(n int) bval { return q.c.ok(call(mk, bconst(uint64(n), 64)), "the table") }
		home := func(key int64) int { // where a key goes in an empty table
			v := table(8)
			call(adj, v, bconst(uint64(key), 64), bconst(1, 64))
			sl, _ := q.c.getf(v, mt, "states").(bslice)
			for i := 0; i < sl.len; i++ {
				if b, ok := sl.o.cells[sl.off+i].(*bv); ok {
					if k, ok := b.konst(); ok && k != 0 {
						return i
					}
				}
			}
			return -1
		}
		var byHome [8][]int64
		q.try(func() string {
			for key := int64(1); key < 400; key++ {
				q.s.steps = 0
				if h := home(key); h >= 0 && len(byHome[h]) < 6 {
					byHome[h] = append(byHome[h], key)
				}
			}
			return ""
		})
		homes := []int{6, 7, 0, 1}
		for _, h := range homes {
			if len(byHome[h]) < 6 {
				q.r.undecided("table", "frequencies "+kind+" table", apos, "keys for every slot are not known")
				return
			}
		}
		weight := func(i int, neg bool) *bv {
			w := q.s.numbered(fmt.Sprint("weight ", i, neg), 64)
			c := *w
			c.b[0], c.b[63] = bOne, bZero
			if neg {
				c.b[63] = bOne
			}
			return &c
		}
		holds := func(v bval, key int64, want *bv, when string) string {
			r := call(get, v, bconst(uint64(key), 64))
			if t, ok := r.(btuple); ok {
				r = t[0]
			}
			b, ok := r.(*bv)
			if !ok {
				return "undecided: the value found is unknown"
			}
			if bkey(q.s.pinned(b)) != bkey(want) {
				return "an entry is not found with its weight " + when
			}
			return ""
		}
		// every way of filling the table with n keys
		each := func(n int, body func(keys []int64) string) string {
			idx := make([]int, n)
			for {
				used := map[int]int{}
				var keys []int64
				for _, i := range idx {
					h := homes[i]
					keys = append(keys, byHome[h][used[h]])
					used[h]++
				}
				q.s.steps = 0
				if m := body(keys); m != "" {
					return m
				}
				i := 0
				for i < n && idx[i] == len(homes)-1 {
					idx[i] = 0
					i++
				}
				if i == n {
					return ""
				}
				idx[i]++
			}
		}
		fill := func(keys []int64, dead int) (bval, string) {
			v := table(8)
			for i, k := range keys {
				if errOf(call(adj, v, bconst(uint64(k), 64), weight(i, dead>>i&1 == 1))) == 1 {
					return nil, "an insertion fails"
				}
			}
			return v, ""
		}
		for n := 1; n <= 6; n++ {
			q.decide("table", fmt.Sprintf("frequencies %s table, %d insertions", kind, n), apos, func() string {
				return each(n, func(keys []int64) string {
					v, m := fill(keys, 0)
					if m != "" {
						return m
					}
					for i, k := range keys {
						if m := holds(v, k, weight(i, false), "after its insertion"); m != "" {
							return m
						}
					}
					for _, h := range homes {
						if m := holds(v, byHome[h][5], bconst(0, 64), "although it was never inserted"); n < 6 && m != "" {
							return m
						}
					}
					if errOf(call(adj, v, bconst(uint64(keys[n-1]), 64), bconst(1<<40, 64))) == 1 {
						return "an adjustment fails"
					}
					want, _ := q.s.bin(token.ADD, weight(n-1, false), bconst(1<<40, 64), types.Typ[types.Int64], nil).(*bv)
					return holds(v, keys[n-1], want, "after an adjustment")
				})
			})
		}
		for n := 1; n <= 5 && keep != nil; n++ {
			q.decide("table", fmt.Sprintf("frequencies %s table, purge of %d entries", kind, n), kpos, func() string {
				return each(n, func(keys []int64) string {
					for dead := 0; dead < 1<<n; dead++ {
						v, m := fill(keys, dead)
						if m != "" {
							return m
						}
						if errOf(call(keep, v)) == 1 {
							return "the purge fails"
						}
						live := 0
						for i, k := range keys {
							want := bconst(0, 64)
							if dead>>i&1 == 0 {
								want = weight(i, false)
								live++
							}
							if m := holds(v, k, want, "after other entries were purged"); m != "" {
								return m
							}
						}
						if k, m := q.amount(q.c.getf(v, mt, "numActive"), "the number of entries"); m != "" || int(k) != live {
							return fmt.Sprintf("%d entries remain but %d are counted %s", live, k, m)
						}
					}
					return ""
				})
			})
		}
		if grow != nil {
			for n := 1; n <= 5; n++ {
				q.decide("table", fmt.Sprintf("frequencies %s table, growth with %d entries", kind, n), rpos, func() string {
					return each(n, func(keys []int64) string {
						v, m := fill(keys, 0)
						if m != "" {
							return m
						}
						if errOf(call(grow, v, bconst(16, 64))) == 1 {
							return "growing fails"
						}
						for i, k := range keys {
							if m := holds(v, k, weight(i, false), "after the table grew"); m != "" {
								return m
							}
						}
						return ""
					})
				})
			}
		}
		// the sketches
		ctor, st := "frequencies.NewLongsSketch", "LongsSketch"
		if kind == "Item" {
			ctor, st = "frequencies.NewFrequencyItemsSketch", "ItemsSketch"
		}
		cf, _ := q.fnOf(ctor)
		uf, upos := q.fnOf("frequencies.(" + st + ").UpdateMany")
		u1, _ := q.fnOf("frequencies.(" + st + ").Update")
		est, _ := q.fnOf("frequencies.(" + st + ").GetEstimate")
		ub, _ := q.fnOf("frequencies.(" + st + ").GetUpperBound")
		lb, _ := q.fnOf("frequencies.(" + st + ").GetLowerBound")
		mg, mpos := q.fnOf("frequencies.(" + st + ").Merge")
		if cf == nil || uf == nil || u1 == nil || est == nil || ub == nil || lb == nil || mg == nil {
			q.r.undecided("found", "frequencies "+kind+" sketch", "", "the sketch or its queries no longer exist")
			continue
		}
		_ = gpos
		sketch := func(lgMax int) bval {
			return q.c.ok(call(cf, bconst(uint64(lgMax), 64), bconst(3, 64)), "the constructor")
		}
		bounds := func(sk bval, truth map[int64]int64, keys []int64) string {
			for _, k := range keys {
				t := truth[k]
				e, m1 := q.amount(call(est, sk, bconst(uint64(k), 64)), "the estimate")
				u, m2 := q.amount(call(ub, sk, bconst(uint64(k), 64)), "the upper bound")
				l, m3 := q.amount(call(lb, sk, bconst(uint64(k), 64)), "the lower bound")
				if m1+m2+m3 != "" {
					return m1 + m2 + m3
				}
				if u < t || l > t || e != 0 && e < t {
					return fmt.Sprintf("an item of weight %d has bounds %d and %d and estimate %d", t, l, u, e)
				}
			}
			return ""
		}
		patterns := map[string]func(i int) int64{
			"equal": func(int) int64 { return 1 }, "rising": func(i int) int64 { return int64(i + 1) }, "falling": func(i int) int64 { return int64(40 - i) },
			"mixed": func(i int) int64 { return int64(1 + i*7%5) }, "heavy": func(i int) int64 { return int64(1 + i%4/3*1000) },
		}
		for _, pn := range []string{"equal", "rising", "falling", "mixed", "heavy"} {
			w := patterns[pn]
			stream := func(sk bval, truth map[int64]int64, off, n int, check func() string) string {
				for i := 0; i < n; i++ {
					q.s.steps = 0
					h := homes[(i+off)%4]
					k := byHome[h][(i/3)%6]
					in := []bval{sk, bconst(uint64(k), 64), bconst(uint64(w(i)), 64)}
					f := uf
					if w(i) == 1 && i%2 == 0 {
						f, in = u1, in[:2]
					}
					if errOf(q.s.call(f, in, nil, i64(f))) == 1 {
						return "an update fails"
					}
					truth[k] += w(i)
					if m := check(); m != "" {
						return m
					}
				}
				return ""
			}
			var all []int64
			for _, h := range homes {
				all = append(all, byHome[h]...)
			}
			for _, lgMax := range []int{3, 4} {
				q.decide("found", fmt.Sprintf("frequencies %s sketch of 2^%d slots, %s weights", kind, lgMax, pn), upos, func() string {
					sk, truth := sketch(lgMax), map[int64]int64{}
					return stream(sk, truth, 0, 40, func() string { return bounds(sk, truth, all) })
				})
			}
			for _, ns := range [][2]int{{3, 30}, {30, 3}, {7, 7}, {25, 25}, {0, 7}} {
				q.decide("found", fmt.Sprintf("frequencies %s sketch after %d updates merges one after %d, %s weights", kind, ns[0], ns[1], pn), mpos, func() string {
					a, b, truth := sketch(3), sketch(3), map[int64]int64{}
					none := func() string { return "" }
					if m := stream(a, truth, 0, ns[0], none) + stream(b, truth, 1, ns[1], none); m != "" {
						return m
					}
					r := call(mg, a, b)
					if errOf(r) == 1 {
						return "the merge fails"
					}
					return bounds(a, truth, all)
				})
			}
		}
	}
}
