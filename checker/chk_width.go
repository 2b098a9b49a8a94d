package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: what determines sizes and counts is interpreted at the largest legal parameters and with counts
// beyond 32 bits, and compared with the same quantity in unlimited arithmetic.

func init() { checks["C24"] = chkC24 }

func chkC24(p *Prog, r *Report) {
	r.Explain = "rule alloc: constructors at the limits of their parameters make arrays of the size the parameters ask for, or refuse; the first items land where they are found again. rule size: functions that compute sizes, limits and offsets, at all legal parameters, agree with unlimited arithmetic. rule count: sketches merged with one another until lengths and weights are beyond 2^50 report the exact length. rule large: sketches of more than 2^16 entries report, write and read back all of them"
	only := os.Getenv("LAYOUT")
	run := func(name string, f func(q *probeRun)) {
		if only != "" && !strings.Contains(name, only) {
			return
		}
		q := newProbe(p, r)
		q.s.huge = true
		f(q)
	}
	run("alloc", (*probeRun).widthAlloc)
	run("size", (*probeRun).widthSize)
	run("merge", (*probeRun).widthCount)
	run("large", (*probeRun).widthLarge)
	r.floor("alloc", 400)
	r.floor("size", 60)
	r.floor("count", 14)
	r.floor("large", 8)
}

// made runs body and returns the arrays made meanwhile, the largest first.
func (q *probeRun) made(body func() bval) (v bval, o *bObj, n int64) {
	q.s.made = func(a *bObj, k int64) {
		if k > n {
			o, n = a, k
		}
	}
	defer func() { q.s.made = nil }()
	v = body()
	return
}

func (q *probeRun) hasParams(name string, n int) *ssa.Function {
	f := q.p.Fn(name)
	if f == nil || len(f.Params) != n {
		return nil
	}
	for _, x := range f.Params {
		if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
			return nil
		}
	}
	return f
}

// ints are arguments of a function of numbers.
func ints(f *ssa.Function, vs ...any) (in []bval) {
	for i, x := range f.Params {
		b := x.Type().Underlying().(*types.Basic)
		switch v := vs[i].(type) {
		case float64:
			in = append(in, flt(v))
		case uint64:
			in = append(in, bconst(v, intWidth(b)))
		case int:
			in = append(in, bconst(uint64(v), intWidth(b)))
		}
	}
	return
}

func (q *probeRun) numOf(f *ssa.Function, vs ...any) float64 {
	q.s.steps = 0
	v := q.s.call(f, ints(f, vs...), nil, nil)
	if t, ok := v.(btuple); ok && len(t) == 2 {
		if errOf(t) != 0 {
			return -1
		}
		v = t[0]
	}
	n := q.c.num(v, "the result")
	rt := f.Signature.Results().At(0).Type()
	if w := intWidth(rt); !isSigned(rt) {
		return float64(uint64(n) << uint(64-w) >> uint(64-w))
	}
	return float64(n)
}

func (q *probeRun) widthAlloc() {
	pos := func(n string) string { _, s := q.fnOf(n); return s }
	// count-min: one row of counters per hash
	if mk := q.p.Fn("count.NewCountMinSketch"); mk != nil {
		st := q.c.retType("count.NewCountMinSketch", 0)
		for _, rows := range []int{1, 2, 3, 64, 127} {
			for _, cols := range []int{3, 1000, 1 << 18, 1<<20 + 1, 1<<23 + 1, 8454659, 1<<25 - 1, 33818641, 1<<28 - 1, 1 << 29, 1<<30 - 1, 1 << 30, 1<<31 - 1} {
				q.decide("alloc", fmt.Sprintf("count-min sketch %d x %d", rows, cols), pos("count.NewCountMinSketch"), func() string {
					want := int64(rows) * int64(cols)
					res, o, n := q.made(func() bval {
						return q.c.fn("count.NewCountMinSketch", bconst(uint64(rows), 8), bconst(uint64(cols), 32), bconst(9001, 64))
					})
					if errOf(res) == 1 {
						if want < 1<<30 {
							return "a legal size is refused"
						}
						return ""
					}
					if n != want {
						return fmt.Sprintf("%d counters are made instead of %d", n, want)
					}
					v := res.(btuple)[0]
					for i := 0; i < 3; i++ {
						q.s.steps = 0
						if errOf(q.c.method(v, st, "Update", bytesVal([]byte{byte(i), 1, 2}), bconst(1<<40+7, 64))) != 0 {
							return "an update fails"
						}
						if g := q.c.num(q.c.method(v, st, "GetEstimate", bytesVal([]byte{byte(i), 1, 2})), "the estimate"); g < 1<<40+7 {
							return "an item is not found again"
						}
					}
					used := map[int]bool{}
					for i, c := range o.sparse {
						if x, ok := c.cells[0].(*bv); ok {
							if k, ok := x.konst(); ok && k != 0 {
								used[i/cols] = true
							}
						}
					}
					if o.sparse != nil && len(used) != rows {
						return fmt.Sprintf("the items are counted in %d of %d rows", len(used), rows)
					}
					return ""
				})
			}
		}
	} else {
		q.r.undecided("alloc", "count-min sketch", "", "the constructor no longer exists")
	}
	// Bloom filter: one bit each
	if mk := q.p.Fn("filters.NewBloomFilterBySize"); mk != nil {
		st := q.c.retType("filters.NewBloomFilterBySize", 0)
		limit := uint64(math.MaxInt32-4) * 64
		for _, bits := range []uint64{1, 64, 65, 1<<16 + 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1 << 35, 1<<36 + 64, limit} {
			q.decide("alloc", fmt.Sprintf("Bloom filter of %d bits", bits), pos("filters.NewBloomFilterBySize"), func() string {
				v, o, n := q.made(func() bval {
					return q.c.ok(q.c.fn("filters.NewBloomFilterBySize", bconst(bits, 64), bconst(5, 16), bslice{&bObj{}, 0, 0, 0}), "the constructor")
				})
				words := int64((bits + 63) / 64)
				if n != words && !(words < 8 && n < 8) {
					return fmt.Sprintf("%d words are made for %d bits", n, bits)
				}
				if g := uint64(q.c.num(q.c.method(v, st, "Capacity"), "the capacity")); g != uint64(words)*64 {
					return fmt.Sprintf("the capacity is %d for %d bits", g, bits)
				}
				items := 16
				for i := 0; i < items; i++ {
					q.s.steps = 0
					if errOf(q.c.method(v, st, "UpdateUInt64", bconst(uint64(i)<<40, 64))) != 0 {
						return "an update fails"
					}
					if bits > 1<<20 { // a query counts all bits
						continue
					}
					if m := q.yes(q.c.method(v, st, "QueryUInt64", bconst(uint64(i)<<40, 64)), "an item"); m != "" {
						return m
					}
				}
				if o.sparse == nil {
					return ""
				}
				set, low := 0, 0
				for i, c := range o.sparse {
					x, _ := c.cells[0].(*bv).konst()
					for ; x != 0; x &= x - 1 {
						set++
						if uint64(i)*64 < bits/2 {
							low++
						}
					}
				}
				if low < set/5 || low > set-set/5 {
					return fmt.Sprintf("%d of %d bits lie in the lower half of the filter", low, set)
				}
				return ""
			})
		}
	} else {
		q.r.undecided("alloc", "Bloom filter", "", "the constructor no longer exists")
	}
	// hash tables
	for _, k := range []struct {
		ctor, lg, rf string
		tm           []types.Type
		nums         []any
	}{
		{"theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchLgK", "theta.WithUpdateSketchResizeFactor", nil, nil},
		{"theta.NewUnion", "theta.WithUnionLgK", "theta.WithUnionResizeFactor", nil, nil},
		{"tuple.NewArrayOfNumbersUpdateSketch", "tuple.WithUpdateSketchLgK", "tuple.WithUpdateSketchResizeFactor", []types.Type{types.Typ[types.Int64]}, []any{2}},
	} {
		f := q.p.Fn(k.ctor)
		if f == nil {
			q.r.undecided("alloc", k.ctor, "", "the constructor no longer exists")
			continue
		}
		q.s.tm = entryTypes(f)
		for lg := 5; lg <= 26; lg++ {
			for rf := 0; rf < 4; rf++ {
				q.decide("alloc", fmt.Sprintf("%s lgK=%d resize factor %d", k.ctor, lg, rf), pos(k.ctor), func() string {
					_, _, n := q.made(func() bval {
						return q.c.ok(q.c.fn(k.ctor, plainArgs(k.nums, option(k.lg, bconst(uint64(lg), 8)), option(k.rf, bconst(uint64(rf), 8)))(q.c, f)...), "the constructor")
					})
					want := int64(2) << lg
					if rf > 0 { // 2^5 entries or more, which grow to the full size in whole steps
						want = int64(32) << ((lg + 1 - 5) % rf)
					}
					if n != want {
						return fmt.Sprintf("the table has %d entries instead of %d", n, want)
					}
					return ""
				})
			}
		}
		q.s.tm = nil
	}
	// arrays that follow k
	q.s.special = true
	for _, k := range []int{10, 29, 30, 100, 1000, 4095, 4096, 8191, 8192, 16383, 32767, 32768, 65534, 65535} {
		q.decide("alloc", fmt.Sprintf("t-digest k=%d", k), pos("tdigest.NewDouble"), func() string {
			_, _, n := q.made(func() bval { return q.c.ok(q.c.fn("tdigest.NewDouble", bconst(uint64(k), 16)), "the constructor") })
			if n < int64(2*k) || n > int64(64*k+1000) {
				return fmt.Sprintf("the largest array has %d elements", n)
			}
			return ""
		})
	}
	for _, k := range []int{8, 200, 255, 256, 4096, 32767, 32768, 65534, 65535} {
		q.decide("alloc", fmt.Sprintf("KLL sketch k=%d", k), pos("kll.NewKllItemsSketch"), func() string {
			if f := q.p.Fn("kll.NewKllItemsSketch"); f != nil {
				q.s.tm = entryTypes(f)
			}
			_, _, n := q.made(func() bval { return q.kllOf(k, bfunc{}) })
			if n != int64(k) {
				return fmt.Sprintf("the first array has %d items", n)
			}
			return ""
		})
	}
	q.s.tm = nil
	for _, kind := range []struct{ ctor, rf string }{{"sampling.NewReservoirItemsSketch", "sampling.WithReservoirItemsSketchResizeFactor"}, {"sampling.NewVarOptItemsSketch", "sampling.WithResizeFactor"}} {
		f := q.p.Fn(kind.ctor)
		if f == nil {
			q.r.undecided("alloc", kind.ctor, "", "the constructor no longer exists")
			continue
		}
		q.s.tm = entryTypes(f)
		st := q.c.retType(kind.ctor, 0)
		up := q.p.lookup(st, "Update")
		for _, k := range []int{16, 100, 65535, 65536, 1<<24 + 1, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 2} {
			for rf := 0; rf < 4; rf++ {
				if kind.rf == "sampling.WithResizeFactor" && k < 300 && k > 0 && rf > 0 { // the sampling itself is C12's
					continue
				}
				q.decide("alloc", fmt.Sprintf("%s k=%d resize factor %d", kind.ctor, k, rf), pos(kind.ctor), func() string {
					v, _, n := q.made(func() bval {
						return q.c.ok(q.c.fn(kind.ctor, plainArgs([]any{k}, option(kind.rf, bconst(uint64(rf), 8)))(q.c, f)...), "the constructor")
					})
					if n < 1 || n > int64(k)+1 || rf == 0 && n < int64(k) {
						return fmt.Sprintf("the first array has room for %d items", n)
					}
					if up == nil {
						return "undecided: no Update"
					}
					defer q.chance(2)()
					for i := 0; i < 150; i++ {
						q.s.steps = 0
						in := []bval{v, bconst(uint64(i), 64)}
						if len(up.Params) > 2 {
							in = append(in, flt(1))
						}
						if errOf(q.s.call(up, in, nil, q.s.tm)) != 0 {
							return "an update fails"
						}
						if g := q.c.num(q.c.method(v, st, "NumSamples"), "the number of samples"); g != int64(min(i+1, k)) {
							return fmt.Sprintf("%d samples after %d items", g, i+1)
						}
					}
					return ""
				})
			}
		}
	}
	q.s.tm = nil
	for _, ctor := range []string{"frequencies.NewLongsSketch", "frequencies.NewFrequencyItemsSketch"} {
		f := q.p.Fn(ctor)
		if f == nil {
			q.r.undecided("alloc", ctor, "", "the constructor no longer exists")
			continue
		}
		q.s.tm = entryTypes(f)
		st := q.c.retType(ctor, 0)
		for lg := 3; lg <= 30; lg++ {
			q.decide("alloc", fmt.Sprintf("%s lg=%d", ctor, lg), pos(ctor), func() string {
				v, _, n := q.made(func() bval {
					return q.c.ok(q.c.fn(ctor, plainArgs([]any{lg, lg})(q.c, f)...), "the constructor")
				})
				if n != 1<<lg {
					return fmt.Sprintf("the map has %d slots", n)
				}
				if g := q.c.num(q.c.method(v, st, "GetMaximumMapCapacity"), "the capacity"); float64(g) != math.Floor(0.75*float64(int64(1)<<lg)) {
					return fmt.Sprintf("the capacity is %d", g)
				}
				if g := q.c.num(q.c.method(v, st, "GetCurrentMapCapacity"), "the capacity"); float64(g) != math.Floor(0.75*float64(int64(1)<<lg)) {
					return fmt.Sprintf("the current capacity is %d", g)
				}
				return ""
			})
		}
		q.s.tm = nil
	}
}

// kllOf is a KLL sketch with an order of its items.
func (q *probeRun) kllOf(k int, less bval) bval {
	return q.c.ok(q.c.fn("kll.NewKllItemsSketch", bconst(uint64(k), 16), bconst(8, 8), less, biface{hook: func(string, []bval) (bval, bool) { return bunk{}, true }}), "NewKllItemsSketch")
}

func (q *probeRun) widthSize() {
	q.s.special = true
	// sizes suggested for an accuracy
	if f := q.hasParams("count.SuggestNumBuckets", 1); f != nil {
		for _, e := range []float64{10, 1, 0.1, 1e-3, 1e-6, 1e-8, 2e-9, 1.3e-9, 1.2e-9, 1e-10, 1e-19, 1e-300, 5e-324} {
			q.decide("size", fmt.Sprintf("count-min buckets for the error %g", e), q.p.Pos(f.Pos()), func() string {
				want := math.Ceil(math.E / e)
				if want > math.MaxInt32 {
					want = -1
				}
				if g := q.numOf(f, e); g != want {
					return fmt.Sprintf("suggested are %g buckets instead of %g", g, want)
				}
				return ""
			})
		}
	}
	if f := q.hasParams("count.SuggestNumHashes", 1); f != nil {
		for _, c := range []float64{0, 0.5, 0.9, 0.99, 1 - 1e-6, 1 - 1e-12, 1 - 1e-16, 1} {
			q.decide("size", fmt.Sprintf("count-min hashes for the confidence %g", c), q.p.Pos(f.Pos()), func() string {
				want := math.Min(127, math.Ceil(math.Log(1/(1-c))))
				if g := q.numOf(f, c); g != want {
					return fmt.Sprintf("suggested are %g hashes instead of %g", g, want)
				}
				return ""
			})
		}
	}
	items := []uint64{1, 2, 100, 1e6, 1 << 31, 1 << 32, 1<<32 + 1, 1e12, 1 << 53, 1 << 62, 1<<64 - 1}
	probs := []float64{0.999, 0.5, 0.1, 0.01, 1e-6, 1e-12, 1e-100, 1e-300}
	if f := q.hasParams("filters.SuggestNumFilterBits", 2); f != nil {
		for _, n := range items {
			q.decide("size", fmt.Sprintf("Bloom filter bits for %d items", n), q.p.Pos(f.Pos()), func() string {
				for _, p := range probs {
					want := math.Min(math.Ceil(-float64(n)*math.Log(p)/(math.Ln2*math.Ln2)), math.MaxUint64)
					if g := q.numOf(f, n, p); math.Abs(g-want) > 1+want*1e-12 {
						return fmt.Sprintf("suggested are %g bits instead of %g for the error %g", g, want, p)
					}
				}
				return ""
			})
		}
	}
	if f := q.hasParams("filters.SuggestNumHashes", 1); f != nil {
		for _, p := range probs {
			q.decide("size", fmt.Sprintf("Bloom filter hashes for the error %g", p), q.p.Pos(f.Pos()), func() string {
				want := math.Ceil(-math.Log(p) / math.Ln2)
				if g := q.numOf(f, p); math.Abs(g-want) > 0 {
					return fmt.Sprintf("suggested are %g hashes instead of %g", g, want)
				}
				return ""
			})
		}
	}
	if f := q.hasParams("filters.SuggestNumHashesFromSize", 2); f != nil {
		for _, n := range items {
			q.decide("size", fmt.Sprintf("Bloom filter hashes for %d items", n), q.p.Pos(f.Pos()), func() string {
				for _, b := range []uint64{1, 64, 1000, 94548, 1 << 20, 1 << 31, 1 << 32, 1 << 33, 1 << 36, (1<<31 - 5) * 64} {
					want := math.Max(1, math.Min(math.Ceil(float64(b)/float64(n)*math.Ln2), 65535))
					if g := q.numOf(f, n, b); g != want {
						return fmt.Sprintf("suggested are %g hashes instead of %g for %d bits", g, want, b)
					}
				}
				return ""
			})
		}
	}
	// tables of hashes
	for _, pkg := range []string{"theta", "tuple"} {
		if f := q.hasParams(pkg+".computeCapacity", 2); f != nil {
			q.decide("size", pkg+" table capacity", q.p.Pos(f.Pos()), func() string {
				for nom := 4; nom <= 26; nom++ {
					for cur := 5; cur <= nom+1; cur++ {
						frac := 0.5
						if cur > nom {
							frac = 15.0 / 16
						}
						if g, want := q.numOf(f, cur, nom), math.Floor(frac*float64(int64(1)<<cur)); g != want {
							return fmt.Sprintf("a table of 2^%d of 2^%d takes %g entries instead of %g", cur, nom, g, want)
						}
					}
				}
				return ""
			})
		}
	}
	if mk := q.p.Fn("theta.newCompactSketchFromEntries"); mk != nil && len(mk.Params) == 5 {
		st := q.c.retType("theta.newCompactSketchFromEntries", 0)
		sketch := func(n int64, theta uint64) bval {
			o := &bObj{name: "entries", sparse: map[int]*bObj{}, zero: func() bval { return bconst(12345, 64) }}
			return q.c.fn("theta.newCompactSketchFromEntries", bbool(false), bbool(true), bconst(0x93cc, 16), bconst(theta, 64), bslice{o, 0, int(n), int(n)})
		}
		if q.p.lookup(st, "MaxSerializedSizeBytes") != nil {
			q.decide("size", "compact theta sketch, maximum size", q.p.Pos(mk.Pos()), func() string {
				v := sketch(1, 1<<63-1)
				for lg := 5; lg <= 26; lg++ {
					want := int64(8) * (3 + int64(math.Floor(15.0/16*float64(int64(2)<<lg))))
					if g := q.c.num(q.c.method(v, st, "MaxSerializedSizeBytes", bconst(uint64(lg), 8)), "the size"); g != want {
						return fmt.Sprintf("%d bytes instead of %d for lgK=%d", g, want, lg)
					}
				}
				return ""
			})
		}
		for _, n := range []int64{1, 2, 255, 256, 65535, 65536, 1 << 24, 1<<26 + 1, 125829119} {
			for _, theta := range []uint64{1<<63 - 1, 1 << 62} {
				q.decide("size", fmt.Sprintf("compact theta sketch of %d entries, theta %#x", n, theta), q.p.Pos(mk.Pos()), func() string {
					v := sketch(n, theta)
					if g := q.c.num(q.c.method(v, st, "NumRetained"), "the number of entries"); g != n {
						return fmt.Sprintf("%d entries", g)
					}
					pre := int64(3)
					if theta == 1<<63-1 {
						pre = 2
						if n == 1 {
							pre = 1
						}
					}
					if g := q.c.num(q.c.method(v, st, "SerializedSizeBytes", bbool(false)), "the size"); g != 8*(pre+n) {
						return fmt.Sprintf("the image has %d bytes instead of %d", g, 8*(pre+n))
					}
					nb := q.p.lookup(st, "numEntriesBytes")
					if nb != nil && len(nb.Params) == 1 {
						want := int64(1)
						for n>>uint(8*want) != 0 {
							want++
						}
						if g := q.c.num(q.c.method(v, st, "numEntriesBytes"), "the size"); g != want {
							return fmt.Sprintf("the number %d takes %d bytes", n, g)
						}
					}
					cs := q.p.lookup(st, "compressedSerializedSizeBytes")
					if cs != nil && len(cs.Params) == 3 && n > 1 {
						for _, bits := range []int64{1, 7, 38, 63} {
							pre := int64(1)
							if theta != 1<<63-1 {
								pre = 2
							}
							want := 8*pre + 4 + (bits*n+7)/8
							if g := q.c.num(q.c.method(v, st, "compressedSerializedSizeBytes", bconst(uint64(bits), 8), bconst(4, 8)), "the size"); g != want {
								return fmt.Sprintf("the compressed image of %d bits each has %d bytes instead of %d", bits, g, want)
							}
						}
					}
					return ""
				})
			}
		}
	}
	// KLL levels
	pow := func(k, depth int) float64 { return float64(k) * math.Pow(2.0/3, float64(depth)) }
	if f := q.hasParams("kll.computeTotalItemCapacity", 3); f != nil {
		for _, k := range []int{8, 9, 200, 4096, 21845, 32767, 32768, 43690, 65535} {
			q.decide("size", fmt.Sprintf("KLL capacity k=%d", k), q.p.Pos(f.Pos()), func() string {
				for levels := 1; levels <= 60; levels++ {
					want := 0.0
					for d := 0; d < levels; d++ {
						want += math.Max(8, math.Floor(pow(k, d)+0.5))
					}
					if g := q.numOf(f, k, 8, levels); math.Abs(g-want) > 3 {
						return fmt.Sprintf("%d levels hold %g items instead of %g", levels, g, want)
					}
				}
				return ""
			})
		}
	}
	// CPC
	if f := q.hasParams("cpc.getMaxSerializedBytes", 1); f != nil {
		q.decide("size", "CPC maximum size", q.p.Pos(f.Pos()), func() string {
			last := 0.0
			for lg := 4; lg <= 26; lg++ {
				g, k := q.numOf(f, lg), float64(int64(1)<<lg)
				if g < 0.55*k || g > k+200 || g <= last {
					return fmt.Sprintf("%g bytes for lgK=%d", g, lg)
				}
				last = g
			}
			return ""
		})
	}
	counts := func(lg int) (out []uint64) {
		k := uint64(1) << lg
		for _, x := range []uint64{0, 1, 3 * k / 32, k / 2, 27 * k / 8, 19 * k / 8, 10 * k, 27 * k, 59 * k} {
			for d := uint64(0); d < 3; d++ {
				if x+d >= 1 {
					out = append(out, x+d-1)
				}
			}
		}
		return
	}
	if f := q.hasParams("cpc.determineFlavor", 2); f != nil {
		for lg := 4; lg <= 26; lg++ {
			q.decide("size", fmt.Sprintf("CPC flavor lgK=%d", lg), q.p.Pos(f.Pos()), func() string {
				k := float64(int64(1) << lg)
				for _, n := range counts(lg) {
					c, want := float64(n), 4.0
					switch {
					case c == 0:
						want = 0
					case c < 3*k/32:
						want = 1
					case c < k/2:
						want = 2
					case c < 27*k/8:
						want = 3
					}
					if g := q.numOf(f, lg, n); g != want {
						return fmt.Sprintf("%d coupons make the flavor %g instead of %g", n, g, want)
					}
				}
				return ""
			})
		}
	}
	if f := q.hasParams("cpc.determineCorrectOffset", 2); f != nil {
		for lg := 4; lg <= 26; lg++ {
			q.decide("size", fmt.Sprintf("CPC window offset lgK=%d", lg), q.p.Pos(f.Pos()), func() string {
				k := float64(int64(1) << lg)
				for _, n := range counts(lg) {
					want := math.Max(0, math.Floor((float64(n)-19*k/8)/k))
					if g := q.numOf(f, lg, n); g != want {
						return fmt.Sprintf("%d coupons make the offset %g instead of %g", n, g, want)
					}
				}
				return ""
			})
		}
	}
	if f := q.hasParams("cpc.safeLengthForCompressedPairBuf", 3); f != nil {
		for lg := 4; lg <= 26; lg++ {
			q.decide("size", fmt.Sprintf("CPC pair buffer lgK=%d", lg), q.p.Pos(f.Pos()), func() string {
				k := 1 << lg
				for _, n := range []int{1, 2, k / 32, k / 2, k, 2 * k} {
					for _, b := range []int{0, 1, 5, 10, lg} {
						if n == 0 {
							continue
						}
						bits := 12*float64(n) + float64(n)*float64(1+b) + math.Floor(float64(k)/float64(int64(1)<<b)) + math.Max(0, float64(10-b))
						if g, want := q.numOf(f, k, n, b), math.Ceil(bits/32); g < want || g > want+8 {
							return fmt.Sprintf("%g words instead of %g for %d pairs with %d base bits", g, want, n, b)
						}
					}
				}
				return ""
			})
		}
	}
	if f := q.hasParams("cpc.safeLengthForCompressedWindowBuf", 1); f != nil {
		q.decide("size", "CPC window buffer", q.p.Pos(f.Pos()), func() string {
			for lg := 4; lg <= 26; lg++ {
				want := math.Ceil((12*float64(int64(1)<<lg) + 11) / 32)
				if g := q.numOf(f, 1<<lg); g < want || g > want+8 {
					return fmt.Sprintf("%g words instead of %g for lgK=%d", g, want, lg)
				}
			}
			return ""
		})
	}
	if f := q.hasParams("cpc.determinePseudoPhase", 2); f != nil {
		for lg := 4; lg <= 26; lg++ {
			q.decide("size", fmt.Sprintf("CPC phase lgK=%d", lg), q.p.Pos(f.Pos()), func() string {
				k := float64(int64(1) << lg)
				last := -1.0
				for _, x := range []float64{0.5, 0.8, 1.2, 1.4, 1.7, 2.1} { // of the table below 2.375 K
					g := q.numOf(f, lg, int(x*k))
					if g < 16 || g < last || g > 21 {
						return fmt.Sprintf("the phase is %g with %g K coupons", g, x)
					}
					last = g
				}
				for _, x := range []float64{2.5, 7, 30, 59.9} {
					n := int(x * k)
					if lg < 4 {
						continue
					}
					want := float64(n >> uint(lg-4) & 15)
					if g := q.numOf(f, lg, n); g != want {
						return fmt.Sprintf("the phase is %g instead of %g with %g K coupons", g, want, x)
					}
				}
				return ""
			})
		}
	}
	// HLL
	for ty := 0; ty < 3; ty++ {
		mk := q.p.Fn("hll.newHllArray")
		if mk == nil || len(mk.Params) != 2 {
			break
		}
		it := mk.Signature.Results().At(0).Type()
		f := q.hasParams("hll.getMaxUpdatableSerializationBytes", 2)
		for lg := 4; lg <= 21; lg++ {
			q.decide("size", fmt.Sprintf("HLL registers lgK=%d type=%d", lg, ty), q.p.Pos(mk.Pos()), func() string {
				v, _, n := q.made(func() bval {
					return q.c.ok(q.c.fn("hll.newHllArray", bconst(uint64(lg), 64), bconst(uint64(ty), 64)), "the registers")
				})
				k := int64(1) << lg
				want := []int64{k / 2, k*3/4 + 1, k}[ty]
				if n != want {
					return fmt.Sprintf("%d bytes instead of %d", n, want)
				}
				if g := q.c.num(q.c.method(v, it, "GetUpdatableSerializationBytes"), "the size"); g < 40+want || g > 40+want+k {
					return fmt.Sprintf("the image has %d bytes", g)
				}
				if f != nil {
					if g := q.numOf(f, lg, ty); g < float64(40+want) || g > float64(40+want+k+64) {
						return fmt.Sprintf("the image has at most %g bytes", g)
					}
				}
				return ""
			})
		}
	}
}

// merged merges two sketches into one another by turns: their lengths grow like Fibonacci's numbers.
func (q *probeRun) merged(name, pos string, most uint64, mk func(i int) (bval, uint64), merge func(x, y bval) (bval, string), check func(v bval, n uint64) string) {
	q.decide("count", name, pos, func() string {
		if !strings.HasPrefix(name, "count-min") { // where random numbers follow the seed
			defer q.chance(2)()
		}
		var v [2]bval
		var n [2]uint64
		for i := range v {
			v[i], n[i] = mk(i)
		}
		for i := 0; ; i = 1 - i {
			if n[i]+n[1-i] > most {
				return ""
			}
			q.s.steps = 0
			x, m := merge(v[i], v[1-i])
			if m != "" {
				return fmt.Sprintf("%s with lengths of %d and %d", m, n[i], n[1-i])
			}
			v[i] = x
			n[i] += n[1-i]
			if m := check(v[i], n[i]); m != "" {
				return m
			}
		}
	})
}

func opts(vs ...bval) bval { return bslice{&bObj{name: "options", cells: vs}, 0, len(vs), len(vs)} }

func sumIs(what string, got, want uint64) string {
	if got != want {
		return fmt.Sprintf("%s is %d instead of %d", what, got, want)
	}
	return ""
}

// byValue is the order of items that are known numbers.
func (q *probeRun) byValue() bfunc {
	return bfunc{hook: func(in []bval) bval {
		return bbool(q.c.num(in[0], "an item") < q.c.num(in[1], "an item"))
	}}
}

// kllWeights are the weights of the items retained; their sum is the length, and the ranks follow them.
func (q *probeRun) kllWeights(v bval, st types.Type, n uint64, ranks bool) string {
	it := q.c.method(v, st, "GetIterator")
	itT := q.p.lookup(st, "GetIterator").Signature.Results().At(0).Type()
	sum := uint64(0)
	by := map[int64]uint64{}
	for q.yes(q.c.method(it, itT, "Next"), "Next") == "" {
		w := uint64(q.c.num(q.c.method(it, itT, "GetWeight"), "a weight"))
		by[q.c.num(q.c.method(it, itT, "GetQuantile"), "an item")] += w
		sum += w
	}
	if m := sumIs("the sum of the weights", sum, n); m != "" || !ranks {
		return m
	}
	return q.ranksFollow(n, by, func(x int64) (float64, float64) {
		lo := q.fnum(q.c.ok(q.c.method(v, st, "GetRank", bconst(uint64(x), 64), bbool(false)), "GetRank"), "a rank")
		hi := q.fnum(q.c.ok(q.c.method(v, st, "GetRank", bconst(uint64(x), 64), bbool(true)), "GetRank"), "a rank")
		return lo, hi
	})
}

// ranksFollow compares ranks, exclusive and inclusive, with the weights of the items.
func (q *probeRun) ranksFollow(n uint64, by map[int64]uint64, rank func(x int64) (float64, float64)) string {
	for _, x := range []int64{7, 25, 40} {
		below, upto := 0.0, 0.0
		for k, w := range by {
			if k < x {
				below += float64(w)
			}
			if k <= x {
				upto += float64(w)
			}
		}
		// the smallest and the largest item may stand in for one each
		below /= float64(n)
		upto /= float64(n)
		if lo, hi := rank(x); max(math.Abs(lo-below), math.Abs(hi-upto)) > 1e-9+2/float64(n) {
			return fmt.Sprintf("the ranks of an item are %g and %g instead of %g and %g with a length of %d", lo, hi, below, upto, n)
		}
	}
	return ""
}

func (q *probeRun) widthCount() {
	const far = 1 << 56
	mergeErr := func(st types.Type) func(x, y bval) (bval, string) {
		return func(x, y bval) (bval, string) {
			if errOf(q.c.method(x, st, "Merge", y)) > 0 {
				return x, "the merge fails"
			}
			return x, ""
		}
	}
	if mk, pos := q.fnOf("kll.NewKllItemsSketch"); mk != nil {
		q.s.tm = entryTypes(mk)
		st := q.c.retType("kll.NewKllItemsSketch", 0)
		for _, k := range []int{8, 20, 200} {
			q.merged(fmt.Sprintf("KLL sketches k=%d merged", k), pos, far, func(i int) (bval, uint64) {
				v := q.kllOf(k, q.byValue())
				for j := 0; j < 30+20*i; j++ {
					q.c.method(v, st, "Update", bconst(uint64(j*7%50), 64))
				}
				return v, uint64(30 + 20*i)
			}, mergeErr(st), func(v bval, n uint64) string {
				if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "GetN"), "the length")), n); m != "" {
					return m
				}
				return q.kllWeights(v, st, n, true)
			})
		}
		q.s.tm = nil
	}
	q.s.special = true
	if mk, pos := q.fnOf("req.NewSketch"); mk != nil {
		st := q.c.retType("req.NewSketch", 0)
		for _, high := range []bool{false, true} {
			for _, k := range []int{4} {
				q.merged(fmt.Sprintf("REQ sketches k=%d high=%v merged", k, high), pos, far, func(i int) (bval, uint64) {
					o := &bObj{name: "options", cells: []bval{q.c.fn("req.WithK", bconst(uint64(k), 64)), q.c.fn("req.WithHighRankAccuracyMode", bbool(high))}}
					v := q.c.ok(q.c.fn("req.NewSketch", bslice{o, 0, 2, 2}), "NewSketch")
					for j := 0; j < 30+20*i; j++ {
						q.c.method(v, st, "Update", flt(float64(j*7%50)))
					}
					return v, uint64(30 + 20*i)
				}, mergeErr(st), func(v bval, n uint64) string {
					if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "N"), "the length")), n); m != "" {
						return m
					}
					sum := uint64(0)
					by := map[int64]uint64{}
					for _, it := range q.elems(q.c.method(v, st, "All")) {
						w := uint64(q.c.num(q.field(it, 1), "a weight"))
						by[int64(q.fnum(q.field(it, 0), "an item"))] += w
						sum += w
					}
					if m := sumIs("the sum of the weights", sum, n); m != "" {
						return m
					}
					return q.ranksFollow(n, by, func(x int64) (float64, float64) {
						q.s.steps = 0
						lo := q.fnum(q.c.ok(q.c.method(v, st, "Rank", flt(float64(x)), opts(q.c.fn("req.WithExclusiveSearch"))), "Rank"), "a rank")
						hi := q.fnum(q.c.ok(q.c.method(v, st, "Rank", flt(float64(x)), opts()), "Rank"), "a rank")
						return lo, hi
					})
				})
			}
		}
	}
	if mk, pos := q.fnOf("tdigest.NewDouble"); mk != nil {
		st := q.c.retType("tdigest.NewDouble", 0)
		for _, k := range []int{10, 30} {
			q.merged(fmt.Sprintf("t-digests k=%d merged", k), pos, 1<<62, func(i int) (bval, uint64) {
				v := q.c.ok(q.c.fn("tdigest.NewDouble", bconst(uint64(k), 16)), "NewDouble")
				for j := 0; j < 30+20*i; j++ {
					q.c.method(v, st, "Update", flt(float64(j*7%50)))
				}
				return v, uint64(30 + 20*i)
			}, mergeErr(st), func(v bval, n uint64) string {
				return sumIs("the total weight", uint64(q.c.num(q.c.method(v, st, "TotalWeight"), "the weight")), n)
			})
		}
	}
	for _, ctor := range []string{"frequencies.NewLongsSketch", "frequencies.NewFrequencyItemsSketch"} {
		mk, pos := q.fnOf(ctor)
		if mk == nil {
			continue
		}
		q.s.tm = entryTypes(mk)
		st := q.c.retType(ctor, 0)
		hasher := biface{hook: func(name string, in []bval) (bval, bool) {
			return bconst(uint64(q.c.num(in[len(in)-1], "an item"))*0x9e3779b97f4a7c15, 64), true
		}}
		for _, lg := range []int{3, 5} {
			q.merged(fmt.Sprintf("%s of 2^%d slots merged", ctor, lg), pos, 1<<62, func(i int) (bval, uint64) {
				in := []bval{bconst(uint64(lg), 64), bconst(3, 64)}
				for len(in) < len(mk.Params) {
					in = append(in, hasher)
				}
				v := q.c.ok(q.c.fn(ctor, in...), ctor)
				for j := 0; j < 10; j++ {
					q.c.method(v, st, "UpdateMany", bconst(uint64(j%3+i), 64), bconst(uint64(3+2*i), 64))
				}
				return v, uint64(30 + 20*i)
			}, func(x, y bval) (bval, string) {
				if errOf(q.c.method(x, st, "Merge", y)) > 0 {
					return x, "the merge fails"
				}
				return x, ""
			}, func(v bval, n uint64) string {
				if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "GetStreamLength"), "the length")), n); m != "" {
					return m
				}
				sum := uint64(0)
				for i := 0; i < 4; i++ {
					r := q.c.method(v, st, "GetEstimate", bconst(uint64(i), 64))
					if t, ok := r.(btuple); ok {
						r = t[0]
					}
					sum += uint64(q.c.num(r, "an estimate"))
				}
				return sumIs("the sum of the estimates", sum, n)
			})
		}
		q.s.tm = nil
	}
	if mk, pos := q.fnOf("count.NewCountMinSketch"); mk != nil {
		st := q.c.retType("count.NewCountMinSketch", 0)
		q.merged("count-min sketches merged", pos, 1<<62, func(i int) (bval, uint64) {
			v := q.c.ok(q.c.fn("count.NewCountMinSketch", bconst(3, 8), bconst(5, 32), bconst(1234, 64)), "NewCountMinSketch")
			q.c.method(v, st, "Update", bytesVal([]byte{1}), bconst(uint64(30+20*i), 64))
			return v, uint64(30 + 20*i)
		}, mergeErr(st), func(v bval, n uint64) string {
			if m := sumIs("the estimate", uint64(q.c.num(q.c.method(v, st, "GetEstimate", bytesVal([]byte{1})), "the estimate")), n); m != "" {
				return m
			}
			return sumIs("the total weight", uint64(q.c.num(q.c.method(v, st, "GetTotalWeight"), "the weight")), n)
		})
	}
	for _, k := range []struct{ ctor, union, rf, add string }{
		{"sampling.NewReservoirItemsSketch", "sampling.NewReservoirItemsUnion", "sampling.WithReservoirItemsSketchResizeFactor", "UpdateSketch"},
		{"sampling.NewVarOptItemsSketch", "sampling.NewVarOptItemsUnion", "sampling.WithResizeFactor", "Update"},
	} {
		mk, pos := q.fnOf(k.ctor)
		um, _ := q.fnOf(k.union)
		if mk == nil || um == nil {
			continue
		}
		q.s.tm = entryTypes(mk)
		for a, b := range entryTypes(um) {
			q.s.tm[a] = b
		}
		st, ut := q.c.retType(k.ctor, 0), q.c.retType(k.union, 0)
		for _, size := range []int{4, 40} {
			q.merged(fmt.Sprintf("%s k=%d merged", k.ctor, size), pos, 1<<48-1, func(i int) (bval, uint64) {
				v := q.c.ok(q.c.fn(k.ctor, plainArgs([]any{size}, option(k.rf, bconst(3, 8)))(q.c, mk)...), "the constructor")
				for j := 0; j < 30+20*i; j++ {
					in := []bval{bconst(uint64(j), 64)}
					if k.add == "Update" {
						in = append(in, flt(1))
					}
					if errOf(q.c.method(v, st, "Update", in...)) != 0 {
						q.s.stop("undecided", "an update fails", nil)
					}
				}
				return v, uint64(30 + 20*i)
			}, func(x, y bval) (bval, string) {
				u := q.c.ok(q.c.fn(k.union, bconst(uint64(size), 64)), k.union)
				for _, z := range []bval{x, y} {
					if errOf(q.c.method(u, ut, k.add, z)) != 0 {
						return x, "the union fails"
					}
				}
				return q.c.ok(q.c.method(u, ut, "Result"), "Result"), ""
			}, func(v bval, n uint64) string {
				return sumIs("the length", uint64(q.c.num(q.c.method(v, st, "N"), "the length")), n)
			})
		}
		q.s.tm = nil
	}
}

func (q *probeRun) widthLarge() {
	const many = 1<<16 + 4465
	q.s.maxSteps = 400_000_000
	q.s.huge = false
	if mk := q.p.Fn("theta.newCompactSketchFromEntries"); mk != nil && len(mk.Params) == 5 {
		st := q.c.retType("theta.newCompactSketchFromEntries", 0)
		for _, n := range []int{many, many + 3} {
			for _, how := range []string{"plain", "compressed"} {
				q.decide("large", fmt.Sprintf("compact theta sketch of %d entries, %s", n, how), q.p.Pos(mk.Pos()), func() string {
					o := &bObj{}
					for i := 0; i < n; i++ {
						o.cells = append(o.cells, bconst(uint64(i+1)<<40+uint64(i*i%1000003), 64))
					}
					v := q.c.fn("theta.newCompactSketchFromEntries", bbool(false), bbool(true), bconst(0x93cc, 16), bconst(1<<62, 64), bslice{o, 0, n, n})
					var img []bval
					w := biface{hook: func(name string, in []bval) (bval, bool) {
						for _, x := range in {
							if sl, ok := x.(bslice); ok && name == "Write" {
								img = append(img, q.elems(sl)...)
								return btuple{bconst(uint64(sl.len), 64), bnil{}}, true
							}
						}
						return bunk{name}, true
					}}
					enc := q.c.fn("theta.NewEncoder", w, bbool(how == "compressed"))
					eo := &bObj{cells: []bval{bmem(enc)}}
					if errOf(q.c.method(bptr{eo, 0}, types.NewPointer(q.c.retType("theta.NewEncoder", 0)), "Encode", v)) != 0 {
						return "the sketch is not written"
					}
					if g := int(q.c.num(q.c.method(v, st, "SerializedSizeBytes", bbool(how == "compressed")), "the size")); g != len(img) {
						return fmt.Sprintf("%d bytes are written, announced are %d", len(img), g)
					}
					d := q.c.ok(q.c.fn("theta.Decode", bslice{&bObj{cells: img}, 0, len(img), len(img)}, bconst(9001, 64)), "Decode")
					if m := sumIs("the number of entries read", uint64(q.c.num(q.c.method(d, st, "NumRetained"), "the number")), uint64(n)); m != "" {
						return m
					}
					i := 0
					bad := -1
					seq, ok := q.c.method(d, st, "All").(bfunc)
					if !ok {
						return "undecided: the entries are unknown"
					}
					q.s.call(seq.fn, []bval{bfunc{hook: func(in []bval) bval {
						if bad < 0 && i < n && q.c.num(in[0], "an entry") != q.c.num(o.cells[i], "an entry") {
							bad = i
						}
						i++
						return bbool(true)
					}}}, seq.free, seq.tm)
					if bad >= 0 || i != n {
						return fmt.Sprintf("entry %d of %d is read back differently", bad, i)
					}
					return ""
				})
			}
		}
	}
	if mk, pos := q.fnOf("kll.NewKllItemsSketch"); mk != nil {
		q.s.tm = entryTypes(mk)
		st := q.c.retType("kll.NewKllItemsSketch", 0)
		q.decide("large", "KLL sketch of many items", pos, func() string {
			defer q.chance(2)()
			v := q.kllOf(65535, q.byValue())
			n := 65535 + 600
			for i := 0; i < n; i++ {
				q.c.method(v, st, "Update", bconst(uint64(i), 64))
			}
			if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "GetN"), "the length")), uint64(n)); m != "" {
				return m
			}
			u := q.kllOf(65535, q.byValue())
			for i := 0; i < 60000; i++ {
				q.c.method(u, st, "Update", bconst(uint64(n+i), 64))
			}
			q.c.method(v, st, "Merge", u)
			if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "GetN"), "the length")), uint64(n+60000)); m != "" {
				return m
			}
			return q.kllWeights(v, st, uint64(n+60000), false)
		})
		q.s.tm = nil
	}
	if mk, pos := q.fnOf("sampling.NewReservoirItemsSketch"); mk != nil {
		q.s.tm = entryTypes(mk)
		st := q.c.retType("sampling.NewReservoirItemsSketch", 0)
		q.decide("large", "reservoir of many items", pos, func() string {
			v := q.c.ok(q.c.fn("sampling.NewReservoirItemsSketch", plainArgs([]any{many + 10})(q.c, mk)...), "the constructor")
			for i := 0; i < many; i++ {
				if errOf(q.c.method(v, st, "Update", bconst(uint64(i), 64))) != 0 {
					return "an update fails"
				}
			}
			if m := sumIs("the length", uint64(q.c.num(q.c.method(v, st, "N"), "the length")), many); m != "" {
				return m
			}
			s := q.elems(q.c.method(v, st, "Samples"))
			for i, x := range s {
				if q.c.num(x, "an item") != int64(i) {
					return fmt.Sprintf("item %d is replaced", i)
				}
			}
			return sumIs("the number of samples", uint64(len(s)), many)
		})
		q.s.tm = nil
	}
	mk, dec := q.p.Fn("hll.NewHllSketch"), q.p.Fn("hll.NewHllSketchFromSlice")
	if mk == nil || dec == nil {
		return
	}
	// all registers of a large sketch
	for ty := 0; ty < 3; ty++ {
		const lg = 17
		q.decide("large", fmt.Sprintf("HLL sketch of 2^%d registers, type %d", lg, ty), q.p.Pos(mk.Pos()), func() string {
			k := 1 << lg
			img := make([]byte, 40+[]int{k / 2, k*3/4 + 1, k}[ty])
			copy(img, []byte{10, 1, 7, lg, 0, 8, 0, byte(2 | ty<<2)}) // all registers 0
			for i := 0; i < 4; i++ {
				img[32+i] = byte(k >> (8 * i))
			}
			binaryPut(img[16:], math.Float64bits(float64(k)))
			st := dec.Signature.Results().At(0).Type()
			d := q.s.call(dec, []bval{bytesVal(img), bbool(false)}[:len(dec.Params)], nil, nil)
			v := q.c.ok(d, "decoding")
			up := "couponUpdate"
			for i := 0; i < k; i++ {
				if errOf(q.c.method(v, st, up, bconst(uint64(1<<26|i), 64))) > 0 {
					return "an update fails"
				}
			}
			b := q.image(q.c.ok(q.c.method(v, st, "ToCompactSlice"), "ToCompactSlice"))
			if len(b) < len(img) {
				return fmt.Sprintf("the image has %d bytes", len(b))
			}
			if ty == 0 {
				if b[6] != 1 {
					return fmt.Sprintf("the smallest register is %d instead of 1", b[6])
				}
				n := int(b[32]) | int(b[33])<<8 | int(b[34])<<16 | int(b[35])<<24
				return sumIs("the number of smallest registers", uint64(n), uint64(k))
			}
			for i := 0; i < k; i++ {
				var got int
				if ty == 2 {
					got = int(b[40+i])
				} else {
					x := i * 6
					got = (int(b[40+x/8]) | int(b[40+x/8+1])<<8) >> (x % 8) & 63
				}
				if got != 1 {
					return fmt.Sprintf("register %d is %d instead of 1", i, got)
				}
			}
			return ""
		})
	}
}

func binaryPut(b []byte, v uint64) {
	for i := range 8 {
		b[i] = byte(v >> (8 * i))
	}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}
