package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: updates and lookups are interpreted one after the other for an unknown item of every supported
// type. Hash values are value-numbered functions of the item, so that the location an update uses and
// the one a lookup uses coincide exactly when they are computed alike from the same bytes; where they
// differ there is a path on which the lookup misses the item.

func init() { checks["C15"] = chkC15 }

func chkC15(p *Prog, r *Report) {
	r.Explain = "rule found: for an unknown item of each supported type (strings and slices of several lengths, both zeros, infinities, NaNs), and every value its hash locations can take, each lookup form finds the item after each update form, also after merging; rule table: frequency hash tables keep every remaining entry findable, with its weight, through insertion, growth and purging"
	only := os.Getenv("LAYOUT")
	run := func(name string, f func(q *probeRun)) {
		if only != "" && !strings.Contains(name, only) {
			return
		}
		q := newProbe(p, r)
		q.limit = 100000
		f(q)
	}
	run("bloom", (*probeRun).locBloom)
	run("countmin", (*probeRun).locCountMin)
	run("frequencies", (*probeRun).locFreq)
	r.floor("found", 560)
	r.floor("table", 30)
}

type locItem struct {
	name string
	mk   func(s *bitsim) bval
	twin func(s *bitsim) bval // another item that counts as the same
	none bool                 // an update may ignore it
}

func floatItem(s *bitsim, kind, name string) bval {
	switch kind {
	case "zero":
		return fconst(0)
	case "negative zero":
		return fspecial(math.Copysign(0, -1))
	case "infinity":
		return fspecial(math.Inf(1))
	case "negative infinity":
		return fspecial(math.Inf(-1))
	case "not-a-number":
		b := s.source(name, 64, 64)
		for i := 51; i < 63; i++ {
			b.b[i] = bOne
		}
		return bfv{b, "nan"}
	}
	return bfv{s.source(name, 64, 64), "finite"}
}

// itemsOf lists unknown items of a type; nil when the type is not one the check knows.
func itemsOf(t types.Type) []locItem {
	kinds := []string{"finite", "zero", "negative zero", "infinity", "negative infinity", "not-a-number"}
	if isFloat(t) {
		var l []locItem
		for _, k := range kinds {
			it := locItem{name: k, mk: func(s *bitsim) bval { return floatItem(s, k, "item") }}
			switch k {
			case "zero":
				it.twin = func(s *bitsim) bval { return floatItem(s, "negative zero", "item") }
			case "negative zero":
				it.twin = func(s *bitsim) bval { return floatItem(s, "zero", "item") }
			case "not-a-number":
				it.twin = func(s *bitsim) bval { return floatItem(s, k, "other item") }
			}
			l = append(l, it)
		}
		return l
	}
	if w := intWidth(t); w > 1 {
		return []locItem{{name: "any", mk: func(s *bitsim) bval { return s.source("item", w, w) }}}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		var l []locItem
		for _, n := range []int{0, 1, 7, 8, 16, 35} {
			l = append(l, locItem{name: fmt.Sprintf("length %d", n), none: n == 0, mk: func(s *bitsim) bval {
				var b []*bv
				for i := 0; i < n; i++ {
					b = append(b, s.source(fmt.Sprintf("byte %d", i), 8, 8))
				}
				return bstr{b: &b}.norm()
			}})
		}
		return l
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	l := []locItem{{name: "nil", none: true, mk: func(*bitsim) bval { return bnil{} }}}
	w := intWidth(sl.Elem())
	lens := []int{0, 1, 2, 3}
	if w == 8 {
		lens = []int{0, 1, 7, 8, 16, 35}
	}
	for _, n := range lens {
		if w > 1 {
			l = append(l, locItem{name: fmt.Sprintf("length %d", n), none: n == 0, mk: func(s *bitsim) bval {
				o := &bObj{name: "item"}
				for i := 0; i < n; i++ {
					o.cells = append(o.cells, s.source(fmt.Sprintf("element %d", i), w, w))
				}
				return bslice{o, 0, n, n}
			}})
			continue
		}
		if !isFloat(sl.Elem()) {
			return nil
		}
		if n > 2 {
			continue
		}
		for _, k := range kinds {
			l = append(l, locItem{name: fmt.Sprintf("length %d %s", n, k), none: n == 0, mk: func(s *bitsim) bval {
				o := &bObj{name: "item"}
				for i := 0; i < n; i++ {
					kk := k
					if i == 1 {
						kk = "finite"
					}
					o.cells = append(o.cells, floatItem(s, kk, fmt.Sprintf("element %d", i)))
				}
				return bslice{o, 0, n, n}
			}})
			if n == 0 {
				break
			}
		}
	}
	return l
}

// forms pairs the methods of a type that differ in their first words only: Update*, Query*, ...
func (q *probeRun) forms(t types.Type, words ...string) map[string]map[string]*ssa.Function {
	r := map[string]map[string]*ssa.Function{}
	ms := q.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		best := ""
		for _, w := range words {
			if strings.HasPrefix(n, w) && len(w) > len(best) {
				best = w
			}
		}
		if best == "" {
			continue
		}
		suf := n[len(best):]
		if r[suf] == nil {
			r[suf] = map[string]*ssa.Function{}
		}
		r[suf][best] = q.p.SSA.MethodValue(ms.At(i))
	}
	return r
}

func suffixes(m map[string]map[string]*ssa.Function) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (q *probeRun) yes(v bval, what string) string {
	b, ok := v.(*bv)
	if !ok {
		return "undecided: " + what + " is unknown"
	}
	k, ok := q.s.pinned(b).konst()
	if !ok {
		return "undecided: " + what + " is unknown"
	}
	if k == 0 {
		return what + " is false"
	}
	return ""
}

func (q *probeRun) locReset() {
	q.reset(nil)
	q.s.vn = &vnum{}
	q.s.numbering()
}

type bloomCfg struct {
	cap, k int
	init   uint64
}

func (q *probeRun) locBloom() {
	pt := q.p.ptrTo("filters", "bloomFilterImpl")
	if pt == nil {
		q.r.undecided("found", "Bloom filter", "", "the type no longer exists")
		return
	}
	q.locReset()
	mk := func(c bloomCfg) bval {
		e := pt.Underlying().(*types.Pointer).Elem()
		v := bptr{&bObj{name: "filter", cells: []bval{q.s.zero(e)}}, 0}
		q.c.setf(v, pt, "seed", q.s.numbered("seed", 64))
		q.c.setf(v, pt, "numHashes", bconst(uint64(c.k), 16))
		q.c.setf(v, pt, "capacityBits", bconst(uint64(c.cap), 64))
		words := filled((c.cap+63)/64, bconst(c.init, 64))
		n := 0
		for i := 0; i < c.cap; i++ {
			n += int(c.init >> uint(i%64) & 1)
		}
		if c.cap < 64 {
			words.o.cells[0] = bconst(c.init&(1<<uint(c.cap)-1), 64)
		}
		q.c.setf(v, pt, "numBitsSet", bconst(uint64(n), 64))
		q.c.setf(v, pt, "bitArray", words)
		return v
	}
	memory := func(v bval) string {
		w, ok := q.c.getf(v, pt, "bitArray").(bslice)
		if !ok {
			return "?"
		}
		var sb strings.Builder
		for i := 0; i < w.len; i++ {
			if b, ok := w.o.cells[w.off+i].(*bv); ok {
				sb.WriteString(bkey(b) + " ")
			}
		}
		return sb.String()
	}
	fs := q.forms(pt, "Update", "Query", "QueryAndUpdate")
	for _, suf := range suffixes(fs) {
		f := fs[suf]
		if f["Update"] == nil && f["QueryAndUpdate"] == nil || f["Query"] == nil {
			continue
		}
		sig := f["Query"].Signature
		if sig.Params().Len() != 1 {
			continue
		}
		its := itemsOf(sig.Params().At(0).Type())
		if its == nil {
			q.r.undecided("found", "Bloom filter "+suf, q.p.Pos(f["Query"].Pos()), "items of this type are not known to the check")
			continue
		}
		type step struct{ upd, look string }
		steps := []step{{"Update", "Query"}, {"Update", "QueryAndUpdate"}, {"QueryAndUpdate", "Query"}, {"QueryAndUpdate", "QueryAndUpdate"}}
		for _, st := range steps {
			u, l := f[st.upd], f[st.look]
			if u == nil || l == nil {
				continue
			}
			pos := q.p.Pos(norm(u).Pos())
			for _, it := range its {
				cfgs := []bloomCfg{{8, 2, 0}, {8, 2, 0xaa}}
				if suf == "UInt64" || suf == "String" && it.name == "length 1" {
					cfgs = append(cfgs, bloomCfg{192, 1, 0}, bloomCfg{4, 3, 0})
				}
				if suf == "UInt64" {
					cfgs = append(cfgs, bloomCfg{64, 2, 0})
				}
				for _, c := range cfgs {
					q.decide("found", fmt.Sprintf("Bloom filter %s%s then %s%s, %s, %d bits %d hashes initially %x", st.upd, suf, st.look, suf, it.name, c.cap, c.k, c.init), pos, func() string {
						v := mk(c)
						before := memory(v)
						x := it.mk(q.s)
						res := q.s.call(u, []bval{v, x}, nil, nil)
						if errOf(res) == 1 {
							return "the update fails"
						}
						if it.none && memory(v) == before {
							return ""
						}
						if m := q.yes(q.s.call(l, []bval{v, x}, nil, nil), st.look+suf+" after "+st.upd+suf); m != "" {
							return m
						}
						if it.twin != nil {
							return q.yes(q.s.call(l, []bval{v, it.twin(q.s)}, nil, nil), st.look+suf+" of an equal number after "+st.upd+suf)
						}
						return ""
					})
				}
			}
		}
		// merging keeps what either filter holds
		if suf != "UInt64" && suf != "String" {
			continue
		}
		it := its[len(its)-1]
		for _, op := range []string{"Union", "Intersect"} {
			for k, first := range [][2]bool{{true, false}, {false, true}, {true, true}} {
				if op == "Intersect" && k < 2 {
					continue
				}
				q.decide("found", fmt.Sprintf("Bloom filter %s of %s, held by first %v second %v", op, suf, first[0], first[1]), q.p.Pos(f["Query"].Pos()), func() string {
					c := bloomCfg{8, 2, 0}
					a, b := mk(c), mk(c)
					x := it.mk(q.s)
					if first[0] {
						q.s.call(f["Update"], []bval{a, x}, nil, nil)
					}
					if first[1] {
						q.s.call(f["Update"], []bval{b, x}, nil, nil)
					}
					m := q.p.lookup(pt, op)
					if m == nil {
						return "undecided: no method " + op
					}
					if errOf(q.s.call(m, []bval{a, biface{t: pt, v: b}}, nil, nil)) != 0 {
						return op + " fails"
					}
					return q.yes(q.s.call(f["Query"], []bval{a, x}, nil, nil), "Query"+suf+" after "+op)
				})
			}
		}
	}
}

// amount reads a number that must be constant by now.
func (q *probeRun) amount(v bval, what string) (int64, string) {
	if t, ok := v.(btuple); ok {
		if errOf(v) == 1 {
			return 0, what + " fails"
		}
		v = t[0]
	}
	b, ok := v.(*bv)
	if !ok {
		return 0, "undecided: " + what + " is unknown"
	}
	k, ok := q.s.pinned(b).sval()
	if !ok {
		return 0, "undecided: " + what + " is unknown"
	}
	return k, ""
}

func (q *probeRun) locCountMin() {
	pt := q.p.ptrTo("count", "CountMinSketch")
	if pt == nil {
		q.r.undecided("found", "count-min sketch", "", "the type no longer exists")
		return
	}
	q.locReset()
	mk := func(rows, cols int, init uint64) bval {
		e := pt.Underlying().(*types.Pointer).Elem()
		v := bptr{&bObj{name: "sketch", cells: []bval{q.s.zero(e)}}, 0}
		q.c.setf(v, pt, "numBuckets", bconst(uint64(cols), 32))
		q.c.setf(v, pt, "numHashes", bconst(uint64(rows), 8))
		q.c.setf(v, pt, "sketchSlice", filled(rows*cols, bconst(init, 64)))
		q.c.setf(v, pt, "seed", q.s.numbered("seed", 64))
		o := &bObj{name: "seeds"}
		for i := 0; i < rows; i++ {
			o.cells = append(o.cells, q.s.numbered(fmt.Sprint("row seed ", i), 64))
		}
		q.c.setf(v, pt, "hashSeeds", bslice{o, 0, rows, rows})
		return v
	}
	words := []string{"GetEstimate", "GetUpperBound", "Update"}
	fs := q.forms(pt, append(words, "GetLowerBound")...)
	for _, suf := range suffixes(fs) {
		u := fs[suf]["Update"]
		if u == nil {
			continue
		}
		pos := q.p.Pos(norm(u).Pos())
		its := itemsOf(u.Signature.Params().At(0).Type())
		if its == nil {
			q.r.undecided("found", "count-min sketch Update"+suf, pos, "items of this type are not known to the check")
			continue
		}
		for _, w := range append(words[:2], "GetLowerBound") {
			l := fs[suf][w]
			if l == nil {
				continue
			}
			for _, it := range its {
				for _, c := range [][3]int{{2, 4, 0}, {3, 3, 0}, {2, 4, 7}, {1, 5, 0}} {
					if c[0] == 3 && it.name != "any" && it.name != "length 1" {
						continue
					}
					for _, merged := range []bool{false, true} {
						name := fmt.Sprintf("count-min Update%s then %s%s, %s, %d rows %d columns initially %d", suf, w, suf, it.name, c[0], c[1], c[2])
						if merged {
							name += ", merged"
							if c[2] != 0 {
								continue
							}
						}
						q.decide("found", name, pos, func() string {
							const weight = 1000
							v := mk(c[0], c[1], uint64(c[2]))
							x := it.mk(q.s)
							if errOf(q.s.call(u, []bval{v, x, bconst(weight, 64)}, nil, nil)) == 1 {
								return "the update fails"
							}
							want := int64(weight)
							if merged {
								o := mk(c[0], c[1], uint64(c[2]))
								q.s.call(u, []bval{o, x, bconst(weight, 64)}, nil, nil)
								m := q.p.lookup(pt, "Merge")
								if m == nil {
									return "undecided: no method Merge"
								}
								if errOf(q.s.call(m, []bval{v, o}, nil, nil)) != 0 {
									return "Merge fails"
								}
								want += weight
							}
							if tot, m := q.amount(q.c.getf(v, pt, "totalWeight"), "the total weight"); m != "" || it.none && tot == 0 {
								return m
							}
							k, m := q.amount(q.s.call(l, []bval{v, x}, nil, nil), w+suf)
							if m != "" {
								return m
							}
							if w == "GetLowerBound" { // every row holds it
								if lim := want + int64(c[2]); k > lim {
									return fmt.Sprintf("%s%s is %d although the item's weight is %d", w, suf, k, lim)
								}
								return ""
							}
							if k < want {
								return fmt.Sprintf("%s%s is %d although the item's weight is %d", w, suf, k, want)
							}
							return ""
						})
					}
				}
			}
		}
	}
}
