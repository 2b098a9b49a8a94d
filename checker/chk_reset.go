package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C09: an object is made by its constructor, everything that any function of the program stores into
// an existing object of these types is replaced by an unknown, and the reset is run along all paths.
// What it leaves must be what the constructor makes.

func init() { checks["C09"] = chkC09 }

type rcase struct {
	name  string
	ctor  string // constructor
	rtype string // the type whose Reset is called, when the constructor is an internal one
	tm    []types.Type
	args  func(c *lctx, fn *ssa.Function) []bval
	reset string
	keep  []string                         // configuration
	prep  func(c *lctx, v bval, used bool) // brings the object into a state that needs more than unknown fields
	raw   bool                             // the object is used as it is
	fold  bool
}

// storedFields finds the fields that are stored into objects that exist already.
func storedFields(p *Prog) map[*types.Named]map[int]bool {
	m := map[*types.Named]map[int]bool{}
	all := map[*types.Named]bool{}
	note := func(t types.Type, i int) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			return
		}
		n = n.Origin()
		if i < 0 {
			all[n] = true
			return
		}
		if m[n] == nil {
			m[n] = map[int]bool{}
		}
		m[n][i] = true
	}
	for _, f := range p.Funcs {
		if strings.EqualFold(f.Name(), "Reset") || f.Name() == "clear" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					// a field of a struct inside another one counts for both
					for {
						if _, fresh := a.X.(*ssa.Alloc); fresh {
							break
						}
						note(a.X.Type(), a.Field)
						up, ok := a.X.(*ssa.FieldAddr)
						if !ok {
							break
						}
						a = up
					}
				case *ssa.Alloc:
				default:
					if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok {
						if _, isS := pt.Elem().Underlying().(*types.Struct); isS {
							note(st.Addr.Type(), -1)
						}
					}
				}
			}
		}
	}
	for n := range all {
		if st, ok := n.Underlying().(*types.Struct); ok {
			if m[n] == nil {
				m[n] = map[int]bool{}
			}
			for i := 0; i < st.NumFields(); i++ {
				m[n][i] = true
			}
		}
	}
	return m
}

type havoc struct {
	c     *lctx
	mut   map[*types.Named]map[int]bool
	keep  map[string]bool
	grow  bool
	seen  map[*bObj]bool
	n     int
	elem  bool // inside a slice
	depth int
	all   int // every field of structs counts as mutable
	count int // fields made unknown
}

func (h *havoc) unknown(t types.Type, name string) bval {
	h.n++
	if w := intWidth(t); w > 0 {
		v := h.c.s.source(fmt.Sprintf("%s#%d", name, h.n), w, w)
		if h.elem && w > 1 { // slots of tables are taken, so that their number does not multiply the paths
			v.b[0] = 1
		}
		return v
	}
	return bunk{"the value " + name + " had before"}
}

// object makes the mutable fields of a struct object unknown.
func (h *havoc) object(o *bObj, t types.Type) {
	if h.seen[o] {
		return
	}
	h.seen[o] = true
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	var mut map[int]bool
	if n, ok := t.(*types.Named); ok {
		mut = h.mut[n.Origin()]
	}
	// logarithms of the lengths of the slices beside them stay in step
	tied := map[uint64]bool{}
	for i := 0; i < st.NumFields() && i < len(o.cells); i++ {
		if sl, ok := o.cells[i].(bslice); ok && sl.len > 1 && sl.len&(sl.len-1) == 0 {
			lg := uint64(0)
			for 1<<lg < sl.len {
				lg++
			}
			tied[lg] = true
		}
	}
	for i := 0; i < st.NumFields() && i < len(o.cells); i++ {
		f := st.Field(i)
		if h.keep[f.Name()] {
			continue
		}
		o.cells[i] = h.value(o.cells[i], f.Type(), f.Name(), mut[i] || h.all > 0, tied)
	}
}

func (h *havoc) value(v bval, t types.Type, name string, mut bool, tied map[uint64]bool) bval {
	t = h.c.s.tm.of(t)
	switch x := v.(type) {
	case *bObj:
		if _, ok := t.Underlying().(*types.Struct); ok {
			h.object(x, t)
		} else if a, ok := t.Underlying().(*types.Array); ok {
			for i := range x.cells {
				x.cells[i] = h.value(x.cells[i], a.Elem(), name, mut, nil)
			}
		}
		return x
	case bptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && x.o != nil {
			if o, ok := x.o.cells[x.i].(*bObj); ok {
				h.object(o, h.c.s.tm.of(pt.Elem()))
			}
		}
		return x
	case biface:
		if x.t != nil {
			x.v = h.value(x.v, x.t, name, mut, nil)
		}
		return x
	case bslice:
		e := t.Underlying().(*types.Slice).Elem()
		if h.seen[x.o] {
			return x
		}
		n := x.len
		if h.grow && mut {
			n *= 2
			if n == 0 {
				n = 4
			}
		}
		h.count++
		o := &bObj{name: name}
		inside := h.elem
		h.elem = true
		for i := 0; i < n; i++ {
			var old bval = bunk{"element " + name + " had before"}
			if i < x.len {
				old = x.o.cells[x.off+i]
			}
			if i < x.len {
				if _, isS := old.(*bObj); isS { // a struct element
					old = bmem(bcopy(old))
				}
			} else {
				old = h.c.s.zero(h.c.s.tm.of(e))
			}
			if i > 0 && i == x.len-1 {
				o.cells = append(o.cells, old) // one that was never used
				continue
			}
			h.all++
			o.cells = append(o.cells, h.value(old, e, name, true, nil))
			h.all--
		}
		h.elem = inside
		h.seen[o] = true
		return bslice{o, 0, n, n}
	case bnil:
		if !mut {
			return v
		}
		h.count++
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				o := h.c.s.zero(h.c.s.tm.of(u.Elem()))
				if so, ok := o.(*bObj); ok && h.depth < 3 {
					g := h.grow
					h.grow = true
					h.depth++
					h.all++
					h.object(so, h.c.s.tm.of(u.Elem()))
					h.depth--
					h.all--
					h.grow = g
				}
				return bptr{&bObj{name: name, cells: []bval{o}}, 0}
			}
		case *types.Slice:
			if !h.grow {
				return v
			}
			o := &bObj{name: name}
			for i := 0; i < 4; i++ {
				o.cells = append(o.cells, h.unknown(u.Elem(), name))
			}
			return bslice{o, 0, 4, 4}
		}
		return bunk{"the value " + name + " had before"}
	case *bv:
		if !mut {
			return v
		}
		if k, ok := x.konst(); ok && k > 0 && tied[k] {
			if h.grow {
				return bconst(k+1, x.w)
			}
			return v
		}
		h.count++
		return h.unknown(t, name)
	case bfunc:
		return v
	}
	if !mut {
		return v
	}
	h.count++
	return h.unknown(t, name)
}

type deepEq struct {
	s    *bitsim
	seen map[[2]*bObj]bool
}

// diff describes the first place where two values of type t differ.
func (d *deepEq) diff(a, b bval, t types.Type, path string) string {
	s := d.s
	if t != nil {
		t = s.tm.of(t)
	}
	if x, ok := a.(bslice); ok && x.len == 0 {
		a = bnil{}
	}
	if x, ok := b.(bslice); ok && x.len == 0 {
		b = bnil{}
	}
	switch y := b.(type) {
	case *bv:
		x, ok := a.(*bv)
		if !ok {
			break
		}
		x, y = s.pinned(x), s.pinned(y)
		if x.w == y.w && x.b == y.b {
			return ""
		}
		if k, ok := y.konst(); ok {
			if l, ok := x.konst(); ok {
				return fmt.Sprintf("%s is %d instead of %d", path, l, k)
			}
			return fmt.Sprintf("%s is not set to %d", path, k)
		}
		return path + " differs"
	case bflt:
		if x, ok := a.(bflt); ok && x.p.String() == y.p.String() {
			return ""
		}
	case bstr:
		if x, ok := a.(bstr); ok {
			if eq, known := s.strEq(x, y); known && eq {
				return ""
			}
		}
	case bnil:
		if _, ok := a.(bnil); ok {
			return ""
		}
		return path + " is not cleared"
	case bptr:
		if x, ok := a.(bptr); ok {
			var e types.Type
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				e = pt.Elem()
			}
			return d.diff(x.o.cells[x.i], y.o.cells[y.i], e, path)
		}
	case *bObj:
		x, ok := a.(*bObj)
		if !ok || len(x.cells) != len(y.cells) {
			break
		}
		if x == y || d.seen[[2]*bObj{x, y}] {
			return ""
		}
		d.seen[[2]*bObj{x, y}] = true
		st, _ := t.Underlying().(*types.Struct)
		at, _ := t.Underlying().(*types.Array)
		if st != nil && strings.HasSuffix(path, "[]") {
			// an empty slot of a table holds nothing
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Hash" && d.isZero(x.cells[i]) && d.isZero(y.cells[i]) {
					return ""
				}
			}
		}
		for i := range y.cells {
			var e types.Type
			name := fmt.Sprint(i)
			if st != nil && i < st.NumFields() {
				e, name = st.Field(i).Type(), st.Field(i).Name()
			} else if at != nil {
				e = at.Elem()
			}
			if path != "" {
				name = path + "." + name
			}
			if m := d.diff(x.cells[i], y.cells[i], e, name); m != "" {
				return m
			}
		}
		return ""
	case bslice:
		x, ok := a.(bslice)
		if !ok {
			break
		}
		if x.len != y.len {
			return fmt.Sprintf("%s has length %d instead of %d", path, x.len, y.len)
		}
		for i := 0; i < y.len; i++ {
			if m := d.diff(x.o.cells[x.off+i], y.o.cells[y.off+i], t.Underlying().(*types.Slice).Elem(), path+"[]"); m != "" {
				return m
			}
		}
		return ""
	case biface:
		x, ok := a.(biface)
		if !ok {
			break
		}
		if x.hook != nil && y.hook != nil {
			return ""
		}
		if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			return d.diff(x.v, y.v, x.t, path)
		}
		return path + " holds another type"
	case bfunc:
		if x, ok := a.(bfunc); ok && x.fn == y.fn {
			return ""
		}
	case bunk:
		if x, ok := a.(bunk); ok && x.why == y.why {
			return ""
		}
		return path + ": the constructor's value is unknown"
	}
	if u, ok := a.(bunk); ok {
		return path + " is not set again (" + u.why + ")"
	}
	return path + " differs"
}

func (d *deepEq) isZero(v bval) bool {
	b, ok := v.(*bv)
	if !ok {
		return false
	}
	k, ok := d.s.pinned(b).konst()
	return ok && k == 0
}

// plainArgs are concrete arguments for the parameters of a constructor: the given numbers for the
// numeric ones in order, stand-ins for functions and interfaces, options made by the named option functions.
func plainArgs(nums []any, opts ...func(c *lctx) bval) func(c *lctx, fn *ssa.Function) []bval {
	return func(c *lctx, fn *ssa.Function) []bval {
		in := entryArgs(c.p, c.s, fn, "", bslice{})
		n := 0
		for i, q := range fn.Params {
			t := c.s.tm.of(q.Type())
			if u, ok := t.Underlying().(*types.Basic); ok && n < len(nums) {
				switch {
				case u.Info()&types.IsBoolean != 0:
					in[i] = bbool(nums[n].(bool))
				case intWidth(u) > 0:
					in[i] = bconst(uint64(int64(nums[n].(int))), intWidth(u))
				case isFloat(u):
					in[i] = fconst(nums[n].(float64))
				}
				n++
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				o := &bObj{name: "options"}
				for _, f := range opts {
					o.cells = append(o.cells, f(c))
				}
				in[i] = bslice{o, 0, len(o.cells), len(o.cells)}
			}
		}
		return in
	}
}

func option(name string, args ...bval) func(c *lctx) bval {
	return func(c *lctx) bval { return c.fn(name, args...) }
}

func resetCases(p *Prog) (out []*rcase) {
	i64 := types.Typ[types.Int64]
	add := func(c *rcase) { out = append(out, c) }
	for _, k := range []int{8, 200} {
		add(&rcase{name: fmt.Sprintf("kll.ItemsSketch k=%d", k), ctor: "kll.NewKllItemsSketch", tm: []types.Type{i64},
			args: plainArgs([]any{k, 8}), keep: []string{"k", "m", "deterministicOffsetForTest", "serde", "compareFn"}})
	}
	for _, k := range []int{4, 12, 1024} {
		for _, h := range []bool{false, true} {
			add(&rcase{name: fmt.Sprintf("req.Sketch k=%d high=%v", k, h), ctor: "req.NewSketch", keep: []string{"k", "isHighRankAccuracyMode"},
				args: plainArgs(nil, option("req.WithK", bconst(uint64(k), 64)), option("req.WithHighRankAccuracyMode", bbool(h)))})
		}
	}
	for _, n := range []int{64, 1000} {
		add(&rcase{name: fmt.Sprintf("filters.BloomFilter bits=%d", n), ctor: "filters.NewBloomFilterBySize", keep: []string{"seed", "numHashes", "numBits", "capacityBits"},
			args: plainArgs([]any{n, 3}, option("filters.WithSeed", bconst(7, 64)))})
	}
	add(&rcase{name: "frequencies.ItemsSketch", ctor: "frequencies.NewFrequencyItemsSketch", tm: []types.Type{i64}, args: plainArgs([]any{10, 3}), keep: []string{"lgMaxMapSize", "hasher", "serde"}})
	add(&rcase{name: "frequencies.LongsSketch", ctor: "frequencies.NewLongsSketch", args: plainArgs([]any{10, 3}), keep: []string{"lgMaxMapSize"}})
	conf := []string{"lgNomSize", "rf", "p", "seed", "entryLessFunc", "newSummary", "numberOfValues", "size", "numValues", "policy", "updateFunc", "updateSummaryFunc", "applyFunc"}
	for lgK := 5; lgK <= 14; lgK += 4 {
		for rf := uint64(0); rf < 4; rf++ {
			for _, prob := range []float64{1, 0.5} {
				n := fmt.Sprintf(" lgK=%d rf=%d p=%v", lgK, rf, prob)
				add(&rcase{name: "theta.QuickSelectUpdateSketch" + n, ctor: "theta.NewQuickSelectUpdateSketch", keep: conf,
					args: plainArgs(nil, option("theta.WithUpdateSketchLgK", bconst(uint64(lgK), 8)), option("theta.WithUpdateSketchResizeFactor", bconst(rf, 8)), option("theta.WithUpdateSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.UpdateSketch" + n, ctor: "tuple.NewUpdateSketch", keep: conf, tm: []types.Type{p.ptrTo("tuple", "ArrayOfStringsSummary"), types.NewSlice(types.Typ[types.String])},
					args: plainArgs(nil, option("tuple.WithUpdateSketchLgK", bconst(uint64(lgK), 8)), option("tuple.WithUpdateSketchResizeFactor", bconst(rf, 8)), option("tuple.WithUpdateSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.UpdateSketch func" + n, ctor: "tuple.NewUpdateSketchWithSummaryUpdateFunc", keep: conf, tm: []types.Type{p.ptrTo("tuple", "ArrayOfStringsSummary"), types.NewSlice(types.Typ[types.String])},
					args: plainArgs(nil, option("tuple.WithUpdateSketchLgK", bconst(uint64(lgK), 8)), option("tuple.WithUpdateSketchResizeFactor", bconst(rf, 8)), option("tuple.WithUpdateSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.Union" + n, ctor: "tuple.NewUnion", keep: conf, tm: []types.Type{p.ptrTo("tuple", "ArrayOfStringsSummary")},
					args: plainArgs(nil, option("tuple.WithUnionLgK", bconst(uint64(lgK), 8)), option("tuple.WithUnionResizeFactor", bconst(rf, 8)), option("tuple.WithUnionSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.Union func" + n, ctor: "tuple.NewUnionWithSummaryMergeFunc", keep: conf, tm: []types.Type{p.ptrTo("tuple", "ArrayOfStringsSummary")},
					args: plainArgs(nil, option("tuple.WithUnionLgK", bconst(uint64(lgK), 8)), option("tuple.WithUnionResizeFactor", bconst(rf, 8)), option("tuple.WithUnionSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.ArrayOfNumbersUpdateSketch" + n, ctor: "tuple.NewArrayOfNumbersUpdateSketch", keep: conf, tm: []types.Type{i64},
					args: plainArgs([]any{2}, option("tuple.WithUpdateSketchLgK", bconst(uint64(lgK), 8)), option("tuple.WithUpdateSketchResizeFactor", bconst(rf, 8)), option("tuple.WithUpdateSketchP", fconst(prob)))})
				add(&rcase{name: "tuple.ArrayOfNumbersSketchUnion" + n, ctor: "tuple.NewArrayOfNumbersSketchUnion", keep: conf, tm: []types.Type{i64},
					args: plainArgs([]any{2}, option("tuple.WithUnionLgK", bconst(uint64(lgK), 8)), option("tuple.WithUnionResizeFactor", bconst(rf, 8)), option("tuple.WithUnionSketchP", fconst(prob)))})
				add(&rcase{name: "theta.Union" + n, ctor: "theta.NewUnion", keep: conf,
					args: plainArgs(nil, option("theta.WithUnionLgK", bconst(uint64(lgK), 8)), option("theta.WithUnionResizeFactor", bconst(rf, 8)), option("theta.WithUnionSketchP", fconst(prob)))})
			}
		}
	}
	hconf := []string{"lgConfigK", "tgtHllType", "slotNoMask", "lgMaxK"}
	for _, lgK := range []int{4, 7, 11, 21} {
		for ty := 0; ty < 3; ty++ {
			add(&rcase{name: fmt.Sprintf("hll.HllSketch lgK=%d type=%d", lgK, ty), ctor: "hll.NewHllSketch", keep: hconf, args: plainArgs([]any{lgK, ty})})
		}
		add(&rcase{name: fmt.Sprintf("hll.Union lgMaxK=%d", lgK), ctor: "hll.NewUnion", keep: hconf, args: plainArgs([]any{lgK})})
	}
	add(&rcase{name: "cpc.BitMatrix", ctor: "cpc.NewBitMatrixWithSeed", keep: []string{"lgK", "seed"}, args: plainArgs([]any{4, 9001})})
	for _, lgK := range []int{4, 11, 26} {
		add(&rcase{name: fmt.Sprintf("cpc.CpcSketch lgK=%d", lgK), ctor: "cpc.NewCpcSketch", reset: "reset", keep: []string{"lgK", "seed"}, args: plainArgs([]any{lgK, 9001})})
	}
	for _, k := range []int{2, 16, 100, 4096} {
		for rf := uint64(0); rf < 4; rf++ {
			n := fmt.Sprintf(" k=%d rf=%d", k, rf)
			add(&rcase{name: "sampling.ReservoirItemsSketch" + n, ctor: "sampling.NewReservoirItemsSketch", tm: []types.Type{i64}, keep: []string{"k", "rf"},
				args: plainArgs([]any{k}, option("sampling.WithReservoirItemsSketchResizeFactor", bconst(rf, 8)))})
			add(&rcase{name: "sampling.VarOptItemsSketch" + n, ctor: "sampling.NewVarOptItemsSketch", tm: []types.Type{i64}, keep: []string{"k", "rf"},
				args: plainArgs([]any{k}, option("sampling.WithResizeFactor", bconst(rf, 8)))})
		}
		add(&rcase{name: fmt.Sprintf("sampling.VarOptItemsUnion k=%d", k), ctor: "sampling.NewVarOptItemsUnion", tm: []types.Type{i64}, keep: []string{"k", "rf"}, args: plainArgs([]any{k})})
	}
	gadget := func(k int) func(c *lctx, v bval, used bool) {
		return func(c *lctx, v bval, used bool) {
			n := 25
			if used {
				n = k
			}
			o := bslice{&bObj{}, 0, 0, 0}
			sk := c.ok(c.fn("sampling.NewReservoirItemsSketch", bconst(uint64(n), 64), o), "sampling.NewReservoirItemsSketch")
			c.setField(v, "sampling", "ReservoirItemsUnion", "gadget", sk)
		}
	}
	add(&rcase{name: "sampling.ReservoirItemsUnion unused", ctor: "sampling.NewReservoirItemsUnion", tm: []types.Type{i64}, args: plainArgs([]any{25}), raw: true})
	for _, k := range []int{10, 25} {
		add(&rcase{name: fmt.Sprintf("sampling.ReservoirItemsUnion gadget k=%d", k), ctor: "sampling.NewReservoirItemsUnion", tm: []types.Type{i64}, args: plainArgs([]any{25}), keep: []string{"k", "rf", "maxK"}, prep: gadget(k)})
	}
	return out
}

// setField stores into a field of a struct reached through a pointer.
func (c *lctx) setField(v bval, pkg, typ, field string, x bval) {
	if p, ok := v.(bptr); ok {
		if o, ok := p.o.cells[p.i].(*bObj); ok {
			if sp := c.p.SPkgs[pkg]; sp != nil {
				if m, ok := sp.Members[typ].(*ssa.Type); ok {
					st := m.Type().Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if fieldName(m.Type(), i) == field {
							o.cells[i] = x
							return
						}
					}
				}
			}
		}
	}
	c.s.stop("undecided", "no field "+field+" in "+typ, nil)
}

func (p *Prog) ptrTo(pkg, name string) types.Type {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return types.Typ[types.Invalid]
	}
	if m, ok := sp.Members[name].(*ssa.Type); ok {
		return types.NewPointer(m.Type())
	}
	return types.Typ[types.Invalid]
}

func chkC09(p *Prog, r *Report) {
	r.Explain = "rule: for each constructor and configuration, with every field that any function stores into an existing object replaced by an unknown and the tables both in their first size and grown, every path of the reset leaves an object equal, field by field and element by element, to the one the constructor makes"
	mut := storedFields(p)
	only := os.Getenv("LAYOUT")
	for _, rc := range resetCases(p) {
		if only != "" && !strings.Contains(rc.name, only) {
			continue
		}
		t0 := time.Now()
		for _, grow := range []bool{false, true} {
			decideReset(p, r, rc, grow, mut)
		}
		if d := time.Since(t0); d > time.Second && os.Getenv("CHECK_DEBUG") != "" {
			fmt.Println("slow", rc.name, d)
		}
	}
	for _, l := range layouts() {
		if only != "" && !strings.Contains(l.name, only) {
			continue
		}
		ref := map[string]func(c *lctx) bval{
			"hll ": func(c *lctx) bval {
				return c.ok(c.fn("hll.NewHllSketch", c.method(c.sk, c.skT, "GetLgConfigK"), c.method(c.sk, c.skT, "GetTgtHllType")), "the constructor")
			},
		}[l.name[:4]]
		if ref == nil {
			continue
		}
		d := *l
		d.get, d.enc = nil, nil
		d.after = func(c *lctx) {
			want := ref(c)
			if _, ok := c.method(c.sk, c.skT, "Reset").(bnil); !ok {
				c.fail("the reset may fail")
				return
			}
			q := &deepEq{s: c.s, seen: map[[2]*bObj]bool{}}
			if m := q.diff(c.sk, want, c.skT, ""); m != "" {
				c.fail("%s", m)
			}
		}
		decideLayout(p, r, "reset-decoded", &d)
	}
	r.floor("reset", 500)
	r.floor("reset-decoded", 35)
}

func decideReset(p *Prog, r *Report, rc *rcase, grow bool, mut map[*types.Named]map[int]bool) {
	name := rc.name
	if grow {
		name += " grown"
	}
	fn := p.Fn(rc.ctor)
	if fn == nil {
		r.undecided("reset", name, "", rc.ctor+" no longer exists")
		return
	}
	fn = norm(fn)
	s := newBitsim(p)
	s.tm = entryTypes(fn)
	for i := 0; i < fn.TypeParams().Len() && i < len(rc.tm); i++ {
		s.tm[fn.TypeParams().At(i)] = rc.tm[i]
	}
	if rc.fold {
		initGlobals(p, s, fn)
	}
	s.maxSteps = 20_000_000
	s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		n := p.FName(norm(f))
		if n == "internal.ComputeSeedHash" {
			return btuple{bconst(0x93cc, 16), bnil{}}, true
		}
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "math/rand") {
			res := f.Signature.Results()
			if res.Len() == 1 {
				if isFloat(res.At(0).Type().Underlying().(*types.Basic)) {
					return fconst(0.5), true
				}
				if w := intWidth(res.At(0).Type()); w > 0 {
					return bconst(0, w), true
				}
			}
		}
		return nil, false
	}
	pos := p.Pos(fn.Pos())
	var bad []string
	paths := 0
	full := s.explore(200, func() {
		paths++
		c := &lctx{p: p, s: s, l: &layout{name: name}}
		make1 := func(isUsed bool) (bval, types.Type) {
			v := s.call(fn, rc.args(c, fn), nil, s.tm)
			t := s.tm.of(fn.Signature.Results().At(0).Type())
			if fn.Signature.Results().Len() > 1 {
				v = c.ok(v, rc.ctor)
			}
			if rc.prep != nil {
				rc.prep(c, v, isUsed)
			}
			if i, ok := v.(biface); ok {
				v, t = i.v, i.t
			}
			return v, t
		}
		used, t := make1(true)
		fresh, _ := make1(false)
		if len(c.errs) > 0 {
			bad = append(bad, c.errs[0])
			return
		}
		h := &havoc{c: c, mut: mut, keep: map[string]bool{}, grow: grow, seen: map[*bObj]bool{}}
		for _, k := range rc.keep {
			h.keep[k] = true
		}
		if !rc.raw {
			used = h.value(used, t, "object", false, nil)
		}
		if h.count == 0 && !rc.raw {
			bad = append(bad, "nothing in it can change")
			return
		}
		r.Counts["unknown fields"] += h.count
		rname := "Reset"
		if rc.reset != "" {
			rname = rc.reset
		}
		res := c.method(used, t, rname)
		if f := p.lookup(t, rname); f != nil {
			pos = p.Pos(norm(f).Pos())
			if f.Signature.Results().Len() == 1 {
				if _, ok := res.(bnil); !ok {
					bad = append(bad, "the reset may fail")
				}
			}
		}
		if len(c.errs) > 0 {
			bad = append(bad, c.errs[0])
			return
		}
		d := &deepEq{s: s, seen: map[[2]*bObj]bool{}}
		if m := d.diff(used, fresh, t, ""); m != "" {
			bad = append(bad, m)
		}
	}, func(st *bstop) {
		m := st.kind + ": " + st.msg
		if q := p.Pos(st.pos); q != "" {
			m += " at " + q
		}
		bad = append(bad, m)
	})
	r.Counts["paths"] += paths
	switch {
	case len(bad) > 0:
		sort.Strings(bad)
		r.bad("reset", name, pos, bad[0])
	case !full:
		r.undecided("reset", name, pos, "too many paths")
	default:
		r.ok("reset", name, pos)
	}
}
