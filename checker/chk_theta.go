package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: the operations of theta and tuple sketches are interpreted over sketches whose hashes and
// thresholds are unknown numbers in a domain of order facts (ord.go). On every path the result must
// hold exactly the hashes of the documented set that lie below the threshold it reports, none of them
// zero or twice, and that threshold must not lie above those of the inputs.

func init() { checks["C18"] = chkC18 }

type thetaRun struct {
	*probeRun
	o     *ordDom
	kind  string // theta, tuple, numbers
	tm    tmap
	hash  []int       // symbols of hashes
	tag   map[int]int // symbol -> tag of its summary
	sketT types.Type
	pol   bval
	short map[string]bool
}

type thetaFns struct {
	compact, table, union, uUpdate, uResult, inter, iUpdate, iResult, anotb, sketch, copy string
}

var thetaNames = map[string]thetaFns{
	"theta": {"theta.CompactSketch", "theta.NewHashtable", "theta.NewUnion", "theta.(Union).Update", "theta.(Union).Result",
		"theta.NewIntersection", "theta.(Intersection).Update", "theta.(Intersection).Result", "theta.ANotB", "theta.NewQuickSelectUpdateSketch", "theta.NewCompactSketch"},
	"tuple": {"tuple.CompactSketch", "tuple.newHashtable", "tuple.NewUnion", "tuple.(Union).Update", "tuple.(Union).Result",
		"tuple.NewIntersection", "tuple.(Intersection).Update", "tuple.(Intersection).Result", "tuple.ANotB", "tuple.NewUpdateSketch", "tuple.NewCompactSketch"},
	"numbers": {"tuple.ArrayOfNumbersCompactSketch", "tuple.newHashtable", "tuple.NewArrayOfNumbersSketchUnion", "tuple.(ArrayOfNumbersSketchUnion).Update", "tuple.(ArrayOfNumbersSketchUnion).Result",
		"tuple.NewArrayOfNumbersSketchIntersection", "tuple.(ArrayOfNumbersSketchIntersection).Update", "tuple.(ArrayOfNumbersSketchIntersection).Result", "tuple.ArrayOfNumbersSketchANotB", "tuple.NewArrayOfNumbersUpdateSketch", "tuple.NewArrayOfNumbersCompactSketch"},
}

func chkC18(p *Prog, r *Report) {
	r.Explain = "rule result: on every path of union, intersection, difference, compaction, filtering and conversion over sketches with unknown hashes and thresholds the result holds exactly the hashes of the documented set below the reported threshold, each with its own summary, the threshold is not above those of the inputs (and below them only when k hashes are kept), and a result marked ordered is ascending. rule update: a hash that is zero or not below the threshold is never stored, others always are. rule rebuild: insertion and trimming keep exactly the hashes below the new threshold, which does not rise"
	for _, k := range []string{"theta", "tuple", "numbers"} {
		if only := os.Getenv("LAYOUT"); only == "" || strings.Contains(k, only) {
			t := &thetaRun{kind: k, probeRun: &probeRun{p: p, r: r, limit: 60000}}
			t.cases()
		}
	}
	r.floor("result", 235)
	r.floor("update", 36)
	r.floor("rebuild", 38)
}

// start prepares a fresh interpreter and order domain.
func (t *thetaRun) start() {
	t.reset(nil)
	s := t.s
	tm := tmap{}
	for _, pk := range []string{"tuple", "theta"} {
		for _, f := range t.p.Funcs {
			if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+pk) {
				continue
			}
			for k := range entryTypes(norm(f)) {
				tm[k] = types.Typ[types.Int64]
			}
		}
		if t.kind == "tuple" {
			for k := range tm {
				switch k.Obj().Name() {
				case "S":
					tm[k] = t.p.ptrTo("tuple", "ArrayOfStringsSummary")
				case "V":
					tm[k] = types.NewSlice(types.Typ[types.String])
				}
			}
		}
	}
	if t.kind == "numbers" {
		for k := range tm {
			if k.Obj().Name() == "S" {
				tm[k] = tm.of(t.p.ptrTo("tuple", "ArrayOfNumbersSummary"))
			}
		}
	}
	if t.kind == "theta" {
		tm = nil
	}
	s.tm = tm
	t.tm = tm
	base := s.model
	s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		n := t.p.FName(norm(f))
		if strings.HasPrefix(n, "internal.QuickSelect") {
			return nil, false // interpreted
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(f.Name(), "Sort") {
			return t.sorted(in)
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" && strings.HasPrefix(f.Name(), "Slice") && len(in) == 2 {
			sl, ok := in[0].(biface)
			less, ok2 := in[1].(bfunc)
			if !ok || !ok2 {
				return nil, false
			}
			if x, ok := sl.v.(bslice); ok { // by exchanging neighbours
				c := x.o.cells[x.off : x.off+x.len]
				for i := 1; i < len(c); i++ {
					for j := i; j > 0; j-- {
						k, ok := t.s.call(less.fn, []bval{bconst(uint64(j), 64), bconst(uint64(j-1), 64)}, less.free, less.tm).(*bv)
						if !ok {
							t.s.stop("undecided", "the order of a sort is unknown", nil)
						}
						if b, _ := k.konst(); b == 0 {
							break
						}
						c[j], c[j-1] = c[j-1], c[j]
					}
				}
			}
			return btuple{}, true
		}
		if r, ok := t.hashed(n, f); ok {
			return r, true
		}
		return base(f, in)
	}
	pkg := strings.SplitN(thetaNames[t.kind].compact, ".", 2)
	if tn := t.p.SPkgs[pkg[0]].Type(pkg[1]); tn != nil {
		t.sketT = tm.of(tn.Type())
	}
	t.pol = biface{hook: func(name string, in []bval) (bval, bool) { return btuple{}, true }}
}

// begin is called at the start of every path.
func (t *thetaRun) begin(n int, low func(i int) uint64) {
	t.s.steps = 0
	t.o = newOrd(t.s)
	t.s.ord = t.o
	t.hash, t.tag = nil, map[int]int{}
	for i := 0; i < n; i++ {
		h := t.o.sym(fmt.Sprintf("h%d", i), low(i), 20)
		t.o.fact(t.o.zero, h, true)
		t.o.fact(h, t.o.max, true)
		for _, g := range t.hash {
			t.o.differ(g, h)
		}
		t.hash = append(t.hash, h)
		t.tag[h] = i
	}
}

// hashed models the hash function: an unknown number (see update).
func (t *thetaRun) hashed(n string, f *ssa.Function) (bval, bool) {
	if !strings.HasPrefix(n, "internal.Hash") || t.o == nil {
		return nil, false
	}
	w := f.Signature.Results()
	if w.Len() != 2 {
		return nil, false
	}
	for i, nm := range t.o.name {
		if nm == "new" {
			v := t.o.val[i]
			up := &bv{w: 64}
			up.b[0] = t.s.source("lowest bit", 1, 1).b[0]
			copy(up.b[1:64], v.b[:63])
			return btuple{up, t.s.source("second half", 64, 64)}, true
		}
	}
	return nil, false
}

func (t *thetaRun) sorted(in []bval) (bval, bool) {
	sl, ok := in[0].(bslice)
	if !ok {
		if _, isNil := in[0].(bnil); isNil {
			return btuple{}, true
		}
		return nil, false
	}
	less := func(a, b bval) bool {
		if len(in) > 1 {
			f, ok := in[1].(bfunc)
			if !ok {
				t.s.stop("undecided", "the comparison of a sort is unknown", nil)
			}
			k, ok := t.s.call(f.fn, []bval{bcopy(a), bcopy(b)}, f.free, f.tm).(*bv)
			if ok {
				if v, ok := k.sval(); ok {
					return v < 0
				}
			}
		} else if x, ok := t.o.of(a); ok {
			if y, ok := t.o.of(b); ok {
				return t.o.less(x, y)
			}
		}
		t.s.stop("undecided", "the order of a sort is unknown", nil)
		return false
	}
	c := sl.o.cells[sl.off : sl.off+sl.len]
	for i := 1; i < len(c); i++ {
		for j := i; j > 0 && less(c[j], c[j-1]); j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	return btuple{}, true
}

// entry makes a stored entry for a hash.
func (t *thetaRun) entry(et types.Type, h int) bval {
	if t.kind == "theta" || intWidth(et) == 64 {
		return t.o.val[h]
	}
	z := t.s.zero(et)
	r, _ := t.c.ref(z, et, "Hash")
	sum, st := t.c.ref(z, et, "Summary")
	if r == nil || sum == nil {
		t.s.stop("undecided", "an entry has no hash or summary", nil)
	}
	*r = t.o.val[h]
	*sum = t.summary(st, t.tag[h])
	return z
}

// summary makes a summary that holds one value, the tag.
func (t *thetaRun) summary(st types.Type, tag int) bval {
	pt, ok := st.Underlying().(*types.Pointer)
	if !ok {
		t.s.stop("undecided", "the summary is not a pointer", nil)
	}
	o := t.s.zero(pt.Elem()).(*bObj)
	box := bptr{&bObj{name: "summary", cells: []bval{o}}, 0}
	var v bval = bconst(uint64(tag), 64)
	if t.kind == "tuple" {
		v = bstr{s: fmt.Sprint(tag)}
	}
	if r, _ := t.c.ref(box, st, "size"); r != nil {
		*r = bconst(1, 8)
	}
	t.c.setf(box, st, "values", bslice{&bObj{cells: []bval{v}}, 0, 1, 1})
	return box
}

// tagOf reads the tag back.
func (t *thetaRun) tagOf(v bval, st types.Type) string {
	sl, ok := t.c.getf(v, st, "values").(bslice)
	if !ok || sl.len < 1 {
		return "none"
	}
	switch x := sl.o.cells[sl.off].(type) {
	case *bv:
		if k, ok := x.konst(); ok {
			return fmt.Sprint(k)
		}
	case bstr:
		return x.s
	}
	return "unknown"
}

// sketch makes a compact sketch of the given hashes.
func (t *thetaRun) sketch(hs []int, theta int, ordered, empty bool) bval {
	o := t.s.zero(t.sketT).(*bObj)
	v := bptr{&bObj{name: "sketch", cells: []bval{o}}, 0}
	pt := types.NewPointer(t.sketT)
	_, ft := t.c.ref(v, pt, "entries")
	if ft == nil {
		t.s.stop("undecided", "the compact sketch has no field entries", nil)
	}
	et := t.s.tm.of(ft.Underlying().(*types.Slice).Elem())
	es := &bObj{name: "entries"}
	for i, h := range hs {
		if h != t.o.zero {
			t.o.fact(h, theta, true)
		}
		if ordered && i > 0 {
			t.o.fact(hs[i-1], h, true)
		}
		es.cells = append(es.cells, bmem(t.entry(et, h)))
	}
	t.c.setf(v, pt, "entries", bslice{es, 0, len(hs), len(hs)})
	t.c.setf(v, pt, "theta", t.o.val[theta])
	t.c.setf(v, pt, "seedHash", bconst(0x93cc, 16))
	t.c.setf(v, pt, "isEmpty", bbool(empty))
	t.c.setf(v, pt, "isOrdered", bbool(ordered))
	if r, _ := t.c.ref(v, pt, "numberOfValuesInSummary"); r != nil {
		*r = bconst(1, 8)
	}
	return biface{t: pt, v: v}
}

// table makes a hash table with the given entries at given slots.
func (t *thetaRun) table(lgCur, lgNom int, theta int, at map[int]int) (bval, types.Type) {
	f, _ := t.fnOf(thetaNames[t.kind].table)
	if f == nil {
		t.s.stop("undecided", "the hash table no longer exists", nil)
	}
	in := []bval{bconst(uint64(lgCur), 8), bconst(uint64(lgNom), 8), bconst(1, 8), fconst(1), t.o.val[theta], bconst(9001, 64), bconst(0, 1)}
	v := t.s.call(f, in, nil, t.s.tm)
	tt := t.s.tm.of(f.Signature.Results().At(0).Type())
	_, ft := t.c.ref(v, tt, "entries")
	et := t.s.tm.of(ft.Underlying().(*types.Slice).Elem())
	sl, ok := t.c.getf(v, tt, "entries").(bslice)
	if !ok {
		t.s.stop("undecided", "the slots of the table are unknown", nil)
	}
	for i := 0; i < sl.len; i++ {
		if h, ok := at[i]; ok {
			t.o.fact(h, theta, true)
			sl.o.cells[sl.off+i] = bmem(t.entry(et, h))
		}
	}
	t.c.setf(v, tt, "numEntries", bconst(uint64(len(at)), 32))
	return v, tt
}

type thetaResult struct {
	hs      []int
	theta   int
	ordered bool
	empty   bool
	bad     string
}

// read takes a sketch or table apart.
func (t *thetaRun) read(v bval, tt types.Type) thetaResult {
	if i, ok := v.(biface); ok {
		v, tt = i.v, i.t
	}
	var r thetaResult
	sl, ok := t.c.getf(v, tt, "entries").(bslice)
	_, ft := t.c.ref(v, tt, "entries")
	et := t.s.tm.of(ft.Underlying().(*types.Slice).Elem())
	if _, isNil := t.c.getf(v, tt, "entries").(bnil); !ok && !isNil {
		r.bad = "undecided: the entries are unknown"
		return r
	}
	count, _ := t.c.ref(v, tt, "numEntries")
	for i := 0; i < sl.len; i++ {
		x := sl.o.cells[sl.off+i]
		h := x
		var sum bval
		var st types.Type
		if o, ok := x.(*bObj); ok {
			h = t.c.getf(o, et, "Hash")
			var sp *bval
			sp, st = t.c.ref(o, et, "Summary")
			sum = *sp
		}
		id, ok := t.o.of(h)
		if !ok {
			r.bad = "a stored hash is none of the hashes given"
			return r
		}
		if id == t.o.zero {
			if count == nil {
				r.bad = "a zero hash is among the entries"
				return r
			}
			continue
		}
		if sum != nil {
			if _, isNil := sum.(bnil); isNil {
				r.bad = "an entry has no summary"
				return r
			}
			if g := t.tagOf(sum, st); g != fmt.Sprint(t.tag[id]) {
				r.bad = fmt.Sprintf("hash %s carries the summary %s", t.o.name[id], g)
				return r
			}
		}
		r.hs = append(r.hs, id)
	}
	if count != nil {
		if n := t.c.num(*count, "the count"); int(n) != len(r.hs) {
			r.bad = fmt.Sprintf("%d entries are stored but %d are counted", len(r.hs), n)
			return r
		}
	}
	th, ok := t.o.of(t.c.getf(v, tt, "theta"))
	if !ok {
		r.bad = "the threshold is none of the inputs' thresholds or hashes"
		return r
	}
	r.theta = th
	flag := func(name string) bool {
		p, _ := t.c.ref(v, tt, name)
		return p != nil && t.c.num(*p, name)&1 == 1
	}
	r.ordered, r.empty = flag("isOrdered"), flag("isEmpty")
	return r
}

// judge compares a result with the set it should hold.
func (t *thetaRun) judge(r thetaResult, want []int, thetas []int, k int) string {
	if r.bad != "" {
		return r.bad
	}
	nm := func(i int) string { return t.o.name[i] }
	if r.theta == t.o.zero {
		return "the threshold is zero"
	}
	if r.empty && len(r.hs) > 0 {
		return "the result holds hashes but is marked empty"
	}
	if r.empty && t.o.less(r.theta, t.o.max) {
		return "the result is marked empty although its threshold is below the maximum"
	}
	low := true // below every input threshold
	for _, x := range thetas {
		if t.o.less(x, r.theta) {
			return fmt.Sprintf("the threshold %s is above %s of an input", nm(r.theta), nm(x))
		}
		if t.o.equal(x, r.theta) {
			low = false
		}
	}
	if len(thetas) > 0 && low && (k < 0 || len(r.hs) != k) {
		return fmt.Sprintf("the threshold %s is below those of the inputs although only %d hashes are kept", nm(r.theta), len(r.hs))
	}
	have := map[int]bool{}
	for i, h := range r.hs {
		if have[h] {
			return fmt.Sprintf("hash %s is kept twice", nm(h))
		}
		have[h] = true
		if !t.o.less(h, r.theta) {
			return fmt.Sprintf("hash %s is kept although it is not below the threshold %s", nm(h), nm(r.theta))
		}
		if r.ordered && i > 0 && !t.o.less(r.hs[i-1], h) {
			return "the result is marked ordered but is not"
		}
	}
	ok := map[int]bool{}
	for _, h := range want {
		ok[h] = true
		if !have[h] && t.o.less(h, r.theta) {
			return fmt.Sprintf("hash %s is below the threshold %s but was dropped", nm(h), nm(r.theta))
		}
	}
	for h := range have {
		if !ok[h] {
			return fmt.Sprintf("hash %s does not belong to the result", nm(h))
		}
	}
	return ""
}

func (t *thetaRun) thetaSym(name string) int { // at most the maximum, above zero
	n := t.o.sym(name, 0, 0)
	t.o.fact(t.o.zero, n, true)
	return n
}

func pick(hs []int, idx ...int) (out []int) {
	for _, i := range idx {
		out = append(out, hs[i])
	}
	return
}

func unionOf(ls ...[]int) (out []int) {
	m := map[int]bool{}
	for _, l := range ls {
		for _, h := range l {
			if !m[h] {
				m[h] = true
				out = append(out, h)
			}
		}
	}
	return
}

func (t *thetaRun) run(rule, name, pos string, n int, spread uint64, body func() string) {
	t.start()
	if t.sketT == nil {
		t.r.undecided(rule, t.kind+" "+name, pos, "the compact sketch no longer exists")
		return
	}
	t.decide(rule, t.kind+" "+name, pos, func() string {
		t.begin(n, func(i int) uint64 { return uint64(i) * spread })
		return body()
	})
}

// must stops a path on which an operation that should work reports an error.
func (t *thetaRun) must(v bval, what string) bval {
	tu, ok := v.(btuple)
	if e := errOf(v); e == 1 || ok && len(tu) > 0 && e != 0 {
		t.s.stop("violated", what+" fails", nil)
	}
	if tu, ok := v.(btuple); ok && len(tu) > 0 {
		return tu[0]
	}
	return v
}

func (t *thetaRun) make(name string, args ...any) (bval, types.Type) {
	f, _ := t.fnOf(name)
	if f == nil {
		t.s.stop("undecided", name+" no longer exists", nil)
	}
	var in []bval
	n := 0
	for _, p := range f.Params {
		pt := t.s.tm.of(p.Type())
		switch u := pt.Underlying().(type) {
		case *types.Slice:
			in = append(in, bslice{&bObj{name: "options"}, 0, 0, 0})
		case *types.Interface:
			if n < len(args) {
				in = append(in, args[n].(bval))
				n++
			} else {
				in = append(in, t.pol)
			}
		case *types.Signature:
			in = append(in, bfunc{hook: func(a []bval) bval { return t.callback(u, a) }})
		case *types.Basic:
			switch {
			case n < len(args) && u.Info()&types.IsBoolean != 0:
				in = append(in, args[n].(bval))
				n++
			case u.Kind() == types.Uint8: // values per summary
				in = append(in, bconst(1, 8))
			default:
				in = append(in, bconst(9001, intWidth(u)))
			}
		default:
			if n < len(args) {
				in = append(in, args[n].(bval))
				n++
			} else {
				in = append(in, t.summary(pt, 0))
			}
		}
	}
	return t.s.call(f, in, nil, t.s.tm), t.s.tm.of(f.Signature.Results().At(0).Type())
}

// callback models a function given by the user: a summary factory, a filter or an update.
func (t *thetaRun) callback(sg *types.Signature, a []bval) bval {
	if sg.Results().Len() == 1 {
		rt := t.s.tm.of(sg.Results().At(0).Type())
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return bbool(t.keeps(t.tagOf(a[0], t.s.tm.of(sg.Params().At(0).Type()))))
		}
		if len(a) == 0 {
			return t.summary(rt, 99)
		}
		return a[0]
	}
	return btuple{}
}

func (t *thetaRun) keeps(tag string) bool { return tag == "0" || tag == "2" }

type sketchSpec struct {
	idx     []int
	ordered bool
}

func (t *thetaRun) cases() {
	nm := thetaNames[t.kind]
	pos := func(n string) string { _, p := t.fnOf(n); return p }
	shapes := [][]sketchSpec{
		{{[]int{0, 1}, false}, {[]int{1, 2}, false}},
		{{[]int{0, 1}, true}, {[]int{1, 2}, true}},
		{{[]int{0, 1}, true}, {[]int{1, 2}, false}},
		{{[]int{0}, true}, {[]int{1}, true}, {[]int{0, 2}, false}},
		{{[]int{0, 1, 2}, true}, {[]int{1}, true}},
		{{[]int{0}, true}, {[]int{1, 0, 2}, false}},
		{{nil, true}, {[]int{0, 1}, true}},
		{{[]int{0, 1}, false}, {nil, true}},
	}
	// union
	for lgNom := 0; lgNom <= 2; lgNom++ {
		for i, sh := range shapes {
			for _, spread := range []uint64{0, 1} {
				if lgNom == 2 && spread == 1 || lgNom == 0 && spread == 1 {
					continue
				}
				ord := i%2 == 0
				name := fmt.Sprintf("union k=%d shape %d collisions %v", 1<<lgNom, i, spread == 0)
				t.run("result", name, pos(nm.uUpdate), 3, spread, func() string {
					u, ut := t.make(nm.union)
					u = t.must(u, "the constructor")
					start := t.thetaSym("p")
					tab, _ := t.table(lgNom+1, lgNom, start, nil)
					t.c.setf(u, ut, "hashtable", tab)
					t.c.setf(u, ut, "theta", t.o.val[start])
					hb, ht := t.c.ref(u, ut, "hashtable")
					t.c.setf(*hb, ht, "isEmpty", bconst(1, 1))
					thetas := []int{start}
					var all []int
					for j, sp := range sh {
						th := t.thetaSym(fmt.Sprintf("theta%d", j))
						hs := pick(t.hash, sp.idx...)
						all = unionOf(all, hs)
						thetas = append(thetas, th)
						sk := t.sketch(hs, th, sp.ordered, false)
						t.must(t.c.method(u, ut, "Update", sk), "the update")
					}
					res := t.must(t.c.method(u, ut, "Result", bbool(ord)), "the result")
					return t.judge(t.read(res, types.NewPointer(t.sketT)), all, thetas, 1<<lgNom)
				})
			}
		}
	}
	// intersection
	for i, sh := range shapes {
		if len(sh[0].idx) > 2 && len(sh) > 2 {
			continue
		}
		for _, ord := range []bool{false, true} {
			t.run("result", fmt.Sprintf("intersection shape %d ordered=%v", i, ord), pos(nm.iUpdate), 3, 1, func() string {
				u, ut := t.make(nm.inter)
				u = t.must(u, "the constructor")
				var thetas, common []int
				exact := -1
				for j, sp := range sh {
					th := t.thetaSym(fmt.Sprintf("theta%d", j))
					hs := pick(t.hash, sp.idx...)
					if j == 0 {
						common = hs
					} else {
						var c []int
						for _, h := range common {
							for _, g := range hs {
								if g == h {
									c = append(c, h)
								}
							}
						}
						common = c
					}
					thetas = append(thetas, th)
					if len(common) == 0 && exact < 0 {
						exact = j
					}
					t.must(t.c.method(u, ut, "Update", t.sketch(hs, th, sp.ordered, false)), "the update")
				}
				res := t.must(t.c.method(u, ut, "Result", bbool(ord)), "the result")
				r := t.read(res, types.NewPointer(t.sketT))
				if exact >= 0 && r.empty && len(r.hs) == 0 && r.bad == "" && t.o.equal(r.theta, t.o.max) {
					all := true
					for _, x := range thetas[:exact+1] {
						all = all && t.o.equal(x, t.o.max)
					}
					if all { // known to be empty
						return ""
					}
				}
				return t.judge(r, common, thetas, -1)
			})
		}
	}
	// difference
	for i, sh := range shapes {
		for _, ord := range []bool{false, true} {
			t.run("result", fmt.Sprintf("difference shape %d ordered=%v", i, ord), pos(nm.anotb), 3, 1, func() string {
				ta, tb := t.thetaSym("thetaA"), t.thetaSym("thetaB")
				ha, hb := pick(t.hash, sh[0].idx...), pick(t.hash, sh[1].idx...)
				res, rt := t.make(nm.anotb, t.sketch(ha, ta, sh[0].ordered, false), t.sketch(hb, tb, sh[1].ordered, false), bbool(ord))
				inB := map[int]bool{}
				for _, h := range hb {
					inB[h] = true
				}
				var want []int
				for _, h := range ha {
					if !inB[h] {
						want = append(want, h)
					}
				}
				return t.judge(t.read(t.must(res, "the operation"), rt), want, []int{ta, tb}, -1)
			})
		}
	}
	// compaction
	for _, ord := range []bool{false, true} {
		for _, src := range []bool{false, true} {
			t.run("result", fmt.Sprintf("compact copy ordered=%v of ordered=%v", ord, src), pos(nm.copy), 3, 1, func() string {
				th := t.thetaSym("theta")
				res, rt := t.make(nm.copy, t.sketch(t.hash, th, src, false), bbool(ord))
				return t.judge(t.read(t.must(res, "the copy"), rt), t.hash, []int{th}, -1)
			})
		}
	}
	// an update sketch as source
	source := func(hs []int, th int) bval {
		sk, skT := t.make(nm.sketch)
		at := map[int]int{}
		for i, h := range hs {
			at[1+2*i] = h
		}
		tab, _ := t.table(3, 3, th, at)
		t.c.setf(t.must(sk, "the constructor"), skT, "table", tab)
		if tu, ok := sk.(btuple); ok {
			sk = tu[0]
		}
		return biface{t: skT, v: sk}
	}
	for _, ord := range []bool{false, true} {
		t.run("result", fmt.Sprintf("compact form of an update sketch ordered=%v", ord), pos(nm.copy), 3, 1, func() string {
			th := t.thetaSym("theta")
			res, rt := t.make(nm.copy, source(t.hash, th), bbool(ord))
			return t.judge(t.read(t.must(res, "the copy"), rt), t.hash, []int{th}, -1)
		})
	}
	t.run("result", "union with an update sketch", pos(nm.uUpdate), 3, 1, func() string {
		u, ut := t.make(nm.union)
		u = t.must(u, "the constructor")
		start, th := t.thetaSym("p"), t.thetaSym("theta")
		tab, _ := t.table(2, 1, start, map[int]int{0: t.hash[0]})
		t.c.setf(u, ut, "hashtable", tab)
		t.c.setf(u, ut, "theta", t.o.val[start])
		t.must(t.c.method(u, ut, "Update", source(t.hash, th)), "the update")
		res := t.must(t.c.method(u, ut, "Result", bbool(false)), "the result")
		return t.judge(t.read(res, types.NewPointer(t.sketT)), t.hash, []int{start, th}, 2)
	})
	t.run("result", "intersection of update sketches", pos(nm.iUpdate), 3, 1, func() string {
		u, ut := t.make(nm.inter)
		ta, tb := t.thetaSym("thetaA"), t.thetaSym("thetaB")
		t.must(t.c.method(u, ut, "Update", source(pick(t.hash, 0, 1), ta)), "the update")
		t.must(t.c.method(u, ut, "Update", source(pick(t.hash, 1, 2), tb)), "the update")
		res := t.must(t.c.method(u, ut, "Result", bbool(true)), "the result")
		return t.judge(t.read(res, types.NewPointer(t.sketT)), pick(t.hash, 1), []int{ta, tb}, -1)
	})
	t.run("result", "difference of update sketches", pos(nm.anotb), 3, 1, func() string {
		ta, tb := t.thetaSym("thetaA"), t.thetaSym("thetaB")
		res, rt := t.make(nm.anotb, source(pick(t.hash, 0, 1), ta), source(pick(t.hash, 1, 2), tb), bbool(true))
		return t.judge(t.read(t.must(res, "the operation"), rt), pick(t.hash, 0), []int{ta, tb}, -1)
	})
	t.run("result", "difference with an empty sketch", pos(nm.anotb), 3, 1, func() string {
		ta := t.thetaSym("thetaA")
		res, rt := t.make(nm.anotb, t.sketch(t.hash, ta, false, false), t.sketch(nil, t.o.max, true, true), bbool(true))
		return t.judge(t.read(t.must(res, "the operation"), rt), t.hash, []int{ta}, -1)
	})
	t.run("result", "union with an empty sketch", pos(nm.uUpdate), 3, 1, func() string {
		u, ut := t.make(nm.union)
		u = t.must(u, "the constructor")
		th := t.thetaSym("theta")
		t.must(t.c.method(u, ut, "Update", t.sketch(nil, t.o.max, true, true)), "the update")
		t.must(t.c.method(u, ut, "Update", t.sketch(t.hash, th, false, false)), "the update")
		t.must(t.c.method(u, ut, "Update", t.sketch(nil, t.o.max, true, true)), "the update")
		res := t.must(t.c.method(u, ut, "Result", bbool(true)), "the result")
		return t.judge(t.read(res, types.NewPointer(t.sketT)), t.hash, []int{th}, -1)
	})
	t.run("result", "intersection with an empty sketch", pos(nm.iUpdate), 3, 1, func() string {
		u, ut := t.make(nm.inter)
		th := t.thetaSym("theta")
		t.must(t.c.method(u, ut, "Update", t.sketch(t.hash, th, false, false)), "the update")
		t.must(t.c.method(u, ut, "Update", t.sketch(nil, t.o.max, true, true)), "the update")
		res := t.must(t.c.method(u, ut, "Result", bbool(true)), "the result")
		r := t.read(res, types.NewPointer(t.sketT))
		if r.bad == "" && !(r.empty && len(r.hs) == 0 && t.o.equal(r.theta, t.o.max)) {
			return "the intersection with an empty set is not the empty set"
		}
		return r.bad
	})
	if t.kind == "tuple" {
		for _, src := range []bool{false, true} {
			t.run("result", fmt.Sprintf("filter of ordered=%v", src), pos("tuple.(CompactSketch).Filter"), 3, 1, func() string {
				th := t.thetaSym("theta")
				in := t.sketch(t.hash, th, src, false).(biface)
				res := t.must(t.c.method(in.v, in.t, "Filter", bfunc{hook: func(a []bval) bval {
					return bbool(t.keeps(t.tagOf(a[0], t.p.ptrTo("tuple", "ArrayOfStringsSummary"))))
				}}), "the filter")
				return t.judge(t.read(res, in.t), pick(t.hash, 0, 2), []int{th}, -1)
			})
		}
		thetaSketch := func(hs []int, th int, ordered bool) bval {
			k, st := t.kind, t.sketT
			defer func() { t.kind, t.sketT = k, st }()
			t.kind, t.sketT = "theta", t.p.SPkgs["theta"].Type("CompactSketch").Type()
			return t.sketch(hs, th, ordered, false)
		}
		for i, sh := range shapes {
			t.run("result", fmt.Sprintf("difference from a theta sketch shape %d", i), pos("tuple.TupleANotThetaB"), 3, 1, func() string {
				ta, tb := t.thetaSym("thetaA"), t.thetaSym("thetaB")
				ha, hb := pick(t.hash, sh[0].idx...), pick(t.hash, sh[1].idx...)
				res, rt := t.make("tuple.TupleANotThetaB", t.sketch(ha, ta, sh[0].ordered, false), thetaSketch(hb, tb, sh[1].ordered), bbool(i%2 == 0))
				inB := map[int]bool{}
				for _, h := range hb {
					inB[h] = true
				}
				var want []int
				for _, h := range ha {
					if !inB[h] {
						want = append(want, h)
					}
				}
				return t.judge(t.read(t.must(res, "the operation"), rt), want, []int{ta, tb}, -1)
			})
		}
		for _, ord := range []bool{false, true} {
			t.run("result", fmt.Sprintf("tuple sketch from a theta sketch ordered=%v", ord), pos("tuple.NewCompactSketchFromThetaSketch"), 3, 1, func() string {
				th := t.thetaSym("theta")
				for _, h := range t.hash {
					t.tag[h] = 7
				}
				res, rt := t.make("tuple.NewCompactSketchFromThetaSketch", thetaSketch(t.hash, th, !ord), t.summary(t.p.ptrTo("tuple", "ArrayOfStringsSummary"), 7), bbool(ord))
				return t.judge(t.read(t.must(res, "the conversion"), rt), t.hash, []int{th}, -1)
			})
		}
	}
	t.rebuilds(nm)
	t.updates(nm)
}

// rebuilds: insertion into a full table and trimming.
func (t *thetaRun) rebuilds(nm thetaFns) {
	base := strings.TrimSuffix(nm.table, "newHashtable")
	tt := base + "(hashtable)."
	if t.kind == "theta" {
		tt = "theta.(Hashtable)."
	}
	if t.kind == "numbers" {
		return // the same table
	}
	ins, ipos := t.fnOf(tt + "Insert")
	trim, tpos := t.fnOf(tt + "Trim")
	if ins == nil || trim == nil {
		t.r.undecided("rebuild", t.kind, "", "the insertion or trimming no longer exists")
		return
	}
	for lgNom := 0; lgNom <= 2; lgNom++ {
		size := 2 << lgNom
		full := size * 15 / 16
		if full == size {
			full--
		}
		for gap := 0; gap < size; gap++ {
			n := full + 1
			if lgNom == 2 && gap != 3 && gap != 0 { // the positions are alike
				continue
			}
			t.run("rebuild", fmt.Sprintf("insertion, k=%d, last slot %d", 1<<lgNom, gap), ipos, n, 1, func() string {
				th := t.thetaSym("theta")
				at := map[int]int{}
				j := 0
				for i := 0; i < size && j < full; i++ {
					if i != gap {
						at[i] = t.hash[j]
						j++
					}
				}
				last := t.hash[n-1]
				t.o.fact(last, th, true)
				v, vt := t.table(lgNom+1, lgNom, th, at)
				_, ft := t.c.ref(v, vt, "entries")
				e := t.entry(t.s.tm.of(ft.Underlying().(*types.Slice).Elem()), last)
				t.s.call(ins, []bval{v, bconst(uint64(gap), 64), bcopy(e)}, nil, t.s.tm)
				return t.judge(t.read(v, vt), t.hash, []int{th}, 1<<lgNom)
			})
			if full < 1<<lgNom {
				continue
			}
			t.run("rebuild", fmt.Sprintf("trimming, k=%d, free slot %d", 1<<lgNom, gap), tpos, full, 1, func() string {
				th := t.thetaSym("theta")
				at := map[int]int{}
				j := 0
				for i := 0; i < size && j < full; i++ {
					if i != gap {
						at[i] = t.hash[j]
						j++
					}
				}
				v, vt := t.table(lgNom+1, lgNom, th, at)
				t.s.call(trim, []bval{v}, nil, t.s.tm)
				return t.judge(t.read(v, vt), t.hash, []int{th}, 1<<lgNom)
			})
		}
	}
	// growth
	for lgCur := 1; lgCur <= 3; lgCur++ {
		n := 1<<lgCur/2 + 1
		t.run("rebuild", fmt.Sprintf("growth from %d slots", 1<<lgCur), ipos, n, 1, func() string {
			th := t.thetaSym("theta")
			at := map[int]int{}
			for i := 0; i < n-1; i++ {
				at[i] = t.hash[i]
			}
			last := t.hash[n-1]
			t.o.fact(last, th, true)
			v, vt := t.table(lgCur, 5, th, at)
			_, ft := t.c.ref(v, vt, "entries")
			e := t.entry(t.s.tm.of(ft.Underlying().(*types.Slice).Elem()), last)
			t.s.call(ins, []bval{v, bconst(uint64(n-1), 64), bcopy(e)}, nil, t.s.tm)
			return t.judge(t.read(v, vt), t.hash, []int{th}, -1)
		})
	}
}

// updates: every update function of the sketch, with a hash that may be anything.
func (t *thetaRun) updates(nm thetaFns) {
	mk, _ := t.fnOf(nm.sketch)
	if mk == nil {
		t.r.undecided("update", t.kind, "", "the update sketch no longer exists")
		return
	}
	t.start()
	rt := t.s.tm.of(mk.Signature.Results().At(0).Type())
	ms := t.p.SSA.MethodSets.MethodSet(rt)
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		if !strings.HasPrefix(name, "Update") {
			continue
		}
		f := t.p.lookup(rt, name)
		t.run("update", name, t.p.Pos(f.Pos()), 1, 1, func() string {
			th := t.thetaSym("theta")
			old := t.hash[0]
			nw := t.o.sym("new", 0, 20)
			t.tag[nw] = 99
			sk, skT := t.make(nm.sketch)
			sk = t.must(sk, "the constructor")
			tab, _ := t.table(3, 3, th, map[int]int{0: old})
			t.c.setf(sk, skT, "table", tab)
			g := f
			in := []bval{sk}
			sig := f.Signature
			for j := 0; j < sig.Params().Len(); j++ {
				pt := t.s.tm.of(sig.Params().At(j).Type())
				switch u := pt.Underlying().(type) {
				case *types.Slice:
					if intWidth(u.Elem()) == 8 || j > 0 {
						c := []bval{bconst(5, 8)}
						if j > 0 {
							c = []bval{t.s.zero(u.Elem())}
							if b, ok := c[0].(*bv); ok {
								c[0] = bconst(99, b.w)
							} else if _, ok := c[0].(bstr); ok {
								c[0] = bstr{s: "99"}
							}
						}
						in = append(in, bslice{&bObj{cells: c}, 0, 1, 1})
						continue
					}
					in = append(in, bslice{&bObj{}, 0, 0, 0})
				case *types.Basic:
					switch {
					case u.Info()&types.IsString != 0:
						in = append(in, bstr{s: "x"})
					case isFloat(u):
						in = append(in, fconst(1.5))
					default:
						in = append(in, bconst(5, intWidth(u)))
					}
				default:
					in = append(in, t.s.zero(pt))
				}
			}
			res := t.s.call(g, in, nil, t.s.tm)
			if t.o.equal(nw, old) {
				t.tag[old] = 99
			}
			tp, tt := t.c.ref(sk, skT, "table")
			r := t.read(*tp, tt)
			want := []int{old}
			stored := false
			if r.bad == "" {
				for _, h := range r.hs {
					stored = stored || h == nw
				}
			}
			if t.o.equal(nw, t.o.zero) {
				if stored {
					return "a zero hash is stored"
				}
			} else if t.o.less(nw, th) {
				want = append(want, nw)
				if errOf(res) != 0 && !t.o.equal(nw, old) {
					return "a hash below the threshold is refused"
				}
			} else if stored {
				return "a hash that is not below the threshold is stored"
			}
			if t.o.equal(nw, old) {
				want = []int{old}
			}
			return t.judge(r, want, []int{th}, -1)
		})
	}
}
