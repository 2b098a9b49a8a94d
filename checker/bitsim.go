package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bitsim is a dataflow analysis over a bit-provenance lattice: every integer is a vector of bits, each
// bit being 0, 1, "bit j of source i" or unknown. Control and addresses are followed by constant
// propagation only; a branch or an index that depends on a source ends the analysis as undecided.

const (
	bZero int32 = 0
	bOne  int32 = 1
	bTop  int32 = 2
	bBase int32 = 3
)

type bv struct {
	w int
	b [64]int32
}

type bObj struct {
	cells []bval
	name  string
	sym   func(idx *bv) bval // answers a read at an index that is not constant

	sparse map[int]*bObj // set: a large array of which only the cells used exist, each in an object of its own
	zero   func() bval
}

// cell is the address of a cell.
func (o *bObj) cell(i int) bptr {
	if o.sparse == nil {
		return bptr{o, i}
	}
	c := o.sparse[i]
	if c == nil {
		c = &bObj{cells: []bval{o.zero()}, name: o.name}
		o.sparse[i] = c
	}
	return bptr{c, 0}
}

// at is a copy of the content of a cell.
func (o *bObj) at(i int) bval {
	p := o.cell(i)
	return bcopy(p.o.cells[p.i])
}

type bval any

type (
	bslice struct {
		o             *bObj
		off, len, cap int
	}
	bptr struct {
		o *bObj
		i int
	}
	bagg  struct{ f []bval }
	bfunc struct {
		fn   *ssa.Function
		free []bval
		tm   tmap
		hook func(in []bval) bval
	}
	biface struct {
		t    types.Type
		v    bval
		hook func(name string, in []bval) (bval, bool)
	}
	bnil   struct{}
	btuple []bval
	bunk   struct{ why string }
	bstr   struct {
		s string
		b *[]*bv // bytes of a string that is not constant
	}
)

type bsrc struct {
	name string
	v    bv
	lin  map[int]uint64
}

type bitsim struct {
	p     *Prog
	srcs  []bsrc
	byLin map[string]int
	steps int
	glob  map[*ssa.Global]*bObj
	calls map[*ssa.Function]int
	depth int
	model func(fn *ssa.Function, in []bval) (bval, bool)
	sites int
	note  func(in ssa.Instruction)

	huge    bool                   // large arrays are made of the cells used
	zeros   [65]*bv                // used where huge
	lossy   bool                   // a branch was taken whose condition is not known to hold with the others
	made    func(o *bObj, n int64) // told of every array made
	special bool                   // infinities and NaN are numbers

	ivs      map[string]ival // ranges of the numbers that are atoms of expressions (fl.go)
	opq      map[string]string
	opqArg   map[string][]poly
	conds    map[*bv]fcond
	fork     *forkState
	load     func(o *bObj, i int, in ssa.Instruction) // told of every element read through an index
	pin      map[int32]int32                          // bits whose value a branch has settled
	eqs      map[*bv]bitEq                            // comparisons of vectors left open
	onFork   func(in ssa.Instruction, b bool)
	maxSteps int
	neg      map[int32]int32 // bits that are the opposite of each other
	fbits    map[string]int  // numbers whose representation was asked for
	fsrc     map[string]*bv  // and the representations numbers were made from
	fback    map[int]poly
	ord      *ordDom
	vn       *vnum       // set: see vn.go
	tm       tmap        // the types a generic entry point is analysed with
	trail    []*ssa.Call // being followed
}

// bitEq remembers what an unknown truth value compares, so that taking a branch settles the bits.
type bitEq struct {
	a, b *bv
	eq   bool
}

type bstop struct {
	kind string // "undecided", "panic"
	msg  string
	pos  token.Pos
	at   token.Pos // the closest position in the code analysed
	fn   *ssa.Function
}

func newBitsim(p *Prog) *bitsim {
	return &bitsim{p: p, srcs: []bsrc{{name: "1"}}, byLin: map[string]int{}, glob: map[*ssa.Global]*bObj{}, calls: map[*ssa.Function]int{},
		ivs: map[string]ival{}, opq: map[string]string{}, opqArg: map[string][]poly{}, conds: map[*bv]fcond{}}
}

func bconst(v uint64, w int) *bv {
	r := &bv{w: w}
	for i := 0; i < w; i++ {
		r.b[i] = int32(v >> uint(i) & 1)
	}
	return r
}

func (v *bv) konst() (uint64, bool) {
	var r uint64
	for i := 0; i < v.w; i++ {
		switch v.b[i] {
		case bOne:
			r |= 1 << uint(i)
		case bZero:
		default:
			return 0, false
		}
	}
	return r, true
}

func (v *bv) sval() (int64, bool) {
	k, ok := v.konst()
	if !ok {
		return 0, false
	}
	sh := uint(64 - v.w)
	return int64(k<<sh) >> sh, true
}

func (v *bv) bounds() (lo, hi uint64) {
	for i := 0; i < v.w; i++ {
		switch v.b[i] {
		case bOne:
			lo |= 1 << uint(i)
			hi |= 1 << uint(i)
		case bZero:
		default:
			hi |= 1 << uint(i)
		}
	}
	return
}

// source makes a fresh input value of the given width whose bits at and above n are zero.
func (s *bitsim) source(name string, w, n int) *bv {
	id := len(s.srcs)
	v := bv{w: w}
	for i := 0; i < n; i++ {
		v.b[i] = bBase + int32(id*64+i)
	}
	s.srcs = append(s.srcs, bsrc{name: name, v: v})
	r := v
	return &r
}

func (s *bitsim) bitName(b int32) string {
	switch b {
	case bZero:
		return "0"
	case bOne:
		return "1"
	case bTop:
		return "unknown"
	}
	b -= bBase
	return fmt.Sprintf("bit %d of %s", b%64, s.srcs[b/64].name)
}

func (s *bitsim) lin(v *bv) (map[int]uint64, bool) {
	if k, ok := v.konst(); ok {
		if k == 0 {
			return map[int]uint64{}, true
		}
		return map[int]uint64{0: k}, true
	}
	id := -1
	for i := 0; i < v.w; i++ {
		if v.b[i] >= bBase {
			id = int(v.b[i]-bBase) / 64
			break
		}
	}
	if id < 0 || s.srcs[id].v != *v {
		return nil, false
	}
	if l := s.srcs[id].lin; l != nil {
		return l, true
	}
	return map[int]uint64{id: 1}, true
}

// ripple adds bit by bit; nil when some bit of the result is not a plain bit.
func ripple(a, b *bv, sub bool) *bv {
	r := &bv{w: a.w}
	c := bZero
	if sub {
		c = bOne
	}
	for i := 0; i < a.w; i++ {
		x, y := a.b[i], b.b[i]
		if sub {
			switch y {
			case bZero:
				y = bOne
			case bOne:
				y = bZero
			default:
				return nil
			}
		}
		if x == bTop || y == bTop {
			return nil
		}
		odd := false
		rest := bZero
		for _, z := range [3]int32{x, y, c} {
			switch {
			case z == bOne:
				odd = !odd
			case z == bZero:
			case rest == bZero:
				rest = z
			case rest == z:
				rest = bZero
			default:
				return nil
			}
		}
		switch {
		case rest == bZero && odd:
			r.b[i] = bOne
		case !odd:
			r.b[i] = rest
		default:
			return nil
		}
		switch {
		case x == y || x == c:
			c = x
		case y == c:
			c = y
		case x == bZero && y == bOne || x == bOne && y == bZero:
		case x == bZero && c == bOne || x == bOne && c == bZero:
			c = y
		case y == bZero && c == bOne || y == bOne && c == bZero:
			c = x
		default:
			return nil
		}
	}
	return r
}

func (s *bitsim) addsub(a, b *bv, sign uint64) *bv {
	top := &bv{w: a.w}
	for i := 0; i < a.w; i++ {
		top.b[i] = bTop
	}
	if sign == 1 {
		dis := true
		or := &bv{w: a.w}
		for i := 0; i < a.w; i++ {
			if a.b[i] != bZero && b.b[i] != bZero {
				dis = false
				break
			}
			or.b[i] = a.b[i] | b.b[i]
		}
		if dis {
			return or
		}
	}
	if sign != 1 { // what is taken away is part of a
		part := true
		rest := &bv{w: a.w}
		for i := 0; i < a.w && part; i++ {
			switch {
			case b.b[i] == bZero:
				rest.b[i] = a.b[i]
			case b.b[i] == a.b[i] && a.b[i] != bTop:
				rest.b[i] = bZero
			default:
				part = false
			}
		}
		if part {
			return rest
		}
	}
	if x, ok := a.konst(); ok {
		if y, ok := b.konst(); ok {
			return bconst(x+sign*y, a.w)
		}
	}
	if y, ok := b.konst(); ok && y == 0 {
		r := *a
		return &r
	}
	if r := ripple(a, b, sign != 1); r != nil {
		return r
	}
	if a.w != 64 {
		return top
	}
	la, ok1 := s.lin(a)
	lb, ok2 := s.lin(b)
	if !ok1 || !ok2 {
		al, ah := a.span()
		bl, bh := b.span()
		if ah < 1<<62 && bh < 1<<62 {
			if sign == 1 {
				return within(top, int64(al+bl), int64(ah+bh))
			}
			return within(top, int64(al)-int64(bh), int64(ah)-int64(bl))
		}
		return top
	}
	m := map[int]uint64{}
	for k, c := range la {
		m[k] = c
	}
	for k, c := range lb {
		m[k] += sign * c
		if m[k] == 0 {
			delete(m, k)
		}
	}
	return s.ofLin(m)
}

// span bounds an unsigned value by its known bits.
func (v *bv) span() (lo, hi uint64) {
	for i := 0; i < v.w; i++ {
		if v.b[i] == bOne {
			lo |= 1 << uint(i)
		}
		if v.b[i] != bZero {
			hi |= 1 << uint(i)
		}
	}
	return
}

// within fixes the leading bits that all values from lo to hi share.
func within(v *bv, lo, hi int64) *bv {
	r := *v
	for i := 63; i >= 0 && uint64(lo)>>uint(i) == uint64(hi)>>uint(i); i-- {
		r.b[i] = int32(uint64(lo) >> uint(i) & 1)
	}
	return &r
}

// ofLin is the value of a linear combination of sources.
func (s *bitsim) ofLin(m map[int]uint64) *bv {
	if len(m) == 0 {
		return bconst(0, 64)
	}
	if len(m) == 1 {
		for k, c := range m {
			if k == 0 {
				return bconst(c, 64)
			}
			if c == 1 {
				r := s.srcs[k].v
				return &r
			}
		}
	}
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	key, name := "", ""
	for _, k := range ks {
		key += fmt.Sprint(k, "*", m[k], " ")
		name += fmt.Sprint("+", int64(m[k]), "*", s.srcs[k].name)
	}
	if id, ok := s.byLin[key]; ok {
		r := s.srcs[id].v
		return &r
	}
	id := len(s.srcs)
	r := s.source(name, 64, 64)
	s.srcs[id].lin = m
	s.byLin[key] = id
	return r
}

// difference declares that a-b has no bits at and above n.
func (s *bitsim) difference(a, b *bv, n int) *bv {
	r := s.addsub(a, b, ^uint64(0))
	id := int(r.b[0]-bBase) / 64
	for i := n; i < 64; i++ {
		s.srcs[id].v.b[i] = bZero
	}
	v := s.srcs[id].v
	return &v
}

// limit declares that v has no bits at and above n.
func (s *bitsim) limit(v *bv, n int) *bv {
	id := -1
	for i := 0; i < v.w; i++ {
		if v.b[i] >= bBase {
			id = int(v.b[i]-bBase) / 64
			break
		}
	}
	if id < 0 || s.srcs[id].v != *v {
		return v
	}
	for i := n; i < 64; i++ {
		s.srcs[id].v.b[i] = bZero
	}
	r := s.srcs[id].v
	return &r
}

func (s *bitsim) stop(kind, msg string, in ssa.Instruction) {
	st := bstop{kind: kind, msg: msg}
	if in != nil {
		st.fn = in.Parent()
		st.pos = in.Pos()
		if st.pos == token.NoPos {
			for _, o := range in.Operands(nil) {
				if *o != nil && (*o).Pos() != token.NoPos {
					st.pos = (*o).Pos()
					break
				}
			}
		}
	}
	st.at = st.pos
	for i := len(s.trail) - 1; i >= 0 && !s.p.own(st.at); i-- {
		st.at = s.trail[i].Pos()
	}
	panic(st)
}

// run interprets fn; a stop is returned instead of a result.
func (s *bitsim) run(fn *ssa.Function, in []bval) (res bval, st *bstop) {
	n := len(s.trail)
	defer func() {
		s.trail = s.trail[:n]
		if e := recover(); e != nil {
			if b, ok := e.(bstop); ok {
				st = &b
				return
			}
			panic(e)
		}
	}()
	s.steps = 0
	s.depth = 0
	return s.call(fn, in, nil, s.tm), nil
}

func (s *bitsim) zero(t types.Type) bval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w := intWidth(u); w > 0 {
			if s.huge { // one for all
				if s.zeros[w] == nil {
					s.zeros[w] = bconst(0, w)
				}
				return s.zeros[w]
			}
			return bconst(0, w)
		}
		if u.Info()&types.IsString != 0 {
			return bstr{}
		}
		if isFloat(u) {
			return bflt{poly{}}
		}
		return bunk{"complex"}
	case *types.Struct:
		o := &bObj{name: "struct"}
		for i := 0; i < u.NumFields(); i++ {
			o.cells = append(o.cells, s.zero(u.Field(i).Type()))
		}
		return o
	case *types.Array:
		o := &bObj{name: "array"}
		for i := int64(0); i < u.Len(); i++ {
			o.cells = append(o.cells, s.zero(u.Elem()))
		}
		return o
	}
	return bnil{}
}

func intWidth(t types.Type) int {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch u.Kind() {
	case types.Bool, types.UntypedBool:
		return 1
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func isUns(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsUnsigned != 0
}

func bcopy(v bval) bval { // memory form -> value form
	if o, ok := v.(*bObj); ok {
		a := bagg{}
		for _, c := range o.cells {
			a.f = append(a.f, bcopy(c))
		}
		return a
	}
	return v
}

func bmem(v bval) bval { // value form -> memory form
	if a, ok := v.(bagg); ok {
		o := &bObj{}
		for _, c := range a.f {
			o.cells = append(o.cells, bmem(c))
		}
		return o
	}
	return v
}

// dense refuses to walk through the whole of a large array.
func (s *bitsim) dense(y bslice, in ssa.Instruction) {
	if y.o.sparse != nil && y.len > 1<<18 {
		s.stop("undecided", "a large array is read as a whole", in)
	}
}

func (s *bitsim) store(p bptr, v bval) {
	if dst, ok := p.o.cells[p.i].(*bObj); ok {
		if a, ok := v.(bagg); ok && len(a.f) == len(dst.cells) {
			for i, c := range a.f {
				s.store(bptr{dst, i}, c)
			}
			return
		}
	}
	p.o.cells[p.i] = bmem(v)
}

func (s *bitsim) konstVal(c *ssa.Const, t types.Type) bval {
	if c.Value == nil {
		return bcopy(s.zero(t))
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return bconst(1, 1)
		}
		return bconst(0, 1)
	case constant.String:
		return bstr{s: constant.StringVal(c.Value)}
	}
	if v, ok := floatConst(c.Value, t); ok {
		return v
	}
	if w := intWidth(t); w > 0 {
		v := constant.ToInt(c.Value)
		if x, ok := constant.Uint64Val(v); ok {
			return bconst(x, w)
		}
		if x, ok := constant.Int64Val(v); ok {
			return bconst(uint64(x), w)
		}
	}
	return bunk{"constant " + c.String()}
}

func (s *bitsim) fromConst(v cval, t types.Type) bval {
	switch x := v.(type) {
	case constant.Value:
		if v, ok := floatConst(x, t); ok {
			return v
		}
		if w := intWidth(t); w > 0 {
			if x.Kind() == constant.Bool {
				if constant.BoolVal(x) {
					return bconst(1, 1)
				}
				return bconst(0, 1)
			}
			i := constant.ToInt(x)
			if u, ok := constant.Uint64Val(i); ok {
				return bconst(u, w)
			}
			if u, ok := constant.Int64Val(i); ok {
				return bconst(uint64(u), w)
			}
		}
		if x.Kind() == constant.String {
			return bstr{s: constant.StringVal(x)}
		}
	case *ssa.Function:
		return bfunc{fn: x}
	case cslice:
		if st, ok := t.Underlying().(*types.Slice); ok {
			o := &bObj{name: x.o.name}
			c := s.p.Consts()
			for i := x.lo; i < x.lo+x.len; i++ {
				o.cells = append(o.cells, s.fromHeap(c, cref{x.o, fmt.Sprintf("[%d]", i)}, st.Elem()))
			}
			return bslice{o, 0, int(x.len), int(x.len)}
		}
	case cref:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			o := &bObj{name: x.o.name, cells: []bval{s.fromHeap(s.p.Consts(), x, pt.Elem())}}
			return bptr{o, 0}
		}
	}
	return bunk{"package variable"}
}

func (s *bitsim) fromHeap(c *Consts, r cref, t types.Type) bval {
	if _, bad := r.o.cell[r.path].(unknownC); bad {
		return bunk{"package variable"}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := &bObj{}
		for i := 0; i < u.NumFields(); i++ {
			o.cells = append(o.cells, s.fromHeap(c, cref{r.o, r.path + fieldComp(t, i)}, u.Field(i).Type()))
		}
		return o
	case *types.Array:
		o := &bObj{}
		for i := int64(0); i < u.Len(); i++ {
			o.cells = append(o.cells, s.fromHeap(c, cref{r.o, fmt.Sprintf("%s[%d]", r.path, i)}, u.Elem()))
		}
		return o
	}
	v := c.load(r, t)
	if v == nil {
		return s.zeroOrUnk(c, r, t)
	}
	return s.fromConst(v, t)
}

func (s *bitsim) zeroOrUnk(c *Consts, r cref, t types.Type) bval {
	if _, ok := r.o.cell[r.path]; ok {
		return bunk{"package variable"}
	}
	return s.zero(t)
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// errVal is an error distinct from every other.
func (s *bitsim) errVal(name string) bval {
	return biface{v: bptr{&bObj{name: name, cells: []bval{bunk{"error"}}}, 0}}
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (s *bitsim) global(g *ssa.Global) *bObj {
	if o := s.glob[g]; o != nil {
		return o
	}
	o := &bObj{name: g.Name()}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if isError(et) {
		o.cells = []bval{s.errVal(g.Name())}
		s.glob[g] = o
		return o
	}
	c := s.p.Consts()
	if co := c.global(g); co != nil {
		o.cells = []bval{s.fromHeap(c, cref{co, ""}, et)}
	} else {
		o.cells = []bval{bunk{"package variable " + g.Name()}}
	}
	s.glob[g] = o
	return o
}

type bframe struct {
	s    *bitsim
	fn   *ssa.Function
	env  map[ssa.Value]bval
	free []bval
	args []bval
	tm   tmap
}

// tmap maps the type parameters of a generic body to the types it is analysed with.
type tmap map[*types.TypeParam]types.Type

func (m tmap) of(t types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if r := m[u]; r != nil {
			return r
		}
		for k, r := range m {
			if k.Obj().Name() == u.Obj().Name() && k.Index() == u.Index() {
				return r
			}
		}
	case *types.Pointer:
		if e := m.of(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := m.of(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := m.of(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := m.of(u.Key()), m.of(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Named:
		if u.TypeArgs() == nil || u.TypeArgs().Len() == 0 {
			if u.TypeParams().Len() > 0 {
				var as []types.Type
				for i := 0; i < u.TypeParams().Len(); i++ {
					as = append(as, m.of(u.TypeParams().At(i)))
				}
				if r, err := types.Instantiate(nil, u, as, false); err == nil {
					return r
				}
			}
			return t
		}
		var as []types.Type
		ch := false
		for i := 0; i < u.TypeArgs().Len(); i++ {
			a := m.of(u.TypeArgs().At(i))
			ch = ch || a != u.TypeArgs().At(i)
			as = append(as, a)
		}
		if ch {
			if r, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
				return r
			}
		}
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		ch := false
		for i := 0; i < u.NumFields(); i++ {
			v := u.Field(i)
			e := m.of(v.Type())
			ch = ch || e != v.Type()
			fs = append(fs, types.NewField(v.Pos(), v.Pkg(), v.Name(), e, v.Embedded()))
			tags = append(tags, u.Tag(i))
		}
		if ch {
			return types.NewStruct(fs, tags)
		}
	}
	return t
}

func (f *bframe) ty(v ssa.Value) types.Type { return f.tm.of(v.Type()) }

func (f *bframe) get(v ssa.Value) bval {
	r := f.get1(v)
	if len(f.s.pin) > 0 {
		if b, ok := r.(*bv); ok {
			return f.s.pinned(b)
		}
	}
	return r
}

// pinned replaces the bits that the branches taken so far have settled.
func (s *bitsim) pinned(b *bv) *bv {
	var n *bv
	for i := 0; i < b.w; i++ {
		if k, ok := s.pin[b.b[i]]; ok && b.b[i] >= bBase {
			if n == nil {
				c := *b
				n = &c
			}
			n.b[i] = k
		}
	}
	if n == nil {
		return b
	}
	if e, ok := s.eqs[b]; ok {
		s.eqs[n] = e
	}
	return n
}

// oneBit recognises a comparison that comes down to one bit, and returns that bit.
func (s *bitsim) oneBit(a, b *bv, eq bool) *bv {
	at := -1
	for i := 0; i < a.w && i < b.w; i++ {
		if a.b[i] != b.b[i] || a.b[i] == bTop {
			if at >= 0 {
				return nil
			}
			at = i
		}
	}
	if at < 0 {
		return nil
	}
	p, q := a.b[at], b.b[at]
	if p <= bOne {
		p, q = q, p
	}
	if p < bBase || q > bOne {
		return nil
	}
	r := &bv{w: 1}
	r.b[0] = p
	if eq != (q == bOne) {
		r.b[0] = s.negated(p)
	}
	return r
}

// negated is the bit that holds the opposite of another.
func (s *bitsim) negated(p int32) int32 {
	if n, ok := s.neg[p]; ok {
		return n
	}
	n := s.source("not "+s.bitName(p), 1, 1).b[0]
	if s.neg == nil {
		s.neg = map[int32]int32{}
	}
	s.neg[p], s.neg[n] = n, p
	return n
}

func (s *bitsim) setPin(p, v int32) {
	s.pin[p] = v
	if n, ok := s.neg[p]; ok {
		s.pin[n] = 1 - v
	}
}

// settle records what taking a branch says about single bits.
// exact tells whether taking a branch on c is fully accounted for by the bits it settles.
func (s *bitsim) exact(c *bv, taken bool) bool {
	if c == nil || c.w != 1 {
		return false
	}
	if e, ok := s.eqs[c]; ok {
		return e.eq == taken
	}
	if c.b[0] < bBase {
		return false
	}
	id := int(c.b[0]-bBase) / 64
	return id < len(s.srcs) && s.srcs[id].lin == nil && s.srcs[id].name != "a converted number"
}

func (s *bitsim) settle(c *bv, taken bool) {
	e, ok := s.eqs[c]
	if s.fork == nil {
		return
	}
	if s.pin == nil {
		s.pin = map[int32]int32{}
	}
	if !ok {
		if c.w == 1 && c.b[0] >= bBase {
			v := bZero
			if taken {
				v = bOne
			}
			s.setPin(c.b[0], int32(v))
		}
		return
	}
	a, b := s.pinned(e.a), s.pinned(e.b)
	if e.eq == taken {
		for i := 0; i < a.w; i++ {
			p, q := a.b[i], b.b[i]
			if p <= bOne && q >= bBase {
				s.setPin(q, p)
			} else if q <= bOne && p >= bBase {
				s.setPin(p, q)
			}
		}
		return
	}
	at, n := -1, 0
	for i := 0; i < a.w; i++ {
		if a.b[i] != b.b[i] {
			at, n = i, n+1
		}
	}
	if n == 1 {
		p, q := a.b[at], b.b[at]
		if p <= bOne && q >= bBase {
			s.setPin(q, 1-p)
		} else if q <= bOne && p >= bBase {
			s.setPin(p, 1-q)
		}
	}
}

func (f *bframe) get1(v ssa.Value) bval {
	switch x := v.(type) {
	case *ssa.Const:
		return f.s.konstVal(x, f.ty(x))
	case *ssa.Function:
		return bfunc{fn: x, tm: f.tm}
	case *ssa.Global:
		return bptr{f.s.global(x), 0}
	case *ssa.FreeVar:
		for i, y := range f.fn.FreeVars {
			if y == x {
				return f.free[i]
			}
		}
	case *ssa.Parameter:
		for i, y := range f.fn.Params {
			if y == x {
				return f.args[i]
			}
		}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return bunk{"undefined " + v.Name()}
}

func (f *bframe) num(v ssa.Value, in ssa.Instruction) int64 {
	x, ok := f.get(v).(*bv)
	if !ok {
		f.s.stop("undecided", "an index or size does not follow from constants", in)
	}
	var k int64
	var ok2 bool
	if isUns(f.ty(v)) {
		var u uint64
		u, ok2 = x.konst()
		k = int64(u)
	} else {
		k, ok2 = x.sval()
	}
	if !ok2 {
		f.s.stop("undecided", "an index or size depends on the packed values", in)
	}
	return k
}

func (s *bitsim) call(fn *ssa.Function, in []bval, free []bval, tm tmap) bval {
	if o := fn.Origin(); o != nil && o != fn {
		m := tmap{}
		for i, a := range fn.TypeArgs() {
			if tp := o.TypeParams(); i < tp.Len() {
				m[tp.At(i)] = tm.of(a)
			}
		}
		fn, tm = o, m
	}
	if s.model != nil {
		if r, ok := s.model(fn, in); ok {
			return r
		}
	}
	if r, ok := s.intrinsic(fn, in); ok {
		return r
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "encoding/binary" && len(in) == 3 && (fn.Name() == "Read" || fn.Name() == "Write") {
		// reflection treats a named basic type like its underlying type
		if d, ok := in[2].(biface); ok && d.t != nil {
			if pt, ok := d.t.Underlying().(*types.Pointer); ok && isBasic(pt.Elem()) {
				d.t = types.NewPointer(pt.Elem().Underlying())
			} else if sl, ok := d.t.Underlying().(*types.Slice); ok && isBasic(sl.Elem()) {
				d.t = types.NewSlice(sl.Elem().Underlying())
			} else if isBasic(d.t) {
				d.t = d.t.Underlying()
			}
			in = []bval{in[0], in[1], d}
		}
	}
	if fn.Blocks == nil {
		return bunk{"external " + fn.String()}
	}
	if s.depth > 60 {
		s.stop("undecided", "call depth", nil)
	}
	s.depth++
	defer func() { s.depth-- }()
	s.calls[fn]++
	f := &bframe{s: s, fn: fn, env: map[ssa.Value]bval{}, free: free, args: in, tm: tm}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var phis []bval
		n := 0
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == prev {
					phis = append(phis, f.get(ph.Edges[k]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			f.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, i := range b.Instrs[n:] {
			s.steps++
			if s.steps > 60_000_000 || s.maxSteps > 0 && s.steps > s.maxSteps {
				s.stop("undecided", "too many steps", i)
			}
			switch x := i.(type) {
			case *ssa.If:
				c, ok := f.get(x.Cond).(*bv)
				var k uint64
				if ok {
					k, ok = c.konst()
				}
				if !ok && s.fork != nil {
					if s.branch() {
						k = 1
					}
					if fc, has := s.conds[c]; has {
						if k == 0 {
							fc.op = negOp(fc.op)
						}
						s.assume(fc.d, fc.op)
						s.lossy = true
					} else {
						s.fork.trail = append(s.fork.trail, fcond{})
						if c != nil {
							s.settle(c, k == 1)
						}
						if !s.exact(c, k == 1) {
							s.lossy = true
						}
					}
					if s.onFork != nil {
						s.onFork(i, k == 1)
					}
				} else if !ok {
					s.stop("undecided", "a branch depends on the values being packed", i)
				}
				if k == 1 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return bnil{}
				case 1:
					return f.get(x.Results[0])
				}
				var t btuple
				for _, r := range x.Results {
					t = append(t, f.get(r))
				}
				return t
			case *ssa.Panic:
				s.stop("panic", "explicit panic", i)
			case *ssa.Defer:
				// a handler that recovers has no effect unless a panic happens, which ends the analysis of the path
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); !ok && x.Call.StaticCallee() == nil || ok && mc == nil {
					s.stop("undecided", "unsupported instruction", i)
				}
				if !recovers(x.Call.StaticCallee()) {
					s.stop("undecided", "unsupported instruction", i)
				}
			case *ssa.Go, *ssa.Select, *ssa.Send:
				s.stop("undecided", "unsupported instruction", i)
			case *ssa.RunDefers, *ssa.DebugRef:
			case *ssa.Store:
				p, ok := f.get(x.Addr).(bptr)
				if !ok {
					s.stop("undecided", "store through an unknown pointer", i)
				}
				if s.note != nil {
					s.note(i)
				}
				s.store(p, f.get(x.Val))
			case *ssa.MapUpdate:
				if m, ok := f.get(x.Map).(bmap); ok {
					k, v := bcopy(f.get(x.Key)), bcopy(f.get(x.Value))
					if at := s.mapAt(m, k); at >= 0 {
						m.m.v[at] = v
					} else {
						m.m.k, m.m.v = append(m.m.k, k), append(m.m.v, v)
					}
				}
			case ssa.Value:
				f.env[x] = f.eval(x, i)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			s.stop("undecided", "no successor", nil)
		}
		prev, b = b, next
	}
}

func (f *bframe) eval(v ssa.Value, in ssa.Instruction) bval {
	s := f.s
	switch x := v.(type) {
	case *ssa.Alloc:
		return bptr{&bObj{name: x.Comment, cells: []bval{s.zero(f.ty(x).Underlying().(*types.Pointer).Elem())}}, 0}
	case *ssa.BinOp:
		return s.bin(x.Op, f.get(x.X), f.get(x.Y), f.ty(x.X), in)
	case *ssa.UnOp:
		a := f.get(x.X)
		switch x.Op {
		case token.MUL:
			p, ok := a.(bptr)
			if !ok {
				if _, ok := a.(bnil); ok {
					s.stop("panic", "nil dereference", in)
				}
				return bunk{"load through an unknown pointer"}
			}
			return bcopy(p.o.cells[p.i])
		case token.XOR, token.NOT:
			if b, ok := a.(*bv); ok {
				r := &bv{w: b.w}
				for i := 0; i < b.w; i++ {
					switch b.b[i] {
					case bZero:
						r.b[i] = bOne
					case bOne:
						r.b[i] = bZero
					default:
						r.b[i] = bTop
						if s.fork != nil && b.w == 1 && b.b[i] >= bBase {
							r.b[i] = s.negated(b.b[i])
						}
					}
				}
				if s.vn != nil && b.w > 1 {
					return s.vnPost(token.XOR, b, bconst(^uint64(0)>>uint(64-b.w), b.w), r, true)
				}
				if fc, ok := s.conds[b]; ok {
					s.conds[r] = fcond{fc.d, negOp(fc.op)}
				}
				if e, ok := s.eqs[b]; ok {
					e.eq = !e.eq
					s.eqs[r] = e
				}
				return r
			}
		case token.SUB:
			if f, ok := a.(fspecial); ok {
				return fspecial(-f)
			}
			if b, ok := a.(bflt); ok {
				return bflt{poly{}.add(b.p, -1)}
			}
			if b, ok := a.(*bv); ok {
				return s.addsub(bconst(0, b.w), b, ^uint64(0))
			}
		}
		return bunk{"operator"}
	case *ssa.Convert:
		return s.convert(f.get(x.X), f.ty(x.X), f.ty(x))
	case *ssa.ChangeType:
		if t := f.ty(x.X); types.IsInterface(f.ty(x)) && !types.IsInterface(t) {
			return biface{t: t, v: f.get(x.X)} // of a type parameter
		}
		return f.get(x.X)
	case *ssa.ChangeInterface:
		return f.get(x.X)
	case *ssa.MakeInterface:
		return biface{t: f.ty(x.X), v: f.get(x.X)}
	case *ssa.MakeClosure:
		b := bfunc{fn: x.Fn.(*ssa.Function), tm: f.tm}
		for _, y := range x.Bindings {
			b.free = append(b.free, f.get(y))
		}
		return b
	case *ssa.MultiConvert:
		return s.convert(f.get(x.X), f.ty(x.X), f.ty(x))
	case *ssa.TypeAssert:
		at := f.tm.of(x.AssertedType)
		a, ok := f.get(x.X).(biface)
		if ok && a.t != nil {
			same := types.Identical(a.t, at)
			if _, isI := at.Underlying().(*types.Interface); isI {
				same = types.Implements(a.t, at.Underlying().(*types.Interface))
				if x.CommaOk {
					if same {
						return btuple{a, bconst(1, 1)}
					}
					return btuple{bnil{}, bconst(0, 1)}
				}
				return a
			}
			if x.CommaOk {
				if same {
					return btuple{a.v, bconst(1, 1)}
				}
				return btuple{bcopy(s.zero(at)), bconst(0, 1)}
			}
			if same {
				return a.v
			}
			s.stop("panic", "type assertion", in)
		}
		s.stop("undecided", "type assertion", in)
	case *ssa.Extract:
		t, ok := f.get(x.Tuple).(btuple)
		if !ok || x.Index >= len(t) {
			return bunk{"result"}
		}
		return t[x.Index]
	case *ssa.FieldAddr:
		p, ok := f.get(x.X).(bptr)
		if !ok {
			if _, isNil := f.get(x.X).(bnil); isNil {
				s.stop("panic", "nil dereference", in)
			}
			return bunk{"field of an unknown pointer"}
		}
		o, ok := p.o.cells[p.i].(*bObj)
		if !ok {
			return bunk{"field of an unknown value"}
		}
		return bptr{o, x.Field}
	case *ssa.Field:
		a, ok := f.get(x.X).(bagg)
		if !ok {
			return bunk{"field"}
		}
		return a.f[x.Field]
	case *ssa.IndexAddr:
		if r, ok := f.joinIndex(x, in); ok {
			return r
		}
		k := f.num(x.Index, in)
		switch a := f.get(x.X).(type) {
		case bslice:
			if k < 0 || k >= int64(a.len) {
				s.stop("panic", fmt.Sprintf("index %d outside a slice of %d", k, a.len), in)
			}
			if s.load != nil {
				s.load(a.o, a.off+int(k), in)
			}
			return a.o.cell(a.off + int(k))
		case bptr:
			if o, ok := a.o.cells[a.i].(*bObj); ok {
				if k < 0 || k >= int64(len(o.cells)) {
					s.stop("panic", fmt.Sprintf("index %d outside an array of %d", k, len(o.cells)), in)
				}
				if s.load != nil {
					s.load(o, int(k), in)
				}
				return bptr{o, int(k)}
			}
		case bnil:
			s.stop("panic", "index of a nil slice", in)
		}
		return bunk{"element of an unknown value"}
	case *ssa.Index:
		k := f.num(x.Index, in)
		switch a := f.get(x.X).(type) {
		case bagg:
			if k < 0 || k >= int64(len(a.f)) {
				s.stop("panic", "index", in)
			}
			return a.f[k]
		case bstr:
			if k < 0 || k >= int64(a.len()) {
				s.stop("panic", "index", in)
			}
			return a.at(int(k))
		}
		return bunk{"index"}
	case *ssa.Slice:
		lo, hi, mx := int64(0), int64(-1), int64(-1)
		if x.Low != nil {
			lo = f.num(x.Low, in)
		}
		if x.High != nil {
			hi = f.num(x.High, in)
		}
		if x.Max != nil {
			mx = f.num(x.Max, in)
		}
		var a bslice
		switch y := f.get(x.X).(type) {
		case bslice:
			a = y
		case bptr:
			o, ok := y.o.cells[y.i].(*bObj)
			if !ok {
				return bunk{"slice"}
			}
			a = bslice{o, 0, len(o.cells), len(o.cells)}
		case bnil:
			a = bslice{&bObj{}, 0, 0, 0}
		case bstr:
			if hi < 0 {
				hi = int64(y.len())
			}
			if lo < 0 || hi < lo || hi > int64(y.len()) {
				s.stop("panic", "slice of a string", in)
			}
			if y.b != nil {
				b := (*y.b)[lo:hi]
				return bstr{b: &b}
			}
			return bstr{s: y.s[lo:hi]}
		default:
			return bunk{"slice"}
		}
		if x.High == nil {
			hi = int64(a.len)
		}
		if mx < 0 {
			mx = int64(a.cap)
		}
		if lo < 0 || hi < lo || mx < hi || mx > int64(a.cap) {
			s.stop("panic", fmt.Sprintf("slice [%d:%d] of a slice with capacity %d", lo, hi, a.cap), in)
		}
		return bslice{a.o, a.off + int(lo), int(hi - lo), int(mx - lo)}
	case *ssa.MakeSlice:
		n, c := f.num(x.Len, in), f.num(x.Cap, in)
		if n < 0 || c < n {
			s.stop("panic", "make", in)
		}
		o := &bObj{name: "make"}
		et := f.ty(x).Underlying().(*types.Slice).Elem()
		if sz := types.SizesFor("gc", "amd64").Sizeof(et); sz > 0 && c > 1<<47/sz {
			s.stop("panic", "make of more memory than there can be", in)
		}
		if s.made != nil {
			s.made(o, c)
		}
		if c > 1<<18 && s.huge {
			o.sparse = map[int]*bObj{}
			o.zero = func() bval { return bmem(s.zero(et)) }
			return bslice{o, 0, int(n), int(c)}
		}
		if c > 1<<22 {
			s.stop("undecided", "make too large", in)
		}
		o.cells = make([]bval, 0, c)
		for i := int64(0); i < c; i++ {
			o.cells = append(o.cells, s.zero(et))
		}
		return bslice{o, 0, int(n), int(c)}
	case *ssa.SliceToArrayPointer:
		if a, ok := f.get(x.X).(bslice); ok {
			n := f.ty(x).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if int64(a.len) >= n && a.off == 0 && int64(len(a.o.cells)) == n {
				return bptr{&bObj{cells: []bval{a.o}}, 0}
			}
		}
		s.stop("undecided", "slice to array pointer", in)
	case *ssa.Call:
		return f.doCall(x, in)
	case *ssa.MakeMap:
		if s.ord != nil {
			return bmap{&bmapObj{}}
		}
		return bunk{"map"}
	case *ssa.Lookup:
		if m, ok := f.get(x.X).(bmap); ok {
			et := f.ty(x.X).Underlying().(*types.Map).Elem()
			at := s.mapAt(m, f.get(x.Index))
			r := s.zero(et)
			if at >= 0 {
				r = m.m.v[at]
			}
			r = bcopy(r)
			if x.CommaOk {
				return btuple{r, bbool(at >= 0)}
			}
			return r
		}
		return bunk{"map"}
	case *ssa.Range, *ssa.Next, *ssa.MakeChan:
		return bunk{"map"}
	}
	s.stop("undecided", fmt.Sprintf("unsupported %T", v), in)
	return nil
}

// joinIndex handles an element read at an index with unknown bits: the value is what all candidates have in common.
func (f *bframe) joinIndex(x *ssa.IndexAddr, in ssa.Instruction) (bval, bool) {
	idx, ok := f.get(x.Index).(*bv)
	if !ok {
		return nil, false
	}
	if _, c := idx.konst(); c {
		return nil, false
	}
	var o *bObj
	off, n := 0, 0
	switch a := f.get(x.X).(type) {
	case bslice:
		o, off, n = a.o, a.off, a.len
	case bptr:
		if y, ok := a.o.cells[a.i].(*bObj); ok {
			o, n = y, len(y.cells)
		}
	}
	if o == nil {
		return nil, false
	}
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return nil, false
		}
	}
	if o.sym != nil {
		return bptr{&bObj{cells: []bval{o.sym(idx)}}, 0}, true
	}
	if f.s.fork != nil {
		return f.rangeIndex(x, idx, o, off, n, in)
	}
	return f.bitJoin(idx, o, off, n, in)
}

func (f *bframe) bitJoin(idx *bv, o *bObj, off, n int, in ssa.Instruction) (bval, bool) {
	var free []int
	var base uint64
	for i := 0; i < idx.w; i++ {
		switch idx.b[i] {
		case bOne:
			base |= 1 << uint(i)
		case bZero:
		default:
			free = append(free, i)
		}
	}
	if len(free) > 12 {
		return nil, false
	}
	var r *bv
	for m := 0; m < 1<<len(free); m++ {
		k := base
		for j, i := range free {
			if m>>j&1 == 1 {
				k |= 1 << uint(i)
			}
		}
		if k >= uint64(n) {
			f.s.stop("panic", fmt.Sprintf("index %d outside a table of %d", k, n), in)
		}
		v, ok := o.cells[off+int(k)].(*bv)
		if !ok {
			return nil, false
		}
		if r == nil {
			c := *v
			r = &c
			continue
		}
		for i := 0; i < r.w; i++ {
			if r.b[i] != v.b[i] {
				r.b[i] = bTop
			}
		}
	}
	return bptr{&bObj{cells: []bval{r}}, 0}, true
}

// order compares values whose difference is declared; it yields -1, 0 (a>=b known), 1 (a>b known), 2 (b>=a), 3 (b>a).
func (s *bitsim) order(a, b *bv) int {
	if a.w != 64 || a.b[63] != bZero || b.b[63] != bZero {
		return -1
	}
	try := func(a, b *bv) int {
		d := s.addsub(a, b, ^uint64(0))
		if d.b[63] != bZero {
			return -1
		}
		for i := 0; i < 63; i++ {
			if d.b[i] == bOne {
				return 1
			}
		}
		return 0
	}
	if r := try(a, b); r >= 0 {
		return r
	}
	if r := try(b, a); r >= 0 {
		return r + 2
	}
	return -1
}

// initPkg folds the package initializer, so that the package's variables hold what they hold once the program runs.
func (s *bitsim) initPkg(pk *ssa.Package) *bstop {
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			s.glob[g] = &bObj{name: g.Name(), cells: []bval{s.zero(g.Type().Underlying().(*types.Pointer).Elem())}}
		}
	}
	old := s.model
	s.model = func(fn *ssa.Function, in []bval) (bval, bool) {
		if fn.Pkg != pk {
			if fn.Name() == "init" {
				return bnil{}, true
			}
		}
		return nil, false
	}
	_, st := s.run(pk.Func("init"), nil)
	s.model = old
	return st
}

func (f *bframe) doCall(x *ssa.Call, in ssa.Instruction) bval {
	f.s.trail = append(f.s.trail, x)
	r := f.doCall1(x, in)
	f.s.trail = f.s.trail[:len(f.s.trail)-1]
	return r
}

func (f *bframe) doCall1(x *ssa.Call, in ssa.Instruction) bval {
	s := f.s
	c := x.Common()
	var a []bval
	for _, y := range c.Args {
		a = append(a, f.get(y))
	}
	if c.IsInvoke() {
		r, ok := f.get(c.Value).(biface)
		if ok && r.hook != nil {
			if v, ok := r.hook(c.Method.Name(), a); ok {
				return v
			}
		}
		if ok && r.t != nil {
			if m := s.p.SSA.LookupMethod(r.t, c.Method.Pkg(), c.Method.Name()); m != nil {
				return s.call(m, append([]bval{r.v}, a...), nil, nil)
			}
		}
		if _, tp := c.Value.Type().(*types.TypeParam); tp {
			if m := s.p.SSA.LookupMethod(f.ty(c.Value), c.Method.Pkg(), c.Method.Name()); m != nil {
				return s.call(m, append([]bval{f.get(c.Value)}, a...), nil, nil)
			}
		}
		return bunk{"call " + c.Method.Name()}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), c, a, in)
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := f.get(c.Value).(bfunc); ok {
			return s.call(fn, a, mc.free, mc.tm)
		}
		return s.call(fn, a, nil, f.tm)
	}
	if fv, ok := f.get(c.Value).(bfunc); ok {
		if fv.hook != nil {
			return fv.hook(a)
		}
		return s.call(fv.fn, a, fv.free, fv.tm)
	}
	s.stop("undecided", "call of an unknown function", in)
	return nil
}

// aggEq compares struct or array values part by part.
func (s *bitsim) aggEq(x, y bagg, t types.Type, in ssa.Instruction) (eq, known bool) {
	known = true
	for i := range x.f {
		var et types.Type
		switch u := t.Underlying().(type) {
		case *types.Struct:
			et = u.Field(i).Type()
		case *types.Array:
			et = u.Elem()
		}
		c, ok := s.bin1(token.EQL, x.f[i], y.f[i], et, in).(*bv)
		k := uint64(0)
		if ok {
			k, ok = c.konst()
		}
		if ok && k == 0 {
			return false, true
		}
		known = known && ok
	}
	return true, known
}

func recovers(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bu, ok := c.Call.Value.(*ssa.Builtin); ok && bu.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (x bstr) len() int {
	if x.b != nil {
		return len(*x.b)
	}
	return len(x.s)
}

func (x bstr) at(i int) *bv {
	if x.b != nil {
		return (*x.b)[i]
	}
	return bconst(uint64(x.s[i]), 8)
}

// norm turns a string of known bytes into a constant.
func (x bstr) norm() bstr {
	if x.b == nil {
		return x
	}
	var t []byte
	for _, v := range *x.b {
		k, ok := v.konst()
		if !ok {
			return x
		}
		t = append(t, byte(k))
	}
	return bstr{s: string(t)}
}

// strEq compares strings; the second result tells whether the answer is known.
func (s *bitsim) strEq(x, y bstr) (bool, bool) {
	if x.b == nil && y.b == nil {
		return x.s == y.s, true
	}
	if x.len() != y.len() {
		return false, true
	}
	same := true
	for i := 0; i < x.len(); i++ {
		a, b := s.pinned(x.at(i)), s.pinned(y.at(i))
		for j := 0; j < 8; j++ {
			if a.b[j] == bTop || a.b[j] != b.b[j] {
				same = false
				if (a.b[j] == bZero && b.b[j] == bOne) || (a.b[j] == bOne && b.b[j] == bZero) {
					return false, true
				}
			}
		}
	}
	return true, same
}

func blen(v bval) (int, int, bool) {
	switch a := v.(type) {
	case bslice:
		return a.len, a.cap, true
	case bstr:
		return a.len(), a.len(), true
	case bnil:
		return 0, 0, true
	case bagg:
		return len(a.f), len(a.f), true
	case bptr:
		if o, ok := a.o.cells[a.i].(*bObj); ok {
			return len(o.cells), len(o.cells), true
		}
	}
	return 0, 0, false
}

func (f *bframe) builtin(name string, c *ssa.CallCommon, a []bval, in ssa.Instruction) bval {
	s := f.s
	switch name {
	case "len", "cap":
		if m, ok := a[0].(bmap); ok {
			return bconst(uint64(len(m.m.k)), 64)
		}
		n, k, ok := blen(a[0])
		if !ok {
			return bunk{"length"}
		}
		if name == "cap" {
			n = k
		}
		return bconst(uint64(n), 64)
	case "min", "max":
		r := a[0]
		for _, y := range a[1:] {
			if v, ok := fspMax(name == "max", r, y); ok {
				r = v
				continue
			}
			if fx, ok := r.(bflt); ok {
				if fy, ok := y.(bflt); ok {
					r = s.fmax(name == "max", fx.p, fy.p)
					continue
				}
			}
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			t, ok := s.bin(op, r, y, f.tm.of(c.Args[0].Type()), in).(*bv)
			if !ok {
				return bunk{name}
			}
			k, ok := t.konst()
			if !ok {
				return bunk{name}
			}
			if k == 0 {
				r = y
			}
		}
		return r
	case "copy":
		d, ok := a[0].(bslice)
		if !ok {
			return bconst(0, 64)
		}
		n := d.len
		var src []bval
		switch y := a[1].(type) {
		case bslice:
			s.dense(y, in)
			for i := 0; i < y.len && i < n; i++ {
				src = append(src, y.o.at(y.off+i))
			}
		case bstr:
			for i := 0; i < y.len() && i < n; i++ {
				src = append(src, y.at(i))
			}
		case bnil:
		default:
			s.stop("undecided", "copy", in)
		}
		for i, v := range src {
			s.store(d.o.cell(d.off+i), v)
		}
		return bconst(uint64(len(src)), 64)
	case "append":
		var d bslice
		switch y := a[0].(type) {
		case bslice:
			d = y
		case bnil:
			d = bslice{&bObj{}, 0, 0, 0}
		default:
			return bunk{"append"}
		}
		var src []bval
		switch y := a[1].(type) {
		case bslice:
			s.dense(y, in)
			for i := 0; i < y.len; i++ {
				src = append(src, y.o.at(y.off+i))
			}
		case bstr:
			for i := 0; i < y.len(); i++ {
				src = append(src, y.at(i))
			}
		case bnil:
		default:
			return bunk{"append"}
		}
		if d.len+len(src) <= d.cap {
			for i, v := range src {
				s.store(d.o.cell(d.off+d.len+i), v)
			}
			return bslice{d.o, d.off, d.len + len(src), d.cap}
		}
		s.dense(d, in)
		o := &bObj{name: "append"}
		for i := 0; i < d.len; i++ {
			o.cells = append(o.cells, bmem(d.o.at(d.off+i)))
		}
		for _, v := range src {
			o.cells = append(o.cells, bmem(v))
		}
		return bslice{o, 0, len(o.cells), len(o.cells)}
	case "clear":
		if d, ok := a[0].(bslice); ok {
			et := f.tm.of(c.Args[0].Type()).Underlying().(*types.Slice).Elem()
			s.dense(d, in)
			for i := 0; i < d.len; i++ {
				s.store(d.o.cell(d.off+i), s.zero(et))
			}
			return bnil{}
		}
	case "print", "println":
		return bnil{}
	}
	s.stop("undecided", "builtin "+name, in)
	return nil
}

func (s *bitsim) convert(v bval, from, to types.Type) bval {
	a, ok := v.(*bv)
	w := intWidth(to)
	if isFloat(to) {
		if ok {
			if p, ok := s.ipoly(a, isUns(from)); ok {
				return bflt{p}
			}
			return bunk{"conversion"}
		}
		if b, ok := v.(bflt); ok {
			k, isK := b.p.konst()
			if to.Underlying().(*types.Basic).Kind() == types.Float64 || from.Underlying().(*types.Basic).Kind() == types.Float32 {
				return b
			}
			if isK {
				return fconst(float64(float32(fltOf(k))))
			}
			return bflt{patom(s.opaque("float32", b.p))}
		}
		if u, ok := v.(bunk); ok && u.why == "NaN" {
			return u
		}
		if u, ok := v.(fspecial); ok {
			return u
		}
		return bunk{"conversion"}
	}
	if b, ok := v.(bflt); ok && w > 0 {
		if k, ok := b.p.konst(); ok {
			f := fltOf(k)
			if isUns(to) && f >= 0 && f < 1<<64 {
				return bconst(uint64(f)&(1<<uint(w-1)<<1-1), w)
			}
			if f > -(1<<62) && f < 1<<62 {
				return bconst(uint64(int64(f)), w)
			}
		}
		if s.huge { // any value
			return s.source("a converted number", w, w)
		}
		return bunk{"conversion"}
	}
	if s.huge && w > 0 && isFloat(from) {
		return s.source("a converted number", w, w)
	}
	if !ok || w == 0 || intWidth(from) == 0 {
		if st, ok := v.(bstr); ok {
			if sl, ok := to.Underlying().(*types.Slice); ok && intWidth(sl.Elem()) == 8 {
				o := &bObj{}
				for i := 0; i < st.len(); i++ {
					o.cells = append(o.cells, st.at(i))
				}
				return bslice{o, 0, st.len(), st.len()}
			}
		}
		if tb, ok := to.Underlying().(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			switch y := v.(type) {
			case bstr:
				return y
			case bnil:
				return bstr{}
			case bslice:
				var b []*bv
				for i := 0; i < y.len; i++ {
					x, ok := y.o.cells[y.off+i].(*bv)
					if !ok || x.w != 8 {
						return bunk{"conversion"}
					}
					b = append(b, s.pinned(x))
				}
				return bstr{b: &b}.norm()
			}
		}
		return bunk{"conversion"}
	}
	r := &bv{w: w}
	for i := 0; i < w; i++ {
		switch {
		case i < a.w:
			r.b[i] = a.b[i]
		case isUns(from):
		default:
			r.b[i] = a.b[a.w-1]
		}
	}
	return r
}

func bbool(b bool) *bv {
	if b {
		return bconst(1, 1)
	}
	return bconst(0, 1)
}

func (s *bitsim) bin(op token.Token, x, y bval, t types.Type, in ssa.Instruction) bval {
	if fx, ok := x.(bflt); ok {
		if fy, ok := y.(bflt); ok {
			return s.fbin(op, fx.p, fy.p)
		}
	}
	if r, ok := s.fspBin(op, x, y); ok {
		return r
	}
	if s.vn != nil {
		if r, ok := s.fvBin(op, x, y); ok {
			return r
		}
	}
	a, ok1 := x.(*bv)
	b, ok2 := y.(*bv)
	if s.vn != nil && ok1 && ok2 {
		if r := s.vnPre(op, a, b, isUns(t)); r != nil {
			return r
		}
		if op != token.EQL && op != token.NEQ && op != token.LSS && op != token.LEQ && op != token.GTR && op != token.GEQ {
			r := s.bin1(op, x, y, t, in)
			if v, ok := r.(*bv); ok {
				return s.vnPost(op, a, b, v, isUns(t))
			}
			return r
		}
	}
	if s.ord != nil && ok1 && ok2 {
		if r, ok := s.ord.compare(op, a, b); ok {
			return bbool(r)
		}
	}
	if ok1 && ok2 && s.fork != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if r, ok := s.bin1(op, x, y, t, in).(*bv); ok {
				if _, ok := r.konst(); ok {
					return r
				}
			}
			pa, ok := s.ipoly(a, isUns(t))
			pb, ok2 := s.ipoly(b, isUns(t))
			if ok && ok2 {
				return s.fcompare(op, pa.add(pb, -1))
			}
		}
	}
	return s.bin1(op, x, y, t, in)
}

func (s *bitsim) bin1(op token.Token, x, y bval, t types.Type, in ssa.Instruction) bval {
	unkB := &bv{w: 1}
	unkB.b[0] = bTop
	a, ok1 := x.(*bv)
	b, ok2 := y.(*bv)
	if !ok1 || !ok2 {
		if op == token.EQL || op == token.NEQ {
			eq, known := false, false
			_, n1 := x.(bnil)
			_, n2 := y.(bnil)
			switch {
			case n1 && n2:
				eq, known = true, true
			case n1 || n2:
				o := x
				if n1 {
					o = y
				}
				switch o.(type) {
				case bslice, bptr, biface, bfunc:
					eq, known = false, true
				}
			}
			if g1, ok := x.(bagg); ok {
				if g2, ok := y.(bagg); ok && len(g1.f) == len(g2.f) {
					eq, known = s.aggEq(g1, g2, t, in)
				}
			}
			if i1, ok := x.(biface); ok {
				if i2, ok := y.(biface); ok {
					p1, ok1 := i1.v.(bptr)
					p2, ok2 := i2.v.(bptr)
					if ok1 && ok2 {
						eq, known = p1 == p2, true
					}
				}
			}
			if p1, ok := x.(bptr); ok {
				if p2, ok := y.(bptr); ok {
					eq, known = p1 == p2, true
				}
			}
			if s1, ok := x.(bstr); ok {
				if s2, ok := y.(bstr); ok {
					eq, known = s.strEq(s1, s2)
				}
			}
			if known {
				return bbool(eq == (op == token.EQL))
			}
			return unkB
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return unkB
		}
		return bunk{"operand"}
	}
	w := a.w
	r := &bv{w: w}
	uns := isUns(t)
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := 0; i < w; i++ {
			p, q := a.b[i], b.b[i]
			if op == token.AND_NOT {
				switch q {
				case bZero:
					q = bOne
				case bOne:
					q = bZero
				default:
					q = bTop
				}
			}
			switch op {
			case token.AND, token.AND_NOT:
				switch {
				case p == bZero || q == bZero:
					r.b[i] = bZero
				case p == bOne:
					r.b[i] = q
				case q == bOne:
					r.b[i] = p
				case p == q:
					r.b[i] = p
				default:
					r.b[i] = bTop
				}
			case token.OR:
				switch {
				case p == bOne || q == bOne:
					r.b[i] = bOne
				case p == bZero:
					r.b[i] = q
				case q == bZero || p == q:
					r.b[i] = p
				default:
					r.b[i] = bTop
				}
			case token.XOR:
				switch {
				case p == bZero:
					r.b[i] = q
				case q == bZero:
					r.b[i] = p
				case p == bOne && q == bOne, p == q && p != bTop:
					r.b[i] = bZero
				default:
					r.b[i] = bTop
				}
			}
		}
		return r
	case token.SHL, token.SHR:
		k, ok := b.konst()
		if !ok {
			s.stop("undecided", "a shift amount depends on the packed values", in)
		}
		if k > 64 {
			k = 64
		}
		for i := 0; i < w; i++ {
			j := i - int(k)
			if op == token.SHR {
				j = i + int(k)
			}
			switch {
			case j >= 0 && j < w:
				r.b[i] = a.b[j]
			case op == token.SHR && !uns:
				r.b[i] = a.b[w-1]
			}
		}
		return r
	case token.ADD:
		return s.addsub(a, b, 1)
	case token.SUB:
		return s.addsub(a, b, ^uint64(0))
	case token.MUL, token.QUO, token.REM:
		ka, oka := a.konst()
		kb, okb := b.konst()
		if oka && okb {
			if op == token.MUL {
				return bconst(ka*kb, w)
			}
			if kb == 0 {
				s.stop("panic", "division by zero", in)
			}
			if uns {
				if op == token.QUO {
					return bconst(ka/kb, w)
				}
				return bconst(ka%kb, w)
			}
			sa, _ := a.sval()
			sb, _ := b.sval()
			if op == token.QUO {
				return bconst(uint64(sa/sb), w)
			}
			return bconst(uint64(sa%sb), w)
		}
		if op == token.MUL && oka {
			a, b, kb, okb = b, a, ka, true
		}
		if okb && kb != 0 && kb&(kb-1) == 0 && (op == token.MUL || uns || a.b[w-1] == bZero) {
			n := bits.TrailingZeros64(kb)
			for i := 0; i < w; i++ {
				switch op {
				case token.MUL:
					if i >= n {
						r.b[i] = a.b[i-n]
					}
				case token.QUO:
					if i+n < w {
						r.b[i] = a.b[i+n]
					}
				case token.REM:
					if i < n {
						r.b[i] = a.b[i]
					}
				}
			}
			return r
		}
		for i := 0; i < w; i++ {
			r.b[i] = bTop
		}
		return r
	case token.EQL, token.NEQ:
		same := true
		for i := 0; i < w; i++ {
			p, q := a.b[i], b.b[i]
			if p <= bOne && q <= bOne && p != q {
				return bbool(op == token.NEQ)
			}
			if p != q || p == bTop {
				same = false
			}
		}
		if same {
			return bbool(op == token.EQL)
		}
		if o := s.order(a, b); o == 1 || o == 3 {
			return bbool(op == token.NEQ)
		}
		if s.fork != nil {
			if r := s.oneBit(a, b, op == token.EQL); r != nil {
				return r
			}
			s.eqs[unkB] = bitEq{a, b, op == token.EQL}
		}
		return unkB
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		aa, bb := *a, *b
		if !uns && w > 1 { // flip the sign bits
			for _, z := range []*bv{&aa, &bb} {
				switch z.b[w-1] {
				case bZero:
					z.b[w-1] = bOne
				case bOne:
					z.b[w-1] = bZero
				}
			}
		}
		la, ha := aa.bounds()
		lb, hb := bb.bounds()
		swapped := false
		switch op {
		case token.GTR:
			la, ha, lb, hb = lb, hb, la, ha
			op, swapped = token.LSS, true
		case token.GEQ:
			la, ha, lb, hb = lb, hb, la, ha
			op, swapped = token.LEQ, true
		}
		if op == token.LSS {
			if ha < lb {
				return bbool(true)
			}
			if la >= hb {
				return bbool(false)
			}
		} else {
			if ha <= lb {
				return bbool(true)
			}
			if la > hb {
				return bbool(false)
			}
		}
		x, y := a, b
		if swapped {
			x, y = b, a
		}
		switch s.order(x, y) {
		case 0: // x >= y
			if op == token.LSS {
				return bbool(false)
			}
		case 1:
			return bbool(false)
		case 2: // y >= x
			if op == token.LEQ {
				return bbool(true)
			}
		case 3:
			return bbool(true)
		}
		return unkB
	}
	return bunk{"operator"}
}

func isSpecial(v bval) bool {
	_, ok := v.(fspecial)
	return ok
}

// reflectModel keeps the interface given to reflect.ValueOf and answers the kind of its type.
func reflectModel(name string, in []bval) (bval, bool) {
	if name == "ValueOf" && len(in) == 1 {
		return bagg{f: []bval{in[0]}}, true
	}
	if len(in) != 1 {
		return nil, false
	}
	a, ok := in[0].(bagg)
	if !ok || len(a.f) != 1 {
		return nil, false
	}
	x, ok := a.f[0].(biface)
	if !ok {
		if _, null := a.f[0].(bnil); null && name == "Kind" {
			return bconst(0, 64), true
		}
		return nil, false
	}
	switch name {
	case "Kind":
		if x.t == nil {
			return nil, false
		}
		switch t := x.t.Underlying().(type) {
		case *types.Basic:
			k, ok := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8,
				types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint,
				types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64,
				types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}[t.Kind()]
			if !ok {
				return nil, false
			}
			return bconst(uint64(k), 64), true
		case *types.Pointer:
			return bconst(uint64(reflect.Pointer), 64), true
		case *types.Struct:
			return bconst(uint64(reflect.Struct), 64), true
		}
	case "IsNil":
		switch x.v.(type) {
		case bnil:
			return bbool(true), true
		case bptr:
			return bbool(false), true
		}
	}
	return nil, false
}

func (s *bitsim) intrinsic(fn *ssa.Function, in []bval) (bval, bool) {
	if fn.Pkg == nil {
		return nil, false
	}
	if s.vn != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/xxhash") {
		return s.xxModel(fn.Name(), in)
	}
	switch fn.Pkg.Pkg.Path() {
	case "fmt", "errors", "strings", "strconv":
		if sig := fn.Signature; sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
			nm := "error"
			if len(in) > 0 {
				if f, ok := in[0].(bstr); ok {
					nm = f.s
				}
			}
			return s.errVal(nm), true
		}
		return bunk{fn.Name()}, true
	case "reflect":
		return reflectModel(fn.Name(), in)
	case "math":
		if s.vn != nil {
			if r, ok := s.fvMath(fn.Name(), in); ok {
				return r, true
			}
		}
		if s.special || s.huge && len(in) > 0 && isSpecial(in[0]) {
			if r, ok := fspMath(fn.Name(), in); ok {
				return r, true
			}
		}
		return s.mathCall(fn.Name(), in)
	case "math/bits":
		n := fn.Name()
		if len(in) != 1 {
			return nil, false
		}
		a, ok := in[0].(*bv)
		if !ok {
			return nil, false
		}
		switch {
		case strings.HasPrefix(n, "LeadingZeros"), strings.HasPrefix(n, "Len"):
			for i := a.w - 1; i >= -1; i-- {
				if i >= 0 && a.b[i] == bZero {
					continue
				}
				if i >= 0 && a.b[i] != bOne {
					return bunk{n}, true
				}
				if n[1] == 'e' && n[2] == 'n' {
					return bconst(uint64(i+1), 64), true
				}
				return bconst(uint64(a.w-1-i), 64), true
			}
		case strings.HasPrefix(n, "TrailingZeros"):
			for i := 0; i <= a.w; i++ {
				if i < a.w && a.b[i] == bZero {
					continue
				}
				if i < a.w && a.b[i] != bOne {
					return bunk{n}, true
				}
				return bconst(uint64(i), 64), true
			}
		case strings.HasPrefix(n, "OnesCount"):
			if k, ok := a.konst(); ok {
				return bconst(uint64(bits.OnesCount64(k)), 64), true
			}
			return bunk{n}, true
		}
	}
	return nil, false
}

// rangeIndex reads an element at an index known only by its range: the result ranges over the candidates.
func (f *bframe) rangeIndex(x *ssa.IndexAddr, idx *bv, o *bObj, off, n int, in ssa.Instruction) (bval, bool) {
	s := f.s
	if n > 0 {
		if _, isInt := o.cells[off].(*bv); isInt {
			return f.bitJoin(idx, o, off, n, in)
		}
	}
	p, ok := s.ipoly(idx, isUns(f.ty(x.Index)))
	if !ok {
		return nil, false
	}
	iv := s.bound(p)
	if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 || iv.hi.Cmp(big.NewRat(int64(n-1), 1)) > 0 {
		s.stop("panic", fmt.Sprintf("an index that may lie outside a table of %d", n), in)
	}
	lo, hi := int(fltOf(iv.lo)), int(fltOf(iv.hi))
	var r ival
	for i := lo; i <= hi; i++ {
		v, ok := o.cells[off+i].(bflt)
		if !ok {
			return nil, false
		}
		k, ok := v.p.konst()
		if !ok {
			return nil, false
		}
		if s.load != nil {
			s.load(o, off+i, in)
		}
		if r.lo == nil || k.Cmp(r.lo) < 0 {
			r.lo = k
		}
		if r.hi == nil || k.Cmp(r.hi) > 0 {
			r.hi = k
		}
	}
	a := s.opaque("element of "+o.name, p)
	s.ivs[a] = r
	return bptr{&bObj{cells: []bval{bflt{patom(a)}}}, 0}, true
}
