package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: images of every format and variant are laid out from the published field tables, with unknown
// contents in the fields and fixed shape bytes. The decoder is followed over the bit-provenance domain,
// its result is asked for every field through the public accessors, and the encoder is followed on the
// result: each accessor must answer with exactly the bits of its field, and the encoder must write
// every field back to where the table puts it.

func init() { checks["C23"] = chkC23 }

// lfld is one field of an image.
type lfld struct {
	name  string
	w     int    // bytes
	val   uint64 // when constant
	bits  int    // unknown low bits; 0 = constant
	loose bool   // the encoder may write something else (unused bytes)
	be    bool
	from  int // the bits below it are those of val
}

func kf(w int, v uint64) lfld          { return lfld{w: w, val: v} }
func vf(name string, w int) lfld       { return lfld{name: name, w: w, bits: 8 * w} }
func vb(name string, w, bits int) lfld { return lfld{name: name, w: w, bits: bits} }
func vlo(name string, w, bits int, v uint64) lfld {
	return lfld{name: name, w: w, bits: bits, val: v}
}

type layout struct {
	name  string
	dec   string                      // decoder entry
	ctor  string                      // receiver of the decoder
	find  func(p *Prog) *ssa.Function // the decoder, when it has no exported name
	tm    types.Type                  // type argument of generic code
	img   []lfld
	out   []lfld             // what the encoder writes when it is not the image read
	get   []string           // "Method(args)=want"
	enc   func(c *lctx) bval // returns the bytes written, nil when the variant is only read
	args  func(c *lctx, i int, t types.Type) bval
	model map[string]func(c *lctx, in []bval) (bval, bool)
	limit int
	read  bool // only read
	fold  bool // the tables made by the initializer are needed
	after func(c *lctx)
	steps int
}

// lctx is one path of one layout.
type lctx struct {
	rerr bval // of the last read of a user function
	p    *Prog
	s    *bitsim
	l    *layout
	flds map[string]*bv
	img  bslice
	want []*bv
	sk   bval
	skT  types.Type
	errs []string
	dead bool // the path left the images in question
}

func (c *lctx) fail(f string, a ...any) { c.errs = append(c.errs, fmt.Sprintf(f, a...)) }

// method calls a method of a value produced by the code under analysis.
func (c *lctx) method(v bval, t types.Type, name string, args ...bval) bval {
	if i, ok := v.(biface); ok {
		v, t = i.v, i.t
	}
	if t == nil {
		c.fail("no type for %s", name)
		return bunk{}
	}
	f := c.p.lookup(t, name)
	if f == nil {
		c.fail("method %s of %s not found", name, t)
		return bunk{}
	}
	if len(f.Params) == 0 && len(f.Blocks) == 0 {
		c.fail("method %s without body", name)
		return bunk{}
	}
	return c.s.call(f, append([]bval{v}, args...), nil, c.s.tm)
}

// lookup finds a method by name, exported or not.
func (p *Prog) lookup(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if m := ms.At(i); m.Obj().Name() == name {
			return p.SSA.MethodValue(m)
		}
	}
	return nil
}

func (c *lctx) fn(name string, args ...bval) bval {
	f := c.p.Fn(name)
	if f == nil {
		c.s.stop("undecided", name+" no longer exists", nil)
	}
	return c.s.call(norm(f), args, nil, c.s.tm)
}

// retType is the type of a function's i-th result under the layout's type arguments.
func (c *lctx) retType(name string, i int) types.Type {
	f := c.p.Fn(name)
	if f == nil {
		c.s.stop("undecided", name+" no longer exists", nil)
	}
	return c.s.tm.of(norm(f).Signature.Results().At(i).Type())
}

// ok splits a (value, error) result and reports the error.
func (c *lctx) ok(v bval, what string) bval {
	t, isT := v.(btuple)
	if !isT {
		return v
	}
	switch t[len(t)-1].(type) {
	case bnil:
	case biface:
		c.fail("%s fails", what)
	default:
		c.fail("%s: whether it fails is unknown", what)
	}
	return t[0]
}

// writer makes an empty bytes.Buffer and returns it as an io.Writer.
func (c *lctx) writer() (bval, func() bval) {
	bp := c.p.SSA.ImportedPackage("bytes")
	nb := bp.Func("NewBuffer")
	v := c.s.call(nb, []bval{bnil{}}, nil, nil)
	t := nb.Signature.Results().At(0).Type()
	return biface{t: t, v: v}, func() bval { return c.method(v, t, "Bytes") }
}

// sval converts the value of a field name or constant to a vector of w bits.
func (c *lctx) named(n string, w int) (*bv, bool) {
	if strings.HasPrefix(n, "#") {
		var k uint64
		fmt.Sscan(n[1:], &k)
		return bconst(k, w), true
	}
	v, ok := c.flds[n]
	if !ok {
		return nil, false
	}
	r := &bv{w: w}
	for i := 0; i < w && i < v.w; i++ {
		r.b[i] = v.b[i]
	}
	for i := w; i < v.w; i++ {
		if v.b[i] != bZero {
			return nil, false
		}
	}
	return c.s.pinned(r), true
}

// same compares a computed value with the field it should hold.
func (c *lctx) same(what string, got bval, want string) {
	if strings.HasPrefix(want, "f:") || strings.HasPrefix(want, "f32:") {
		n := want[strings.Index(want, ":")+1:]
		w := 64
		if strings.HasPrefix(want, "f32") {
			w = 32
		}
		v, ok := c.named(n, w)
		if !ok {
			c.fail("%s: no field %s", what, n)
			return
		}
		e, ok := c.s.fromBits(v).(bflt)
		if k, isK := v.konst(); isK {
			r := fconst(mathFrom(k, w))
			e, ok = r.(bflt)
		}
		g, ok2 := got.(bflt)
		if !ok || !ok2 || e.p.String() != g.p.String() {
			c.fail("%s does not return the number stored in field %s", what, n)
		}
		return
	}
	if strings.HasPrefix(want, "s:") {
		n := want[2:]
		v := c.flds[n]
		g, ok := got.(bstr)
		if v == nil || !ok || g.len() != v.w/8 {
			c.fail("%s does not return the string stored in field %s", what, n)
			return
		}
		for i := 0; i < g.len(); i++ {
			e := &bv{w: 8}
			copy(e.b[:8], v.b[8*i:8*i+8])
			e, x := c.s.pinned(e), c.s.pinned(g.at(i))
			if e.b != x.b {
				c.fail("%s: byte %d is not that of field %s", what, i, n)
				return
			}
		}
		return
	}
	if want == "true" || want == "false" {
		g, ok := got.(*bv)
		if ok {
			if k, ok := g.konst(); ok && (k == 1) == (want == "true") {
				return
			}
		}
		c.fail("%s is not %s", what, want)
		return
	}
	if strings.HasPrefix(want, "g:") { // a number given in decimal
		var f float64
		fmt.Sscan(want[2:], &f)
		g, ok := got.(bflt)
		if ok {
			if k, ok := g.p.konst(); ok && fltOf(k) == f {
				return
			}
		}
		c.fail("%s is not %s", what, want[2:])
		return
	}
	g, ok := got.(*bv)
	if !ok {
		c.fail("%s does not return what field %s holds", what, want)
		return
	}
	g = c.s.pinned(g)
	e, ok := c.named(want, g.w)
	if !ok {
		c.fail("%s: the result is too narrow for field %s", what, want)
		return
	}
	for i := 0; i < g.w; i++ {
		if g.b[i] != e.b[i] {
			c.fail("%s: bit %d is %s instead of %s", what, i, c.s.bitName(g.b[i]), c.s.bitName(e.b[i]))
			return
		}
	}
}

// is tells whether a computed value is certainly that of a field.
func (c *lctx) is(v bval, want string) bool {
	n := len(c.errs)
	c.same("", v, want)
	ok := len(c.errs) == n
	c.errs = c.errs[:n]
	return ok
}

// value is the contents of a field as a value of the program.
func (c *lctx) value(n string) bval {
	kind, name, ok := strings.Cut(n, ":")
	if !ok {
		kind, name = "", n
	}
	v := c.flds[name]
	if v == nil {
		c.fail("no field %s", name)
		return bunk{name}
	}
	switch kind {
	case "f", "f32":
		return c.s.fromBits(c.s.pinned(v))
	case "s":
		b := []*bv{}
		for i := 0; i < v.w/8; i++ {
			x := &bv{w: 8}
			copy(x.b[:8], v.b[8*i:8*i+8])
			b = append(b, x)
		}
		return bstr{b: &b}.norm()
	}
	return v
}

func (c *lctx) build() {
	c.flds = map[string]*bv{}
	o := &bObj{name: "image"}
	o.cells, c.want = c.lay(c.l.img, true)
	if c.l.out != nil {
		_, c.want = c.lay(c.l.out, false)
	}
	c.img = bslice{o, 0, len(o.cells), len(o.cells)}
}

// lay makes the bytes of an image and those that the encoder must reproduce.
func (c *lctx) lay(l []lfld, def bool) (cells []bval, want []*bv) {
	for _, f := range l {
		v := bconst(f.val, 64)
		if f.bits > 0 && def {
			v = c.s.source(f.name, 64, f.bits)
			for i := 0; i < 64; i++ {
				if i >= f.from && i < f.bits {
					continue
				}
				v.b[i] = bZero
				if f.val>>uint(i)&1 == 1 {
					v.b[i] = bOne
				}
			}
		} else if f.bits > 0 {
			if x := c.flds[f.name]; x != nil {
				v = x
			}
		}
		if f.name != "" && def {
			x := *v
			x.w = 8 * f.w
			if x.w > 64 {
				x.w = 64
			}
			c.flds[f.name] = &x
		}
		for i := 0; i < f.w; i++ {
			b := &bv{w: 8}
			j := i
			if f.be {
				j = f.w - 1 - i
			}
			if j < 8 {
				copy(b.b[:8], v.b[8*j:8*j+8])
			}
			cells = append(cells, b)
			var wv *bv
			if !f.loose {
				x := *b
				wv = &x
			}
			want = append(want, wv)
		}
	}
	return
}

// decode follows the decoder on the image.
func (c *lctx) decode() bval {
	l, s := c.l, c.s
	fn := l.decoder(c.p)
	if fn == nil {
		s.stop("undecided", "the decoder no longer exists", nil)
	}
	fn = norm(fn)
	in := entryArgs(c.p, s, fn, l.ctor, c.img)
	if l.args != nil {
		for i, q := range fn.Params {
			if v := l.args(c, i, s.tm.of(q.Type())); v != nil {
				in[i] = v
			}
		}
	}
	return s.call(fn, in, nil, s.tm)
}

func (c *lctx) run() {
	l, s := c.l, c.s
	c.build()
	res := c.decode()
	t, ok := res.(btuple)
	if !ok {
		c.fail("unexpected result")
		return
	}
	switch t[len(t)-1].(type) {
	case bnil:
	case biface:
		c.dead = true
		return
	default:
		c.fail("whether the image is accepted is unknown")
		return
	}
	c.sk, c.skT = t[0], s.tm.of(norm(l.decoder(c.p)).Signature.Results().At(0).Type())
	for _, g := range l.get {
		eq := strings.LastIndex(g, "=")
		call, want := g[:eq], g[eq+1:]
		if call[0] == '.' {
			if want[0] == '[' {
				c.sequence(call, c.field(call[1:]), strings.Fields(strings.Trim(want, "[]")))
			} else {
				c.same(call, c.field(call[1:]), want)
			}
			continue
		}
		name, rest, _ := strings.Cut(call, "(")
		rest = strings.TrimSuffix(rest, ")")
		var args []bval
		if rest != "" {
			for _, a := range strings.Split(rest, ",") {
				switch {
				case a[0] == '@':
					args = append(args, c.value(a[1:]))
				case a == "true":
					args = append(args, bconst(1, 1))
				case a == "false":
					args = append(args, bconst(0, 1))
				default:
					var n, w int
					fmt.Sscanf(a, "%d:%d", &n, &w)
					args = append(args, bconst(uint64(n), w))
				}
			}
		}
		if want == "size" {
			want = fmt.Sprintf("#%d", c.img.len)
		}
		r := c.method(c.sk, c.skT, name, args...)
		if strings.HasPrefix(want, "[") {
			c.sequence(name, r, strings.Fields(strings.Trim(want, "[]")))
			continue
		}
		c.same(call, c.ok(r, call), want)
	}
	if l.after != nil {
		l.after(c)
	}
	if l.enc == nil {
		return
	}
	b := l.enc(c)
	out, isS := b.(bslice)
	if !isS {
		c.fail("the encoder's output is unknown")
		return
	}
	if out.len != len(c.want) {
		c.fail("the encoder writes %d bytes instead of %d", out.len, len(c.want))
		return
	}
	for i, w := range c.want {
		if w == nil {
			continue
		}
		g, ok := out.o.cells[out.off+i].(*bv)
		if !ok {
			c.fail("byte %d written is unknown", i)
			return
		}
		g, w = s.pinned(g), s.pinned(w)
		for j := 0; j < 8; j++ {
			if g.b[j] != w.b[j] {
				c.fail("byte %d (%s) written: bit %d is %s instead of %s", i, c.fieldAt(i), j, s.bitName(g.b[j]), s.bitName(w.b[j]))
				return
			}
		}
	}
}

func (l *layout) decoder(p *Prog) *ssa.Function {
	if l.find != nil {
		return l.find(p)
	}
	return p.Fn(l.dec)
}

// bySignature finds the only function or method of a package with a signature.
func (p *Prog) bySignature(pkg, sig string) (r *ssa.Function) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	q := func(*types.Package) string { return "" }
	for _, f := range p.Funcs {
		if f.Pkg != sp || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		t := f.Signature
		s := types.TypeString(types.NewSignatureType(nil, nil, nil, unnamed(t.Params()), unnamed(t.Results()), t.Variadic()), q)
		if t.Recv() != nil {
			s = types.TypeString(t.Recv().Type(), q) + "." + s
		}
		if s == sig {
			if r != nil {
				return nil
			}
			r = f
		}
	}
	return r
}

func unnamed(t *types.Tuple) *types.Tuple {
	var v []*types.Var
	for i := 0; i < t.Len(); i++ {
		v = append(v, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(v...)
}

// field is an exported field of the decoded object.
func (c *lctx) field(n string) bval {
	q, ok := c.sk.(bptr)
	pt, ok2 := c.skT.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		return bunk{"field"}
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	o, ok2 := q.o.cells[q.i].(*bObj)
	if !ok || !ok2 {
		return bunk{"field"}
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(pt.Elem(), i) == n {
			return bcopy(o.cells[i])
		}
	}
	return bunk{"no field " + n}
}

func (c *lctx) fieldAt(i int) string {
	l := c.l.img
	if c.l.out != nil {
		l = c.l.out
	}
	for _, f := range l {
		if i < f.w {
			if f.name == "" {
				return "fixed"
			}
			return f.name
		}
		i -= f.w
	}
	return "?"
}

// sequence follows an iterator, or a slice, and compares what it yields.
func (c *lctx) sequence(what string, v bval, want []string) {
	k := 0
	item := func(a []bval) bool {
		var flat []bval
		for _, x := range a {
			if g, ok := x.(bagg); ok { // a struct of items
				flat = append(flat, g.f...)
			} else {
				flat = append(flat, x)
			}
		}
		for _, x := range flat {
			if k >= len(want) {
				c.fail("%s yields more than %d values", what, len(want))
				return false
			}
			if want[k] != "_" {
				c.same(fmt.Sprintf("value %d of %s", k, what), x, want[k])
			}
			k++
		}
		return true
	}
	switch x := v.(type) {
	case bfunc:
		y := bfunc{hook: func(a []bval) bval { return bbool(item(a)) }}
		if x.hook != nil {
			x.hook([]bval{y})
		} else {
			c.s.call(x.fn, []bval{y}, x.free, x.tm)
		}
	case bslice:
		for i := 0; i < x.len; i++ {
			item([]bval{bcopy(x.o.cells[x.off+i])})
		}
	case bnil:
	default:
		c.fail("%s: unknown sequence", what)
		return
	}
	if k < len(want) {
		c.fail("%s yields %d values instead of %d", what, k, len(want))
	}
}

func chkC23(p *Prog, r *Report) {
	r.Explain = "rule: for each image variant laid out from the field tables with unknown contents, every accepted path of the decoder yields an object whose accessors return exactly the bits of their fields and from which the encoder writes the same image"
	only := os.Getenv("LAYOUT")
	for _, l := range layouts() {
		if only != "" && !strings.Contains(l.name, only) {
			continue
		}
		decideLayout(p, r, "layout", l)
	}
	r.floor("layout", 255)
}

func decideLayout(p *Prog, r *Report, rule string, l *layout) {
	fn := l.decoder(p)
	if fn == nil {
		r.undecided(rule, l.name, "", "the decoder no longer exists")
		return
	}
	fn = norm(fn)
	var ctx *lctx
	s := l.sim(p, &ctx)
	limit := l.limit
	if limit == 0 {
		limit = 300
	}
	type res struct {
		c  *lctx
		st *bstop
	}
	var all []res
	full := s.explore(limit, func() {
		ctx = &lctx{p: p, s: s, l: l}
		all = append(all, res{c: ctx})
		ctx.run()
	}, func(st *bstop) { all[len(all)-1].st = st })
	accepted := 0
	bad := ""
	pos := p.Pos(fn.Pos())
	for _, x := range all {
		r.Counts["paths"]++
		if x.st != nil {
			bad = x.st.kind + ": " + x.st.msg
			if q := p.Pos(x.st.pos); q != "" {
				bad += " at " + q
			}
			if x.c.dead {
				bad = ""
			}
		}
		if len(x.c.errs) > 0 {
			bad = x.c.errs[0]
		}
		if bad != "" {
			break
		}
		if !x.c.dead {
			accepted++
		}
	}
	switch {
	case bad != "":
		r.bad(rule, l.name, pos, bad)
	case !full:
		r.undecided(rule, l.name, pos, "too many paths")
	case accepted == 0:
		r.bad(rule, l.name, pos, "the decoder accepts no image of this variant")
	default:
		r.ok(rule, l.name, pos)
	}
	r.Counts["fields"] += len(l.img)
	r.Counts["accessors"] += len(l.get)
}

// sim makes an interpreter for a layout.
func (l *layout) sim(p *Prog, at **lctx) *bitsim {
	fn := norm(l.decoder(p))
	s := newBitsim(p)
	s.tm = entryTypes(fn)
	if l.tm != nil {
		for k := range s.tm {
			s.tm[k] = l.tm
		}
	}
	if l.fold {
		initGlobals(p, s, fn)
	}
	s.maxSteps = 3_000_000
	if l.steps > 0 {
		s.maxSteps = l.steps
	}
	s.model = func(f *ssa.Function, in []bval) (bval, bool) {
		n := p.FName(norm(f))
		if n == "internal.ComputeSeedHash" {
			return btuple{bconst(0x93cc, 16), bnil{}}, true
		}
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "math/rand") { // one possible outcome
			switch f.Name() {
			case "Intn", "IntN":
				return bconst(0, 64), true
			case "Float64":
				return fconst(0.5), true
			}
		}
		if m := l.model[n]; m != nil {
			return m(*at, in)
		}
		return nil, false
	}
	return s
}
