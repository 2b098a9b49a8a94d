package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = func(p *Prog, r *Report) { chkCompat(p, r, "C06") }
	checks["C21"] = func(p *Prog, r *Report) { chkCompat(p, r, "C21") }
}

// A combining operation and an attribute its operands must agree on.
type compat struct {
	prop string
	fn   string
	args []int  // the parameters whose attribute is compared
	attr string // accessor method of the argument; "=x": field holding parameter x of the constructor
	same bool   // the other side is the same attribute of the receiver; else anything of the receiver
	seed int    // for functions: index of the seed parameter, -1 for methods
}

var compats = []compat{
	{"C06", "theta.(Union).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "theta.(Intersection).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "theta.ANotB", []int{0, 1}, "SeedHash", false, 2},
	{"C06", "tuple.(Union).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "tuple.(Intersection).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "tuple.(ArrayOfNumbersSketchUnion).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "tuple.(ArrayOfNumbersSketchIntersection).Update", []int{1}, "SeedHash", false, -1},
	{"C06", "tuple.ANotB", []int{0, 1}, "SeedHash", false, 2},
	{"C06", "tuple.TupleANotThetaB", []int{0, 1}, "SeedHash", false, 2},
	{"C06", "tuple.ArrayOfNumbersSketchANotB", []int{0, 1}, "SeedHash", false, 2},
	{"C06", "cpc.(CpcUnion).Update", []int{1}, "=cpc.NewCpcSketch:1", false, -1},
	{"C06", "filters.(bloomFilterImpl).Union", []int{1}, "Seed", true, -1},
	{"C06", "filters.(bloomFilterImpl).Intersect", []int{1}, "Seed", true, -1},
	{"C06", "count.(CountMinSketch).Merge", []int{1}, "GetSeed", true, -1},
	{"C06", "theta.Jaccard", []int{0, 1}, "combiner", false, 2},
	{"C06", "theta.IsExactlyEqual", []int{0, 1}, "combiner", false, 2},
	{"C06", "theta.IsSimilar", []int{0, 1}, "combiner", false, 3},
	{"C06", "theta.IsDissimilar", []int{0, 1}, "combiner", false, 3},
	{"C06", "tuple.Jaccard", []int{0, 1}, "combiner", false, 3},
	{"C06", "tuple.IsExactlyEqual", []int{0, 1}, "combiner", false, 3},
	{"C06", "tuple.IsSimilar", []int{0, 1}, "combiner", false, 4},
	{"C06", "tuple.IsDissimilar", []int{0, 1}, "combiner", false, 4},

	{"C21", "filters.(bloomFilterImpl).Union", []int{1}, "NumHashes", true, -1},
	{"C21", "filters.(bloomFilterImpl).Union", []int{1}, "Capacity", true, -1},
	{"C21", "filters.(bloomFilterImpl).Union", []int{1}, "Seed", true, -1},
	{"C21", "filters.(bloomFilterImpl).Intersect", []int{1}, "NumHashes", true, -1},
	{"C21", "filters.(bloomFilterImpl).Intersect", []int{1}, "Capacity", true, -1},
	{"C21", "filters.(bloomFilterImpl).Intersect", []int{1}, "Seed", true, -1},
	{"C21", "count.(CountMinSketch).Merge", []int{1}, "GetNumHashes", true, -1},
	{"C21", "count.(CountMinSketch).Merge", []int{1}, "GetNumBuckets", true, -1},
	{"C21", "count.(CountMinSketch).Merge", []int{1}, "GetSeed", true, -1},
	{"C21", "req.(Sketch).Merge", []int{1}, "IsHighRankAccuracyMode", true, -1},
	{"C21", "tuple.(ArrayOfNumbersSketchUnion).Update", []int{1}, "NumValuesInSummary", false, -1},
	{"C21", "tuple.(ArrayOfNumbersSketchIntersection).Update", []int{1}, "NumValuesInSummary", false, -1},
}

// accessorTerm: what the method returns for obj in the initial state; nil unless it has one path.
func (p *Prog) accessorTerm(g *ssa.Function, obj *Term, res int) *Term {
	s := p.newSim()
	s.hooks.inline = func(st *State, h *ssa.Function, a []*Term) bool { return len(h.Blocks) <= 4 }
	var out *Term
	n := 0
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		if res < len(rets) {
			out = rets[res]
		}
	}
	s.Run(g, []*Term{obj}, nil)
	if n != 1 {
		return nil
	}
	return out
}

// methodOn: the method of a concrete receiver type, or of the only implementation of an interface,
// together with the object to apply it to; nil for interfaces with several implementations.
func (p *Prog) methodOn(obj *Term, name string) (*ssa.Function, *Term) {
	t := obj.t
	if it, ok := types.Unalias(t).Underlying().(*types.Interface); ok && !isTypeParam(t) {
		var impl *ssa.Function
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != name {
				continue
			}
			for _, f := range p.Funcs {
				if f.Name() == name && f.Signature.Recv() != nil && f.Synthetic == "" && types.Implements(f.Signature.Recv().Type(), it) {
					if impl != nil {
						return nil, nil
					}
					impl = f
				}
			}
		}
		if impl == nil {
			return nil, nil
		}
		rt := impl.Params[0].Type()
		return impl, mk("as", typStr(rt), rt, obj)
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return nil, nil
	}
	return p.Fn(shortPkg(n.Obj().Pkg()) + ".(" + n.Obj().Name() + ")." + name), obj
}

// heldField: access path, from the result of constructor g, of the field that keeps parameter i.
func (p *Prog) heldField(g *ssa.Function, i int) []string {
	s := p.newSim()
	args := s.paramTerms(g)
	var out []string
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		if out != nil || rets[0].isNil() {
			return
		}
		for a, v := range st.mem {
			if v == args[i] {
				if r, path := addrPath(a); r == rets[0] && len(path) == 1 {
					out = path
				}
			}
		}
	}
	s.Run(g, args, nil)
	return out
}

// whole: t without conversions that keep at least bits bits.
func whole(t *Term, bits int) *Term {
	for t.op == "conv" && intBits(t.t) >= bits {
		t = t.a[0]
	}
	return t
}

type eqFact struct{ a, b *Term }

// watchEq collects the equalities the path has tested.
func watchEq(s *Sim, also func(st *State, c *Term, v bool)) {
	s.hooks.branch = func(st *State, c *Term, v bool, pos token.Pos) {
		if also != nil {
			also(st, c, v)
		}
		for c.op == "not" {
			c, v = c.a[0], !v
		}
		if c.op != "bin" || len(c.a) != 2 {
			return
		}
		if op := c.binOp(); op == token.EQL && v || op == token.NEQ && !v {
			old, _ := st.user["eqs"].([]eqFact)
			st.set("eqs", append(old[:len(old):len(old)], eqFact{c.a[0], c.a[1]}))
		}
	}
}

func (st *State) eqs() []eqFact {
	e, _ := st.user["eqs"].([]eqFact)
	return e
}

func has(t, x *Term) bool { return t.contains(func(y *Term) bool { return y == x }) }

func chkCompat(p *Prog, r *Report, prop string) {
	if prop == "C06" {
		r.Explain = "For every operation that combines hashed sketches: on each path, at every possible write to the receiver and at every successful return, the path must have established that the argument's whole seed (or seed fingerprint) equals one derived from the receiver or the seed parameter; paths on which the argument is known to be empty are exempt, as are paths that neither look at the argument nor write. Similarity operations must pass each argument to such a combiner built with the caller's seed. Decoders with an expected seed must return a sketch whose fingerprint is known to be that of the expected seed."
		r.floor("agree", 25)
		r.floor("decoded", 6)
	} else {
		r.Explain = "For every merge of sketches whose shapes have to agree: on each path, at every possible write to the receiver and at every successful return, the path must have established that the attribute read from the argument equals the receiver's; empty arguments are exempt."
		r.floor("agree", 12)
	}
	verified := map[*ssa.Function]bool{}
	for _, c := range compats {
		if f := p.Fn(c.fn); f != nil && c.prop == "C06" {
			verified[f] = true
		}
	}
	for _, c := range compats {
		if c.prop != prop {
			continue
		}
		f := p.Fn(c.fn)
		if f == nil {
			r.undecided("agree", c.fn+" "+c.attr, "", "function not found")
			continue
		}
		for _, a := range c.args {
			p.mustAgree(r, c, f, a, verified)
		}
	}
	if prop == "C06" {
		p.seedDecoders(r)
	}
}

func (p *Prog) mustAgree(r *Report, c compat, f *ssa.Function, ai int, verified map[*ssa.Function]bool) {
	key := fmt.Sprintf("%s arg%d %s", p.FName(f), ai, strings.TrimPrefix(c.attr, "="))
	s := p.newSim()
	s.budget = 2000000
	if c.attr == "combiner" {
		s.peel = 4
	}
	args := s.paramTerms(f)
	arg := args[ai]
	var other *Term // the receiver or the seed parameter
	if c.seed >= 0 {
		other = args[c.seed]
	} else {
		other = args[0]
	}
	// the attribute of the argument
	var attr, mine *Term
	attrName := ""
	switch {
	case c.attr == "combiner":
	case strings.HasPrefix(c.attr, "="):
		i := strings.LastIndex(c.attr, ":")
		g := p.Fn(c.attr[1:i])
		var path []string
		if g != nil {
			path = p.heldField(g, int(c.attr[i+1]-'0'))
		}
		if path == nil {
			r.undecided("agree", key, p.Pos(f.Pos()), "the field that keeps the attribute was not found")
			return
		}
		a := p.fieldTerm(arg, path[0])
		attr = mk("ld", "", p.fieldByComp(path[0]), a)
	default:
		if g, obj := p.methodOn(arg, c.attr); g != nil {
			attr = p.accessorTerm(g, obj, 0)
			if attr == nil {
				r.undecided("agree", key, p.Pos(f.Pos()), "the accessor has no single result")
				return
			}
			if c.same {
				mine = p.accessorTerm(g, args[0], 0)
			}
		}
		attrName = "iface." + c.attr
	}
	var empty *Term
	if g, obj := p.methodOn(arg, "IsEmpty"); g != nil {
		empty = p.accessorTerm(g, obj, 0)
	}
	isAttr := func(t *Term) bool {
		if attr != nil && whole(t, max(intBits(attr.t), 1)) == whole(attr, max(intBits(attr.t), 1)) {
			return true
		}
		t = whole(t, attrBits(p, t))
		return attrName != "" && retName(t) == attrName && len(t.a) > 0 && (t.a[0] == arg)
	}
	isOther := func(t *Term) bool {
		if mine != nil {
			return whole(t, max(intBits(mine.t), 1)) == whole(mine, max(intBits(mine.t), 1))
		}
		t = whole(t, 8)
		if c.attr != "combiner" && (t.op == "bin" || t.op == "cst") {
			return false
		}
		return has(t, other) && !has(t, arg)
	}
	agreed := func(st *State) bool {
		for _, e := range st.eqs() {
			if isAttr(e.a) && isOther(e.b) || isAttr(e.b) && isOther(e.a) {
				return true
			}
		}
		for _, ch := range st.checkedBy() {
			if isN, known := st.F.nilness(ch.err); ch.arg == arg && known && isN {
				return true
			}
		}
		return false
	}
	exemptArg := func(st *State) bool {
		if isN, known := st.F.nilness(arg); known && isN {
			return true
		}
		if empty != nil {
			if v, known := st.F.decide(empty); known && v {
				return true
			}
		}
		for t, v := range st.F.cond {
			if v && retName(t) == "iface.IsEmpty" && len(t.a) > 0 && t.a[0] == arg {
				return true
			}
		}
		// both operands are one and the same sketch
		if len(c.args) == 2 {
			for _, e := range st.eqs() {
				if e.a == args[c.args[0]] && e.b == args[c.args[1]] || e.b == args[c.args[0]] && e.a == args[c.args[1]] {
					return true
				}
			}
			for _, i := range c.args {
				for t, v := range st.F.cond {
					if v && retName(t) == "iface.IsEmpty" && len(t.a) > 0 && t.a[0] == args[i] {
						return true
					}
				}
			}
		}
		return false
	}
	bad := map[string]token.Pos{}
	if c.seed < 0 {
		watchMods(s, func(st *State, root *Term, path []string, addr, val *Term, pos token.Pos) {
			if root != args[0] || len(path) == 0 {
				return
			}
			if addr != nil && val != nil && st.load(addr, val.t) == val {
				return // writes what is there
			}
			st.set("mod", true)
			if agreed(st) || exemptArg(st) {
				return
			}
			bad[fmt.Sprintf("the receiver may be written at %s before the operands are known to agree [%s]", p.Pos(pos), st.Trace())] = pos
		})
	}
	watchEq(s, func(st *State, cd *Term, v bool) {
		if has(cd, arg) {
			st.set("looked", true)
		}
	})
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		if verified[norm(g)] && norm(g) != f {
			return false
		}
		if c.attr == "combiner" {
			for _, x := range a {
				if x == arg {
					return true
				}
			}
			return g.Parent() != nil || strings.HasPrefix(g.Name(), "New") || strings.HasPrefix(g.Name(), "new") || len(g.Blocks) <= 3
		}
		return len(s.loopsOf(g).body) == 0 && len(g.Blocks) <= 20 && g.Name() != "ComputeSeedHash"
	}
	s.hooks.call = func(st *State, call *Call) {
		if call.Fn != nil && verified[norm(call.Fn)] && !call.Inline {
			for _, vc := range compats {
				if vc.prop == "C06" && p.Fn(vc.fn) == norm(call.Fn) {
					st.set("seedok", p.usesSeed(st, call, vc, other))
				}
			}
		}
	}
	s.hooks.after = func(st *State, call *Call, res *Term) {
		if call.Fn == nil || !verified[norm(call.Fn)] || call.Inline {
			return
		}
		g := norm(call.Fn)
		var e *Term
		if res != nil && res.op == "tuple" {
			e = res.a[len(res.a)-1]
		} else {
			e = res
		}
		for _, vc := range compats {
			if vc.prop != "C06" || p.Fn(vc.fn) != g {
				continue
			}
			for _, i := range vc.args {
				if i >= len(call.Args) || call.Args[i] != arg {
					continue
				}
				if st.user["seedok"] != true {
					bad[fmt.Sprintf("%s is not given the caller's seed at %s", call.Name, p.Pos(call.Pos))] = call.Pos
					continue
				}
				old := st.checkedBy()
				st.set("checked", append(old[:len(old):len(old)], checkedArg{arg, e}))
			}
		}
	}
	n := 0
	ei := errIndex(f)
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		if isN, known := st.F.nilness(rets[ei]); known && !isN {
			return
		}
		if agreed(st) || exemptArg(st) {
			return
		}
		// the error of a combiner is handed on
		for _, ch := range st.checkedBy() {
			if ch.arg == arg && ch.err == rets[ei] {
				return
			}
		}
		if c.seed < 0 && st.user["mod"] == nil && st.user["looked"] == nil {
			return
		}
		bad[fmt.Sprintf("success is reported at %s although the operands may differ [%s]", p.Pos(pos), st.Trace())] = pos
	}
	if ei < 0 {
		r.undecided("agree", key, p.Pos(f.Pos()), "no error result")
		return
	}
	s.Run(f, args, nil)
	var ms []string
	for m := range bad {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	switch {
	case len(ms) > 0:
		r.bad("agree", key, p.Pos(bad[ms[0]]), strings.Join(ms, " ## "))
	case s.over || n == 0:
		r.undecided("agree", key, p.Pos(f.Pos()), "not all paths were explored")
	default:
		r.ok("agree", key, p.Pos(f.Pos()))
	}
}

type checkedArg struct{ arg, err *Term }

func (st *State) checkedBy() []checkedArg {
	c, _ := st.user["checked"].([]checkedArg)
	return c
}

func attrBits(p *Prog, t *Term) int {
	for t.op == "conv" {
		t = t.a[0]
	}
	return max(intBits(t.t), 1)
}

// usesSeed: the combiner that is called works with the given seed.
func (p *Prog) usesSeed(st *State, call *Call, vc compat, seed *Term) bool {
	if vc.seed >= 0 {
		return whole(call.Args[vc.seed], 64) == seed
	}
	obj, _ := deepPath(call.Args[0])
	seen, _ := st.user["seeded"].([]*Term)
	for _, o := range seen {
		if o == obj {
			return true // rule seed-kept: later calls do not change it
		}
	}
	if !seedIn(st, obj, seed) {
		return false
	}
	st.set("seeded", append(seen[:len(seen):len(seen)], obj))
	return true
}

func seedIn(st *State, obj, seed *Term) bool {
	for a, v := range st.mem {
		if whole(v, 64) == seed {
			if r, _ := deepPath(a); r == obj {
				return true
			}
		}
		// objects the combiner refers to
		if rv, _ := deepPath(v); rv != nil {
			if r, _ := deepPath(a); r == obj {
				for b, w := range st.mem {
					if whole(w, 64) == seed {
						if rb, _ := deepPath(b); rb == rv {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// Objects that keep a seed, the constructor (and option) that sets it.
var seeded = []struct{ typ, ctor, opt string }{
	{"theta.Union", "theta.NewUnion", "theta.WithUnionSeed"},
	{"theta.Intersection", "theta.NewIntersection", "theta.WithIntersectionSeed"},
	{"theta.QuickSelectUpdateSketch", "theta.NewQuickSelectUpdateSketch", "theta.WithUpdateSketchSeed"},
	{"tuple.Union", "tuple.NewUnion", "tuple.WithUnionSeed"},
	{"tuple.Intersection", "tuple.NewIntersection", "tuple.WithIntersectionSeed"},
	{"tuple.UpdateSketch", "tuple.NewUpdateSketch", "tuple.WithUpdateSketchSeed"},
	{"tuple.ArrayOfNumbersSketchUnion", "tuple.NewArrayOfNumbersSketchUnion", "tuple.WithUnionSeed"},
	{"tuple.ArrayOfNumbersSketchIntersection", "tuple.NewArrayOfNumbersSketchIntersection", "tuple.WithIntersectionSeed"},
	{"tuple.ArrayOfNumbersUpdateSketch", "tuple.NewArrayOfNumbersUpdateSketch", "tuple.WithUpdateSketchSeed"},
	{"cpc.CpcSketch", "cpc.NewCpcSketch", "1"},
	{"cpc.CpcUnion", "cpc.NewCpcUnionSketch", "1"},
	{"count.CountMinSketch", "count.NewCountMinSketch", "2"},
}

// seedPath: access path from the object to where the constructor keeps the seed. Every successful
// path of the constructor must keep it there.
func (p *Prog) seedPath(r *Report, ctor, opt string) []string {
	f := p.Fn(ctor)
	key := ctor
	if f == nil {
		r.undecided("seed-set", key, "", "constructor not found")
		return nil
	}
	s := p.newSim()
	s.peel = 2
	args := s.paramTerms(f)
	var seed *Term
	var of *ssa.Function
	var oargs []*Term
	if len(opt) == 1 {
		seed = args[opt[0]-'0']
	} else {
		if of = p.Fn(opt); of == nil {
			r.undecided("seed-set", key, "", "option not found")
			return nil
		}
		oargs = p.optArgs(of)
		seed = oargs[0]
	}
	var path []string
	n := 0
	bad := ""
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		return g.Name() != "ComputeSeedHash"
	}
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		if i := errIndex(f); i >= 0 {
			if isN, known := st.F.nilness(rets[i]); known && !isN {
				return
			}
		}
		n++
		var got []string
		var walk func(obj *Term, pre []string, d int)
		walk = func(obj *Term, pre []string, d int) {
			for a, v := range st.mem {
				r, path := addrPath(a)
				if r != obj {
					continue
				}
				full := append(append([]string{}, pre...), path...)
				if whole(v, 64) == seed {
					if got == nil || len(full) > len(got) || len(full) == len(got) && strings.Join(full, "") < strings.Join(got, "") {
						got = full
					}
				} else if d < 2 && v.op == "alloc" {
					walk(v, append(full, "*"), d+1)
				}
			}
		}
		if x := rets[0]; x.op == "agg" {
			for i, v := range x.a {
				if whole(v, 64) == seed && got == nil {
					got = []string{fieldComp(types.NewPointer(x.t), i)}
				}
			}
		} else {
			walk(x, nil, 0)
		}
		if got == nil || path != nil && strings.Join(got, "") != strings.Join(path, "") {
			bad = "the seed is not kept on the path returning at " + p.Pos(pos)
			return
		}
		path = got
	}
	s.Run(f, args, func(st *State) {
		if of != nil {
			withOption(s, st, of, oargs)
		}
	})
	switch {
	case bad != "":
		r.bad("seed-set", key, p.Pos(f.Pos()), bad)
	case s.over || n == 0:
		r.undecided("seed-set", key, p.Pos(f.Pos()), "not all paths were explored")
	default:
		r.ok("seed-set", key, p.Pos(f.Pos()))
	}
	return path
}

func (p *Prog) seedDecoders(r *Report) {
	for _, x := range seeded {
		if path := p.seedPath(r, x.ctor, x.opt); path != nil {
			for _, f := range p.methodsOf(x.typ) {
				if exportedName(f) && isMutator(f) {
					p.seedKept(r, f, path)
				}
			}
		}
	}
	r.floor("seed-set", 12)
	r.floor("seed-kept", 20)
	for _, d := range []struct {
		fn   string
		seed int // parameter holding the expected seed, or the receiver
		res  bool
	}{
		{"theta.Decode", 1, true},
		{"theta.(Decoder).Decode", 0, true},
		{"theta.WrapCompactSketch", 1, true},
		{"tuple.(Decoder).Decode", 0, true},
		{"tuple.(ArrayOfNumbersSketchDecoder).Decode", 0, true},
		{"tuple.Decode", 1, true},
		{"tuple.DecodeArrayOfNumbersCompactSketch", 1, true},
		{"cpc.NewCpcSketchFromSlice", 1, false},
		{"cpc.NewCpcSketchFromSliceWithDefault", -1, false},
		{"count.(CountMinSketch).Deserialize", 2, false},
	} {
		f := p.Fn(d.fn)
		if f == nil {
			r.undecided("decoded", d.fn, "", "decoder not found")
			continue
		}
		p.decodesOwnSeed(r, f, d.seed, d.res)
	}
	r.floor("decoded", 10)
}

// seedKept: a successful call leaves the seed at path as it was.
func (p *Prog) seedKept(r *Report, f *ssa.Function, path []string) {
	key := p.FName(f)
	s := p.newSim()
	s.budget = 2000000
	args := s.paramTerms(f)
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		return len(s.loopsOf(g).body) == 0 && len(g.Blocks) <= 12 && g.Name() != "ComputeSeedHash"
	}
	at := func(st *State) *Term {
		t := args[0]
		for i, c := range path {
			if c == "*" {
				continue
			}
			a := p.fieldTerm(t, c)
			if a == nil {
				return nil
			}
			if i+1 < len(path) && path[i+1] != "*" {
				t = a
				continue
			}
			t = st.load(a, p.fieldByComp(c))
		}
		return t
	}
	var old *Term
	bad := ""
	n := 0
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		n++
		if now := at(st); whole(now, 64) != whole(old, 64) {
			bad = fmt.Sprintf("the seed may change (%v) on a path returning at %s [%s]", now, p.Pos(pos), st.Trace())
		}
	}
	s.Run(f, args, func(st *State) { old = at(st) })
	switch {
	case bad != "":
		r.bad("seed-kept", key, p.Pos(f.Pos()), bad)
	case s.over:
		r.undecided("seed-kept", key, p.Pos(f.Pos()), "not all paths were explored")
	default:
		r.ok("seed-kept", key, p.Pos(f.Pos()))
	}
}

// evalIn: what g returns in the current state, for a function with a single feasible path.
func (st *State) evalIn(g *ssa.Function, args []*Term) []*Term {
	s := st.sim
	saved := s.hooks
	defer func() { s.hooks = saved }()
	n := st.fork()
	base := len(n.frames)
	var out []*Term
	s.hooks = Hooks{inline: func(st *State, h *ssa.Function, a []*Term) bool { return len(h.Blocks) <= 4 }, model: saved.model}
	s.hooks.leave = func(x *State, h *ssa.Function, rets []*Term) {
		if len(x.frames) == base+1 && out == nil {
			out = rets
		}
	}
	n.push(g, args, nil, nil, nil)
	for i := 0; i < 200 && out == nil; i++ {
		a, b := n.step()
		if a == nil || b != nil {
			return nil
		}
		n = a
	}
	return out
}

func (p *Prog) decodesOwnSeed(r *Report, f *ssa.Function, si int, res bool) {
	key := p.FName(f)
	s := p.newSim()
	s.budget = 3000000
	args := s.paramTerms(f)
	var seed *Term
	if si >= 0 {
		seed = args[si]
	}
	loopy := map[*ssa.Function]bool{}
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		if g.Name() == "ComputeSeedHash" {
			return false
		}
		if errIndex(g) >= 0 && g.Signature.Results().Len() > 1 { // part of the decoding
			return len(g.Blocks) <= 60 && !loopy[g]
		}
		return len(s.loopsOf(g).body) == 0 && len(g.Blocks) <= 12
	}
	// fingerprints of the expected seed
	s.hooks.after = func(st *State, c *Call, x *Term) {
		if c.Name == "internal.ComputeSeedHash" && x != nil && x.op == "tuple" {
			if a := whole(c.Args[0], 64); seed != nil && (a == seed || has(a, seed)) || seed == nil && a.op == "cst" {
				old, _ := st.user["want"].([]*Term)
				st.set("want", append(old[:len(old):len(old)], x.a[0]))
			}
		}
		if strings.HasSuffix(c.Name, "binary.Read") && len(c.Args) == 3 {
			t := c.Args[2]
			for t.op == "iface" {
				t = t.a[0]
			}
			ro, _ := deepPath(t)
			old, _ := st.user["read"].([]*Term)
			st.set("read", append(old[:len(old):len(old)], ro))
		}
	}
	watchEq(s, nil)
	isWant := func(st *State, t *Term) bool {
		want, _ := st.user["want"].([]*Term)
		for _, w := range want {
			if whole(t, 16) == whole(w, 16) {
				return true
			}
		}
		return false
	}
	fromImage := func(st *State, t *Term) bool {
		t = whole(t, 16)
		if t.op == "bin" || intBits(t.t) < 16 {
			return false
		}
		read, _ := st.user["read"].([]*Term)
		return t.contains(func(x *Term) bool {
			if x.op == "param" && x.t != nil && isSliceType(x.t) {
				return true
			}
			for _, ro := range read {
				if x == ro {
					return true
				}
			}
			return false
		})
	}
	equalWant := func(st *State, t *Term) bool {
		if isWant(st, t) {
			return true
		}
		for _, e := range st.eqs() {
			if whole(e.a, 16) == whole(t, 16) && isWant(st, e.b) || whole(e.b, 16) == whole(t, 16) && isWant(st, e.a) {
				return true
			}
		}
		return false
	}
	bad := ""
	n := 0
	ei := errIndex(f)
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		if isN, known := st.F.nilness(rets[ei]); known && !isN {
			return
		}
		n++
		if res {
			obj := rets[0]
			m := namedOf(f.Signature.Results().At(0).Type())
			pre := shortPkg(m.Obj().Pkg()) + ".(" + m.Obj().Name() + ")."
			if e := st.evalIn(p.Fn(pre+"IsEmpty"), []*Term{obj}); len(e) == 1 {
				if v, known := st.F.decide(e[0]); known && v {
					return
				}
			}
			if h := st.evalIn(p.Fn(pre+"SeedHash"), []*Term{obj}); len(h) == 2 && equalWant(st, h[0]) {
				return
			}
		} else {
			for _, e := range st.eqs() {
				if fromImage(st, e.a) && isWant(st, e.b) || fromImage(st, e.b) && isWant(st, e.a) {
					return
				}
			}
		}
		bad = fmt.Sprintf("a sketch may be returned at %s although the image belongs to another seed [%s]", p.Pos(pos), st.Trace())
	}
	s.Run(f, args, nil)
	switch {
	case bad != "":
		r.bad("decoded", key, p.Pos(f.Pos()), bad)
	case s.over || n == 0:
		r.undecided("decoded", key, p.Pos(f.Pos()), fmt.Sprintf("not all paths were explored (%d)", n))
	default:
		r.ok("decoded", key, p.Pos(f.Pos()))
	}
}
