package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = chkC11 }

// A cache of derived data inside a sketch.
type cacheSpec struct {
	typ   string // receiver type, pkg.Type
	field string // field component of the cached value
	dirty string // component of the validity flag, "" when a nil reference means "not cached"
}

var caches = []cacheSpec{
	{"kll.ItemsSketch", ".kll/ItemsSketch#sortedView", ""},
	{"req.Sketch", ".req/Sketch#sortedView", ""},
	{"filters.bloomFilterImpl", ".filters/bloomFilterImpl#numBitsSet", ".filters/bloomFilterImpl#isDirty"},
}

// methodsOf: declared methods of a repository type, by canonical name.
func (p *Prog) methodsOf(typ string) []*ssa.Function {
	i := strings.LastIndex(typ, ".")
	pre := typ[:i] + ".(" + typ[i+1:] + ")."
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && strings.HasPrefix(p.FName(f), pre) {
			fs = append(fs, f)
		}
	}
	return fs
}

// fieldTerm: address of a field of the object behind t, found by component.
func (p *Prog) fieldTerm(t *Term, comp string) *Term {
	ft := p.fieldByComp(comp)
	if ft == nil {
		return nil
	}
	return mk("fld", comp, types.NewPointer(ft), t)
}

func exportedName(f *ssa.Function) bool { return token.IsExported(f.Name()) }

// watchMods calls f for every definite or possible write, with the object it belongs to and the
// access path from it.
func watchMods(s *Sim, f func(st *State, root *Term, path []string, addr, val *Term, pos token.Pos)) {
	s.hooks.store = func(st *State, addr, val *Term, pos token.Pos) {
		r, p := deepPath(addr)
		f(st, r, p, addr, val, pos)
	}
	s.hooks.havoc = func(st *State, root *Term, path []string, mi modInfo) {
		r, p := deepPath(root)
		f(st, r, append(append([]string{}, p...), path...), nil, nil, mi.pos)
	}
	s.hooks.loopMod = func(st *State, root *Term, path []string) {
		r, p := deepPath(root)
		f(st, r, append(append([]string{}, p...), path...), nil, nil, token.NoPos)
	}
}

func chkC11(p *Prog, r *Report) {
	r.Explain = "For every mutating method of a type with a cached derived value, all paths are explored; on each path that writes any other part of the receiver and does not end in an error, the cache must be known to be absent or marked stale at the return, or to be the bit count accumulated over the stored words. Sort-status flags must be cleared on every path that appends an item. Queries must rebuild an absent view before using it."
	e := p.Effects()
	for _, c := range caches {
		for _, f := range p.methodsOf(c.typ) {
			if !exportedName(f) || !isMutator(f) {
				continue
			}
			su := e.Sum(f)
			if su == nil {
				continue
			}
			writes := false
			for l := range su.mods {
				if l.R.Kind == rkParam && l.R.Idx == 0 {
					writes = true
				}
			}
			if !writes {
				continue
			}
			p.cacheMutator(r, c, f)
		}
		p.cacheReaders(r, c)
	}
	p.sortFlags(r)
	p.mergedFirst(r, "tdigest.Double", ".tdigest/Double#centroids", ".tdigest/Double#buffer")
	r.floor("stale", 10)
	r.floor("fresh-use", 12)
	r.floor("sort-flag", 2)
	r.floor("merged-first", 2)
}

// popcounts recognises loop accumulators that add up bits.OnesCount64 of consecutive elements.
type popcounts struct {
	ones map[*Term]bool // accumulator symbols that grow by the bit count of the current word
	bad  map[*Term]bool // accumulator symbols that on some iteration grow otherwise
}

func (p *Prog) watchPopcounts(s *Sim) *popcounts {
	pc := &popcounts{map[*Term]bool{}, map[*Term]bool{}}
	s.hooks.back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, old, nw []*Term) {
		for i, ph := range phis {
			if !isIntT(ph.Type()) || old[i].op == "cst" {
				continue
			}
			for j, pr := range h.Preds {
				if !body[pr] {
					c, ok := ph.Edges[j].(*ssa.Const)
					if !ok || c.Value == nil || c.Value.ExactString() != "0" {
						pc.bad[old[i]] = true
					}
				}
			}
			pc.note(st, old[i], nw[i])
		}
		// accumulators kept in memory
		for a, v := range st.mem {
			if a.op == "fld" && v.op == "bin" && isIntT(v.t) {
				for _, x := range v.a {
					if x.op == "ld" && x.a[0] == a {
						pc.note(st, x, v)
					}
				}
			}
		}
	}
	return pc
}

// note: the accumulator acc becomes v at the end of an iteration.
func (pc *popcounts) note(st *State, acc, v *Term) {
	n := 0
	ok := true
	for _, t := range addends(v) {
		switch {
		case t == acc:
			n++
		case isOnes(t) != nil && pc.current(st, isOnes(t)):
		default:
			ok = false
		}
	}
	if ok && n == 1 {
		pc.ones[acc] = true
	} else {
		pc.bad[acc] = true
	}
}

// addends of a sum, without conversions.
func addends(t *Term) []*Term {
	for t.op == "conv" {
		t = t.a[0]
	}
	if t.op == "bin" && strings.HasPrefix(t.s, "+") && len(t.a) == 2 {
		return append(addends(t.a[0]), addends(t.a[1])...)
	}
	return []*Term{t}
}

// isOnes: the argument of a bit-count call.
func isOnes(t *Term) *Term {
	if t.op == "ret" && strings.HasPrefix(t.s, "math/bits.OnesCount") && len(t.a) == 1 {
		return t.a[0]
	}
	return nil
}

// current: x is what some element holds now, and no other element was written since.
func (pc *popcounts) current(st *State, x *Term) bool {
	if x.op == "ld" && st.load(x.a[0], x.t) == x {
		return true
	}
	for a, v := range st.mem {
		if a.op == "elem" && v == x {
			return true
		}
	}
	return false
}

// counts: v is a sum of bit counts of words; zero counts as one when only zeros were stored.
func (pc *popcounts) counts(v *Term, cleared bool) bool {
	for _, t := range addends(v) {
		if n, ok := t.intVal(); ok && n.Sign() == 0 {
			if !cleared && t == v {
				return false
			}
			continue
		}
		if isOnes(t) == nil && !(pc.ones[t] && !pc.bad[t]) {
			return false
		}
	}
	return true
}

func (p *Prog) cacheMutator(r *Report, c cacheSpec, f *ssa.Function) {
	name := p.FName(f)
	s := p.newSim()
	s.budget = 1500000
	args := s.paramTerms(f)
	recv := args[0]
	cacheAddr := p.fieldTerm(recv, c.field)
	var flagAddr *Term
	if c.dirty != "" {
		flagAddr = p.fieldTerm(recv, c.dirty)
	}
	e := p.Effects()
	memo := map[*ssa.Function]bool{}
	touches := func(g *ssa.Function) bool { // the callee may write the cache of some object
		if v, ok := memo[g]; ok {
			return v
		}
		v := false
		if su := e.Sum(g); su != nil {
			for l := range su.mods {
				if strings.Contains(l.P, c.field) || c.dirty != "" && strings.Contains(l.P, c.dirty) {
					v = true
				}
			}
		}
		memo[g] = v
		return v
	}
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		return touches(g) || c.dirty != "" && len(g.Blocks) <= 8 || g.Parent() != nil
	}
	ours := func(path []string) bool {
		return len(path) > 0 && (path[0] == c.field || c.dirty != "" && path[0] == c.dirty)
	}
	nonzero := false
	watchMods(s, func(st *State, root *Term, path []string, addr, val *Term, pos token.Pos) {
		if root != recv || len(path) == 0 || ours(path) {
			return
		}
		if n, ok := intOf(val); !ok || n != 0 {
			if addr != nil {
				nonzero = true
			}
		}
		if pos != token.NoPos || st.user["mod"] == nil {
			st.set("mod", pos)
		}
	})
	pc := p.watchPopcounts(s)
	bad := map[string]token.Pos{}
	type pend struct {
		v   *Term
		pos token.Pos
		tr  string
	}
	var pends []pend
	paths, mods := 0, 0
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		paths++
		m, ok := st.user["mod"].(token.Pos)
		if !ok {
			return
		}
		if i := errIndex(f); i >= 0 && i < len(rets) {
			if isN, known := st.F.nilness(rets[i]); known && !isN {
				return // the operation failed
			}
		}
		mods++
		if c.dirty == "" {
			v := st.load(cacheAddr, p.fieldByComp(c.field))
			if isN, known := st.F.nilness(v); known && isN {
				return
			}
			bad[fmt.Sprintf("content written at %s, cached value kept on a path returning at %s [%s]", p.Pos(m), p.Pos(pos), st.Trace())] = m
			return
		}
		fl := st.load(flagAddr, tBool)
		if v, known := st.F.decide(fl); known && v {
			return
		}
		v := st.load(cacheAddr, p.fieldByComp(c.field))
		pends = append(pends, pend{v, m, fmt.Sprintf("content written at %s, count not marked stale on a path returning at %s [%s]", p.Pos(m), p.Pos(pos), st.Trace())})
	}
	s.Run(f, args, nil)
	for _, q := range pends {
		if !pc.counts(q.v, !nonzero) {
			bad[q.tr] = q.pos
		}
	}
	key := name + " " + c.field
	if s.over {
		r.undecided("stale", key, p.Pos(f.Pos()), "too many paths")
		return
	}
	for m, pos := range bad {
		r.bad("stale", key, p.Pos(pos), m)
		return
	}
	r.ok("stale", key, p.Pos(f.Pos()))
}

// cacheReaders: a query that reads through a cached reference must have made sure it is there.
func (p *Prog) cacheReaders(r *Report, c cacheSpec) {
	if c.dirty != "" {
		p.flagReaders(r, c)
		return
	}
	e := p.Effects()
	for _, f := range p.methodsOf(c.typ) {
		if !exportedName(f) || isMutator(f) {
			continue
		}
		reads := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldComp(fa.X.Type(), fa.Field) == c.field {
					reads = true
				}
			}
		}
		if !reads {
			continue
		}
		s := p.newSim()
		args := s.paramTerms(f)
		addr := p.fieldTerm(args[0], c.field)
		s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
			if su := e.Sum(g); su != nil {
				for l := range su.mods {
					if strings.Contains(l.P, c.field) {
						return true
					}
				}
			}
			return len(g.Blocks) <= 4 && g.Parent() == nil
		}
		bad := ""
		var at token.Pos
		uses := 0
		s.hooks.call = func(st *State, cl *Call) {
			if len(cl.Args) == 0 || cl.Fn == nil || cl.Fn.Signature.Recv() == nil {
				return
			}
			v, ok := st.mem[addr]
			if !ok {
				v = st.load(addr, p.fieldByComp(c.field))
			}
			if cl.Args[0] != v {
				return
			}
			uses++
			if isN, known := st.F.nilness(v); v.op != "ret" && (!known || isN) {
				bad, at = "the cached view may be absent here ["+st.Trace()+"]", cl.Pos
			}
		}
		s.Run(f, args, nil)
		key := p.FName(f) + " " + c.field
		switch {
		case s.over:
			r.undecided("fresh-use", key, p.Pos(f.Pos()), "too many paths")
		case bad != "":
			r.bad("fresh-use", key, p.Pos(at), bad)
		default:
			r.ok("fresh-use", key, p.Pos(f.Pos()))
		}
		_ = uses
	}
}

// flagReaders: a query that returns or compares the cached count must have it recomputed when stale.
func (p *Prog) flagReaders(r *Report, c cacheSpec) {
	for _, f := range p.methodsOf(c.typ) {
		if !exportedName(f) || isMutator(f) || f.Signature.Params().Len() > 0 {
			continue
		}
		s := p.newSim()
		args := s.paramTerms(f)
		addr, flag := p.fieldTerm(args[0], c.field), p.fieldTerm(args[0], c.dirty)
		pc := p.watchPopcounts(s)
		s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool { return len(g.Blocks) <= 8 }
		uses, bad := 0, ""
		var vals []*Term
		init := false
		s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
			for _, t := range rets {
				if t.contains(func(x *Term) bool { return x.op == "ld" && x.a[0] == addr }) {
					init = true
					uses++
					if v, known := st.F.decide(st.load(flag, tBool)); !known || v {
						bad = "returns the cached count although it may be stale [" + st.Trace() + "]"
					}
				}
				if basicOf(t.t) != nil && isIntT(t.t) && st.mem[addr] == t && t.op != "ld" {
					uses++
					vals = append(vals, t)
				}
			}
		}
		s.Run(f, args, nil)
		if uses == 0 {
			continue
		}
		for _, v := range vals {
			if !pc.counts(v, false) {
				bad = "recomputes the count from something other than the bits of every word"
			}
		}
		_ = init
		key := p.FName(f) + " " + c.field
		switch {
		case s.over:
			r.undecided("fresh-use", key, p.Pos(f.Pos()), "too many paths")
		case bad != "":
			r.bad("fresh-use", key, p.Pos(f.Pos()), bad)
		default:
			r.ok("fresh-use", key, p.Pos(f.Pos()))
		}
	}
}

// sortFlags: a function that appends one item to a buffer with a sort-status flag clears the flag
// after the last write, or sorts.
func (p *Prog) sortFlags(r *Report) {
	for _, c := range []struct{ fn, items, flag string }{
		{"kll.(ItemsSketch).Update", ".kll/ItemsSketch#items", ".kll/ItemsSketch#isLevelZeroSorted"},
		{"req.(compactor).Append", ".req/compactor#items", ".req/compactor#sorted"},
	} {
		f := p.Fn(c.fn)
		if f == nil {
			r.undecided("sort-flag", c.fn, "", "function not found")
			continue
		}
		s := p.newSim()
		s.budget = 1500000
		args := s.paramTerms(f)
		flag := p.fieldTerm(args[0], c.flag)
		e := p.Effects()
		s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
			su := e.Sum(g)
			if su == nil {
				return false
			}
			for l := range su.mods {
				if strings.Contains(l.P, c.flag) {
					return true
				}
			}
			return false
		}
		bad := ""
		n := 0
		watchMods(s, func(st *State, root *Term, path []string, addr, val *Term, pos token.Pos) {
			if root == args[0] && len(path) == 3 && path[0] == c.items && addr != nil {
				st.set("app", pos)
			}
		})
		s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
			m, ok := st.user["app"].(token.Pos)
			if !ok {
				return
			}
			n++
			if v, known := st.F.decide(st.load(flag, tBool)); !known || v {
				bad = fmt.Sprintf("an item is stored at %s and the buffer may still be marked sorted [%s]", p.Pos(m), st.Trace())
			}
		}
		s.Run(f, args, nil)
		switch {
		case s.over:
			r.undecided("sort-flag", c.fn, p.Pos(f.Pos()), "too many paths")
		case bad != "":
			r.bad("sort-flag", c.fn, p.Pos(f.Pos()), bad)
		case n == 0:
			r.undecided("sort-flag", c.fn, p.Pos(f.Pos()), "no path stores an item")
		default:
			r.ok("sort-flag", c.fn, p.Pos(f.Pos()))
		}
	}
}

// intOf: a constant integer value.
func intOf(t *Term) (int64, bool) {
	if t == nil || t.op != "cst" {
		return 0, false
	}
	n, ok := t.intVal()
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

// mergedFirst: an analysis of the t-digest's centroids starts with all buffered values merged in.
func (p *Prog) mergedFirst(r *Report, typ, content, buffer string) {
	for _, f := range p.methodsOf(typ) {
		if !exportedName(f) || isMutator(f) || errIndex(f) < 0 || f.Signature.Results().Len() < 2 {
			continue
		}
		s := p.newSim()
		s.budget = 1500000
		args := s.paramTerms(f)
		recv := args[0]
		if b := basicOf(f.Signature.Results().At(0).Type()); b == nil || !isFloatT(b) || len(args) < 2 {
			continue // not an estimate
		}
		ca, ba := p.fieldTerm(recv, content), p.fieldTerm(recv, buffer)
		s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool { return true }
		bad, uses := "", 0
		var at token.Pos
		s.hooks.index = func(st *State, base, idx *Term, pos token.Pos) {
			if bad != "" || base == nil || st.load(ca, p.fieldByComp(content)) != base {
				return
			}
			// only reads by the query itself, not by the merging
			for _, fr := range st.frames {
				if fr.fn != f && fr.fn.Signature.Results().Len() == 0 && p.writesField(fr.fn, buffer) {
					return
				}
			}
			uses++
			b := st.load(ba, p.fieldByComp(buffer))
			if iv := st.F.intv(st.lenOf(b)); iv.hi == nil || iv.hi.Sign() > 0 {
				bad, at = "reads the merged content although values may still be waiting in the buffer ["+st.Trace()+"]", pos
			}
		}
		s.Run(f, args, nil)
		key := p.FName(f) + " " + buffer
		switch {
		case s.over:
			r.undecided("merged-first", key, p.Pos(f.Pos()), "too many paths")
		case bad != "":
			r.bad("merged-first", key, p.Pos(at), bad)
		case uses > 0:
			r.ok("merged-first", key, p.Pos(f.Pos()))
		}
	}
}

func (p *Prog) writesField(f *ssa.Function, comp string) bool {
	if su := p.Effects().Sum(f); su != nil {
		for l := range su.mods {
			if strings.Contains(l.P, comp) {
				return true
			}
		}
	}
	return false
}
