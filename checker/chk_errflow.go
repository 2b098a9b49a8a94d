package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = chkC10 }

func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// A call's error that the path has to account for.
type errRec struct {
	t    *Term
	pos  token.Pos
	what string
}

// neverFails: every return of f has a nil error.
func (p *Prog) neverFails() map[*ssa.Function]bool {
	ok := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if errIndex(f) >= 0 && len(f.Blocks) > 0 {
			ok[f] = true
		}
	}
	var fine func(v ssa.Value, seen map[ssa.Value]bool) bool
	callFine := func(c *ssa.Call) bool {
		g := c.Call.StaticCallee()
		if g == nil {
			return false
		}
		if !p.IsRepo(g) {
			return cannotFail(p.newSim().fullName(g))
		}
		return ok[norm(g)]
	}
	fine = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !fine(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			if c, k := x.Tuple.(*ssa.Call); k {
				return callFine(c)
			}
		case *ssa.Call:
			return callFine(x)
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for f := range ok {
			for _, b := range f.Blocks {
				if rt, k := b.Instrs[len(b.Instrs)-1].(*ssa.Return); k {
					if !fine(rt.Results[len(rt.Results)-1], map[ssa.Value]bool{}) {
						delete(ok, f)
						changed = true
						break
					}
				}
			}
		}
	}
	return ok
}

// cannotFail: library calls documented never to return an error.
func cannotFail(n string) bool {
	for _, pre := range []string{"strings.Builder.", "bytes.Buffer.Write", "(*strings.Builder)", "(*bytes.Buffer).Write", "hash/", "fmt.Print", "github.com/cespare/xxhash/v2.Digest.Write"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return false
}

func chkC10(p *Prog, r *Report) {
	r.Explain = "For every repository function that calls something returning an error, all paths are explored with the call's error unconstrained; on each path that returns, every such error must be known to be nil, or be the error returned, or the returned error must be known to be non-nil. An error carried around a loop must not be overwritten unchecked. A call whose callee has only nil-error returns cannot fail."
	never := p.neverFails()
	ans := p.answers()
	api := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || api[f] || !p.IsRepo(f) {
			return
		}
		api[f] = true
		for _, g := range p.calleesOf(f) {
			visit(g)
		}
	}
	for _, f := range p.apiFuncs() {
		visit(f)
	}
	var fs []*ssa.Function
	for f := range api {
		if f.Parent() == nil && f.Synthetic == "" && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return p.FName(fs[i]) < p.FName(fs[j]) })
	for _, f := range fs {
		p.errFlow(r, f, never, ans)
	}
	p.seedUsable(r)
	r.Counts["functions"] = len(fs)
	r.Counts["functions that cannot fail"] = len(never)
	r.floor("reported", 100)
}

// answers: functions whose errors are all package-level sentinels handed out next to a usable
// result ("not found, but this is the free slot"): the error is part of the answer.
func (p *Prog) answers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if out[f] || errIndex(f) < 1 || len(f.Blocks) == 0 {
				continue
			}
			ok, usable := true, false
			for _, b := range f.Blocks {
				rt, k := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !k {
					continue
				}
				v := rt.Results[len(rt.Results)-1]
				switch x := v.(type) {
				case *ssa.Const:
				case *ssa.UnOp:
					g, k := x.X.(*ssa.Global)
					ok = ok && k && g != nil
					if _, c := rt.Results[0].(*ssa.Const); !c {
						usable = true
					}
				case *ssa.Extract:
					c, k := x.Tuple.(*ssa.Call)
					if k && c.Call.StaticCallee() != nil && out[norm(c.Call.StaticCallee())] {
						usable = true
					} else {
						ok = false
					}
				default:
					ok = false
				}
			}
			if ok && usable {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

// display: functions that only render text, and the test-support printers.
func (p *Prog) display(f *ssa.Function) bool {
	if errIndex(f) >= 0 {
		n := p.FName(f)
		return strings.Contains(n, "Validation)") || strings.Contains(n, "CompressionCharacterization)")
	}
	n := p.FName(f)
	if strings.Contains(n, "Validation)") || strings.Contains(n, "CompressionCharacterization)") {
		return true
	}
	rs := f.Signature.Results()
	return rs.Len() == 1 && isStringT(rs.At(0).Type()) && strings.Contains(f.Name(), "String")
}

// absent: a field a format does not store reads as zero; the error must have been looked at.
var absentFields = regexp.MustCompile(`^cpc\.getHiFieldOffset$`)

// powerOf2: t is the result of rounding up to a power of two.
func powerOf2(t *Term) bool {
	for t.op == "conv" {
		t = t.a[0]
	}
	return t.op == "ret" && strings.Contains(t.s, "CeilingPowerOf2") || t.op == "ret" && strings.Contains(t.s, "CeilPowerOf2")
}

func hasErrCall(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				rs := c.Common().Signature().Results()
				if rs.Len() > 0 && isErrorT(rs.At(rs.Len()-1).Type()) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if hasErrCall(a) {
			return true
		}
	}
	return false
}

func what(c *Call) string {
	if c.Name == "" {
		return c.Method
	}
	return c.Name
}

func (st *State) known(t *Term) bool {
	_, k := st.F.nilness(t)
	return k
}

// Errors that another checked obligation rules out.
var exempt = map[string]string{
	// the sketch constructor rejects seeds without a seed hash (obligation "seed-usable")
	"theta.NewCompactSketch": "iface.SeedHash",
}

func (p *Prog) errFlow(r *Report, f *ssa.Function, never, answers map[*ssa.Function]bool) {
	if !hasErrCall(f) || p.display(f) {
		return
	}
	if errIndex(f) < 0 && !exportedName(f) && len(f.Blocks) <= 12 {
		return // analysed as part of its callers
	}
	s := p.newSim()
	s.budget = 1000000
	args := s.paramTerms(f)
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		if g.Parent() != nil {
			return true
		}
		if errIndex(g) < 0 {
			return !exportedName(g) && len(g.Blocks) <= 12 && hasErrCall(g) && !p.display(g)
		}
		return len(g.Blocks) <= 6 && len(s.loopsOf(g).body) == 0 && !answers[g]
	}
	add := func(st *State, e errRec) {
		old, _ := st.user["errs"].([]errRec)
		st.set("errs", append(append([]errRec{}, old...), e))
	}
	calls := map[token.Pos]bool{}
	bad := map[token.Pos]string{}
	s.hooks.after = func(st *State, c *Call, res *Term) {
		var e *Term
		if res == nil {
			return
		}
		if res.op == "tuple" {
			e = res.a[len(res.a)-1]
		} else {
			e = res
		}
		if e == nil || !isErrorT(e.t) || e.isNil() {
			return
		}
		if c.Fn != nil && (never[norm(c.Fn)] || answers[norm(c.Fn)]) || cannotFail(c.Name) {
			return
		}
		if n, known := st.F.nilness(e); known && n {
			return
		}
		if c.Name == "internal.ExactLog2" && powerOf2(c.Args[0]) {
			return
		}
		if exempt[p.FName(f)] == what(c) {
			return
		}
		if e.op == "err" {
			return // a constructed error
		}
		calls[c.Pos] = true
		add(st, errRec{e, c.Pos, what(c)})
	}
	ei := errIndex(f)
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		recs, _ := st.user["errs"].([]errRec)
		for _, e := range recs {
			if n, known := st.F.nilness(e.t); known && n {
				continue
			}
			if known := st.known(e.t); known && absentFields.MatchString(e.what) {
				continue
			}
			if ei >= 0 {
				if rets[ei] == e.t {
					continue
				}
				if n, known := st.F.nilness(rets[ei]); known && !n {
					continue
				}
			}
			if bad[e.pos] == "" {
				bad[e.pos] = "the error of " + e.what + " is not reported on the path returning at " + p.Pos(pos) + " [" + st.Trace() + "]"
			}
		}
	}
	s.hooks.back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, old, nw []*Term) {
		recs, _ := st.user["errs"].([]errRec)
		carried := map[*Term]bool{}
		for i, ph := range phis {
			if isErrorT(ph.Type()) {
				carried[nw[i]] = true
			}
		}
		for _, e := range recs {
			if n, known := st.F.nilness(e.t); known && n || carried[e.t] {
				continue
			}
			if bad[e.pos] == "" {
				bad[e.pos] = "the error of " + e.what + " is forgotten when the loop continues [" + st.Trace() + "]"
			}
		}
		for i, ph := range phis {
			if !isErrorT(ph.Type()) || old[i] == nw[i] || old[i] == nil {
				continue
			}
			if n, known := st.F.nilness(old[i]); known && n {
				continue
			}
			if bad[ph.Pos()] == "" {
				bad[ph.Pos()] = "an error carried around the loop is overwritten unchecked [" + st.Trace() + "]"
			}
		}
	}
	s.Run(f, args, nil)
	key := p.FName(f)
	if s.over {
		r.undecided("reported", key, p.Pos(f.Pos()), "too many paths")
		return
	}
	var ps []token.Pos
	for q := range bad {
		ps = append(ps, q)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	for _, q := range ps {
		r.bad("reported", key, p.Pos(q), bad[q])
	}
	if len(ps) == 0 && len(calls) > 0 {
		r.ok("reported", key, p.Pos(f.Pos()))
	}
}

// seedUsable: a theta update sketch is only built with a seed whose fingerprint is defined.
func (p *Prog) seedUsable(r *Report) {
	f := p.Fn("theta.NewQuickSelectUpdateSketch")
	if f == nil {
		r.undecided("seed-usable", "theta.NewQuickSelectUpdateSketch", "", "function not found")
		return
	}
	s := p.newSim()
	n, bad := 0, ""
	s.hooks.inline = func(st *State, g *ssa.Function, a []*Term) bool {
		return !exportedName(g) && len(g.Blocks) <= 12 && hasErrCall(g)
	}
	s.hooks.after = func(st *State, c *Call, res *Term) {
		if c.Name == "internal.ComputeSeedHash" && res != nil && res.op == "tuple" {
			st.set("hash", res.a[1])
		}
	}
	s.hooks.ret = func(st *State, rets []*Term, pos token.Pos) {
		if isN, known := st.F.nilness(rets[1]); known && !isN {
			return
		}
		n++
		h, _ := st.user["hash"].(*Term)
		if h != nil {
			if isN, known := st.F.nilness(h); known && isN {
				return
			}
		}
		bad = "a sketch is returned although the seed may have no fingerprint [" + st.Trace() + "]"
	}
	s.Run(f, s.paramTerms(f), nil)
	switch {
	case s.over || n == 0:
		r.undecided("seed-usable", p.FName(f), p.Pos(f.Pos()), "no path reaches a result")
	case bad != "":
		r.bad("seed-usable", p.FName(f), p.Pos(f.Pos()), bad)
	default:
		r.ok("seed-usable", p.FName(f), p.Pos(f.Pos()))
	}
}
