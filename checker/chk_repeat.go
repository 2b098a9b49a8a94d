package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = chkC20 }

// callees of a repository function: static and interface calls, and every function value it mentions.
func (p *Prog) calleesOf(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g = norm(g); g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	e := p.Effects()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if cc.IsInvoke() {
					for _, g := range e.implementers(cc.Method, cc.Value.Type()) {
						add(g)
					}
				}
			}
		}
	}
	return out
}

// unpredictable names a construct whose outcome is not determined by program input.
type unpredictable struct {
	kind string // random, clock, order, address, schedule
	what string
	pos  token.Pos
}

var seededRand = regexp.MustCompile(`^(New|NewSource|NewPCG|NewChaCha8|NewZipf)$`)

func (p *Prog) unpredictables(f *ssa.Function) []unpredictable {
	var out []unpredictable
	add := func(kind, what string, pos token.Pos) { out = append(out, unpredictable{kind, what, pos}) }
	extern := func(g *ssa.Function, pos token.Pos) {
		g = norm(g)
		if g == nil || p.IsRepo(g) || g.Name() == "init" {
			return
		}
		pk := ""
		if g.Pkg != nil {
			pk = g.Pkg.Pkg.Path()
		} else if g.Object() != nil && g.Object().Pkg() != nil {
			pk = g.Object().Pkg().Path()
		}
		switch pk {
		case "math/rand", "math/rand/v2":
			if g.Signature.Recv() == nil && !seededRand.MatchString(g.Name()) {
				add("random", pk+"."+g.Name(), pos)
			}
		case "crypto/rand", "hash/maphash":
			add("random", pk+"."+g.Name(), pos)
		case "time":
			switch g.Name() {
			case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
				add("clock", pk+"."+g.Name(), pos)
			}
		case "os", "syscall", "net", "os/user", "os/exec":
			add("environment", pk+"."+g.Name(), pos)
		case "runtime", "runtime/debug", "runtime/metrics":
			if g.Name() != "KeepAlive" && g.Name() != "GC" {
				add("environment", pk+"."+g.Name(), pos)
			}
		case "maps":
			switch g.Name() {
			case "Keys", "Values", "All":
				add("order", pk+"."+g.Name(), pos)
			}
		case "reflect":
			switch g.Name() {
			case "MapKeys", "MapRange", "SetIterKey", "Seq", "Seq2":
				add("order", pk+"."+g.Name(), pos)
			case "Pointer", "UnsafePointer", "UnsafeAddr":
				add("address", pk+"."+g.Name(), pos)
			}
		case "sync":
			if g.Signature.Recv() != nil && strings.Contains(g.Signature.Recv().Type().String(), "Map") && g.Name() == "Range" {
				add("order", pk+"."+g.Name(), pos)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					if g, ok := (*op).(*ssa.Function); ok {
						extern(g, in.Pos())
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						add("random", "crypto/rand."+g.Name(), in.Pos())
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					if !p.orderFree(x) {
						add("order", "iteration over a map", x.Pos())
					}
				}
			case *ssa.Select:
				if len(x.States) > 1 || !x.Blocking {
					add("schedule", "select", x.Pos())
				}
			case *ssa.Go:
				add("schedule", "go statement", x.Pos())
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if b2, ok := x.X.Type().Underlying().(*types.Basic); ok && b2.Kind() == types.UnsafePointer {
						add("address", "address of an object as a number", x.Pos())
					}
				}
			}
		}
	}
	return out
}

// orderFree: the loop over a map only stores under the visited key in maps, counts, or deletes.
func (p *Prog) orderFree(r *ssa.Range) bool {
	f := r.Parent()
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			if next != nil {
				return false
			}
			next = n
		}
	}
	if next == nil {
		return true
	}
	h := next.Block()
	body := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	reach := func(from, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var w func(b *ssa.BasicBlock) bool
		w = func(b *ssa.BasicBlock) bool {
			if b == to {
				return true
			}
			if seen[b] {
				return false
			}
			seen[b] = true
			for _, s := range b.Succs {
				if w(s) {
					return true
				}
			}
			return false
		}
		for _, s := range from.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	walk = func(b *ssa.BasicBlock) {
		if body[b] || !h.Dominates(b) || b != h && !reach(b, h) {
			return
		}
		body[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(h)
	_ = f
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.Lookup, *ssa.Convert, *ssa.DebugRef:
				if b2, ok := in.(*ssa.BinOp); ok && isFloatT(b2.Type()) {
					return false
				}
			case *ssa.Phi:
				// only integer accumulators
				if !isIntT(x.Type()) {
					return false
				}
				for _, e := range x.Edges {
					if bo, ok := e.(*ssa.BinOp); ok && body[bo.Block()] {
						switch bo.Op {
						case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
						default:
							return false
						}
					} else if e != ssa.Value(x) {
						if in, ok := e.(ssa.Instruction); ok && body[in.Block()] {
							return false
						}
					}
				}
			case *ssa.MapUpdate:
				k, ok := x.Key.(*ssa.Extract)
				if !ok || k.Tuple != ssa.Value(next) || k.Index != 1 {
					return false
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" && bi.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		// leaving the loop in the middle picks an arbitrary element
		for _, s := range b.Succs {
			if !body[s] && b != h {
				return false
			}
		}
	}
	return true
}

// allowances: entry points that may depend on something unpredictable, per kind.
func randomAllowed(p *Prog, f *ssa.Function, kind string) bool {
	name := p.FName(f)
	pk := name[:strings.Index(name, ".")]
	switch kind {
	case "random":
		switch pk {
		case "kll", "req", "sampling":
			return isMutator(f) || pk == "sampling" && strings.Contains(name, "Union") && !isEncode(f) && f.Name() != "ToSlice"
		}
		return name == "filters.GenerateRandomSeed"
	case "clock":
		return strings.HasPrefix(name, "cpc.(QuickMergingValidation).") || strings.HasPrefix(name, "cpc.(CompressionCharacterization).")
	}
	return false
}

func chkC20(p *Prog, r *Report) {
	r.Explain = "For every exported function, everything it can call (static calls, all repository implementations of interface calls, every function value mentioned) is searched for sources of unpredictability: shared or cryptographic random generators, clocks, the environment, order-dependent map iteration, addresses as numbers, goroutines and selects. Only updates, merges and union results of KLL, REQ and the sampling sketches may reach the random generator, and GenerateRandomSeed the cryptographic one. Explicitly seeded generators are deterministic."
	srcs := map[*ssa.Function][]unpredictable{}
	outs := map[*ssa.Function][]*ssa.Function{}
	sites := 0
	var funcs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.IsRepo(f) {
			return
		}
		seen[f] = true
		funcs = append(funcs, f)
		srcs[f] = p.unpredictables(f)
		sites += len(srcs[f])
		outs[f] = p.calleesOf(f)
		for _, g := range outs[f] {
			visit(g)
		}
	}
	api := p.apiFuncs()
	sort.Slice(api, func(i, j int) bool { return p.FName(api[i]) < p.FName(api[j]) })
	for _, f := range api {
		visit(f)
	}
	inits := []*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
			visit(f)
		}
	}
	r.Counts["functions"] = len(funcs)
	r.Counts["unpredictable constructs"] = sites
	for _, f := range append(api, inits...) {
		name := p.FName(f)
		// breadth first, so the reported path is short
		from := map[*ssa.Function]*ssa.Function{f: nil}
		q := []*ssa.Function{f}
		okk := true
		for len(q) > 0 && okk {
			g := q[0]
			q = q[1:]
			for _, u := range srcs[g] {
				if randomAllowed(p, f, u.kind) {
					continue
				}
				path := p.FName(g)
				for x := from[g]; x != nil; x = from[x] {
					path = p.FName(x) + " > " + path
				}
				r.bad("repeatable", name, p.Pos(u.pos), u.kind+": "+u.what+" reached through "+path)
				okk = false
				break
			}
			for _, h := range outs[g] {
				if _, ok := from[h]; !ok && seen[h] {
					from[h] = g
					q = append(q, h)
				}
			}
		}
		if okk {
			r.ok("repeatable", name, p.Pos(f.Pos()))
		}
	}
	r.floor("repeatable", 400)
}
