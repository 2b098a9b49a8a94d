package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sim explores the paths of a function over symbolic values: calls to repository
// functions are inlined or replaced by their effect summary, loops are peeled and then
// run once more from an arbitrary state that any number of iterations could produce.
// Branches are decided by intervals, NaN-ness, nilness and linear facts only.
type Sim struct {
	p        *Prog
	e        *Effects
	hooks    Hooks
	peel     int
	tail     int // extra consecutive iterations explored after the summarised ones
	maxDepth int
	budget   int
	steps    int
	over     bool
	loops    map[*ssa.Function]*loopInfo
	paths    int
	seq      int
	onceSeen map[string]bool
	retTypes map[*Term]types.Type
	pending  []*State // extra continuations of the current step
}

type Hooks struct {
	inline   func(st *State, f *ssa.Function, args []*Term) bool
	store    func(st *State, addr, val *Term, pos token.Pos)
	call     func(st *State, c *Call) // before the call is executed
	after    func(st *State, c *Call, res *Term)
	ret      func(st *State, rets []*Term, pos token.Pos)
	panicked func(st *State, pos token.Pos)
	index    func(st *State, base, idx *Term, pos token.Pos)
	slice    func(st *State, base, lo, hi *Term, pos token.Pos)
	mk       func(st *State, n *Term, et types.Type, pos token.Pos)
	havoc    func(st *State, root *Term, path []string, mi modInfo)
	loopMod  func(st *State, root *Term, path []string)                                                           // a summarised loop may write
	leave    func(st *State, f *ssa.Function, rets []*Term)                                                       // an inlined call returns
	back     func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, old, new []*Term) // end of an arbitrary iteration
	branch   func(st *State, cond *Term, val bool, pos token.Pos)
	model    func(st *State, c *Call) (*Term, bool) // override the result of a call
}

// Call describes a call about to be executed.
type Call struct {
	Fn     *ssa.Function // static or resolved callee, nil if unknown
	Name   string        // FName for repo functions, pkg.Func or pkg.Type.Method otherwise
	Method string        // interface method name for unresolved dynamic calls
	Recv   *Term         // receiver of an interface call
	Args   []*Term       // including the receiver
	Pos    token.Pos
	Instr  ssa.CallInstruction
	Inline bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	free   []*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.Value // value in the caller that receives the result
	cinfo  *Call
	loops  map[*ssa.BasicBlock]loopSt
	seq    *seqLoop     // the frame is the body of a loop over an unknown iterator
	defers []*ssa.Defer // pending deferred calls, the last runs first
}

type seqLoop struct {
	body *Term
	left int
}

type loopSt struct {
	n    int
	done bool // havocked: a further back edge ends the path
	left int  // consecutive iterations still to explore
}

type havocEv struct {
	root *Term
	path []string
	id   int
}

type State struct {
	sim    *Sim
	frames []*frame
	mem    map[*Term]*Term // address -> value
	havocs []havocEv
	F      *Facts
	user   map[string]any // immutable values; copied on fork
	trace  *traceNode
	dry    *dryRun
	memver int
	dead   bool // set by a hook to abandon the path
}

type traceNode struct {
	up  *traceNode
	pos token.Pos
	val bool
}

type dryRun struct {
	up     *dryRun
	writes map[string]havocEv
	fn     *frame
	depth  int
	loop   map[*ssa.BasicBlock]bool
	mark   int // allocations numbered above are created inside
}

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (p *Prog) newSim() *Sim {
	return &Sim{p: p, e: p.Effects(), peel: 0, maxDepth: 8, budget: 400000, loops: map[*ssa.Function]*loopInfo{}, onceSeen: map[string]bool{}}
}

func (s *Sim) loopsOf(f *ssa.Function) *loopInfo {
	if l := s.loops[f]; l != nil {
		return l
	}
	l := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range f.Blocks {
		for _, su := range b.Succs {
			if su.Dominates(b) {
				body := l.body[su]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{su: true}
					l.body[su] = body
				}
				var work []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, pr := range x.Preds {
						if !body[pr] {
							body[pr] = true
							work = append(work, pr)
						}
					}
				}
			}
		}
	}
	s.loops[f] = l
	return l
}

func (st *State) fork() *State {
	n := &State{sim: st.sim, F: st.F.clone(), trace: st.trace, dry: st.dry, memver: st.memver}
	n.frames = make([]*frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		if f.loops != nil {
			g.loops = make(map[*ssa.BasicBlock]loopSt, len(f.loops))
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.mem = make(map[*Term]*Term, len(st.mem)+8)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.havocs = append([]havocEv(nil), st.havocs...)
	if st.user != nil {
		n.user = make(map[string]any, len(st.user))
		for k, v := range st.user {
			n.user[k] = v
		}
	}
	return n
}

func (st *State) set(k string, v any) {
	if st.user == nil {
		st.user = map[string]any{}
	}
	st.user[k] = v
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

// Trace renders the branch decisions of the path.
func (st *State) Trace() string {
	var ss []string
	for t := st.trace; t != nil && len(ss) < 8; t = t.up {
		ss = append(ss, fmt.Sprintf("%s=%v", st.sim.p.Pos(t.pos), t.val))
	}
	for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
		ss[i], ss[j] = ss[j], ss[i]
	}
	return strings.Join(ss, " ")
}

// Run explores f from the given arguments. pre may add facts.
func (s *Sim) Run(f *ssa.Function, args []*Term, pre func(*State)) {
	st := &State{sim: s, mem: map[*Term]*Term{}, F: newFacts(), user: map[string]any{}}
	s.steps, s.over, s.paths = 0, false, 0
	if args == nil {
		args = s.paramTerms(f)
	}
	st.push(f, args, nil, nil, nil)
	if pre != nil {
		pre(st)
	}
	s.explore(st)
}

func (s *Sim) paramTerms(f *ssa.Function) []*Term {
	var args []*Term
	for i, pa := range f.Params {
		args = append(args, paramTerm(i, pa.Type()))
	}
	return args
}

func paramTerm(i int, t types.Type) *Term {
	return mk("param", fmt.Sprintf("p%d:%s", i, typStr(t)), t)
}

func (st *State) push(f *ssa.Function, args []*Term, free []*Term, call ssa.Value, ci *Call) {
	fr := &frame{fn: f, env: map[ssa.Value]*Term{}, free: free, block: f.Blocks[0], call: call, cinfo: ci}
	for i, pa := range f.Params {
		if i < len(args) && args[i] != nil {
			fr.env[pa] = args[i]
		} else {
			fr.env[pa] = fresh("arg", pa.Type())
		}
	}
	st.frames = append(st.frames, fr)
}

func (s *Sim) explore(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		for cur != nil {
			if s.steps > s.budget {
				s.over = true
				return
			}
			next, other := cur.step()
			if other != nil {
				work = append(work, other)
			}
			work = append(work, s.pending...)
			s.pending = nil
			cur = next
			if cur != nil && cur.dead {
				cur = nil
			}
		}
	}
}

// step runs to the next branch; returns the continuing state(s).
func (st *State) step() (*State, *State) {
	fr := st.top()
	for fr.idx < len(fr.block.Instrs) {
		st.sim.steps++
		if st.sim.steps > st.sim.budget {
			return st, nil
		}
		in := fr.block.Instrs[fr.idx]
		fr.idx++
		switch x := in.(type) {
		case *ssa.Phi:
			continue // assigned on entry
		case *ssa.Jump:
			if !st.enter(fr.block.Succs[0]) {
				return nil, nil
			}
			return st, nil
		case *ssa.If:
			return st.branch(x)
		case *ssa.Return:
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, st.val(r))
			}
			return st.doReturn(rets, x.Pos())
		case *ssa.Panic:
			if st.dry == nil && st.sim.hooks.panicked != nil {
				st.sim.hooks.panicked(st, x.Pos())
			}
			st.sim.paths++
			return nil, nil
		case *ssa.Defer:
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], x)
		case *ssa.RunDefers:
			n := len(fr.defers)
			if n == 0 {
				continue
			}
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.idx-- // come back for the remaining ones
			pushed, other := st.doCall(d)
			if pushed || other != nil {
				return st, other
			}
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Call); !ok {
				continue // go: not used by the library
			}
			pushed, other := st.doCall(x)
			if pushed || other != nil {
				return st, other // pushed a frame, or split
			}
		default:
			st.exec(in)
		}
	}
	return nil, nil
}

func (st *State) doReturn(rets []*Term, pos token.Pos) (*State, *State) {
	fr := st.top()
	if st.dry != nil && st.dry.depth == len(st.frames) {
		return nil, nil // leaves the loop being summarised
	}
	if len(st.frames) == 1 {
		st.sim.paths++
		if st.sim.hooks.ret != nil {
			st.sim.hooks.ret(st, rets, pos)
		}
		return nil, nil
	}
	if fr.seq != nil {
		return st.seqReturn(fr, rets)
	}
	if st.dry == nil && st.sim.hooks.leave != nil {
		st.sim.hooks.leave(st, fr.fn, rets)
	}
	st.frames = st.frames[:len(st.frames)-1]
	res := tupleOf(rets)
	if fr.call != nil && res != nil {
		st.top().env[fr.call] = res
	}
	if fr.cinfo != nil && st.dry == nil && st.sim.hooks.after != nil {
		st.sim.hooks.after(st, fr.cinfo, res)
	}
	return st, nil
}

// seqReturn: the body of a loop over an unknown iterator returned; a false result stops the
// iteration, a true one continues it (further iterations are covered by the summary).
func (st *State) seqReturn(fr *frame, rets []*Term) (*State, *State) {
	sq := fr.seq
	var goOn, stop *State
	v, known := false, false
	if len(rets) == 1 {
		v, known = st.F.decide(rets[0])
	}
	if !known || v {
		t := st
		if !known {
			t = st.fork()
			if !t.F.assume(rets[0], true) {
				t = nil
			}
		}
		if t != nil && sq.left > 0 && st.dry == nil {
			end := t.fork() // the iterator is exhausted
			end.frames = end.frames[:len(end.frames)-1]
			t.frames = t.frames[:len(t.frames)-1]
			t.pushSeq(sq.body, fr.cinfo, sq.left-1)
			if known {
				return t, end
			}
			// three continuations: explore the stop separately below
			w := st
			if w.F.assume(rets[0], false) {
				w.frames = w.frames[:len(w.frames)-1]
				st.sim.pending = append(st.sim.pending, w)
			}
			return t, end
		}
		goOn = nil
	}
	if !known || !v {
		stop = st
		if !known && !stop.F.assume(rets[0], false) {
			stop = nil
		}
		if stop != nil {
			stop.frames = stop.frames[:len(stop.frames)-1]
		}
	}
	return stop, goOn
}

// pushSeq starts one iteration of the body closure with arbitrary elements.
func (st *State) pushSeq(body *Term, ci *Call, left int) {
	f := norm(body.x.(*ssa.Function))
	var args []*Term
	for _, p := range f.Params {
		args = append(args, st.freshVal("elem", p.Type()))
	}
	var free []*Term
	if body.op == "closure" {
		free = body.a
	}
	st.push(f, args, free, nil, ci)
	st.top().seq = &seqLoop{body, left}
}

// seqBody: the argument of a call of an unknown function that is a range-over-function body.
func seqBody(call *Call) *Term {
	sig := call.Instr.Common().Signature()
	if sig.Results().Len() != 0 || sig.Params().Len() != 1 || len(call.Args) == 0 {
		return nil
	}
	if !isYieldType(sig.Params().At(0).Type()) {
		return nil
	}
	a := call.Args[len(call.Args)-1]
	if a.op != "closure" && a.op != "func" {
		return nil
	}
	if f, ok := a.x.(*ssa.Function); !ok || len(norm(f).Blocks) == 0 {
		return nil
	}
	return a
}

func isYieldType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Results().Len() != 1 || !isBoolT(s.Results().At(0).Type()) {
		return false
	}
	return s.Params().Len() <= 2
}

// isSeqType: func(yield func(...) bool).
func isSeqType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 0 && s.Params().Len() == 1 && isYieldType(s.Params().At(0).Type())
}

// runSeq explores a call of an unknown iterator with the given body: what any number of
// iterations writes is forgotten, then the iterator ends or delivers one more element.
func (st *State) runSeq(call *Call, body *Term) *State {
	if st.dry == nil || len(st.frames)-st.dry.depth <= 6 {
		mark := st.sim.seq
		for round := 0; round < 3; round++ {
			d := &dryRun{up: st.dry, writes: map[string]havocEv{}, depth: len(st.frames) + 1, mark: mark}
			c := st.fork()
			c.dry = d
			c.pushSeq(body, call, 0)
			c.top().seq = nil
			st.sim.exploreDry(c)
			news := 0
			var ks []string
			for k := range d.writes {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				w := d.writes[k]
				if st.dry == nil && st.sim.hooks.loopMod != nil {
					st.sim.hooks.loopMod(st, w.root, w.path)
				}
				if st.forget(w.root, w.path, true) {
					news++
				}
			}
			if news == 0 {
				break
			}
		}
	}
	it := st.fork()
	it.pushSeq(body, call, st.sim.tail)
	return it
}

func tupleOf(rets []*Term) *Term {
	switch len(rets) {
	case 0:
		return nil
	case 1:
		return rets[0]
	}
	return mk("tuple", "", nil, rets...)
}

func (st *State) branch(x *ssa.If) (*State, *State) {
	fr := st.top()
	c := st.val(x.Cond)
	if v, ok := st.F.decide(c); ok {
		return st.take(fr, v, c, x), nil
	}
	o := st.fork()
	var a, b *State
	if st.F.assume(c, true) {
		a = st.take(fr, true, c, x)
	}
	if o.F.assume(c, false) {
		b = o.take(o.top(), false, c, x)
	}
	if a == nil {
		return b, nil
	}
	return a, b
}

func (st *State) take(fr *frame, v bool, c *Term, x *ssa.If) *State {
	i := 1
	if v {
		i = 0
	}
	st.trace = &traceNode{st.trace, x.Cond.Pos(), v}
	if st.dry == nil && st.sim.hooks.branch != nil {
		st.sim.hooks.branch(st, c, v, x.Cond.Pos())
	}
	if !st.enter(fr.block.Succs[i]) {
		return nil
	}
	return st
}

// enter moves the top frame to block b; false ends the path (loop closed).
func (st *State) enter(b *ssa.BasicBlock) bool {
	fr := st.top()
	prev := fr.block
	if st.dry != nil && st.dry.depth == len(st.frames) && st.dry.loop != nil && !st.dry.loop[b] {
		return false // left the loop being summarised
	}
	li := st.sim.loopsOf(fr.fn)
	body := li.body[b]
	havoc := false
	if body != nil {
		if fr.loops == nil {
			fr.loops = map[*ssa.BasicBlock]loopSt{}
		}
		ls := fr.loops[b]
		if !body[prev] {
			ls = loopSt{}
		} else {
			if ls.done {
				if st.dry == nil && st.sim.hooks.back != nil {
					st.callBack(fr, b, body, prev)
				}
				if ls.left == 0 || st.dry != nil {
					return false
				}
				ls.left--
			}
			ls.n++
		}
		if ls.n >= st.sim.peel && !ls.done {
			havoc = true
			ls.done = true
			ls.left = st.sim.tail
		}
		fr.loops[b] = ls
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	vals := make([]*Term, len(phis))
	for i, ph := range phis {
		vals[i] = st.val(ph.Edges[pi])
	}
	fr.prev = prev
	fr.block = b
	fr.idx = 0
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	if havoc {
		st.havocLoop(fr, b, body, phis, vals)
	}
	return true
}

func (st *State) callBack(fr *frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, prev *ssa.BasicBlock) {
	var phis []*ssa.Phi
	var old, nw []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == prev {
				phis = append(phis, ph)
				old = append(old, fr.env[ph])
				nw = append(nw, st.val(ph.Edges[i]))
			}
		}
	}
	st.sim.hooks.back(st, b, body, phis, old, nw)
}

// stepOf: constant increment of a loop phi on every back edge.
func stepOf(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	var step int64
	have := false
	for i, p := range ph.Block().Preds {
		if !body[p] {
			continue
		}
		var v ssa.Value = ph.Edges[i]
		total := int64(0)
		for v != ssa.Value(ph) {
			bo, ok := v.(*ssa.BinOp)
			if !ok {
				return 0, false
			}
			k, isC := bo.Y.(*ssa.Const)
			if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
				return 0, false
			}
			n, exact := constant.Int64Val(k.Value)
			if !exact {
				return 0, false
			}
			switch bo.Op {
			case token.ADD:
				total += n
			case token.SUB:
				total -= n
			default:
				return 0, false
			}
			v = bo.X
		}
		if have && step != total {
			return 0, false
		}
		have, step = true, total
	}
	return step, have && isIntT(ph.Type())
}

func (st *State) havocLoop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, init []*Term) {
	// iteration counter shared by all induction variables
	cnt := fresh("iter", tInt)
	st.F.iv[cnt] = itv{bi(0), bi(1 << 60)}
	for i, ph := range phis {
		if s, ok := stepOf(ph, body); ok {
			if s == 0 {
				fr.env[ph] = init[i]
				continue
			}
			if intBits(ph.Type()) == 64 && !isUnsignedT(ph.Type()) {
				fr.env[ph] = mkBin(token.ADD, init[i], mkBin(token.MUL, cnt, mkInt(s), ph.Type()), ph.Type())
				continue
			}
			// narrower or unsigned: the value is init + s*cnt as long as it has not wrapped,
			// which the loop condition bounds; record the relation on a fresh symbol
			v := fresh("phi."+ph.Comment, ph.Type())
			fr.env[ph] = v
			l := st.F.linOf(init[i]).addScaled(linAtom(cnt), s).addScaled(linAtom(v), -1)
			st.F.addIneq(l)
			st.F.addIneq(linConst(bi(0)).addScaled(l, -1))
			continue
		}
		if sameOnBackEdges(ph, body) {
			continue
		}
		fr.env[ph] = st.freshVal("phi."+ph.Comment, ph.Type())
	}
	// memory: collect what one arbitrary iteration writes, forget it, repeat until stable
	if st.dry != nil && len(st.frames)-st.dry.depth > 6 {
		return
	}
	mark := st.sim.seq
	for round := 0; round < 3; round++ {
		d := &dryRun{up: st.dry, writes: map[string]havocEv{}, depth: len(st.frames), loop: body, mark: mark}
		c := st.fork()
		c.dry = d
		st.sim.exploreDry(c)
		news := 0
		var ks []string
		for k := range d.writes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w := d.writes[k]
			if st.dry == nil && st.sim.hooks.loopMod != nil {
				st.sim.hooks.loopMod(st, w.root, w.path)
			}
			if st.forget(w.root, w.path, true) {
				news++
			}
		}
		if news == 0 {
			break
		}
	}
}

func sameOnBackEdges(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for i, p := range ph.Block().Preds {
		if body[p] && ph.Edges[i] != ssa.Value(ph) {
			return false
		}
	}
	return true
}

func (s *Sim) exploreDry(st *State) {
	work := []*State{st}
	n := 0
	for len(work) > 0 {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		for cur != nil {
			n++
			if n > 4000 || s.steps > s.budget {
				s.over = s.over || s.steps > s.budget
				return
			}
			next, other := cur.step()
			if other != nil {
				work = append(work, other)
			}
			cur = next
		}
	}
}

// addrPath splits an address into its root object and the path to it. Index terms become "[]".
func addrPath(a *Term) (*Term, []string) {
	var rev []string
	for {
		switch a.op {
		case "fld":
			rev = append(rev, a.s)
			a = a.a[0]
			continue
		case "elem":
			rev = append(rev, "[]")
			a = a.a[0]
			for a.op == "slc" {
				a = a.a[0]
			}
			continue
		}
		break
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return a, rev
}

// deepPath continues through loads: address -> root and full path with "*" for dereferences.
func deepPath(a *Term) (*Term, []string) {
	r, p := addrPath(a)
	for r.op == "ld" {
		r2, p2 := addrPath(r.a[0])
		p = append(append(append([]string{}, p2...), "*"), p...)
		r = r2
	}
	return r, p
}

func pathHas(pre, p []string) bool {
	if len(pre) > len(p) {
		return false
	}
	for i := range pre {
		if pre[i] != p[i] {
			return false
		}
	}
	return true
}

func eqPath(a, b []string) bool { return len(a) == len(b) && pathHas(a, b) }

// forget drops what is known about root.path and everything below; reports whether anything could change.
func (st *State) forget(root *Term, path []string, loop bool) bool {
	st.sim.seq++
	id := st.sim.seq
	for _, h := range st.havocs {
		if loop && h.root == root && eqPath(h.path, path) && h.id < 0 {
			// already forgotten by this loop
			changed := false
			for c := range st.mem {
				r, p := matchAddr(c, root)
				if r && pathHas(path, p) {
					delete(st.mem, c)
					changed = true
				}
			}
			return changed
		}
	}
	for c := range st.mem {
		r, p := matchAddr(c, root)
		if r && pathHas(path, p) {
			delete(st.mem, c)
		}
	}
	if loop {
		id = -id
	}
	st.havocs = append(st.havocs, havocEv{root, path, id})
	st.memver++
	return true
}

// matchAddr: the path of address c below root, if root is one of its bases.
func matchAddr(c, root *Term) (bool, []string) {
	var rev []string
	a := c
	for {
		if a == root {
			for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
				rev[i], rev[j] = rev[j], rev[i]
			}
			return true, rev
		}
		switch a.op {
		case "fld":
			rev = append(rev, a.s)
			a = a.a[0]
		case "elem":
			rev = append(rev, "[]")
			a = a.a[0]
			for a.op == "slc" && a != root {
				a = a.a[0]
			}
		case "ld":
			rev = append(rev, "*")
			a = a.a[0]
		default:
			return false, nil
		}
	}
}

func (st *State) recordWrite(root *Term, path []string) {
	for d := st.dry; d != nil; d = d.up {
		if root.op == "alloc" {
			if n, _ := root.x.(int); n > d.mark {
				continue
			}
		}
		k := fmt.Sprint(root.id, strings.Join(path, "/"))
		d.writes[k] = havocEv{root, path, 0}
	}
}

// version of the contents of address a.
func (st *State) version(a *Term) string {
	for i := len(st.havocs) - 1; i >= 0; i-- {
		h := st.havocs[i]
		if ok, p := matchAddr(a, h.root); ok && (pathHas(h.path, p) || pathHas(p, h.path)) {
			return fmt.Sprint(h.id)
		}
	}
	return ""
}

func (st *State) load(a *Term, t types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if isTypeParam(t) {
		// falls through to an opaque load
	} else {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, st.load(st.fieldAddr(a, t, i), u.Field(i).Type()))
			}
			return mkx("agg", typStr(t), t, t, fs...)
		}
	}
	ver := st.version(a)
	root, path := addrPath(a)
	if root.op == "alloc" && ver == "" && strings.HasPrefix(root.s, "zero") {
		// elements of a zeroed array with a stored element are forgotten through havocs
		_ = path
		return zeroOf(t)
	}
	if root.op == "global" && len(path) == 0 {
		if isErrorType(t) {
			return mk("err", root.s, t)
		}
	}
	if (root.op == "global" || root.op == "cobj") && ver == "" {
		if v := st.sim.p.Consts().loadTerm(a, t); v != nil {
			return v
		}
	}
	return mk("ld", ver, t, a)
}

func zeroOf(t types.Type) *Term {
	if isTypeParam(t) {
		return mk("zero", typStr(t), t)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsNumeric != 0 && u.Info()&types.IsComplex == 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		}
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return mkx("agg", typStr(t), t, t, fs...)
	case *types.Array:
		return mk("zeroarr", typStr(t), t)
	}
	return mkConst(nil, t)
}

func (st *State) fieldAddr(base *Term, structT types.Type, i int) *Term {
	comp := fieldComp(structT, i)
	su := structT.Underlying()
	if p, ok := types.Unalias(structT).Underlying().(*types.Pointer); ok {
		su = p.Elem().Underlying()
	}
	ft := su.(*types.Struct).Field(i).Type()
	return mk("fld", comp, types.NewPointer(ft), base)
}

func (st *State) elemAddr(base, idx *Term, et types.Type) *Term {
	for base.op == "slc" {
		if base.a[1] != nil {
			idx = mkBin(token.ADD, base.a[1], idx, tInt)
		}
		base = base.a[0]
	}
	return mk("elem", "", types.NewPointer(et), base, idx)
}

func (st *State) store(a, v *Term, t types.Type, pos token.Pos) {
	if v.op == "agg" {
		if su, ok := types.Unalias(t).Underlying().(*types.Struct); ok && len(v.a) == su.NumFields() {
			for i := 0; i < su.NumFields(); i++ {
				st.store(st.fieldAddr(a, t, i), v.a[i], su.Field(i).Type(), pos)
			}
			return
		}
	}
	if !isTypeParam(t) {
		if su, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
			for i := 0; i < su.NumFields(); i++ {
				st.store(st.fieldAddr(a, t, i), mk("fieldof", fieldComp(t, i), su.Field(i).Type(), v), su.Field(i).Type(), pos)
			}
			return
		}
	}
	root, path := addrPath(a)
	if st.dry == nil && st.sim.hooks.store != nil {
		st.sim.hooks.store(st, a, v, pos)
	}
	if st.dry != nil {
		st.recordWrite(root, path)
	}
	hasIdx := false
	for _, c := range path {
		if c == "[]" {
			hasIdx = true
		}
	}
	if hasIdx {
		// other elements that may be the same one
		for c := range st.mem {
			if c == a {
				continue
			}
			r, p := addrPath(c)
			if r == root && eqPath(p, path) && !st.distinctIdx(c, a) {
				delete(st.mem, c)
			}
		}
		st.sim.seq++
		st.havocs = append(st.havocs, havocEv{root, path, st.sim.seq})
		if len(st.havocs) > 60 {
			st.compactHavocs()
		}
	} else {
		// storing through a pointer-to-struct field invalidates deeper cells only by identity
	}
	st.mem[a] = v
	st.memver++
}

func (st *State) compactHavocs() {
	seen := map[string]bool{}
	var out []havocEv
	for i := len(st.havocs) - 1; i >= 0; i-- {
		h := st.havocs[i]
		k := fmt.Sprint(h.root.id, strings.Join(h.path, "/"))
		if !seen[k] {
			seen[k] = true
			out = append(out, h)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	st.havocs = out
}

func (st *State) distinctIdx(a, b *Term) bool {
	for a.op == "fld" && b.op == "fld" {
		a, b = a.a[0], b.a[0]
	}
	if a.op == "elem" && b.op == "elem" && a.a[0] == b.a[0] {
		if v, ok := st.F.decide(mkBin(token.EQL, a.a[1], b.a[1], tBool)); ok && !v {
			return true
		}
	}
	return false
}

func (st *State) newAlloc(kind string, t types.Type) *Term {
	st.sim.seq++
	uniq++
	return mkx("alloc", fmt.Sprintf("%s#%d", kind, uniq), t, st.sim.seq)
}

func (st *State) freshVal(kind string, t types.Type) *Term {
	if t != nil && !isTypeParam(t) {
		if su, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < su.NumFields(); i++ {
				fs = append(fs, st.freshVal(kind, su.Field(i).Type()))
			}
			return mkx("agg", typStr(t), t, t, fs...)
		}
	}
	return fresh(kind, t)
}

func (st *State) lenOf(x *Term) *Term {
	switch x.op {
	case "slc":
		if x.a[2] != nil && x.a[2].op != "none" {
			return mkBin(token.SUB, x.a[2], x.a[1], tInt)
		}
		return mkBin(token.SUB, st.lenOf(x.a[0]), x.a[1], tInt)
	case "cst":
		if x.isNil() {
			return mkInt(0)
		}
		if x.c != nil && x.c.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(x.c))))
		}
	case "alloc":
		if n, ok := st.mem[mk("lenof", "", tInt, x)]; ok {
			return n
		}
	case "cobj":
		if o := st.sim.p.Consts().objs[x]; o.n >= 0 {
			return mkInt(o.n)
		}
	}
	if x.t != nil {
		t := types.Unalias(x.t).Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if ar, ok := t.(*types.Array); ok {
			return mkInt(ar.Len())
		}
	}
	return mk("len", "", tInt, x)
}

func (st *State) setLen(x, n *Term) { st.mem[mk("lenof", "", tInt, x)] = n }

func (st *State) val(v ssa.Value) *Term {
	fr := st.top()
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isTypeParam(x.Type()) {
				return mk("zero", typStr(x.Type()), x.Type())
			}
			return zeroOf(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mkx("global", shortPkg(x.Pkg.Pkg)+"."+x.Name(), x.Type(), x)
	case *ssa.Function:
		return mkx("func", st.sim.p.FName(x), x.Type(), x)
	case *ssa.Builtin:
		return mkx("func", "builtin."+x.Name(), x.Type(), x)
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return mk("param", "free:"+x.Name(), x.Type())
	}
	return fresh("undef", v.Type())
}

func (st *State) exec(in ssa.Instruction) {
	fr := st.top()
	switch x := in.(type) {
	case *ssa.Alloc:
		a := st.newAlloc("zero", x.Type())
		fr.env[x] = a
	case *ssa.Store:
		st.store(st.val(x.Addr), st.val(x.Val), x.Val.Type(), x.Pos())
	case *ssa.UnOp:
		a := st.val(x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = st.load(a, x.Type())
		case token.NOT:
			fr.env[x] = mkNot(a)
		case token.SUB:
			if a.op == "cst" && a.c != nil {
				if r := wrapConst(constant.UnaryOp(token.SUB, a.c, 0), x.Type()); r != nil {
					fr.env[x] = r
					return
				}
			}
			if a.op == "inf" {
				o := "-"
				if a.s == "-" {
					o = "+"
				}
				fr.env[x] = mk("inf", o, x.Type())
				return
			}
			if isIntT(x.Type()) {
				fr.env[x] = mkBin(token.SUB, mkConst(constant.MakeInt64(0), x.Type()), a, x.Type())
				return
			}
			fr.env[x] = mk("neg", "", x.Type(), a)
		case token.XOR:
			if a.op == "cst" && a.c != nil {
				if b, ok := a.intVal(); ok {
					nb := b.Not(b)
					fr.env[x] = mkBig(wrapBig(nb, x.Type()), x.Type())
					return
				}
			}
			fr.env[x] = mk("bitnot", fmt.Sprint(intBits(x.Type())), x.Type(), a)
		default:
			fr.env[x] = fresh("unop", x.Type())
		}
	case *ssa.BinOp:
		a, b := st.val(x.X), st.val(x.Y)
		fr.env[x] = st.bin(x.Op, a, b, x.Type())
	case *ssa.FieldAddr:
		fr.env[x] = st.fieldAddr(st.val(x.X), x.X.Type(), x.Field)
	case *ssa.Field:
		a := st.val(x.X)
		if a.op == "agg" && x.Field < len(a.a) {
			fr.env[x] = a.a[x.Field]
		} else {
			fr.env[x] = mk("fieldof", fieldComp(x.X.Type(), x.Field), x.Type(), a)
		}
	case *ssa.IndexAddr:
		b, i := st.val(x.X), st.val(x.Index)
		if st.dry == nil && st.sim.hooks.index != nil {
			st.sim.hooks.index(st, b, i, x.Pos())
		}
		fr.env[x] = st.elemAddr(b, i, x.Type().(*types.Pointer).Elem())
	case *ssa.Index:
		b, i := st.val(x.X), st.val(x.Index)
		if st.dry == nil && st.sim.hooks.index != nil {
			st.sim.hooks.index(st, b, i, x.Pos())
		}
		fr.env[x] = mk("idx", "", x.Type(), b, i)
	case *ssa.Slice:
		b := st.val(x.X)
		lo := mkInt(0)
		if x.Low != nil {
			lo = st.val(x.Low)
		}
		hi := mk("none", "", nil)
		if x.High != nil {
			hi = st.val(x.High)
		}
		if st.dry == nil && st.sim.hooks.slice != nil {
			st.sim.hooks.slice(st, b, lo, hi, x.Pos())
		}
		if z, ok := lo.intVal(); ok && z.Sign() == 0 && hi.op == "none" {
			fr.env[x] = b
			return
		}
		if b.op == "slc" { // flatten
			if hi.op == "none" {
				hi = b.a[2]
			} else {
				hi = mkBin(token.ADD, b.a[1], hi, tInt)
			}
			lo = mkBin(token.ADD, b.a[1], lo, tInt)
			b = b.a[0]
		}
		fr.env[x] = mk("slc", "", x.Type(), b, lo, hi)
	case *ssa.Convert:
		fr.env[x] = st.convert(st.val(x.X), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = mk("conv", typStr(x.Type()), x.Type(), st.val(x.X))
	case *ssa.ChangeType:
		fr.env[x] = st.val(x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = st.val(x.X)
	case *ssa.SliceToArrayPointer:
		fr.env[x] = st.val(x.X)
	case *ssa.MakeInterface:
		fr.env[x] = mkx("iface", typStr(x.X.Type()), x.Type(), x.X.Type(), st.val(x.X))
	case *ssa.TypeAssert:
		st.typeAssert(x)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, st.val(b))
		}
		fn := x.Fn.(*ssa.Function)
		uniq++
		fr.env[x] = mkx("closure", fmt.Sprintf("%s#%d", st.sim.p.FName(fn), uniq), x.Type(), fn, bs...)
	case *ssa.MakeSlice:
		n := st.val(x.Len)
		if st.dry == nil && st.sim.hooks.mk != nil {
			st.sim.hooks.mk(st, n, x.Type(), x.Pos())
			if c := st.val(x.Cap); c != n {
				st.sim.hooks.mk(st, c, x.Type(), x.Pos())
			}
		}
		a := st.newAlloc("zeroslice", x.Type())
		st.setLen(a, n)
		fr.env[x] = a
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		fr.env[v] = st.newAlloc("map", v.Type())
	case *ssa.MapUpdate:
		m := st.val(x.Map)
		root, path := addrPath(m)
		p := append(append([]string{}, path...), "[]")
		if st.dry == nil && st.sim.hooks.store != nil {
			st.sim.hooks.store(st, mk("elem", "", nil, m, st.val(x.Key)), st.val(x.Value), x.Pos())
		}
		if st.dry != nil {
			st.recordWrite(root, p)
		}
		st.forget(root, p, false)
	case *ssa.Lookup:
		b, i := st.val(x.X), st.val(x.Index)
		if _, isStr := types.Unalias(x.X.Type()).Underlying().(*types.Basic); isStr {
			if st.dry == nil && st.sim.hooks.index != nil {
				st.sim.hooks.index(st, b, i, x.Pos())
			}
			fr.env[x] = mk("idx", "", x.Type(), b, i)
			return
		}
		ver := fmt.Sprint(st.memver)
		et := x.Type()
		if x.CommaOk {
			et = x.Type().(*types.Tuple).At(0).Type()
			fr.env[x] = mk("tuple", "", nil, mk("lookup", ver, et, b, i), mk("lookupok", ver, tBool, b, i))
			return
		}
		fr.env[x] = mk("lookup", ver, et, b, i)
	case *ssa.Extract:
		t := st.val(x.Tuple)
		if t.op == "tuple" && x.Index < len(t.a) {
			fr.env[x] = t.a[x.Index]
		} else {
			fr.env[x] = mk("ext", fmt.Sprint(x.Index), x.Type(), t)
		}
	case *ssa.Range:
		fr.env[x] = mk("range", "", nil, st.val(x.X))
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		var fs []*Term
		for i := 0; i < tt.Len(); i++ {
			fs = append(fs, st.freshVal("next", tt.At(i).Type()))
		}
		fr.env[x] = mk("tuple", "", nil, fs...)
	case *ssa.DebugRef, *ssa.RunDefers, *ssa.Go, *ssa.Defer, *ssa.Send:
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = st.freshVal("val", v.Type())
		}
	}
}

func (st *State) bin(op token.Token, a, b *Term, t types.Type) *Term {
	// NaN self-comparison
	if (op == token.EQL || op == token.NEQ) && a == b && isFloatT(a.t) {
		r := mkNot(mk("isnan", "", tBool, a))
		if op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	if isFloatT(t) && (a.op == "nan" || b.op == "nan") {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return mk("nan", "", t)
		}
	}
	// comparisons against known facts on equal constants
	r := mkBin(op, a, b, t)
	return r
}

func (st *State) convert(a *Term, t types.Type) *Term {
	if isTypeParam(t) || a.t == nil {
		return mk("conv", typStr(t), t, a)
	}
	if a.op == "cst" && a.c != nil {
		switch {
		case isIntT(t) && (a.c.Kind() == constant.Int):
			if b, ok := a.intVal(); ok {
				return mkBig(wrapBig(b, t), t)
			}
		case isFloatT(t) && (a.c.Kind() == constant.Int || a.c.Kind() == constant.Float):
			if r := wrapConst(constant.ToFloat(a.c), t); r != nil {
				return r
			}
		case isStringT(t) && a.c.Kind() == constant.String:
			return a
		case isIntT(t) && a.c.Kind() == constant.Float:
			f, _ := constant.Float64Val(a.c)
			if f == float64(int64(f)) {
				return mkConst(constant.MakeInt64(int64(f)), t)
			}
		}
	}
	if isIntT(t) && isIntT(a.t) {
		if intBits(t) == intBits(a.t) && isUnsignedT(t) == isUnsignedT(a.t) {
			return a
		}
		// round trip through a wider type
		if a.op == "conv" && isIntT(a.a[0].t) {
			in := a.a[0]
			if intBits(in.t) == intBits(t) && isUnsignedT(in.t) == isUnsignedT(t) && intBits(a.t) >= intBits(t) {
				return in
			}
		}
	}
	if isFloatT(t) && isFloatT(a.t) && basicOf(t).Kind() == basicOf(a.t).Kind() {
		return a
	}
	if u, ok := types.Unalias(t).Underlying().(*types.Pointer); ok && u != nil {
		return mk("conv", typStr(t), t, a)
	}
	return mk("conv", typStr(t), t, a)
}

func (st *State) typeAssert(x *ssa.TypeAssert) {
	fr := st.top()
	v := st.val(x.X)
	at := x.AssertedType
	var ok *Term
	var val *Term
	if v.op == "iface" {
		ct := v.x.(types.Type)
		if it, isI := at.Underlying().(*types.Interface); isI && !isTypeParam(at) {
			if types.Implements(ct, it) {
				ok, val = mkBool(true), v
			}
		} else if !isTypeParam(ct) && !isTypeParam(at) {
			if types.Identical(ct, at) {
				ok, val = mkBool(true), v.a[0]
			} else if !hasTypeParam(ct) && !hasTypeParam(at) {
				ok = mkBool(false)
			}
		}
	}
	if v.isNil() {
		ok = mkBool(false)
	}
	if ok == nil {
		ok = mk("isa", typStr(at), tBool, v)
	}
	if val == nil {
		val = mk("as", typStr(at), at, v)
	}
	if b, known := ok.boolVal(); known && !b {
		val = zeroOf(at)
	}
	if x.CommaOk {
		fr.env[x] = mk("tuple", "", nil, val, ok)
		return
	}
	fr.env[x] = val
}

func hasTypeParam(t types.Type) bool {
	found := false
	var w func(types.Type, int)
	w = func(t types.Type, d int) {
		if d > 5 || found {
			return
		}
		switch u := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Pointer:
			w(u.Elem(), d+1)
		case *types.Slice:
			w(u.Elem(), d+1)
		case *types.Named:
			if u.TypeArgs() != nil {
				for i := 0; i < u.TypeArgs().Len(); i++ {
					w(u.TypeArgs().At(i), d+1)
				}
			}
			if u.TypeParams().Len() > 0 && u.TypeArgs().Len() == 0 {
				found = true
			}
		}
	}
	w(t, 0)
	return found
}
