package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Effects engine: a modular, flow-insensitive points-to and modification
// analysis over access paths. A location is a root (parameter, captured
// variable, package variable, allocation) followed by field selections,
// dereferences ("*") and element selections ("[]"). Each function gets a
// summary: which caller-visible locations it may write, which locations its
// results may refer to, and which references it may store where. Summaries are
// computed to a fixpoint over all repository functions; interface calls go to
// every repository implementation, closures to their bodies.
// ---------------------------------------------------------------------------

type rootKind uint8

const (
	rkParam rootKind = iota
	rkGlobal
	rkAlloc
)

type Root struct {
	Kind rootKind
	Idx  int // parameter index; 1000+i for captured variables
	G    *ssa.Global
	Key  string
	Fn   *ssa.Function // closures and function values
	T    types.Type
	Pos  token.Pos
	Loop bool
}

type Loc struct {
	R *Root
	P string
}

func (l Loc) String() string { return l.R.Key + renderPath(l.P) }

func renderPath(p string) string {
	var sb strings.Builder
	for _, c := range splitPath(p) {
		if strings.HasPrefix(c, ".") {
			sb.WriteString(".")
			sb.WriteString(c[strings.Index(c, "#")+1:])
		} else {
			sb.WriteString(c)
		}
	}
	return sb.String()
}

type locset map[Loc]bool

func (s locset) sorted() []Loc {
	r := make([]Loc, 0, len(s))
	for l := range s {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].R.Key != r[j].R.Key {
			return r[i].R.Key < r[j].R.Key
		}
		return r[i].P < r[j].P
	})
	return r
}

// Path components: ".T#f" field, "*" contents of a reference, "[]" element, "[k]" map key, ".b0" closure binding, "~" truncated.
func splitPath(p string) []string {
	var out []string
	for i := 0; i < len(p); {
		switch p[i] {
		case '*', '~':
			out = append(out, p[i:i+1])
			i++
		case '[':
			j := strings.IndexByte(p[i:], ']') + i + 1
			out = append(out, p[i:j])
			i = j
		default: // '.' until next special at depth 0
			j := i + 1
			for j < len(p) && p[j] != '*' && p[j] != '~' && p[j] != '[' && p[j] != '.' {
				j++
			}
			out = append(out, p[i:j])
			i = j
		}
	}
	return out
}

const maxComps = 11

func extend(l Loc, comp string) Loc {
	if strings.HasSuffix(l.P, "~") {
		return l
	}
	n := 0
	for i := 0; i < len(l.P); i++ {
		switch l.P[i] {
		case '.', '*', '[':
			n++
		}
	}
	if n >= maxComps {
		return Loc{l.R, l.P + "~"}
	}
	return Loc{l.R, l.P + comp}
}

func fieldComp(t types.Type, i int) string {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	name := "anon"
	if n, ok := t.(*types.Named); ok {
		name = strings.NewReplacer(".", "/").Replace(shortPkg(n.Obj().Pkg())) + "/" + n.Obj().Name()
	}
	st := t.Underlying().(*types.Struct)
	return "." + name + "#" + canonFieldName(name, st.Field(i).Name())
}

type modInfo struct {
	fn  *ssa.Function // innermost function containing the write
	pos token.Pos
	how string
}

type fcall struct {
	f    Loc
	args []locset
}

type Summary struct {
	mods  map[Loc]modInfo
	rets  []locset
	cells map[Loc]locset
	cops  map[Loc]locset
	calls []fcall
	size  int
}

// heap is the abstract memory at a program point. A cell is the complete set of
// targets of the reference stored there; a location without a cell holds what
// the longest-prefix copy says, else (caller-visible roots) its entry content.
type heap struct {
	cells map[Loc]locset
	cops  map[Loc]locset
	byR   map[*Root][]Loc // prefixes present in cops
}

func newHeap() *heap {
	return &heap{map[Loc]locset{}, map[Loc]locset{}, map[*Root][]Loc{}}
}

func (h *heap) clone() *heap {
	n := &heap{make(map[Loc]locset, len(h.cells)), make(map[Loc]locset, len(h.cops)), make(map[*Root][]Loc, len(h.byR))}
	for k, v := range h.cells {
		n.cells[k] = v
	}
	for k, v := range h.cops {
		n.cops[k] = v
	}
	for k, v := range h.byR {
		n.byR[k] = v[:len(v):len(v)]
	}
	return n
}

func union(a, b locset) locset {
	all := true
	for x := range b {
		if !a[x] {
			all = false
			break
		}
	}
	if all && a != nil {
		return a
	}
	n := make(locset, len(a)+len(b))
	for x := range a {
		n[x] = true
	}
	for x := range b {
		if len(n) > 250 {
			break
		}
		n[x] = true
	}
	return n
}

func isPrefix(c, l string) bool {
	if !strings.HasPrefix(l, c) {
		return false
	}
	if len(l) == len(c) {
		return true
	}
	ch := l[len(c)]
	return ch == '.' || ch == '*' || ch == '[' || ch == '~'
}

// source: what a struct or array at l was copied from (entry locations).
func (h *heap) source(l Loc) locset {
	best := -1
	var bl Loc
	for _, c := range h.byR[l.R] {
		if len(c.P) > best && isPrefix(c.P, l.P) {
			best = len(c.P)
			bl = c
		}
	}
	if best >= 0 {
		out := locset{}
		suf := splitPath(l.P[len(bl.P):])
		for s := range h.cops[bl] {
			n := s
			for _, c := range suf {
				n = extend(n, c)
			}
			out[n] = true
		}
		return out
	}
	if l.R.Kind != rkAlloc {
		return locset{l: true}
	}
	return locset{}
}

func (h *heap) content(l Loc) locset {
	if strings.HasSuffix(l.P, "~") {
		return locset{l: true}
	}
	if c, ok := h.cells[l]; ok {
		return c
	}
	out := locset{}
	for s := range h.source(l) {
		out[extend(s, "*")] = true
	}
	return out
}

func (h *heap) setCop(l Loc, s locset) {
	if _, ok := h.cops[l]; !ok {
		h.byR[l.R] = append(h.byR[l.R], l)
	}
	h.cops[l] = s
}

// join merges b into a; reports change.
func (a *heap) join(b *heap) bool {
	ch := false
	upd := map[Loc]locset{}
	for l, bs := range b.cells {
		as := a.content(l)
		u := union(as, bs)
		if _, ok := a.cells[l]; !ok || len(u) != len(as) {
			upd[l] = u
		}
	}
	for l, as := range a.cells {
		if _, ok := b.cells[l]; ok {
			continue
		}
		u := union(as, b.content(l))
		if len(u) != len(as) {
			upd[l] = u
		}
	}
	cu := map[Loc]locset{}
	for l, bs := range b.cops {
		as := a.source(l)
		u := union(as, bs)
		if _, ok := a.cops[l]; !ok || len(u) != len(as) {
			cu[l] = u
		}
	}
	for l, as := range a.cops {
		if _, ok := b.cops[l]; ok {
			continue
		}
		u := union(as, b.source(l))
		if len(u) != len(as) {
			cu[l] = u
		}
	}
	for l, u := range upd {
		a.cells[l] = u
		ch = true
	}
	for l, u := range cu {
		a.setCop(l, u)
		ch = true
	}
	return ch
}

type fstate struct {
	e      *Effects
	fn     *ssa.Function
	key    string
	consts map[ssa.Value]bool
	edges  map[[2]int]bool // disabled CFG edges
	vals   map[ssa.Value]locset
	tuples map[ssa.Value][]locset
	h      *heap
	in     map[*ssa.BasicBlock]*heap
	exit   *heap
	roots  map[string]*Root
	mods   map[Loc]modInfo
	rets   []locset
	calls  map[string]fcall
	dirty  bool
	weak   bool
	inLoop map[*ssa.BasicBlock]bool
	subs   []*fstate // phi-split variants
}

type Effects struct {
	p          *Prog
	states     map[string]*fstate
	sums       map[string]*Summary
	vars       map[*ssa.Function]map[string]bool
	ids        map[*ssa.Function]int
	inOrder    map[*ssa.Function]bool
	globals    map[*ssa.Global]*Root
	order      []*ssa.Function
	cha        map[string][]*ssa.Function
	onceFns    map[*ssa.Function]bool
	ptrMemo    map[types.Type]bool
	unknown    map[string]bool
	rounds     int
	boolStored map[string]bool
	barrier    map[*ssa.Function]bool // treated as having no effect
}

func (p *Prog) Effects() *Effects {
	if p.eff == nil {
		p.eff = p.newEffects(nil)
	}
	return p.eff
}

func (p *Prog) newEffects(barrier map[*ssa.Function]bool) *Effects {
	e := &Effects{barrier: barrier, p: p, states: map[string]*fstate{}, sums: map[string]*Summary{}, vars: map[*ssa.Function]map[string]bool{}, ids: map[*ssa.Function]int{}, inOrder: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*Root{}, cha: map[string][]*ssa.Function{}, onceFns: map[*ssa.Function]bool{}, ptrMemo: map[types.Type]bool{}, unknown: map[string]bool{}}
	for _, f := range p.Funcs {
		e.need(f)
	}
	for round := 0; round < 60; round++ {
		e.rounds++
		changed := false
		for i := len(e.order) - 1; i >= 0; i-- {
			f := e.order[i]
			var ks []string
			for k := range e.vars[f] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if e.analyse(f, k) {
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return e
}

func (e *Effects) id(f *ssa.Function, key string) string {
	n, ok := e.ids[f]
	if !ok {
		n = len(e.ids) + 1
		e.ids[f] = n
	}
	return fmt.Sprintf("%d|%s", n, key)
}

func (e *Effects) Sum(f *ssa.Function) *Summary { return e.sums[e.id(norm(f), "")] }

func (e *Effects) hasPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := e.ptrMemo[t]; ok {
		return b
	}
	e.ptrMemo[t] = true
	b := e.hasPtr1(t)
	e.ptrMemo[t] = b
	return b
}

func (e *Effects) hasPtr1(t types.Type) bool {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		it := tp.Constraint().Underlying().(*types.Interface)
		return it.NumMethods() > 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if e.hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return e.hasPtr(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// isAgg: the value is held by value (struct or array), so a location set names where it was copied from.
func isAgg(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// analyse computes the summary of f specialised to the constant boolean
// parameters named in key ("1=t;3=f;").
func (e *Effects) analyse(f *ssa.Function, key string) bool {
	if f.Blocks == nil || e.barrier[f] {
		return false
	}
	id := e.id(f, key)
	st := e.states[id]
	if st == nil {
		st = e.newState(f, key, nil)
		// split on boolean phis of constants: their arms are analysed separately
		var phis []*ssa.Phi
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if len(phis) < 3 && splittable(ph) && !st.inLoop[b] {
					phis = append(phis, ph)
				}
			}
		}
		if len(phis) > 0 {
			for m := 0; m < 1<<len(phis); m++ {
				asg := map[*ssa.Phi]bool{}
				for i, ph := range phis {
					asg[ph] = m>>i&1 == 1
				}
				st.subs = append(st.subs, e.newState(f, key, asg))
			}
		} else {
			st.subs = []*fstate{st}
		}
		e.states[id] = st
	}
	s := &Summary{mods: map[Loc]modInfo{}, rets: make([]locset, f.Signature.Results().Len()), cells: map[Loc]locset{}, cops: map[Loc]locset{}}
	var ex *heap
	for _, sub := range st.subs {
		sub.roots = st.roots
		sub.run()
		for l, m := range sub.mods {
			if o, ok := s.mods[l]; !ok || isPermHow(o.how) && !isPermHow(m.how) {
				s.mods[l] = m
			}
		}
		for i := range s.rets {
			s.rets[i] = union(s.rets[i], sub.rets[i])
		}
		for _, c := range sub.calls {
			s.calls = append(s.calls, c)
		}
		if sub.exit != nil {
			if ex == nil {
				ex = sub.exit.clone()
			} else {
				ex.join(sub.exit)
			}
		}
	}
	if ex != nil {
		e.summarise(s, ex)
	}
	n := len(s.mods)
	for _, m := range s.mods {
		if !isPermHow(m.how) {
			n++
		}
	}
	for _, ls := range s.cells {
		n += 1 + len(ls)
	}
	for _, ls := range s.cops {
		n += 1 + len(ls)
	}
	for _, r := range s.rets {
		n += len(r)
	}
	for _, c := range s.calls {
		n++
		for _, a := range c.args {
			n += len(a)
		}
	}
	s.size = n
	old := e.sums[id]
	e.sums[id] = s
	return old == nil || old.size != n
}

func splittable(ph *ssa.Phi) bool {
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return false
	}
	t, f := false, false
	for _, ed := range ph.Edges {
		c, ok := ed.(*ssa.Const)
		if !ok {
			return false
		}
		if c.Value.String() == "true" {
			t = true
		} else {
			f = true
		}
	}
	if !t || !f {
		return false
	}
	// used beyond the branch of its own block
	for _, r := range *ph.Referrers() {
		if _, isIf := r.(*ssa.If); !isIf || r.Block() != ph.Block() {
			return true
		}
	}
	return false
}

func (e *Effects) newState(f *ssa.Function, key string, asg map[*ssa.Phi]bool) *fstate {
	st := &fstate{e: e, fn: f, key: key, consts: map[ssa.Value]bool{}, edges: map[[2]int]bool{}, vals: map[ssa.Value]locset{}, tuples: map[ssa.Value][]locset{}, in: map[*ssa.BasicBlock]*heap{}, roots: map[string]*Root{}, mods: map[Loc]modInfo{}, calls: map[string]fcall{}}
	st.rets = make([]locset, f.Signature.Results().Len())
	for i := range st.rets {
		st.rets[i] = locset{}
	}
	for _, kv := range strings.Split(key, ";") {
		if kv == "" {
			continue
		}
		var i int
		fmt.Sscanf(kv, "%d=", &i)
		st.consts[f.Params[i]] = strings.HasSuffix(kv, "t")
	}
	for ph, v := range asg {
		st.consts[ph] = v
		for i, ed := range ph.Edges {
			if (ed.(*ssa.Const).Value.String() == "true") != v {
				st.edges[[2]int{ph.Block().Preds[i].Index, ph.Block().Index}] = true
			}
		}
	}
	st.inLoop = loopBlocks(f)
	return st
}

// loopBlocks: blocks on a CFG cycle.
func loopBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == b {
				out[b] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return out
}

// boolConst evaluates a condition under the variant's constants.
func (st *fstate) boolConst(v ssa.Value) (val, known bool) {
	if b, ok := st.consts[v]; ok {
		return b, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && (x.Value.String() == "true" || x.Value.String() == "false") {
			return x.Value.String() == "true", true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, k := st.boolConst(x.X)
			return !b, k
		}
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && st.e.constFalseField(fa) {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (st *fstate) run() {
	f := st.fn
	if st.in[f.Blocks[0]] == nil {
		st.in[f.Blocks[0]] = newHeap()
	}
	order := f.DomPreorder()
	for it := 0; it < 40; it++ {
		st.dirty = false
		for _, b := range order {
			hin := st.in[b]
			if hin == nil {
				continue
			}
			st.h = hin.clone()
			for _, in := range b.Instrs {
				st.weak = st.inLoop[b]
				st.instr(in)
			}
			succs := b.Succs
			if len(b.Instrs) > 0 {
				switch x := b.Instrs[len(b.Instrs)-1].(type) {
				case *ssa.If:
					if v, k := st.boolConst(x.Cond); k {
						if v {
							succs = b.Succs[:1]
						} else {
							succs = b.Succs[1:2]
						}
					}
				case *ssa.Return:
					if st.exit == nil {
						st.exit = st.h.clone()
						st.dirty = true
					} else if st.exit.join(st.h) {
						st.dirty = true
					}
				}
			}
			for _, s := range succs {
				if st.edges[[2]int{b.Index, s.Index}] {
					continue
				}
				if st.in[s] == nil {
					st.in[s] = st.h.clone()
					st.dirty = true
				} else if st.in[s].join(st.h) {
					st.dirty = true
				}
			}
		}
		if !st.dirty {
			break
		}
	}
}

func (e *Effects) summarise(s *Summary, ex *heap) {
	reach := map[*Root]bool{}
	var work []*Root
	addSet := func(ls locset) {
		for l := range ls {
			if l.R.Kind == rkAlloc && !reach[l.R] {
				reach[l.R] = true
				work = append(work, l.R)
			}
		}
	}
	for _, r := range s.rets {
		addSet(r)
	}
	for l, ls := range ex.cells {
		if l.R.Kind != rkAlloc {
			addSet(ls)
		}
	}
	for _, c := range s.calls {
		for _, a := range c.args {
			addSet(a)
		}
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for l, ls := range ex.cells {
			if l.R == r {
				addSet(ls)
			}
		}
	}
	for l, ls := range ex.cells {
		if l.R.Kind != rkAlloc || reach[l.R] {
			s.cells[l] = ls
		}
	}
	for l, ls := range ex.cops {
		if l.R.Kind != rkAlloc || reach[l.R] {
			s.cops[l] = ls
		}
	}
}

func (st *fstate) root(key string, mk func() *Root) *Root {
	if r := st.roots[key]; r != nil {
		return r
	}
	r := mk()
	r.Key = key
	st.roots[key] = r
	return r
}

func (e *Effects) global(g *ssa.Global) *Root {
	if r := e.globals[g]; r != nil {
		return r
	}
	r := &Root{Kind: rkGlobal, G: g, Key: "global " + shortPkg(g.Pkg.Pkg) + "." + g.Name(), T: g.Type()}
	e.globals[g] = r
	return r
}

func (st *fstate) param(i int) *Root {
	return st.root(fmt.Sprintf("P%d", i), func() *Root { return &Root{Kind: rkParam, Idx: i} })
}

func (st *fstate) alloc(site ssa.Instruction, sub string, t types.Type, fn *ssa.Function) *Root {
	key := fmt.Sprintf("A@%p%s", site, sub)
	return st.root(key, func() *Root {
		return &Root{Kind: rkAlloc, T: t, Fn: fn, Pos: site.Pos(), Loop: st.inLoop[site.Block()]}
	})
}

// strongOK: l stands for exactly one concrete location here.
func (st *fstate) strongOK(l Loc, n int) bool {
	if n != 1 || strings.HasSuffix(l.P, "~") || strings.Contains(l.P, "[") {
		return false
	}
	if l.R.Kind == rkAlloc && l.R.Loop {
		return false
	}
	return true
}

func (st *fstate) store(l Loc, s locset, strong bool) {
	if strong {
		st.h.cells[l] = union(locset{}, s)
		return
	}
	if len(s) == 0 {
		return
	}
	st.h.cells[l] = union(st.h.content(l), s)
}

// copyInto stores a struct or array read from the locations src into l.
func (st *fstate) copyInto(l Loc, src locset, strong bool) {
	type kv struct {
		l Loc
		s locset
	}
	var cs []kv
	base := locset{}
	for s := range src {
		if s == l {
			continue
		}
		base = union(base, st.h.source(s))
		for c, t := range st.h.cells {
			if c.R == s.R && isPrefix(s.P, c.P) {
				cs = append(cs, kv{Loc{l.R, l.P + c.P[len(s.P):]}, t})
			}
		}
		for c, t := range st.h.cops {
			if c.R == s.R && c.P != s.P && isPrefix(s.P, c.P) {
				nl := Loc{l.R, l.P + c.P[len(s.P):]}
				st.h.setCop(nl, union(st.h.source(nl), t))
			}
		}
	}
	if strong && len(src) == 1 {
		for c := range st.h.cells {
			if c.R == l.R && isPrefix(l.P, c.P) {
				delete(st.h.cells, c)
			}
		}
		if len(st.h.byR[l.R]) > 0 {
			var keep []Loc
			for _, c := range st.h.byR[l.R] {
				if isPrefix(l.P, c.P) {
					delete(st.h.cops, c)
				} else {
					keep = append(keep, c)
				}
			}
			st.h.byR[l.R] = keep
		}
		st.h.setCop(l, base)
		for _, c := range cs {
			st.h.cells[c.l] = c.s
		}
		return
	}
	// weak: every sub-location keeps what it may have held
	for _, c := range cs {
		st.h.cells[c.l] = union(st.h.content(c.l), c.s)
	}
	if len(base) > 0 {
		st.h.setCop(l, union(st.h.source(l), base))
		for c, t := range st.h.cells {
			if c.R == l.R && isPrefix(l.P, c.P) {
				add := locset{}
				suf := splitPath(c.P[len(l.P):])
				for s := range base {
					n := s
					for _, k := range suf {
						n = extend(n, k)
					}
					if _, have := st.h.cells[n]; !have {
						add[extend(n, "*")] = true
					}
				}
				st.h.cells[c] = union(t, add)
			}
		}
	}
}

func (st *fstate) setVal(v ssa.Value, s locset) {
	cur := st.vals[v]
	if cur == nil {
		cur = locset{}
		st.vals[v] = cur
	}
	for x := range s {
		if !cur[x] {
			cur[x] = true
			st.dirty = true
		}
	}
}

// val is the location set of an operand.
func (st *fstate) val(v ssa.Value) locset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return locset{Loc{st.e.global(x), ""}: true}
	case *ssa.Function:
		r := st.root("F@"+x.String(), func() *Root { return &Root{Kind: rkAlloc, Fn: norm(x)} })
		st.e.need(norm(x))
		return locset{Loc{r, ""}: true}
	case *ssa.Parameter:
		if !st.e.hasPtr(x.Type()) {
			return nil
		}
		for i, p := range st.fn.Params {
			if p == x {
				return locset{Loc{st.param(i), ""}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range st.fn.FreeVars {
			if p == x {
				return locset{Loc{st.param(1000 + i), ""}: true}
			}
		}
	}
	return st.vals[v]
}

func (e *Effects) need(f *ssa.Function) {
	if f.Blocks == nil || e.inOrder[f] {
		return
	}
	if !e.p.IsRepo(f) && f.Synthetic == "" {
		return
	}
	e.inOrder[f] = true
	e.order = append(e.order, f)
	e.vars[f] = map[string]bool{"": true}
}

// variant: the specialisation key of a call with constant boolean arguments.
func (st *fstate) variant(f *ssa.Function, args []ssa.Value) string {
	key := ""
	for i, a := range args {
		if i >= len(f.Params) {
			break
		}
		if b, ok := f.Params[i].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		if v, k := st.boolConst(a); k {
			if v {
				key += fmt.Sprintf("%d=t;", i)
			} else {
				key += fmt.Sprintf("%d=f;", i)
			}
		}
	}
	if key != "" && !st.e.vars[f][key] {
		st.e.vars[f][key] = true
		st.dirty = true
		st.e.analyse(f, key)
	}
	return key
}

func (st *fstate) content(l Loc) locset { return st.h.content(l) }

// read: value of type t loaded from addresses ls.
func (st *fstate) read(ls locset, t types.Type) locset {
	if !st.e.hasPtr(t) {
		return nil
	}
	if isAgg(t) {
		return ls
	}
	out := locset{}
	for l := range ls {
		for x := range st.content(l) {
			out[x] = true
		}
	}
	return out
}

func (st *fstate) write(ls locset, t types.Type, v locset) {
	if !st.e.hasPtr(t) {
		return
	}
	for l := range ls {
		strong := st.strongOK(l, len(ls))
		if isAgg(t) {
			st.copyInto(l, v, strong)
		} else {
			st.store(l, v, strong)
		}
	}
}

func (st *fstate) mod(ls locset, pos token.Pos, fn *ssa.Function, how string) {
	for l := range ls {
		if l.R.Kind == rkAlloc {
			continue
		}
		if o, ok := st.mods[l]; !ok || isPermHow(o.how) && !isPermHow(how) {
			st.mods[l] = modInfo{fn, pos, how}
			st.dirty = true
		}
	}
}

// isPermHow: the write only rearranges the elements of a slice.
func isPermHow(how string) bool { return strings.HasPrefix(how, "permute ") }

func ext(ls locset, comp string) locset {
	out := locset{}
	for l := range ls {
		out[extend(l, comp)] = true
	}
	return out
}

func elemType(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (st *fstate) instr(in ssa.Instruction) {
	e := st.e
	switch x := in.(type) {
	case *ssa.Alloc:
		st.setVal(x, locset{Loc{st.alloc(x, "", x.Type(), nil), ""}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		st.setVal(v, locset{Loc{st.alloc(in, "", v.Type(), nil), ""}: true})
	case *ssa.MakeClosure:
		fn := norm(x.Fn.(*ssa.Function))
		e.need(fn)
		r := st.alloc(x, "", x.Type(), fn)
		for i, b := range x.Bindings {
			if isAgg(b.Type()) {
				st.copyInto(Loc{r, fmt.Sprintf(".b%d", i)}, st.val(b), true)
			} else {
				st.store(Loc{r, fmt.Sprintf(".b%d", i)}, st.val(b), !r.Loop)
			}
		}
		st.setVal(x, locset{Loc{r, ""}: true})
	case *ssa.Phi:
		if e.hasPtr(x.Type()) {
			for i, ed := range x.Edges {
				p := x.Block().Preds[i]
				if st.edges[[2]int{p.Index, x.Block().Index}] || st.in[p] == nil {
					continue
				}
				st.setVal(x, st.val(ed))
			}
		}
	case *ssa.ChangeType:
		st.setVal(x, st.val(x.X))
	case *ssa.ChangeInterface:
		st.setVal(x, st.val(x.X))
	case *ssa.MakeInterface:
		if e.hasPtr(x.X.Type()) {
			st.setVal(x, st.val(x.X))
		}
	case *ssa.SliceToArrayPointer:
		st.setVal(x, st.val(x.X))
	case *ssa.MultiConvert:
		st.setVal(x, st.val(x.X))
	case *ssa.Convert:
		if e.hasPtr(x.Type()) {
			if e.hasPtr(x.X.Type()) {
				st.setVal(x, st.val(x.X))
			} else {
				st.setVal(x, locset{Loc{st.alloc(x, "", x.Type(), nil), ""}: true})
			}
		}
	case *ssa.TypeAssert:
		v := st.val(x.X)
		if x.CommaOk {
			st.tuples[x] = []locset{v, nil}
		} else {
			st.setVal(x, v)
		}
	case *ssa.Extract:
		if t := st.tuples[x.Tuple]; t != nil && x.Index < len(t) && e.hasPtr(x.Type()) {
			st.setVal(x, t[x.Index])
		}
	case *ssa.FieldAddr:
		st.setVal(x, ext(st.val(x.X), fieldComp(x.X.Type(), x.Field)))
	case *ssa.Field:
		if e.hasPtr(x.Type()) {
			st.setVal(x, st.read(ext(st.val(x.X), fieldComp(x.X.Type(), x.Field)), x.Type()))
		}
	case *ssa.IndexAddr:
		st.setVal(x, ext(st.val(x.X), "[]"))
	case *ssa.Index:
		if e.hasPtr(x.Type()) {
			st.setVal(x, st.read(ext(st.val(x.X), "[]"), x.Type()))
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			v := st.read(ext(st.val(x.X), "[]"), elemType(x.X.Type()))
			if x.CommaOk {
				st.tuples[x] = []locset{v, nil}
			} else if e.hasPtr(x.Type()) {
				st.setVal(x, v)
			}
		}
	case *ssa.Range:
		st.setVal(x, st.val(x.X))
	case *ssa.Next:
		if !x.IsString {
			mv := st.val(x.Iter)
			tt := x.Type().(*types.Tuple)
			var v, k locset
			if e.hasPtr(tt.At(2).Type()) {
				v = st.read(ext(mv, "[]"), tt.At(2).Type())
			}
			if e.hasPtr(tt.At(1).Type()) {
				k = st.read(ext(mv, "[k]"), tt.At(1).Type())
			}
			st.tuples[x] = []locset{nil, k, v}
		}
	case *ssa.Slice:
		if e.hasPtr(x.Type()) {
			st.setVal(x, st.val(x.X))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if e.hasPtr(x.Type()) {
				st.setVal(x, st.read(st.val(x.X), x.Type()))
			}
		} else if x.Op == token.ARROW {
			if !x.CommaOk {
				st.setVal(x, st.read(ext(st.val(x.X), "[]"), x.Type()))
			}
		}
	case *ssa.Store:
		a := st.val(x.Addr)
		st.mod(a, x.Pos(), st.fn, "store")
		st.write(a, x.Val.Type(), st.val(x.Val))
	case *ssa.MapUpdate:
		m := st.val(x.Map)
		st.mod(ext(m, "[]"), x.Pos(), st.fn, "map update")
		st.write(ext(m, "[]"), x.Value.Type(), st.val(x.Value))
		st.write(ext(m, "[k]"), x.Key.Type(), st.val(x.Key))
	case *ssa.Send:
		st.write(ext(st.val(x.Chan), "[]"), x.X.Type(), st.val(x.X))
	case *ssa.Return:
		for i, r := range x.Results {
			if !e.hasPtr(r.Type()) {
				continue
			}
			for l := range st.val(r) {
				if !st.rets[i][l] {
					st.rets[i][l] = true
					st.dirty = true
				}
			}
		}
	case *ssa.Call:
		st.call(x, &x.Call, x)
	case *ssa.Defer:
		st.call(x, &x.Call, nil)
	case *ssa.Go:
		st.call(x, &x.Call, nil)
	}
}

func (st *fstate) setResult(res ssa.Value, rets []locset) {
	if res == nil {
		return
	}
	if _, ok := res.Type().(*types.Tuple); ok {
		t := st.tuples[res]
		if t == nil {
			t = make([]locset, len(rets))
			st.tuples[res] = t
		}
		for i := range rets {
			if i >= len(t) {
				break
			}
			if t[i] == nil {
				t[i] = locset{}
			}
			for l := range rets[i] {
				if !t[i][l] {
					t[i][l] = true
					st.dirty = true
				}
			}
		}
	} else if len(rets) == 1 && st.e.hasPtr(res.Type()) {
		st.setVal(res, rets[0])
	}
}

func (st *fstate) call(in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	e := st.e
	if b, ok := c.Value.(*ssa.Builtin); ok {
		st.builtin(in, b, c, res)
		return
	}
	var args []locset
	if c.IsInvoke() {
		args = append(args, st.val(c.Value))
		for _, a := range c.Args {
			args = append(args, st.argVal(a))
		}
		if st.modelInvoke(in, c, args, res) {
			return
		}
		fs := e.implementers(c.Method, c.Value.Type())
		if len(fs) == 1 {
			st.apply(in, fs[0], args, nil, res, "")
		} else {
			pre := st.h
			var acc *heap
			for _, f := range fs {
				st.h = pre.clone()
				st.apply(in, f, args, nil, res, "")
				if acc == nil {
					acc = st.h
				} else {
					acc.join(st.h)
				}
			}
			if acc != nil {
				st.h = acc
			}
		}
		if len(fs) == 0 {
			st.external(in, nil, c, args, res)
		}
		return
	}
	for _, a := range c.Args {
		args = append(args, st.argVal(a))
	}
	if f := c.StaticCallee(); f != nil {
		f = norm(f)
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			if e.analysable(f) {
				st.apply(in, f, args, nil, res, st.variant(f, c.Args))
			} else {
				st.external(in, f, c, args, res)
			}
			return
		}
	}
	// dynamic function value
	st.callAll(in, st.val(c.Value), args, res)
}

func (st *fstate) argVal(a ssa.Value) locset {
	if !st.e.hasPtr(a.Type()) {
		return nil
	}
	return st.val(a)
}

// callAll calls each function value in ls; the effects of all of them and of none are joined.
func (st *fstate) callAll(in ssa.Instruction, ls locset, args []locset, res ssa.Value) {
	for _, l := range ls.sorted() {
		pre := st.h.clone()
		st.callLoc(in, l, args, res)
		if len(ls) > 1 || res == nil {
			st.h.join(pre)
		}
	}
}

// callLoc calls the function value living at l.
func (st *fstate) callLoc(in ssa.Instruction, l Loc, args []locset, res ssa.Value) {
	if l.R.Kind == rkAlloc && l.R.Fn != nil && l.P == "" {
		f := l.R.Fn
		if !st.e.analysable(f) {
			return
		}
		st.apply(in, f, args, func(i int) locset { return st.content(Loc{l.R, fmt.Sprintf(".b%d", i)}) }, res, "")
		return
	}
	if l.R.Kind == rkAlloc {
		return
	}
	key := l.R.Key + l.P
	cur, ok := st.calls[key]
	if !ok {
		cur = fcall{f: l, args: make([]locset, len(args))}
		for i := range cur.args {
			cur.args[i] = locset{}
		}
		st.calls[key] = cur
		st.dirty = true
	}
	for i, a := range args {
		if i >= len(cur.args) {
			break
		}
		for x := range a {
			if !cur.args[i][x] {
				cur.args[i][x] = true
				st.dirty = true
			}
		}
	}
}

func (e *Effects) analysable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if e.p.IsRepo(f) {
		e.need(f)
		return true
	}
	if f.Synthetic != "" && f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), modPath) {
		e.need(f)
		return true
	}
	return false
}

// apply a callee summary at a call site.
func (st *fstate) apply(in ssa.Instruction, f *ssa.Function, args []locset, free func(int) locset, res ssa.Value, tag string) {
	s := st.e.sums[st.e.id(f, tag)]
	pre := st.h
	if s == nil {
		return
	}
	if f.Signature.Recv() == nil && f.Signature.Variadic() {
	}
	memo := map[Loc]locset{}
	var resolve func(l Loc) locset
	resolve = func(l Loc) locset {
		if r, ok := memo[l]; ok {
			return r
		}
		var cur locset
		switch l.R.Kind {
		case rkGlobal:
			cur = locset{Loc{l.R, ""}: true}
		case rkAlloc:
			if l.R.Fn != nil && strings.HasPrefix(l.R.Key, "F@") {
				cur = locset{Loc{st.root(l.R.Key, func() *Root { return &Root{Kind: rkAlloc, Fn: l.R.Fn} }), ""}: true}
			} else {
				sub := "/?"
				if l.R.T != nil {
					sub = "/" + l.R.T.String()
				}
				if l.R.Fn != nil {
					sub += "/" + l.R.Fn.String()
				}
				cur = locset{Loc{st.alloc(in, sub, l.R.T, l.R.Fn), ""}: true}
			}
		default:
			if l.R.Idx >= 1000 {
				if free != nil {
					cur = free(l.R.Idx - 1000)
				}
			} else if l.R.Idx < len(args) {
				cur = args[l.R.Idx]
			}
		}
		for _, comp := range splitPath(l.P) {
			nxt := locset{}
			for x := range cur {
				if comp == "*" {
					for y := range pre.content(x) {
						nxt[y] = true
					}
				} else if comp == "~" {
					nxt[Loc{x.R, strings.TrimSuffix(x.P, "~") + "~"}] = true
				} else {
					nxt[extend(x, comp)] = true
				}
			}
			cur = nxt
		}
		memo[l] = cur
		return cur
	}
	resSet := func(ls locset) locset {
		out := locset{}
		for l := range ls {
			for x := range resolve(l) {
				out[x] = true
			}
		}
		return out
	}
	for l, mi := range s.mods {
		if st.e.onceFns[f] && l.R.Kind == rkGlobal {
			continue
		}
		st.mod(resolve(l), mi.pos, mi.fn, mi.how)
	}
	type wr struct {
		l      Loc
		s      locset
		strong bool
		cop    bool
	}
	var ws []wr
	for l, ls := range s.cops {
		t := resSet(ls)
		tg := resolve(l)
		for x := range tg {
			ws = append(ws, wr{x, t, st.strongOK(x, len(tg)), true})
		}
	}
	for l, ls := range s.cells {
		t := resSet(ls)
		tg := resolve(l)
		for x := range tg {
			ws = append(ws, wr{x, t, st.strongOK(x, len(tg)), false})
		}
	}
	rets := make([]locset, len(s.rets))
	for i := range s.rets {
		rets[i] = resSet(s.rets[i])
	}
	type pc struct {
		fs   locset
		args []locset
	}
	var pcs []pc
	for _, c := range s.calls {
		var as []locset
		for _, a := range c.args {
			as = append(as, resSet(a))
		}
		pcs = append(pcs, pc{resolve(c.f), as})
	}
	sort.Slice(ws, func(i, j int) bool {
		if ws[i].cop != ws[j].cop {
			return ws[i].cop
		}
		return len(ws[i].l.P) < len(ws[j].l.P)
	})
	// expand copies against the memory before the call
	if len(ws) > 0 {
		st.h = pre.clone()
		for _, w := range ws {
			if w.cop {
				cur := st.h
				st.h = pre.clone()
				st.copyInto(w.l, w.s, w.strong)
				tmp := st.h
				st.h = cur
				st.adopt(tmp, w.l)
			} else {
				st.store(w.l, w.s, w.strong)
			}
		}
	}
	for _, c := range pcs {
		st.callAll(in, c.fs, c.args, nil)
	}
	st.setResult(res, rets)
}

// adopt takes over everything below l from another memory.
func (st *fstate) adopt(o *heap, l Loc) {
	for c := range st.h.cells {
		if c.R == l.R && isPrefix(l.P, c.P) {
			delete(st.h.cells, c)
		}
	}
	var keep []Loc
	for _, c := range st.h.byR[l.R] {
		if isPrefix(l.P, c.P) {
			delete(st.h.cops, c)
		} else {
			keep = append(keep, c)
		}
	}
	st.h.byR[l.R] = keep
	for c, t := range o.cells {
		if c.R == l.R && isPrefix(l.P, c.P) {
			st.h.cells[c] = t
		}
	}
	for c, t := range o.cops {
		if c.R == l.R && isPrefix(l.P, c.P) {
			st.h.setCop(c, t)
		}
	}
}

func (st *fstate) copyElems(dst, src locset, et types.Type) {
	if et == nil || !st.e.hasPtr(et) {
		return
	}
	for d := range dst {
		de := extend(d, "[]")
		if isAgg(et) {
			st.copyInto(de, ext(src, "[]"), false)
		} else {
			for s := range src {
				st.store(de, st.content(extend(s, "[]")), false)
			}
		}
	}
}

func (st *fstate) builtin(in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, res ssa.Value) {
	switch b.Name() {
	case "append":
		base := st.val(c.Args[0])
		out := locset{}
		for l := range base {
			out[l] = true
		}
		nw := Loc{st.alloc(in, "/append", c.Args[0].Type(), nil), ""}
		out[nw] = true
		et := elemType(c.Args[0].Type())
		st.copyElems(locset{nw: true}, base, et)
		if len(c.Args) > 1 {
			st.copyElems(out, st.val(c.Args[1]), et)
			if _, isNil := c.Args[0].(*ssa.Const); !isNil {
				st.mod(ext(base, "[]"), in.Pos(), st.fn, "append")
			}
		}
		st.setVal(res, out)
	case "copy":
		dst := st.val(c.Args[0])
		st.mod(ext(dst, "[]"), in.Pos(), st.fn, "copy")
		st.copyElems(dst, st.val(c.Args[1]), elemType(c.Args[0].Type()))
	case "clear", "delete":
		st.mod(ext(st.val(c.Args[0]), "[]"), in.Pos(), st.fn, b.Name())
	case "ssa:wrapnilchk":
		st.setVal(res, st.val(c.Args[0]))
	}
}

// external: models of the standard library and third-party calls. Default: a
// method with pointer receiver may change its receiver; other arguments are
// only read; results are fresh but may refer to what the arguments refer to
// only where listed.
func (st *fstate) external(in ssa.Instruction, f *ssa.Function, c *ssa.CallCommon, args []locset, res ssa.Value) {
	name := ""
	pk := ""
	recv := ""
	if f != nil {
		name = f.Name()
		if o := f.Object(); o != nil && o.Pkg() != nil {
			pk = o.Pkg().Path()
		} else if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		}
		if r := f.Signature.Recv(); r != nil {
			recv = typeBase(r.Type())
		}
	} else if c.IsInvoke() {
		name = c.Method.Name()
		recv = "iface"
		if c.Method.Pkg() != nil {
			pk = c.Method.Pkg().Path()
		}
	}
	modArg := func(i int) {
		if i < len(args) {
			st.mod(ext(args[i], "[]"), in.Pos(), st.fn, "call "+name)
		}
	}
	retAlias := func(idx ...int) {
		if res == nil {
			return
		}
		out := locset{}
		for _, i := range idx {
			if i < len(args) {
				for l := range args[i] {
					out[l] = true
				}
			}
		}
		out[Loc{st.alloc(in, "/ext", res.Type(), nil), ""}] = true
		st.setResult(res, []locset{out})
	}
	freshRes := func() {
		if res == nil {
			return
		}
		if tt, ok := res.Type().(*types.Tuple); ok {
			rs := make([]locset, tt.Len())
			for i := range rs {
				if st.e.hasPtr(tt.At(i).Type()) {
					rs[i] = locset{Loc{st.alloc(in, fmt.Sprintf("/ext%d", i), tt.At(i).Type(), nil), ""}: true}
				}
			}
			st.setResult(res, rs)
			return
		}
		if st.e.hasPtr(res.Type()) {
			st.setResult(res, []locset{{Loc{st.alloc(in, "/ext", res.Type(), nil), ""}: true}})
		}
	}
	// callbacks are called with unknown fresh arguments or elements of the other arguments
	for i, a := range args {
		for l := range a {
			if l.R.Fn != nil && l.P == "" {
				var as []locset
				for range l.R.Fn.Params {
					el := locset{}
					for j, b := range args {
						if j != i {
							for x := range b {
								for y := range st.content(extend(x, "[]")) {
									el[y] = true
								}
							}
						}
					}
					as = append(as, el)
				}
				if pk == "sync" && (name == "Do" || strings.HasPrefix(name, "Once")) {
					st.e.onceFns[l.R.Fn] = true
				}
				st.callLoc(in, l, as, nil)
			}
		}
	}
	switch pk {
	case "encoding/binary":
		switch {
		case strings.HasPrefix(name, "Put"):
			if recv != "" {
				modArg(1)
			} else {
				modArg(0)
			}
			return
		case strings.HasPrefix(name, "AppendUint") && recv != "":
			modArg(1)
			retAlias(1)
			return
		case strings.HasPrefix(name, "Append"):
			modArg(0)
			retAlias(0)
			return
		case name == "Read":
			st.modDeep(args, 2, in, name)
			st.mod(args[0], in.Pos(), st.fn, "call "+name)
			return
		case name == "Write":
			st.mod(args[0], in.Pos(), st.fn, "call "+name)
			return
		}
		freshRes()
		return
	case "slices", "sort":
		switch name {
		case "Sort", "SortFunc", "SortStableFunc", "Slice", "SliceStable", "Ints", "Float64s", "Strings", "Reverse", "Stable":
			if len(args) > 0 {
				st.mod(ext(args[0], "[]"), in.Pos(), st.fn, "permute "+name)
			}
			return
		case "Grow", "Clip", "Delete", "Insert", "Compact", "CompactFunc", "Replace", "DeleteFunc":
			if name != "Clip" && name != "Grow" {
				modArg(0)
			}
			out := locset{}
			for l := range args[0] {
				out[l] = true
			}
			nw := Loc{st.alloc(in, "/ext", c.Args[0].Type(), nil), ""}
			st.copyElems(locset{nw: true}, args[0], elemType(c.Args[0].Type()))
			out[nw] = true
			st.setResult(res, []locset{out})
			return
		case "Clone", "Concat", "Sorted", "Collect":
			freshRes()
			if res != nil && len(args) > 0 && len(c.Args) > 0 {
				st.copyElems(st.vals[res], args[0], elemType(c.Args[0].Type()))
			}
			return
		}
		freshRes()
		return
	case "io":
		switch name {
		case "ReadFull", "ReadAtLeast":
			modArg(1)
			st.mod(args[0], in.Pos(), st.fn, "call "+name)
			return
		case "Read":
			modArg(1)
			st.mod(args[0], in.Pos(), st.fn, "call "+name)
			return
		case "ReadAll", "Copy", "Write", "WriteString", "WriteByte", "ReadByte":
			if len(args) > 0 {
				st.mod(args[0], in.Pos(), st.fn, "call "+name)
			}
			freshRes()
			return
		}
	case "bytes":
		if recv == "" && (name == "NewReader" || name == "NewBuffer") {
			freshRes()
			for l := range st.vals[res] {
				st.store(extend(l, ".bytes#buf"), args[0], false)
			}
			return
		}
		if recv == "Buffer" || recv == "Reader" {
			switch name {
			case "Bytes", "Next", "AvailableBuffer":
				out := locset{}
				for l := range args[0] {
					for x := range st.content(extend(l, ".bytes#buf")) {
						out[x] = true
					}
				}
				out[Loc{st.alloc(in, "/ext", res.Type(), nil), ""}] = true
				st.setResult(res, []locset{out})
				return
			case "Len", "Cap", "Size", "String", "Available":
				return
			case "Read":
				modArg(1)
			}
			st.mod(args[0], in.Pos(), st.fn, "call "+name)
			freshRes()
			return
		}
	case "bufio":
		if recv == "" {
			freshRes()
			for l := range st.vals[res] {
				st.store(extend(l, ".bufio#rd"), args[0], false)
			}
			return
		}
	case "maps":
		if name == "Copy" {
			modArg(0)
			st.copyElems(args[0], args[1], elemType(c.Args[0].Type()))
			return
		}
		if name == "Clone" {
			freshRes()
			st.copyElems(st.vals[res], args[0], elemType(c.Args[0].Type()))
			return
		}
		retAlias(0)
		return
	case "unsafe":
		retAlias(0, 1)
		return
	case "sync", "sync/atomic":
		if strings.HasPrefix(name, "Store") || strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Swap") || strings.HasPrefix(name, "CompareAndSwap") || name == "Put" || strings.HasPrefix(name, "Or") || strings.HasPrefix(name, "And") {
			st.mod(args[0], in.Pos(), st.fn, "call "+pk+"."+name)
		}
		freshRes()
		return
	}
	if recv != "" && len(args) > 0 && len(args[0]) > 0 {
		ptr := recv == "iface"
		if f != nil {
			_, ptr = types.Unalias(f.Signature.Recv().Type()).(*types.Pointer)
		}
		if ptr && !pureExtMethod(pk, name) {
			st.mod(args[0], in.Pos(), st.fn, "call "+pk+"."+recv+"."+name)
			// results of external methods may expose the receiver
		}
	}
	freshRes()
}

func pureExtMethod(pk, name string) bool {
	switch name {
	case "Len", "Size", "String", "Error", "Cap", "Name", "BlockSize":
		return true
	}
	return false
}

func (st *fstate) modDeep(args []locset, i int, in ssa.Instruction, name string) {
	if i < len(args) {
		st.mod(args[i], in.Pos(), st.fn, "call "+name)
		st.mod(ext(args[i], "[]"), in.Pos(), st.fn, "call "+name)
	}
}

// modelInvoke gives the documented contract of interfaces implemented by users.
func (st *fstate) modelInvoke(in ssa.Instruction, c *ssa.CallCommon, args []locset, res ssa.Value) bool {
	t := types.Unalias(c.Value.Type())
	owner := typeBase(t)
	if tp, ok := t.(*types.TypeParam); ok {
		owner = typeBase(tp.Constraint())
	}
	switch owner + "." + c.Method.Name() {
	case "Policy.Apply":
		// "Apply(internal, incoming)": merges incoming into internal
		if len(args) >= 3 {
			st.mod(ext(args[1], ".summary#state"), in.Pos(), st.fn, "policy Apply")
		}
		if res != nil && st.e.hasPtr(res.Type()) {
			st.setVal(res, args[1])
		}
		return false
	case "UpdatableSummary.Update", "Summary.Update", "Summary.Reset", "UpdatableSummary.Reset":
		st.mod(ext(args[0], ".summary#state"), in.Pos(), st.fn, "summary "+c.Method.Name())
		return false
	case "UpdatableSummary.Clone", "Summary.Clone":
		if res != nil {
			st.setVal(res, locset{Loc{st.alloc(in, "/clone", res.Type(), nil), ""}: true})
		}
		return true
	}
	return false
}

// implementers: class-hierarchy resolution of an interface method to repository methods.
func (e *Effects) implementers(m *types.Func, t types.Type) []*ssa.Function {
	t = types.Unalias(t)
	var it *types.Interface
	if tp, ok := t.(*types.TypeParam); ok {
		it = tp.Constraint().Underlying().(*types.Interface)
	} else {
		it, _ = t.Underlying().(*types.Interface)
	}
	if it == nil || it.NumMethods() == 0 {
		return nil
	}
	names := []string{}
	for i := 0; i < it.NumMethods(); i++ {
		names = append(names, fmt.Sprintf("%s/%d/%d", it.Method(i).Name(), it.Method(i).Signature().Params().Len(), it.Method(i).Signature().Results().Len()))
	}
	sort.Strings(names)
	pkgKey := ""
	if m.Pkg() != nil {
		pkgKey = m.Pkg().Path()
	}
	key := pkgKey + ":" + strings.Join(names, ",") + "!" + m.Name()
	if r, ok := e.cha[key]; ok {
		return r
	}
	var out []*ssa.Function
	if strings.HasPrefix(pkgKey, modPath) || len(names) > 1 || m.Name() == "Write" && false {
		var pn []string
		for n := range e.p.SPkgs {
			pn = append(pn, n)
		}
		sort.Strings(pn)
		for _, n := range pn {
			sp := e.p.SPkgs[n]
			var mn []string
			for k := range sp.Members {
				mn = append(mn, k)
			}
			sort.Strings(mn)
			for _, k := range mn {
				ty, ok := sp.Members[k].(*ssa.Type)
				if !ok {
					continue
				}
				nt, ok := types.Unalias(ty.Type()).(*types.Named)
				if !ok {
					continue
				}
				if _, isI := nt.Underlying().(*types.Interface); isI {
					continue
				}
				ms := types.NewMethodSet(types.NewPointer(nt))
				have := map[string]*types.Func{}
				for i := 0; i < ms.Len(); i++ {
					fo := ms.At(i).Obj().(*types.Func)
					have[fmt.Sprintf("%s/%d/%d", fo.Name(), fo.Signature().Params().Len(), fo.Signature().Results().Len())] = fo
				}
				all := true
				for _, w := range names {
					if have[w] == nil {
						all = false
						break
					}
				}
				if !all {
					continue
				}
				fo := have[fmt.Sprintf("%s/%d/%d", m.Name(), m.Signature().Params().Len(), m.Signature().Results().Len())]
				// exact type check for non-generic pairs
				if nt.TypeParams().Len() == 0 {
					if nn, ok := t.(*types.Named); ok && nn.TypeArgs().Len() == 0 {
						if !types.Implements(nt, it) && !types.Implements(types.NewPointer(nt), it) {
							continue
						}
					}
				}
				fn := e.p.SSA.FuncValue(fo.Origin())
				if fn != nil && fn.Blocks != nil {
					out = append(out, fn)
				}
			}
		}
	}
	e.cha[key] = out
	return out
}

// constFalse: boolean struct fields that no non-test code ever stores to, other than copying whole structs, are always false.
func (e *Effects) constFalseField(fa *ssa.FieldAddr) bool {
	if e.boolStored == nil {
		e.boolStored = map[string]bool{}
		for _, f := range e.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, r := range *x.Referrers() {
						if u, isLoad := r.(*ssa.UnOp); isLoad && u.Op == token.MUL {
							continue
						}
						if _, isDbg := r.(*ssa.DebugRef); isDbg {
							continue
						}
						e.boolStored[fieldComp(x.X.Type(), x.Field)] = true
					}
				}
			}
		}
	}
	return !e.boolStored[fieldComp(fa.X.Type(), fa.Field)]
}
