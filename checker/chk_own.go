package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = chkC02
	checks["C03"] = chkC03
	checks["C04"] = chkC04
	checks["C05"] = chkC05
}

// apiFuncs: functions a user of the library can call: exported functions, exported
// methods of exported types, and exported methods of unexported types that implement an
// exported interface of their package.
func (p *Prog) apiFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || f.Pkg == nil {
			continue
		}
		if strings.Contains(f.Pkg.Pkg.Path(), "/internal") {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			n := namedOf(r.Type())
			if n == nil {
				continue
			}
			if !n.Obj().Exported() && !p.implementsExported(n, f.Name()) {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// implementsExported: n implements an exported interface of its package that has method name.
func (p *Prog) implementsExported(n *types.Named, meth string) bool {
	sc := n.Obj().Pkg().Scope()
	for _, s := range sc.Names() {
		tn, ok := sc.Lookup(s).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		has := false
		names := true
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() == meth {
				has = true
			}
			if ms.Lookup(n.Obj().Pkg(), m.Name()) == nil {
				names = false
			}
		}
		if has && names {
			return true
		}
	}
	return false
}

func paramTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	for _, pa := range f.Params {
		ts = append(ts, pa.Type())
	}
	return ts
}

// isStream: io.Writer / io.Reader and their usual implementations, whose state is the caller's.
func isStream(t types.Type) bool {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "io", "bytes", "bufio", "os", "strings":
			return true
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			switch it.Method(i).Name() {
			case "Read", "Write", "ReadByte", "WriteByte":
				return true
			}
		}
	}
	return false
}

// fieldByComp finds the type of the struct field named by a path component.
func (p *Prog) fieldByComp(c string) types.Type {
	c = strings.TrimPrefix(c, ".")
	i := strings.Index(c, "#")
	if i < 0 {
		return nil
	}
	owner, fn := c[:i], c[i+1:]
	j := strings.LastIndex(owner, "/")
	if j < 0 {
		return nil
	}
	pk := p.Pkgs[owner[:j]]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(owner[j+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		if canonFieldName(owner, st.Field(k).Name()) == fn {
			return st.Field(k).Type()
		}
	}
	return nil
}

// typeOfLoc: static type of the storage a location names (nil if unknown).
func (e *Effects) typeOfLoc(f *ssa.Function, l Loc) types.Type {
	cs := splitPath(l.P)
	i := len(cs) - 1
	for i >= 0 && !strings.HasPrefix(cs[i], ".") {
		i--
	}
	var t types.Type
	if i >= 0 {
		t = e.p.fieldByComp(cs[i])
		i++
	} else {
		i = 0
		switch {
		case l.R.Kind == rkParam && l.R.Idx < len(f.Params):
			// the root of a parameter is the object it refers to
			t = derefOnce(f.Params[l.R.Idx].Type())
		case l.R.Kind == rkAlloc:
			t = l.R.T
			if t != nil {
				t = derefOnce(t)
			}
		}
	}
	for ; i < len(cs) && t != nil; i++ {
		switch cs[i][0] {
		case '*':
			t = derefOnce(t)
		case '[':
			switch u := types.Unalias(t).Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			}
		default:
			t = nil
		}
	}
	return t
}

func derefOnce(t types.Type) types.Type {
	if u, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return u.Elem()
	}
	return t
}

// refLeaves lists the field paths of reference-valued fields inside an aggregate.
func refLeaves(t types.Type, depth int) []string {
	if t == nil || depth > 6 {
		return nil
	}
	var out []string
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		c := fieldComp(t, i)
		ft := st.Field(i).Type()
		if _, ok := types.Unalias(ft).(*types.TypeParam); ok {
			out = append(out, c)
			continue
		}
		switch ft.Underlying().(type) {
		case *types.Struct:
			for _, s := range refLeaves(ft, depth+1) {
				out = append(out, c+s)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			out = append(out, c)
		}
	}
	return out
}

// throughStream: the path passes through a reader or writer the caller supplied.
func (e *Effects) throughStream(f *ssa.Function, l Loc) bool {
	if l.R.Kind == rkParam && l.R.Idx < len(f.Params) && isStream(f.Params[l.R.Idx].Type()) {
		return true
	}
	for _, c := range splitPath(l.P) {
		if strings.HasPrefix(c, ".") {
			if t := e.p.fieldByComp(c); t != nil && isStream(t) {
				return true
			}
		}
	}
	return false
}

type sharing struct {
	holder string // how the holder is reached
	hf     string // field of the holder ("" for the result itself)
	to     Loc
	res    int
	tt     types.Type // static type of the reference, when known
}

// shares: deduplicated sharing edges, with struct copies resolved to the reference fields they copy.
func (e *Effects) shares(f *ssa.Function) []sharing {
	s := e.Sum(f)
	if s == nil {
		return nil
	}
	out := map[string]sharing{}
	add := func(x sharing) {
		if x.to.R.Kind == rkAlloc {
			return
		}
		if strings.HasSuffix(x.holder, ".b0") || strings.Contains(x.holder, "..b") {
			return
		}
		out[x.holder+"|"+x.hf+"|"+x.to.String()] = x
	}
	seen := map[Loc]bool{}
	var walk func(l Loc, res int, desc string)
	visit := func(t Loc, res int, hf, desc string) {
		if t.R.Kind == rkAlloc {
			walk(t, res, desc)
			return
		}
		add(sharing{desc, hf, t, res, nil})
	}
	walk = func(l Loc, res int, desc string) {
		if seen[l] {
			return
		}
		seen[l] = true
		for c, ts := range s.cells {
			if c.R == l.R && isPrefix(l.P, c.P) {
				for t := range ts {
					visit(t, res, lastField(c.P), desc+renderPath(c.P))
				}
			}
		}
		for c, ts := range s.cops {
			if c.R != l.R || !(isPrefix(l.P, c.P) || isPrefix(c.P, l.P)) {
				continue
			}
			e.expandCopy(f, s, c, ts, func(leaf string, t Loc) {
				add(sharing{desc + renderPath(c.P+leaf), lastField(leaf), t, res, nil})
			})
		}
	}
	for i, r := range s.rets {
		for l := range r {
			visit(l, i, "", fmt.Sprintf("result%d", i))
		}
	}
	for c, ts := range s.cells {
		if c.R.Kind == rkAlloc {
			continue
		}
		for t := range ts {
			if t.R.Kind == rkAlloc || t.R == c.R {
				continue
			}
			add(sharing{c.String(), lastField(c.P), t, -1, nil})
		}
	}
	for c, ts := range s.cops {
		if c.R.Kind == rkAlloc {
			continue
		}
		e.expandCopy(f, s, c, ts, func(leaf string, t Loc) {
			if t.R != c.R {
				add(sharing{c.String() + renderPath(leaf), lastField(leaf), t, -1, nil})
			}
		})
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []sharing
	for _, k := range ks {
		r = append(r, out[k])
	}
	return r
}

// expandCopy: the reference fields under c that still hold what was copied from ts.
func (e *Effects) expandCopy(f *ssa.Function, s *Summary, c Loc, ts locset, emit func(leaf string, t Loc)) {
	for t := range ts {
		if t.R.Kind == rkAlloc {
			continue
		}
		ty := e.typeOfLoc(f, t)
		if ty == nil {
			ty = e.typeOfLoc(f, c)
		}
		for _, leaf := range refLeaves(ty, 0) {
			h := Loc{c.R, c.P + leaf}
			if _, ok := s.cells[h]; ok {
				continue
			}
			// a deeper copy overrides
			over := false
			for c2, t2 := range s.cops {
				if c2.R == c.R && len(c2.P) > len(c.P) && isPrefix(c2.P, h.P) && isPrefix(c.P, c2.P) && !t2[t] {
					over = true
				}
			}
			if over {
				continue
			}
			emit(leaf, extend(Loc{t.R, t.P + leaf}, "*"))
		}
	}
}

// mutable: someone writes in place through the reference held in the field.
type mutset map[string]modInfo

func (m mutset) edge(x sharing) (modInfo, bool) {
	if mi, ok := m[x.hf]; ok && x.hf != "" {
		return mi, true
	}
	if mi, ok := m[lastRefField(x.to.P)]; ok {
		return mi, true
	}
	return modInfo{}, false
}

// serviceField: the reference is a function, writer/reader, hasher or similar collaborator, not sketch content.
func (e *Effects) serviceRef(f *ssa.Function, x sharing) bool {
	t := types.Type(nil)
	if x.hf != "" {
		t = e.p.fieldByComp(x.hf)
	}
	if t == nil && x.to.P == "" && x.to.R.Kind == rkParam && x.to.R.Idx < len(f.Params) {
		t = f.Params[x.to.R.Idx].Type()
	}
	if t == nil {
		return false
	}
	if isStream(t) {
		return true
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}

func keyOf(p *Prog, f *ssa.Function, rest string) string { return p.FName(f) + " " + rest }

// ---------------------------------------------------------------- C02

func chkC02(p *Prog, r *Report) {
	r.Explain = "Interprocedural flow-sensitive effect analysis over SSA of every function of every package: each store, copy, append, map update, sort and standard-library call is attributed to the storage it can reach (parameter, fresh allocation or package variable). Rules: global-write (no function other than initialisation writes storage reachable from a package variable), global-escape (no API function returns a reference to package-variable storage that is not an immutable value), global-stored (no package-variable storage is stored in a field through which some function writes in place)."
	r.Assume = []string{"sync.Once initialisation of a table counts as initialisation", "calls into the standard library touch only what their documentation says"}
	e := p.Effects()
	mut := mutset(e.mutableFields())
	for _, f := range p.apiFuncs() {
		s := e.Sum(f)
		if s == nil {
			r.undecided("global-write", p.FName(f), p.Pos(f.Pos()), "no summary")
			continue
		}
		n := 0
		for _, l := range sortedMods(s) {
			mi := s.mods[l]
			if l.R.Kind != rkGlobal || e.onceFns[mi.fn] {
				continue
			}
			n++
			k := l.R.Key + renderPath(l.P)
			r.bad("global-write", keyOf(p, f, k), p.Pos(mi.pos), "writes package-level storage "+k+" (in "+p.FName(mi.fn)+", "+mi.how+"), which every sketch shares")
		}
		if n == 0 {
			r.ok("global-write", p.FName(f), p.Pos(f.Pos()))
		}
	}
	r.floor("global-write", 500)
	for _, f := range p.apiFuncs() {
		n := 0
		for _, x := range e.shares(f) {
			if x.to.R.Kind != rkGlobal || e.serviceRef(f, x) {
				continue
			}
			if isErrorGlobal(p, x.to) {
				continue
			}
			if mi, ok := mut.edge(x); ok {
				r.bad("global-stored", keyOf(p, f, x.holder+" -> "+x.to.String()), p.Pos(f.Pos()), "stores package-level storage in "+x.holder+", which "+p.FName(mi.fn)+" writes in place")
				n++
				continue
			}
			if x.hf == "" && x.res >= 0 && isMutableRef(f.Signature.Results().At(x.res).Type()) {
				r.bad("global-escape", keyOf(p, f, x.to.String()), p.Pos(f.Pos()), "returns a reference to package-level storage")
				n++
			}
		}
		if n == 0 {
			r.ok("global-escape", p.FName(f), p.Pos(f.Pos()))
		}
	}
	r.floor("global-escape", 400)
	r.Counts["functions_analysed"] = len(e.order)
	r.Counts["analysis_rounds"] = e.rounds
	dbgShares(p, e)
}

func isErrorGlobal(p *Prog, l Loc) bool {
	return l.R.T != nil && isErrorType(derefOnce(l.R.T)) || strings.Contains(l.R.Key, ".Err")
}

func isMutableRef(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func dbgShares(p *Prog, e *Effects) {
	if os.Getenv("VERIF_DBG") == "" {
		return
	}
	for _, f := range p.apiFuncs() {
		for _, x := range e.shares(f) {
			mi, ok := mutset(e.mutableFields()).edge(x)
			fmt.Println("SHARE", p.FName(f), x.holder, x.hf, "->", x.to, ok, p.FName(mi.fn))
		}
	}
}

// ---------------------------------------------------------------- C03

// objectParam: a parameter that is a library object (not bytes, functions, options or collaborators).
func (p *Prog) objectParam(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	switch u := n.Underlying().(type) {
	case *types.Struct:
		_, ptr := t.(*types.Pointer)
		return ptr
	case *types.Interface:
		for i := 0; i < u.NumMethods(); i++ {
			if u.Method(i).Name() == "Apply" { // merge policies
				return false
			}
		}
		return true
	}
	return false
}

var mutatorRE = regexp.MustCompile(`^(Update\w*|Merge\w*|Reset\w*|Insert\w*|Trim\w*|Union\w*|Intersect\w*|Invert\w*|Set\w*|QueryAndUpdate\w*|Next|Append\w*|Start\w*|Add\w*|Delete\w*|Remove\w*|Purge\w*|Rebuild\w*|Resize\w*|Clear\w*|Hash\w+AndScreen|Sort|Compact|Scan\w*|Run\w*|Put\w*)$`)

// isMutator: the name says the receiver changes. A Compact method that returns a result is a query.
func isMutator(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	if f.Name() == "Compact" && f.Signature.Results().Len() > 0 && namedOf(f.Signature.Results().At(0).Type()) != nil {
		return false
	}
	return mutatorRE.MatchString(f.Name())
}

func isEncode(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Encode") || strings.HasPrefix(f.Name(), "Serialize") || strings.HasPrefix(f.Name(), "Marshal")
}

// rawEntry: entry points documented to work on the caller's raw arrays.
var rawEntry = map[string]string{
	"sampling.(ReservoirItemsUnion).UpdateFromRaw": "documented raw-input entry point: takes over the caller's items slice",
}

func chkC03(p *Prog, r *Report) {
	r.Explain = "Effect and aliasing summaries (interprocedural, flow-sensitive, over SSA) of every exported function or method that takes another library object. Rules: arg-write (no store can reach storage of an argument sketch; arrangement done by (tdigest.Double).compress on an argument is excluded only for encoders), arg-retained (no storage of an argument that any function of the library writes in place is kept in the receiver or in the result)."
	r.Assume = []string{"user-supplied merge policies, summaries, hashers and serdes honour their interface contracts (Policy.Apply writes only its first argument)"}
	e := p.Effects()
	mut := mutset(e.mutableFields())
	for _, f := range p.apiFuncs() {
		objs := map[int]bool{}
		for i, t := range paramTypes(f) {
			if i == 0 && f.Signature.Recv() != nil {
				continue
			}
			if p.objectParam(t) {
				objs[i] = true
			}
		}
		if len(objs) == 0 || isEncode(f) || p.FName(f) == "" {
			continue
		}
		if strings.Contains(f.Name(), "ummaryUpdate") {
			continue
		}
		s := e.Sum(f)
		if s == nil {
			r.undecided("arg-write", p.FName(f), p.Pos(f.Pos()), "no summary")
			continue
		}
		n := 0
		for _, l := range sortedMods(s) {
			mi := s.mods[l]
			if l.R.Kind == rkParam && objs[l.R.Idx] && !e.throughStream(f, l) {
				n++
				r.bad("arg-write", keyOf(p, f, l.String()), p.Pos(mi.pos), fmt.Sprintf("argument %d is written at %s (in %s, %s)", l.R.Idx, l.String(), p.FName(mi.fn), mi.how))
			}
		}
		if n == 0 {
			r.ok("arg-write", p.FName(f), p.Pos(f.Pos()))
		}
		n = 0
		for _, x := range e.shares(f) {
			if x.to.R.Kind != rkParam || !objs[x.to.R.Idx] || e.serviceRef(f, x) {
				continue
			}
			if mi, ok := mut.edge(x); ok {
				n++
				r.bad("arg-retained", keyOf(p, f, x.holder+" -> "+x.to.String()), p.Pos(f.Pos()), fmt.Sprintf("%s keeps a reference to the argument's %s, which %s writes in place", x.holder, x.to.String(), p.FName(mi.fn)))
			}
		}
		if n == 0 {
			r.ok("arg-retained", p.FName(f), p.Pos(f.Pos()))
		}
	}
	r.floor("arg-write", 40)
	r.floor("arg-retained", 40)
	r.Counts["functions_analysed"] = len(e.order)
}

func sortedMods(s *Summary) []Loc {
	var ls []Loc
	for l := range s.mods {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
	return ls
}

// ---------------------------------------------------------------- C04

// cacheFields: fields that hold derived data or a lazily completed computation.
var cacheFields = map[string]string{
	".kll/ItemsSketch#sortedView":           "cached sorted view",
	".req/Sketch#sortedView":                "cached sorted view",
	".filters/bloomFilterImpl#isDirty":      "lazy bit count",
	".filters/bloomFilterImpl#numBitsSet":   "lazy bit count",
	".cpc/BitMatrix#numCoupons":             "lazy coupon count",
	".cpc/BitMatrix#numCouponsInvalid":      "lazy coupon count",
	".hll/hllArrayImpl#curMin":              "lazy rebuild after union",
	".hll/hllArrayImpl#kxq0":                "lazy rebuild after union",
	".hll/hllArrayImpl#kxq1":                "lazy rebuild after union",
	".hll/hllArrayImpl#numAtCurMin":         "lazy rebuild after union",
	".hll/hllArrayImpl#rebuildCurMinNumKxQ": "lazy rebuild after union",
	".req/compactor#sorted":                 "arrangement flag",
}

// permFields: slices whose elements a query may rearrange (sorting) but not otherwise change.
var permFields = map[string]bool{".req/compactor#items": true}

func chkC04(p *Prog, r *Report) {
	r.Explain = "Effect summaries (interprocedural, flow-sensitive, over SSA) of every exported function or method whose name does not announce a change of the receiver. Rule query-write: no store can reach the receiver or an argument, except the listed cache fields, rearrangement by a sort of REQ compactor items, and the t-digest centroid compression routine (excluded as a whole by analysing the program with that routine treated as having no effect)."
	r.Assume = []string{"t-digest compression of buffered values is internal arrangement of the same data", "user-supplied summaries, hashers and serdes do not mutate in accessors"}
	bar := map[*ssa.Function]bool{}
	if c := p.Fn("tdigest.(Double).compress"); c != nil {
		bar[c] = true
	}
	e := p.newEffects(bar)
	for _, f := range p.apiFuncs() {
		if isMutator(f) || strings.Contains(f.Name(), "ecode") {
			continue
		}
		if _, ok := rawEntry[p.FName(f)]; ok {
			continue
		}
		hasObj := f.Signature.Recv() != nil
		for _, t := range paramTypes(f) {
			if p.objectParam(t) {
				hasObj = true
			}
		}
		if !hasObj {
			continue
		}
		s := e.Sum(f)
		if s == nil {
			r.undecided("query-write", p.FName(f), p.Pos(f.Pos()), "no summary")
			continue
		}
		n := 0
		for _, l := range sortedMods(s) {
			mi := s.mods[l]
			if l.R.Kind != rkParam || e.throughStream(f, l) {
				continue
			}
			if e.c04Allowed(f, l, mi, len(bar) == 0) {
				continue
			}
			n++
			r.bad("query-write", keyOf(p, f, l.String()), p.Pos(mi.pos), fmt.Sprintf("a query or encoder writes %s (in %s, %s)", l.String(), p.FName(mi.fn), mi.how))
		}
		if n == 0 {
			r.ok("query-write", p.FName(f), p.Pos(f.Pos()))
		}
	}
	r.floor("query-write", 330)
	r.Counts["functions_analysed"] = len(e.order)
}

func (e *Effects) c04Allowed(f *ssa.Function, l Loc, mi modInfo, tdigestInline bool) bool {
	cs := splitPath(l.P)
	if len(cs) == 0 {
		return false
	}
	last := cs[len(cs)-1]
	if _, ok := cacheFields[last]; ok {
		return true
	}
	if t := e.p.fieldByComp(last); t != nil && strings.HasSuffix(typeBase(t), "SortedView") {
		return true
	}
	if isPermHow(mi.how) && permFields[lastRefField(l.P)] && strings.HasPrefix(last, "[") {
		return true
	}
	if tdigestInline && strings.Contains(l.P, ".tdigest/Double#") {
		return true
	}
	return false
}

// ---------------------------------------------------------------- C05

// handle: results that are documented live views or raw-input wrappers.
var liveHandles = map[string]string{
	"theta.WrapCompactSketch":                            "documented zero-copy wrapper",
	"cpc.NewCpcWrapperFromBytes":                         "documented zero-copy wrapper",
	"common/quantiles.NewNumericSortedView":              "raw-input constructor: takes over the arrays",
	"common/quantiles.NewNumericSortedViewIterator":      "raw-input constructor: read-only iterator over the arrays",
	"tuple.(ArrayOfNumbersSummary).Values":               "live handle of a summary",
	"kll.(ItemsSketchPartitionBoundaries).GetBoundaries": "immutable result record",
	"tuple.ArrayOfStringsInlineSummaryUpdateFunc":        "summary takes over the update value",
	"tuple.(ArrayOfStringsSummary).Update":               "summary takes over the update value",
	"sampling.(ReservoirItemsUnion).UpdateFromRaw":       "documented raw-input entry point",
	"tuple.(ArrayOfStringsSummary).Values":               "live handle of a summary",
}

func chkC05(p *Prog, r *Report) {
	r.Explain = "Aliasing summaries (interprocedural, flow-sensitive, over SSA): for every exported function the references that its results, and its receiver after the call, hold to storage of its receiver, of its arguments or of package variables, struct copies included. Rules: result-owned (a slice handed out must not alias storage of the receiver or of an input slice; a reference inside a result must not lead to storage that some function of the library writes in place), input-slice (bytes or items handed in are not kept and not written by decoders)."
	r.Assume = []string{"user-supplied Clone methods return independent objects"}
	e := p.Effects()
	mut := mutset(e.mutableFields())
	for _, f := range p.apiFuncs() {
		fn := p.FName(f)
		s := e.Sum(f)
		if s == nil {
			r.undecided("result-owned", fn, p.Pos(f.Pos()), "no summary")
			continue
		}
		n := 0
		bad := func(rule, rest, msg string) {
			n++
			r.bad(rule, keyOf(p, f, rest), p.Pos(f.Pos()), msg)
		}
		_, live := liveHandles[fn]
		for _, x := range e.shares(f) {
			if x.to.R.Kind == rkGlobal || e.serviceRef(f, x) || live {
				continue
			}
			mi, ism := mut.edge(x)
			isSliceParam := x.to.R.Kind == rkParam && x.to.P == "" && x.to.R.Idx < len(f.Params) && isSliceType(f.Params[x.to.R.Idx].Type())
			switch {
			case x.hf == "" && x.res >= 0:
				rt := f.Signature.Results().At(x.res).Type()
				if isMutableRef(rt) {
					bad("result-owned", x.to.String(), "returns a slice or map that is the storage of "+x.to.String())
				} else if x.to.P != "" && ism {
					bad("result-owned", x.to.String(), fmt.Sprintf("returns a reference to %s, which %s writes in place", x.to.String(), p.FName(mi.fn)))
				} else if x.to.P == "" && x.to.R.Idx == 0 && f.Signature.Recv() != nil && !isMutator(f) && isPtrTo(rt, f.Params[0].Type()) {
					bad("result-owned", "receiver", "a query returns its own receiver instead of an independent object")
				} else if x.to.P == "" && f.Signature.Recv() == nil && p.objectParam(rt) && p.objectParam(f.Params[x.to.R.Idx].Type()) {
					bad("result-owned", x.to.String(), "returns an argument object instead of an independent one")
				}
			case isSliceParam:
				bad("input-slice", x.holder+" -> "+x.to.String(), "keeps the caller's slice in "+x.holder)
			case x.res >= 0 && ism:
				bad("result-owned", x.holder+" -> "+x.to.String(), fmt.Sprintf("%s shares %s, which %s writes in place", x.holder, x.to.String(), p.FName(mi.fn)))
			}
		}
		// decoders do not write their input
		if f.Signature.Recv() == nil || strings.Contains(f.Name(), "ecode") {
			for _, l := range sortedMods(s) {
				if l.R.Kind == rkParam && l.R.Idx < len(f.Params) && isSliceType(f.Params[l.R.Idx].Type()) && !live {
					bad("input-slice", "write "+l.String(), "writes the caller's slice")
				}
			}
		}
		if n == 0 {
			r.ok("result-owned", fn, p.Pos(f.Pos()))
		}
	}
	r.floor("result-owned", 500)
	r.Counts["functions_analysed"] = len(e.order)
	r.Counts["mutable_reference_fields"] = len(mut)
}

func isPtrTo(a, b types.Type) bool {
	return namedOf(a) != nil && namedOf(b) != nil && namedOf(a).Obj() == namedOf(b).Obj()
}
