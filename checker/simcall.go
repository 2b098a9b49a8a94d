package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// doCall executes a call; true when a frame was pushed.
func (st *State) doCall(ci ssa.CallInstruction) (bool, *State) {
	c := ci.Common()
	var res ssa.Value
	if v, ok := ci.(ssa.Value); ok {
		res = v
	}
	set := func(t *Term) {
		if res != nil && t != nil {
			st.top().env[res] = t
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		set(st.builtin(b.Name(), c, res, ci.Pos()))
		return false, nil
	}
	call := &Call{Pos: ci.Pos(), Instr: ci}
	var free []*Term
	for _, a := range c.Args {
		call.Args = append(call.Args, st.val(a))
	}
	if c.IsInvoke() {
		recv := st.val(c.Value)
		call.Recv = recv
		call.Method = c.Method.Name()
		if recv.op == "iface" {
			if f := st.sim.p.methodOf(recv.x.(types.Type), c.Method); f != nil {
				call.Fn = f
				call.Args = append([]*Term{recv.a[0]}, call.Args...)
			}
		}
		if call.Fn == nil {
			if f := st.sim.soleImpl(c); f != nil {
				call.Fn = f
				call.Args = append([]*Term{mk("as", typStr(f.Params[0].Type()), f.Params[0].Type(), recv)}, call.Args...)
			}
		}
		if call.Fn == nil {
			call.Args = append([]*Term{recv}, call.Args...)
		}
	} else {
		fv := st.val(c.Value)
		switch fv.op {
		case "func":
			call.Fn, _ = fv.x.(*ssa.Function)
		case "closure":
			call.Fn = fv.x.(*ssa.Function)
			free = fv.a
		default:
			call.Recv = fv
		}
	}
	f := call.Fn
	if f != nil {
		f = norm(f)
		// bound method wrappers and thunks: call the method itself
		if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") && len(f.Blocks) > 0 {
			call.Inline = true
		}
		call.Fn = f
		call.Name = st.sim.fullName(f)
	} else if call.Method != "" {
		call.Name = "iface." + call.Method
	} else {
		call.Name = "dynamic"
	}
	if f != nil && len(f.Blocks) > 0 && (st.sim.p.IsRepo(f) || call.Inline || f.Synthetic != "") && st.mayInline(f, call.Args) {
		call.Inline = true
	}
	if st.dry == nil && st.sim.hooks.call != nil {
		st.sim.hooks.call(st, call)
	}
	if st.sim.hooks.model != nil {
		if r, ok := st.sim.hooks.model(st, call); ok {
			set(r)
			if st.dry == nil && st.sim.hooks.after != nil {
				st.sim.hooks.after(st, call, r)
			}
			return false, nil
		}
	}
	if call.Inline {
		st.push(f, call.Args, free, res, call)
		return true, nil
	}
	if f == nil && !c.IsInvoke() {
		if body := seqBody(call); body != nil {
			it := st.runSeq(call, body)
			return false, it
		}
	}
	var rt types.Type
	if res != nil {
		rt = res.Type()
	} else if rs := c.Signature().Results(); rs.Len() == 1 {
		rt = rs.At(0).Type()
	} else if rs.Len() > 1 {
		rt = rs
	}
	r := st.opaqueCall(call, c, rt, free)
	set(r)
	if st.dry == nil && st.sim.hooks.after != nil {
		st.sim.hooks.after(st, call, r)
	}
	return false, nil
}

func (s *Sim) fullName(f *ssa.Function) string {
	if s.p.IsRepo(f) {
		return s.p.FName(f)
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + "." + typeBase(r.Type()) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	if isTypeParam(t) {
		return nil
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if hasTypeParam(t) || isGenericNamed(t) {
		// method of a generic type inside its own package: use the declared method
		if fo, ok := sel.Obj().(*types.Func); ok {
			return norm(p.SSA.FuncValue(fo.Origin()))
		}
	}
	fo, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	if len(sel.Index()) == 1 {
		if f := p.SSA.FuncValue(fo.Origin()); f != nil {
			// pointer/value receiver mismatch goes through the wrapper
			_, pr := fo.Type().(*types.Signature).Recv().Type().(*types.Pointer)
			_, pt := types.Unalias(t).(*types.Pointer)
			if pr == pt {
				return norm(f)
			}
		}
	}
	return p.SSA.MethodValue(sel)
}

func isGenericNamed(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.TypeArgs() != nil && n.TypeArgs().Len() > 0
}

// soleImpl: the only repository implementation of an unexported interface.
func (s *Sim) soleImpl(c *ssa.CallCommon) *ssa.Function {
	n := namedOf(c.Value.Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if n.Obj().Exported() {
		return nil
	}
	fs := s.e.implementers(c.Method, c.Value.Type())
	if len(fs) == 1 && len(fs[0].Blocks) > 0 {
		return norm(fs[0])
	}
	return nil
}

func (st *State) mayInline(f *ssa.Function, args []*Term) bool {
	if len(st.frames) > st.sim.maxDepth {
		return false
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == f {
			n++
		}
	}
	if n > 0 {
		return false
	}
	if st.sim.hooks.inline != nil {
		return st.sim.hooks.inline(st, f, args)
	}
	return true
}

// opaqueCall: effects from the summary, results symbolic.
func (st *State) opaqueCall(call *Call, c *ssa.CallCommon, rt types.Type, free []*Term) *Term {
	f := call.Fn
	if f == nil || !st.sim.p.IsRepo(f) && f.Synthetic == "" {
		return st.external(call, c, rt)
	}
	s := st.sim.e.Sum(f)
	if s == nil {
		return st.retTerm(call, rt, false)
	}
	pure := true
	var ls []Loc
	for l := range s.mods {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
	for _, l := range ls {
		pure = false
		st.applyMod(l, s.mods[l], call.Args, free)
	}
	for _, r := range s.rets {
		for l := range r {
			if l.R.Kind == rkAlloc && l.R.Fn == nil {
				pure = pure && true
			}
		}
	}
	return st.retTerm(call, rt, pure)
}

// applyMod forgets what a summary says is written.
func (st *State) applyMod(l Loc, mi modInfo, args, free []*Term) {
	var cur *Term
	switch {
	case l.R.Kind == rkGlobal:
		cur = mkx("global", shortPkg(l.R.G.Pkg.Pkg)+"."+l.R.G.Name(), l.R.G.Type(), l.R.G)
	case l.R.Kind == rkParam && l.R.Idx >= 1000:
		if l.R.Idx-1000 < len(free) {
			cur = free[l.R.Idx-1000]
		}
	case l.R.Kind == rkParam && l.R.Idx < len(args):
		cur = args[l.R.Idx]
	}
	if cur == nil {
		return
	}
	if cur.op == "iface" {
		cur = cur.a[0]
	}
	if cur.op == "agg" {
		// struct passed by value: follow reference fields
		return
	}
	comps := splitPath(l.P)
	var rest []string
	for i := 0; i < len(comps); i++ {
		cp := comps[i]
		if len(rest) > 0 || strings.HasPrefix(cp, "[") {
			if strings.HasPrefix(cp, "[") {
				cp = "[]"
			}
			rest = append(rest, cp)
			continue
		}
		if cp == "*" {
			// dereference of the reference stored at cur
			var t types.Type
			if cur.t != nil {
				t = derefOnce(cur.t)
			}
			v, ok := st.mem[cur]
			if !ok {
				if cur.op == "alloc" || cur.op == "fld" {
					if r, _ := addrPath(cur); r.op == "alloc" && strings.HasPrefix(r.s, "zero") && st.version(cur) == "" {
						return // nil reference: nothing to write
					}
				}
				v = mk("ld", st.version(cur), t, cur)
			}
			for v.op == "iface" || v.op == "slc" {
				v = v.a[0]
			}
			if v.isNil() {
				return
			}
			cur = v
			continue
		}
		if strings.HasPrefix(cp, ".") {
			ft := st.sim.p.fieldByComp(cp)
			if ft == nil {
				ft = types.Typ[types.Int]
			}
			cur = mk("fld", cp, types.NewPointer(ft), cur)
			continue
		}
	}
	for cur.op == "slc" {
		cur = cur.a[0]
	}
	root, path := addrPath(cur)
	path = append(append([]string{}, path...), rest...)
	if st.dry == nil && st.sim.hooks.havoc != nil {
		st.sim.hooks.havoc(st, root, path, mi)
	}
	if st.dry != nil {
		st.recordWrite(root, path)
	}
	st.forget(root, path, false)
}

// retTerm: symbolic results of a call. Pure calls with the same arguments in the same memory give the same terms.
func (st *State) retTerm(call *Call, rt types.Type, pure bool) *Term {
	if rt == nil {
		return nil
	}
	name := call.Name
	key := ""
	if pure {
		valueOnly := true
		for _, a := range call.Args {
			if a.t == nil || !isValueType(a.t) {
				valueOnly = false
			}
		}
		if !valueOnly {
			key = "@" + st.argVersion(call.Args)
		}
	} else {
		uniq++
		key = fmt.Sprintf("#%d", uniq)
	}
	one := func(i int, t types.Type) *Term {
		n := name
		if i >= 0 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		if key != "" {
			r := mkx("ret", n+key, t, name, call.Args...)
			return r
		}
		return mkx("ret", n, t, name, call.Args...)
	}
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		var fs []*Term
		for i := 0; i < tt.Len(); i++ {
			fs = append(fs, one(i, tt.At(i).Type()))
		}
		return mk("tuple", "", nil, fs...)
	}
	return one(-1, rt)
}

// argVersion distinguishes memory states reachable from the arguments.
func (st *State) argVersion(args []*Term) string {
	v := 0
	for i := len(st.havocs) - 1; i >= 0; i-- {
		for _, a := range args {
			r, _ := deepPath(a)
			h, _ := deepPath(st.havocs[i].root)
			if r == h {
				if n := st.havocs[i].id; n > v || -n > v {
					v = n
					if v < 0 {
						v = -v
					}
				}
			}
		}
	}
	// stores under the same roots
	n := 0
	for c, x := range st.mem {
		r, _ := deepPath(c)
		for _, a := range args {
			ra, _ := deepPath(a)
			if r == ra {
				n += c.id*31 + x.id
			}
		}
	}
	return fmt.Sprintf("%d/%d", v, n)
}

func isValueType(t types.Type) bool {
	if isTypeParam(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return true
	}
	return false
}

func retName(t *Term) string {
	if t.op == "ret" {
		if s, ok := t.x.(string); ok {
			return s
		}
	}
	return ""
}

func (st *State) forgetElems(x *Term) {
	for x.op == "slc" || x.op == "iface" {
		x = x.a[0]
	}
	root, path := addrPath(x)
	p := append(append([]string{}, path...), "[]")
	if st.dry != nil {
		st.recordWrite(root, p)
	}
	if st.dry == nil && st.sim.hooks.havoc != nil {
		st.sim.hooks.havoc(st, root, p, modInfo{fn: st.top().fn, how: "library call"})
	}
	st.forget(root, p, false)
}

func (st *State) builtin(name string, c *ssa.CallCommon, res ssa.Value, pos token.Pos) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	if st.dry == nil && st.sim.hooks.call != nil && name != "len" && name != "cap" {
		st.sim.hooks.call(st, &Call{Name: "builtin." + name, Args: args, Pos: pos})
	}
	switch name {
	case "len":
		return st.lenOf(args[0])
	case "cap":
		if args[0].op == "cst" {
			return mkInt(0)
		}
		t := mk("cap", "", tInt, args[0])
		st.F.addIneq(leLin(st.F, st.lenOf(args[0]), t))
		return t
	case "append":
		a := st.newAlloc("append", res.Type())
		n := st.lenOf(args[0])
		if len(args) > 1 {
			if isStringT(c.Args[1].Type()) || isSliceType(c.Args[1].Type()) {
				n = mkBin(token.ADD, n, st.lenOf(args[1]), tInt)
			}
		}
		st.setLen(a, n)
		st.mem[mk("appended", "", nil, a)] = mk("tuple", "", nil, args...)
		return a
	case "copy":
		st.forgetElems(args[0])
		t := mk("min", "", tInt, st.lenOf(args[0]), st.lenOf(args[1]))
		return t
	case "clear", "delete":
		st.forgetElems(args[0])
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if isFloatT(r.t) || isStringT(r.t) || isTypeParam(r.t) {
				r = mk(name+"v", "", r.t, r, a)
				continue
			}
			r = mk(name, "", res.Type(), r, a)
			x, y := r.a[0], r.a[1]
			if name == "min" {
				st.F.addIneq(leLin(st.F, r, x))
				st.F.addIneq(leLin(st.F, r, y))
			} else {
				st.F.addIneq(leLin(st.F, x, r))
				st.F.addIneq(leLin(st.F, y, r))
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	}
	if res != nil {
		return st.freshVal(name, res.Type())
	}
	return nil
}

// external models the standard library.
func (st *State) external(call *Call, c *ssa.CallCommon, rt types.Type) *Term {
	a := call.Args
	n := call.Name
	switch {
	case n == "math.NaN":
		return mk("nan", "", rt)
	case n == "math.Inf":
		if v, ok := a[0].intVal(); ok {
			if v.Sign() >= 0 {
				return mk("inf", "+", rt)
			}
			return mk("inf", "-", rt)
		}
	case n == "math.IsNaN":
		return mk("isnan", "", tBool, stripFloatConv(a[0]))
	case n == "math.IsInf":
		if v, ok := a[0].fltVal(); ok && a[0].op == "cst" {
			_ = v
			return mkBool(false)
		}
		return mk("isinf", "", tBool, a...)
	case n == "errors.New" || n == "fmt.Errorf" || n == "errors.Join":
		return mk("err", st.sim.p.Pos(call.Pos), rt)
	case n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln":
		return st.freshVal("str", rt)
	case n == "math.Float64bits" || n == "math.Float64frombits" || n == "math.Float32bits" || n == "math.Float32frombits":
		return mkx("ret", n, rt, n, a...)
	case strings.HasPrefix(n, "math/rand"):
		for i, x := range a {
			if i == 0 && !isValueType(x.t) {
				st.forget(x, nil, false)
			}
		}
		return st.retTerm(call, rt, false)
	case strings.HasPrefix(n, "math/bits.") || strings.HasPrefix(n, "math."):
		return st.retTerm(call, rt, true)
	case strings.HasPrefix(n, "encoding/binary.") && strings.Contains(n, "Endian."):
		m := n[strings.LastIndex(n, ".")+1:]
		switch {
		case strings.HasPrefix(m, "Uint"):
			s := a[len(a)-1]
			return mkx("ret", n+"@"+st.version(st.elemAddr(s, mkInt(0), types.Typ[types.Byte])), rt, n, s)
		case strings.HasPrefix(m, "Put"):
			st.forgetElems(a[len(a)-2])
			return nil
		case strings.HasPrefix(m, "Append"):
			w := int64(2)
			if strings.HasSuffix(m, "32") {
				w = 4
			} else if strings.HasSuffix(m, "64") {
				w = 8
			}
			al := st.newAlloc("append", rt)
			st.setLen(al, mkBin(token.ADD, st.lenOf(a[len(a)-2]), mkInt(w), tInt))
			st.mem[mk("appended", "", nil, al)] = mk("tuple", "", nil, a[len(a)-2:]...)
			return al
		}
	case n == "encoding/binary.Read":
		if len(a) == 3 {
			t := a[2]
			for t.op == "iface" {
				t = t.a[0]
			}
			if t.t != nil {
				if _, ok := types.Unalias(t.t).Underlying().(*types.Slice); ok {
					st.forgetElems(t)
				} else {
					root, path := addrPath(t)
					if st.dry != nil {
						st.recordWrite(root, path)
					}
					st.forget(root, path, false)
				}
			}
		}
		return st.retTerm(call, rt, false)
	case n == "encoding/binary.Write":
		return st.retTerm(call, rt, false)
	case n == "io.ReadFull" || n == "io.ReadAtLeast" || call.Method == "Read" || n == "bytes.Reader.Read" || n == "bytes.Buffer.Read":
		st.forgetElems(a[1])
		r := st.retTerm(call, rt, false)
		if n == "io.ReadFull" && r != nil && r.op == "tuple" {
			st.F.iv[r.a[0]] = itv{bi(0), nil}
		}
		return r
	case n == "slices.Clone":
		al := st.newAlloc("clone", rt)
		st.setLen(al, st.lenOf(a[0]))
		st.mem[mk("cloneof", "", nil, al)] = a[0]
		if st.sim.hooks.model == nil {
		}
		return al
	case n == "slices.Grow":
		return a[0]
	case strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "sort.") || n == "slices.Reverse":
		if len(a) > 0 {
			st.forgetElems(a[0])
		}
		if rt != nil {
			return st.retTerm(call, rt, false)
		}
		return nil
	}
	// dynamic calls of function values and interface methods of unknown objects
	if call.Fn == nil {
		pure := call.Method != "" && pureMethod(call.Method, st, c)
		if call.Method == "" && call.Recv != nil {
			// function value stored by the user (hash, compare, update functions): no effect on library memory
			pure = false
			if len(call.Args) > 0 {
				allVal := true
				for _, x := range call.Args {
					if x.t == nil || !isValueType(x.t) {
						allVal = false
					}
				}
				pure = allVal
			}
			call.Args = append([]*Term{call.Recv}, call.Args...)
		}
		if call.Method != "" && !pure {
			st.ifaceEffects(call, c)
		}
		return st.retTerm(call, rt, pure)
	}
	pure := true
	for i, x := range a {
		if x.t != nil && !isValueType(x.t) && !isErrorType(x.t) {
			if i == 0 && call.Fn.Signature.Recv() != nil {
				if _, ok := call.Fn.Signature.Recv().Type().(*types.Pointer); ok && !pureExtMethod("", call.Fn.Name()) {
					pure = false
				}
			}
		}
	}
	return st.retTerm(call, rt, pure)
}

func stripFloatConv(t *Term) *Term {
	for t.op == "conv" && t.a[0].t != nil && (isFloatT(t.a[0].t) || isTypeParam(t.a[0].t)) {
		t = t.a[0]
	}
	return t
}

// pureMethod: no repository implementation of the method has an effect.
func pureMethod(m string, st *State, c *ssa.CallCommon) bool {
	fs := st.sim.e.implementers(c.Method, c.Value.Type())
	for _, f := range fs {
		s := st.sim.e.Sum(norm(f))
		if s == nil || len(s.mods) > 0 {
			return false
		}
	}
	return len(fs) > 0
}

// ifaceEffects applies the joined effects of all repository implementations.
func (st *State) ifaceEffects(call *Call, c *ssa.CallCommon) {
	seen := map[string]bool{}
	for _, f := range st.sim.e.implementers(c.Method, c.Value.Type()) {
		s := st.sim.e.Sum(norm(f))
		if s == nil {
			continue
		}
		for l, mi := range s.mods {
			if l.R.Kind == rkParam && l.R.Idx == 0 {
				r := call.Recv
				root, path := addrPath(r)
				k := "recv"
				if !seen[k] {
					seen[k] = true
					if st.dry == nil && st.sim.hooks.havoc != nil {
						st.sim.hooks.havoc(st, root, path, mi)
					}
					if st.dry != nil {
						st.recordWrite(root, path)
					}
					st.forget(root, path, false)
				}
				continue
			}
			k := l.String()
			if !seen[k] {
				seen[k] = true
				st.applyMod(l, mi, call.Args, nil)
			}
		}
	}
}

var _ = constant.MakeInt64
