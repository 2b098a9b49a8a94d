package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that only the package initializer assigns hold fixed values.
// Consts folds the initializers (literals, constant arithmetic, composite values) into a
// constant heap.

type cobj struct {
	name string
	t    types.Type // type of the object the address points to
	cell map[string]cval
	n    int64 // length when it is an array
}

type cref struct { // address of a place
	o    *cobj
	path string
}

type cslice struct {
	o   *cobj
	lo  int64
	len int64
}

type cval any // constant.Value, cref, cslice, *ssa.Function, cagg, nil (unknown)

type cagg struct {
	t types.Type
	f map[string]cval
}

type Consts struct {
	p       *Prog
	globals map[*ssa.Global]*cobj
	done    map[*ssa.Package]bool
	written map[*ssa.Global]bool
	terms   map[*cobj]*Term
	objs    map[*Term]*cobj
	n       int
}

func (p *Prog) Consts() *Consts {
	if p.consts != nil {
		return p.consts
	}
	c := &Consts{p: p, globals: map[*ssa.Global]*cobj{}, done: map[*ssa.Package]bool{}, written: map[*ssa.Global]bool{}, terms: map[*cobj]*Term{}, objs: map[*Term]*cobj{}}
	p.consts = c
	// globals assigned (even partly, by direct address) outside the synthesized initializers
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					a = x.Addr
				case *ssa.MapUpdate:
					a = x.Map
				default:
					continue
				}
				for {
					switch y := a.(type) {
					case *ssa.FieldAddr:
						a = y.X
						continue
					case *ssa.IndexAddr:
						a = y.X
						continue
					case *ssa.UnOp:
						if y.Op == token.MUL {
							a = y.X
							continue
						}
					case *ssa.Slice:
						a = y.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && !(f.Synthetic != "" && f.Name() == "init") {
					c.written[g] = true
				}
			}
		}
	}
	return c
}

func (c *Consts) global(g *ssa.Global) *cobj {
	if c.written[g] || g.Pkg == nil || !c.p.isRepoPkg(g.Pkg) {
		return nil
	}
	c.eval(g.Pkg)
	return c.globals[g]
}

func (p *Prog) isRepoPkg(k *ssa.Package) bool {
	for _, q := range p.SPkgs {
		if q == k {
			return true
		}
	}
	return false
}

func (c *Consts) obj(name string, t types.Type) *cobj {
	c.n++
	o := &cobj{name: name, t: t, cell: map[string]cval{}, n: -1}
	if a, ok := t.Underlying().(*types.Array); ok {
		o.n = a.Len()
	}
	return o
}

func (c *Consts) eval(pk *ssa.Package) {
	if c.done[pk] {
		return
	}
	c.done[pk] = true
	f := pk.Func("init")
	if f == nil {
		return
	}
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			c.globals[g] = c.obj(pk.Pkg.Path()+"."+g.Name(), g.Type().(*types.Pointer).Elem())
		}
	}
	env := map[ssa.Value]cval{}
	var val func(v ssa.Value) cval
	val = func(v ssa.Value) cval {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return zeroC(x.Type())
			}
			return x.Value
		case *ssa.Global:
			if x.Pkg == pk {
				return cref{c.globals[x], ""}
			}
			if o := c.global(x); o != nil {
				return cref{o, ""}
			}
			return nil
		case *ssa.Function:
			return x
		}
		return env[v]
	}
	for bi, b := range f.Blocks {
		_ = bi
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				env[x] = cref{c.obj("init", x.Type().(*types.Pointer).Elem()), ""}
			case *ssa.MakeSlice:
				if n, ok := val(x.Len).(constant.Value); ok {
					l, _ := constant.Int64Val(n)
					o := c.obj("init", types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), l))
					env[x] = cslice{o, 0, l}
				}
			case *ssa.FieldAddr:
				if r, ok := val(x.X).(cref); ok {
					env[x] = cref{r.o, r.path + fieldComp(x.X.Type(), x.Field)}
				}
			case *ssa.IndexAddr:
				i, ok := val(x.Index).(constant.Value)
				if !ok {
					continue
				}
				k, _ := constant.Int64Val(i)
				switch r := val(x.X).(type) {
				case cref:
					env[x] = cref{r.o, r.path + "[" + strconv.FormatInt(k, 10) + "]"}
				case cslice:
					env[x] = cref{r.o, "[" + strconv.FormatInt(k+r.lo, 10) + "]"}
				}
			case *ssa.Slice:
				if r, ok := val(x.X).(cref); ok && x.Low == nil && x.High == nil && r.path == "" && r.o.n >= 0 {
					env[x] = cslice{r.o, 0, r.o.n}
				}
			case *ssa.Field:
				if a, ok := val(x.X).(cagg); ok {
					if v, ok := a.f[fieldComp(x.X.Type(), x.Field)]; ok {
						env[x] = v
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if r, ok := val(x.X).(cref); ok {
						env[x] = c.load(r, x.Type())
					}
				} else if v, ok := val(x.X).(constant.Value); ok {
					if cv := foldUn(x.Op, v, x.Type()); cv != nil {
						env[x] = cv
					}
				}
			case *ssa.BinOp:
				a, ok1 := val(x.X).(constant.Value)
				b2, ok2 := val(x.Y).(constant.Value)
				if ok1 && ok2 {
					if cv := foldConst(x.Op, a, b2, x.Type()); cv != nil {
						env[x] = cv
					}
				}
			case *ssa.Convert:
				if a, ok := val(x.X).(constant.Value); ok {
					if cv := convConst(a, x.X.Type(), x.Type()); cv != nil {
						env[x] = cv
					}
				}
			case *ssa.ChangeType:
				env[x] = val(x.X)
			case *ssa.Store:
				if r, ok := val(x.Addr).(cref); ok {
					v := val(x.Val)
					r.o.put(r.path, v)
				}
			}
		}
	}
}

type unknownC struct{}

// put stores a value, component by component.
func (o *cobj) put(path string, v cval) {
	if ag, ok := v.(cagg); ok {
		for k, e := range ag.f {
			o.put(path+k, e)
		}
		return
	}
	if v == nil {
		v = unknownC{}
	}
	o.cell[path] = v
}

func zeroC(t types.Type) cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case u.Info()&types.IsNumeric != 0:
			return constant.MakeInt64(0)
		case u.Info()&types.IsString != 0:
			return constant.MakeString("")
		}
	}
	return nil
}

func (c *Consts) load(r cref, t types.Type) cval {
	if v, ok := r.o.cell[r.path]; ok {
		if _, bad := v.(unknownC); bad {
			return nil
		}
		return v
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		ag := cagg{t, map[string]cval{}}
		for i := 0; i < su.NumFields(); i++ {
			k := fieldComp(t, i)
			ag.f[k] = c.load(cref{r.o, r.path + k}, su.Field(i).Type())
		}
		return ag
	}
	if au, ok := t.Underlying().(*types.Array); ok && au.Len() <= 1<<16 {
		ag := cagg{t, map[string]cval{}}
		for i := int64(0); i < au.Len(); i++ {
			k := fmt.Sprintf("[%d]", i)
			ag.f[k] = c.load(cref{r.o, r.path + k}, au.Elem())
		}
		return ag
	}
	return zeroC(t)
}

func foldConst(op token.Token, a, b constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		k, ok := constant.Uint64Val(b)
		if !ok || k > 200 {
			return nil
		}
		r = constant.Shift(constant.ToInt(a), op, uint(k))
	case token.QUO:
		if isIntT(t) {
			r = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		} else {
			r = constant.BinaryOp(a, op, b)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return constant.MakeBool(constant.Compare(a, op, b))
	default:
		r = constant.BinaryOp(a, op, b)
	}
	if tt := wrapConst(r, t); tt != nil && tt.op == "cst" {
		return tt.c
	}
	return nil
}

func foldUn(op token.Token, a constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	if op == token.XOR {
		return nil
	}
	r = constant.UnaryOp(op, a, 0)
	if tt := wrapConst(r, t); tt != nil && tt.op == "cst" {
		return tt.c
	}
	return nil
}

func convConst(a constant.Value, from, to types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	if isStringT(to) != isStringT(from) {
		return nil
	}
	if isIntT(to) && isFloatT(from) {
		f, _ := constant.Float64Val(a)
		if f != float64(int64(f)) {
			return nil
		}
		a = constant.MakeInt64(int64(f))
	}
	if isFloatT(to) {
		a = constant.ToFloat(a)
	}
	if tt := wrapConst(a, to); tt != nil && tt.op == "cst" {
		return tt.c
	}
	return nil
}

// at folds the address term a when it lies in the constant heap.
func (c *Consts) at(a *Term) (cref, bool) {
	switch a.op {
	case "global":
		if o := c.global(a.x.(*ssa.Global)); o != nil {
			return cref{o, ""}, true
		}
	case "cobj":
		return cref{c.objs[a], ""}, true
	case "fld":
		if r, ok := c.at(a.a[0]); ok {
			return cref{r.o, r.path + a.s}, true
		}
	case "elem":
		if k, ok := a.a[1].intVal(); ok {
			if r, ok := c.at(a.a[0]); ok {
				return cref{r.o, r.path + "[" + k.String() + "]"}, true
			}
		}
	}
	return cref{}, false
}

// loadTerm is the fixed value at address a, if known.
func (c *Consts) loadTerm(a *Term, t types.Type) *Term {
	r, ok := c.at(a)
	if !ok {
		return nil
	}
	switch v := c.load(r, t).(type) {
	case constant.Value:
		return wrapConst(v, t)
	case cref:
		if v.path == "" {
			return c.objTerm(v.o, t)
		}
	case cslice:
		if v.lo == 0 && v.len == v.o.n {
			return c.objTerm(v.o, t)
		}
	case *ssa.Function:
		return mkx("func", c.p.FName(v), t, v)
	}
	return nil
}

func (c *Consts) objTerm(o *cobj, t types.Type) *Term {
	if x := c.terms[o]; x != nil {
		return x
	}
	x := mk("cobj", fmt.Sprint(o.name, "#", len(c.terms)), t)
	c.terms[o] = x
	c.objs[x] = o
	return x
}
