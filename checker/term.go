package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value.
type Term struct {
	id int
	op string
	s  string
	t  types.Type
	a  []*Term
	c  constant.Value
	x  any
	li *lin // memo for atoms' linear form under no-overflow operators
}

var pool = map[string]*Term{}
var uniq int

func mk(op, s string, t types.Type, a ...*Term) *Term {
	return mkx(op, s, t, nil, a...)
}

func mkx(op, s string, t types.Type, x any, a ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, y := range a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(y.id))
	}
	k := sb.String()
	if r, ok := pool[k]; ok {
		return r
	}
	r := &Term{id: len(pool) + 1, op: op, s: s, t: t, a: a, x: x}
	pool[k] = r
	return r
}

func fresh(kind string, t types.Type) *Term {
	uniq++
	return mk("sym", kind+"#"+strconv.Itoa(uniq), t)
}

func mkConst(v constant.Value, t types.Type) *Term {
	cl := "n"
	if v == nil {
		r := mk("cst", "nil", t)
		return r
	}
	switch {
	case isFloatT(t):
		v = constant.ToFloat(v)
		cl = "f"
	case isIntT(t):
		v = constant.ToInt(v)
		cl = "i"
	case v.Kind() == constant.Bool:
		cl = "b"
	case v.Kind() == constant.String:
		cl = "s"
	}
	r := mk("cst", cl+v.ExactString(), t)
	if r.c == nil {
		r.c = v
	}
	return r
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func mkInt(n int64) *Term { return mkConst(constant.MakeInt64(n), tInt) }
func mkBool(b bool) *Term { return mkConst(constant.MakeBool(b), tBool) }

func (t *Term) isNil() bool { return t.op == "cst" && t.s == "nil" }
func (t *Term) boolVal() (v, ok bool) {
	if t.op == "cst" && t.c != nil && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}
func (t *Term) intVal() (*big.Int, bool) {
	if t.op == "cst" && t.c != nil && t.c.Kind() == constant.Int {
		b, ok := new(big.Int).SetString(t.c.ExactString(), 10)
		return b, ok
	}
	return nil, false
}
func (t *Term) fltVal() (float64, bool) {
	if t.op == "inf" {
		if t.s == "+" {
			return math.Inf(1), true
		}
		return math.Inf(-1), true
	}
	if t.op == "cst" && t.c != nil && (t.c.Kind() == constant.Float || t.c.Kind() == constant.Int) {
		f, _ := constant.Float64Val(t.c)
		return f, true
	}
	return 0, false
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	as := func() string {
		var ss []string
		for _, x := range t.a {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "cst":
		if t.c != nil {
			return t.c.String()
		}
		return "nil"
	case "param", "sym", "alloc":
		return t.s
	case "fld":
		return t.a[0].str(d+1) + "." + t.s[strings.Index(t.s, "#")+1:]
	case "ld":
		return t.a[0].str(d + 1)
	case "elem":
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case "bin":
		return "(" + t.a[0].str(d+1) + t.s + t.a[1].str(d+1) + ")"
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	return n + "(" + as() + ")"
}

// contains: some subterm satisfies f.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.a {
			if w(y) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := types.Unalias(t).Underlying().(*types.Basic)
	return b
}
func isIntT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}
func isUnsignedT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}
func isStringT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func intBits(t types.Type) int {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

// itv is an integer interval; nil bounds are infinite.
type itv struct{ lo, hi *big.Int }

func bi(n int64) *big.Int { return big.NewInt(n) }

func typeItv(t types.Type) itv {
	n := intBits(t)
	if n == 0 {
		return itv{}
	}
	if isUnsignedT(t) {
		return itv{bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(n)), bi(1))}
	}
	h := new(big.Int).Lsh(bi(1), uint(n-1))
	return itv{new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1))}
}

func (a itv) meet(b itv) itv {
	r := a
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}
func (a itv) empty() bool { return a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) > 0 }
func (a itv) within(b itv) bool {
	return (b.lo == nil || a.lo != nil && a.lo.Cmp(b.lo) >= 0) && (b.hi == nil || a.hi != nil && a.hi.Cmp(b.hi) <= 0)
}
func (a itv) String() string { return fmt.Sprintf("[%v,%v]", a.lo, a.hi) }

// lin is an integer linear form: sum of coefficient*atom + k.
type lin struct {
	m map[*Term]int64
	k *big.Int
}

func linConst(k *big.Int) *lin { return &lin{map[*Term]int64{}, new(big.Int).Set(k)} }
func linAtom(t *Term) *lin     { return &lin{map[*Term]int64{t: 1}, bi(0)} }
func (a *lin) addScaled(b *lin, c int64) *lin {
	r := &lin{make(map[*Term]int64, len(a.m)+len(b.m)), new(big.Int).Set(a.k)}
	for t, x := range a.m {
		r.m[t] = x
	}
	for t, x := range b.m {
		if v := r.m[t] + c*x; v == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = v
		}
	}
	r.k.Add(r.k, new(big.Int).Mul(b.k, bi(c)))
	return r
}
func (a *lin) atoms() []*Term {
	var ts []*Term
	for t := range a.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}
func (a *lin) String() string {
	s := a.k.String()
	for _, t := range a.atoms() {
		s += fmt.Sprintf(" %+d*%s", a.m[t], t)
	}
	return s
}

// mkBin builds a binary operation with folding; comparisons use only <, <= and ==.
func mkBin(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.GTR:
		return mkBin(token.LSS, b, a, tBool)
	case token.GEQ:
		return mkBin(token.LEQ, b, a, tBool)
	case token.NEQ:
		return mkNot(mkBin(token.EQL, a, b, tBool))
	}
	if a.op == "cst" && b.op == "cst" && a.c != nil && b.c != nil {
		if r := foldBin(op, a, b, t); r != nil {
			return r
		}
	}
	switch op {
	case token.EQL:
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
		if a == b && !isFloatT(a.t) && !isTypeParam(a.t) {
			return mkBool(true)
		}
		if a.isNil() && b.isNil() {
			return mkBool(true)
		}
	case token.LSS:
		if a == b {
			return mkBool(false)
		}
	case token.LEQ:
		if a == b && !isFloatT(a.t) {
			return mkBool(true)
		}
	case token.ADD, token.OR, token.XOR:
		if isIntT(t) {
			if z, ok := b.intVal(); ok && z.Sign() == 0 {
				return a
			}
			if z, ok := a.intVal(); ok && z.Sign() == 0 {
				return b
			}
			if op == token.OR && a == b {
				return a
			}
		}
	case token.SUB:
		if isIntT(t) {
			if z, ok := b.intVal(); ok && z.Sign() == 0 {
				return a
			}
			if a == b {
				return mkConst(constant.MakeInt64(0), t)
			}
		}
	case token.SHL, token.SHR:
		if z, ok := b.intVal(); ok && z.Sign() == 0 {
			return a
		}
	case token.MUL:
		if isIntT(t) {
			for i, x := range []*Term{a, b} {
				if z, ok := x.intVal(); ok {
					if z.Sign() == 0 {
						return x
					}
					if z.IsInt64() && z.Int64() == 1 {
						return []*Term{b, a}[i]
					}
				}
			}
		}
	case token.AND:
		if a == b {
			return a
		}
		for _, x := range []*Term{a, b} {
			if z, ok := x.intVal(); ok && z.Sign() == 0 {
				return x
			}
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.EQL:
		if a.id > b.id && !(op == token.ADD && isStringT(t)) {
			a, b = b, a
		}
	}
	ts := ""
	if isIntT(t) {
		ts = ":" + fmt.Sprint(intBits(t))
		if isUnsignedT(t) {
			ts += "u"
		}
	}
	return mkx("bin", op.String()+ts, t, op, a, b)
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func (t *Term) binOp() token.Token {
	if t.op != "bin" {
		return token.ILLEGAL
	}
	return t.x.(token.Token)
}

func mkNot(a *Term) *Term {
	if v, ok := a.boolVal(); ok {
		return mkBool(!v)
	}
	if a.op == "not" {
		return a.a[0]
	}
	return mk("not", "", tBool, a)
}

func foldBin(op token.Token, a, b *Term, t types.Type) (r *Term) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.EQL, token.LSS, token.LEQ:
		return mkBool(constant.Compare(a.c, op, b.c))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b.c)
		if !ok || n > 200 {
			return nil
		}
		return wrapConst(constant.Shift(a.c, op, uint(n)), t)
	case token.QUO:
		if isIntT(t) {
			if constant.Sign(b.c) == 0 {
				return nil
			}
			return wrapConst(constant.BinaryOp(a.c, token.QUO_ASSIGN, b.c), t)
		}
	case token.REM:
		if constant.Sign(b.c) == 0 {
			return nil
		}
	}
	if op == token.QUO && constant.Sign(b.c) == 0 {
		return nil
	}
	return wrapConst(constant.BinaryOp(a.c, op, b.c), t)
}

func wrapConst(v constant.Value, t types.Type) *Term {
	if isIntT(t) {
		v = constant.ToInt(v)
		if v.Kind() != constant.Int {
			return nil
		}
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return nil
		}
		return mkBig(wrapBig(b, t), t)
	}
	if isFloatT(t) {
		f, _ := constant.Float64Val(v)
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return nil
		}
		if basicOf(t).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkConst(constant.MakeFloat64(f), t)
	}
	return mkConst(v, t)
}

func wrapBig(b *big.Int, t types.Type) *big.Int {
	n := uint(intBits(t))
	m := new(big.Int).Lsh(bi(1), n)
	r := new(big.Int).Mod(b, m)
	if !isUnsignedT(t) && r.Bit(int(n-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

func mkBig(b *big.Int, t types.Type) *Term {
	return mkConst(constant.Make(new(big.Int).Set(b)), t)
}

func mkNeg(b *big.Int) *big.Int { return new(big.Int).Neg(b) }
